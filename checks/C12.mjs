import { BROWSER_ENTRY, API, KEYS, sdkPage, serverVariants, user, storeKey, settled, recLogger } from '../lib/client.mjs';
import { Ref, fromStored } from '../models/client.mjs';
import { canon, clone, turn } from '../lib/util.mjs';
// What the network may answer to a fetch.
const plans = (r, good) => r.weighted([
  [6, () => ({ ok: true, plan: { status: 200, body: JSON.stringify(good) } })], [1, () => ({ plan: { error: 'net down' } })], [1, () => ({ plan: { status: r.pick([400, 401, 404, 429, 500, 503, 204, 302, 201]), body: JSON.stringify(good) } })],
  [1, () => ({ plan: { status: 200, body: r.pick(['', '<html></html>', '{"flag-a":{"key":"on"', 'null', '[]', '"oops"', '5', 'undefined', 'true']) } })], [1, () => ({ plan: { hang: true } })], [1, () => ({ plan: { status: 200, body: JSON.stringify(good), delay: 5000 } })],
])();
export default {
  property: 'C12', bundles: { browser: BROWSER_ENTRY }, onUnhandled: (t, e) => { t.violation('unhandled-rejection', String(e?.stack || e).slice(0, 400)); },
  rule: 'Random histories of full and partial fetches (success, HTTP errors, network errors, malformed bodies, hangs past the timeout), clear and reload, with and without throwOnError; the in-memory variants (all()) and the stored JSON are compared with the model after every step and sampled at every virtual-time tick while a request is pending. Non-trivial = distinct history step that changed the cache or a failed fetch with a non-empty cache.',
  requires: ['full-ok', 'partial-ok', 'requested-missing-removed', 'failed', 'failed-nonempty', 'timeout', 'cleared', 'reload', 'rejected', 'resolved-failed', 'web'],
  workloads: [{ name: 'histories', quick: 2500, thorough: 60000, async run(t) {
    const r = t.rng; const web = r.bool(0.2); if (web) t.count('web');
    const conf = { throwOnError: r.bool(0.4), retryFetchOnFailure: false, fetchTimeoutMillis: r.pick([1000, 3000]), pollOnStart: false, automaticExposureTracking: false, instanceName: r.pick([undefined, 'alt']), ...(web ? { internalInstanceNameSuffix: 'web' } : {}) };
    let next = null; const s0 = sdkPage(t, { server: () => next }); let { page, sut } = s0; const dev = s0.device; const clock = dev.clock;
    const mk = () => new sut.ExperimentClient(API, { ...page.json(conf), loggerProvider: recLogger() }); let client = mk();
    const ref = new Ref({ apiKey: API }); const sk = storeKey(conf.instanceName || '$default_instance', API, '', web);
    const disk = () => (web ? page.sessionMap() : page.localMap()).get(sk);
    const memory = (exp, sig, at) => { t.equal(client.all(), exp, sig, at); };
    const stored = (exp, at) => { const raw = disk(); const v = raw ? JSON.parse(raw) : {}; t.equal(Object.fromEntries(Object.entries(v).map(([k, x]) => [k, fromStored(x)])), exp, 'stored-differs', at); };
    for (let i = r.int(3, 8); i > 0; i--) {
      const op = r.weighted([[7, 'fetch'], [1, 'clear'], [1.5, 'reload']]); const before = clone(ref.variants);
      if (op === 'fetch') {
        const flagKeys = r.bool(0.45) ? r.weighted([[5, () => [...new Set(r.list(1, 4, () => r.pick(KEYS)))]], [1, () => []]])() : undefined;
        const pool = flagKeys && flagKeys.length && r.bool(0.85) ? flagKeys : KEYS; const good = serverVariants(r, pool, r.pick([0.3, 0.7, 1])); const p = plans(r, good); next = p.plan;
        const late = p.plan.hang || p.plan.delay; const ok = p.ok || (p.plan.delay && p.plan.delay < conf.fetchTimeoutMillis);
        t.log('fetch', { flagKeys, plan: p.plan }); const u = user(r);
        const s = settled(client.fetch(page.json(u), flagKeys ? { flagKeys: page.json(flagKeys) } : undefined));
        for (let k = 0; k < 6; k++) { await clock.advance(late ? conf.fetchTimeoutMillis / 5 : 0); const now = canon(client.all()); if (!s.done) t.check(now === canon(before), 'changed-before-answer', { k, now, before }); }
        await clock.advance(1); if (!t.check(s.done, 'fetch-never-settles', p.plan)) return;
        if (ok) { ref.fetched(clone(good), flagKeys); t.count(flagKeys && flagKeys.length ? 'partial-ok' : 'full-ok'); if (flagKeys && flagKeys.some((k) => !good[k] && before[k])) t.count('requested-missing-removed'); t.check(!s.error, 'ok-but-rejected', String(s.error)); }
        else { t.count('failed'); if (late) t.count('timeout'); if (Object.keys(before).length) t.count('failed-nonempty'); t.check(!!s.error === conf.throwOnError, 'reject-contract', { err: String(s.error), plan: p.plan, throwOnError: conf.throwOnError }); t.count(s.error ? 'rejected' : 'resolved-failed'); if (!s.error) t.check(s.value === client, 'fetch-resolves-client'); }
        memory(ref.variants, ok ? 'memory-after-fetch' : 'failed-fetch-changed-cache', () => ({ flagKeys, plan: p.plan, before })); if (ok || Object.keys(before).length) stored(ref.variants, () => ({ op, flagKeys }));
        if (late) { await clock.advance(10000); memory(ref.variants, 'late-answer-applied', () => ({ plan: p.plan })); }
        t.evaluated(canon([before, flagKeys, p.plan, conf.throwOnError]));
      } else if (op === 'clear') { t.log('clear'); client.clear(); ref.variants = {}; t.count('cleared'); memory({}, 'memory-after-clear'); stored({}, () => ({ op })); t.evaluated(Object.keys(before).length ? canon(['clear', before]) : null); }
      else { t.log('reload'); t.count('reload'); const old = page; page = dev.page({ ...old.opts, url: old.url.href, tab: old.tab }); old.close(); sut = page.load(t.sut.browser); client = mk(); memory(ref.variants, 'reload-differs', () => ({ raw: disk() })); t.evaluated(canon(['reload', before])); }
    }
    t.sample({ conf, final: ref.variants }); page.close();
  } }],
};
