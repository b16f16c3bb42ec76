import { BROWSER_ENTRY, KEYS, sdkPage, serverVariants, flagConfigs, user, storedShape, storeKey, b64, kind, recLogger, settled } from '../lib/client.mjs';
import { fromStored, fromServer } from '../models/client.mjs';
import { Device } from '../lib/env.mjs';
import { canon, clone } from '../lib/util.mjs';
const GARBAGE = ['', '{', '{"flag-a":', 'null', 'undefined', '[]', '["on"]', '"on"', '5', 'true', '[object Object]', '{"flag-a":null}', '{"flag-a":5}', '{"flag-a":true}', '{"flag-a":["on"]}', '{"flag-a":[]}', '<html>', '\u0000', '{"flag-a":{"key":"on"}', 'NaN'];
const FGARBAGE = [...GARBAGE, '{"flag-a":{}}', '{"flag-a":{"key":"flag-a"}}', '{"flag-a":"flag"}', '{"flag-a":{"key":"flag-a","segments":{},"variants":{}}}', '{"flag-a":{"key":"flag-a","segments":[null],"variants":{}}}', '{"flag-a":{"segments":[],"variants":{}}}', '{"flag-a":{"key":"flag-a","segments":[],"variants":null}}'];
const flagKeysOf = (c) => Object.keys(c.getEvaluationTraces()).sort();
export default {
  property: 'C13', bundles: { browser: BROWSER_ENTRY },
  rule: 'Several clients over different keys, instance names and flavours share one simulated browser through random fetch/start/setTracksAssignment/clear/reload histories; every namespace is compared with its own model after each step, including the clients not acted on. A second workload pre-fills storage with every supported legacy shape, garbage and wrong JSON types, or makes storage fail, and checks the client behaves as with the readable part only. Non-trivial = distinct judged state.',
  requires: ['reload', 'other-namespace-checked', 'flags-reloaded', 'option-reloaded', 'legacy-string', 'legacy-value-only', 'garbage', 'flag-garbage', 'option-garbage', 'storage-throws', 'same-last6', 'initial-flags', 'initial-changed', 'timeout-over-initial', 'fetched-over-initial'],
  workloads: [
    { name: 'namespaces', quick: 800, thorough: 20000, async run(t) {
      const r = t.rng; let cur = null; const dev = new Device({ seed: r.u32() });
      const sets = r.shuffle([{ api: 'client-aaaaaa111111' }, { api: 'client-aaaaaa222222' }, { api: 'client-aaaaaa111111', name: 'alt' }, { api: 'client-aaaaaa111111', web: true }, { api: 'server-bbb333333', name: 'alt' }, { api: 'k1' }, { api: 'client-aaaaaa222222', name: 'alt', web: true }]).slice(0, r.int(2, 4)).map((s, i) => ({ ...s, i, variants: {}, init: r.bool(0.3) ? r.subset(KEYS, 0.4).map((k) => ({ key: k, variants: { on: { key: 'on', value: k + '-initial' } }, segments: [{ variant: 'on' }], metadata: { evaluationMode: r.pick(['local', 'remote']) } })) : [], option: undefined }));
      const have = (s, fl) => { s.served = fl; s.flags = [...fl, ...s.init.filter((f) => !fl.some((x) => x.key === f.key))]; s.expectLocal = Object.fromEntries(s.flags.map((f) => [f.key, { key: 'on', value: f.variants.on.value, metadata: f.metadata }])); }; sets.forEach((s) => have(s, []));
      const page0 = sdkPage(t, { device: dev, server: (k, req) => cur(k, req) }); let page = page0.page, sut = page0.sut;
      const mk = (s) => { s.client = new sut.ExperimentClient(s.api, { ...page.json({ instanceName: s.name, ...(s.web ? { internalInstanceNameSuffix: 'web' } : {}), initialFlags: s.init.length ? JSON.stringify(s.init) : undefined, pollOnStart: false, retryFetchOnFailure: false, automaticExposureTracking: false, fetchOnStart: false }), loggerProvider: recLogger() }); };
      sets.forEach(mk);
      const judge = (step, acted) => { for (const s of sets) { t.equal(s.client.all(), { ...s.variants, ...localOf(s) }, s === acted ? 'own-state' : 'leaked-variants', () => ({ step, acted: acted && [acted.api, acted.name, acted.web], me: [s.api, s.name, s.web] })); t.equal(flagKeysOf(s.client), s.flags.map((f) => f.key).sort(), s === acted ? 'own-flags' : 'leaked-flags', () => ({ step })); if (acted && s !== acted) t.count('other-namespace-checked'); t.evaluated(canon([step, s.api, s.name, s.variants, s.flags.length])); } };
      const localOf = (s) => { const o = {}; for (const f of s.flags) if (f.metadata?.evaluationMode === 'local') { const v = s.expectLocal[f.key]; if (v) o[f.key] = v; } return o; };
      for (let i = r.int(4, 9); i > 0; i--) {
        const s = r.pick(sets); const op = r.weighted([[3, 'fetch'], [3, 'flags'], [1, 'flags-timeout'], [2, 'reload'], [1, 'clear'], [1.5, 'option']]); t.log(op, { s: [s.api, s.name, s.web] });
        if (op === 'fetch') { const v = serverVariants(r, KEYS, 0.5); let track; cur = (k, req) => { track = req.headers['X-Amp-Exp-Track']; return { status: 200, body: JSON.stringify(v) }; }; await s.client.fetch(page.json({ user_id: 'u' })); s.variants = Object.fromEntries(Object.entries(v).map(([k, x]) => [k, fromServer(x)])); t.check(track === s.option, 'tracking-option', { track, option: s.option }); if (s.optionReloaded && s.option) t.count('option-reloaded'); }
        else if (op === 'flags') { const fl = KEYS.filter(() => r.bool()).map((k) => ({ key: k, variants: { on: { key: 'on', value: k + s.i } }, segments: [{ variant: 'on' }], metadata: { evaluationMode: r.pick(['local', 'remote']) } })); cur = () => ({ status: 200, body: JSON.stringify(fl) }); s.client.stop(); await s.client.start(page.json({ user_id: 'u' })); have(s, fl); if (s.init.length) t.count('fetched-over-initial'); }
        else if (op === 'flags-timeout') { cur = () => ({ hang: true }); s.client.stop(); const st = settled(s.client.start(page.json({ user_id: 'u' }))); await dev.clock.advance(10001); if (!t.check(st.done && !st.error, 'start-hangs', () => String(st.error))) break; if (s.init.length) t.count('timeout-over-initial'); }
        else if (op === 'clear') { s.client.clear(); s.variants = {}; }
        else if (op === 'option') { const on = r.bool(); await s.client.setTracksAssignment(on); s.option = on ? 'track' : 'no-track'; s.optionReloaded = false; }
        else { t.count('reload'); const old = page; page = dev.page({ ...old.opts, url: old.url.href, tab: old.tab }); old.close(); sut = page.load(t.sut.browser); r.shuffle(sets).forEach((x) => { if (x.init.length && r.bool(0.5)) { x.init = r.subset(KEYS, 0.4).map((k) => ({ key: k, variants: { on: { key: 'on', value: k + '-initial' + i } }, segments: [{ variant: 'on' }], metadata: { evaluationMode: r.pick(['local', 'remote']) } })); have(x, x.served); t.count('initial-changed'); } mk(x); if (x.option) x.optionReloaded = true; if (x.flags.length) t.count('flags-reloaded'); }); judge('reload', null); continue; }
        judge(op, s);
      }
      t.sample({ sets: sets.map((s) => [s.api, s.name || 'default', s.web ? 'web' : 'feature', Object.keys(s.variants).length]) }); page.close();
    } },
    { name: 'stored-shapes', quick: 3000, thorough: 60000, async run(t) {
      const r = t.rng; const api = 'client-zzzz987654'; const web = r.bool(0.2); const dev = new Device({ seed: r.u32() }); const fresh = serverVariants(r, KEYS, 0.6); const freshFlags = flagConfigs(r, KEYS, 0.3);
      const page = dev.page({ url: 'https://www.example.com/', fetch: (q) => ({ status: 200, body: JSON.stringify(kind(q) === 'flags' ? freshFlags : fresh) }) }); const map = web ? page.sessionMap() : page.localMap();
      const k = (w) => storeKey('$default_instance', api, w, web); let expV = {}, expF = [], expO;
      const m = r.pick(['shapes', 'garbage', 'both', 'throws', 'partial']);
      if (m !== 'throws') {
        if (m === 'garbage' || (m === 'both' && r.bool())) { map.set(k(''), r.pick(GARBAGE)); t.count('garbage'); }
        else { const v = Object.fromEntries(r.subset(KEYS, 0.6).map((x) => [x, storedShape(r)])); expV = Object.fromEntries(Object.entries(v).map(([a, b]) => [a, fromStored(b)])); for (const b of Object.values(v)) { if (typeof b === 'string') t.count('legacy-string'); else if (!b.key) t.count('legacy-value-only'); } if (m === 'partial') { v.broken = r.pick([null, 5, true, ['on']]); t.count('garbage'); } map.set(k(''), JSON.stringify(v)); }
        if (m === 'garbage' || r.bool(0.3)) { map.set(k('-flags'), r.pick(FGARBAGE)); t.count('flag-garbage'); } else if (r.bool(0.7)) { const f = flagConfigs(r, KEYS, 0.4); expF = f; const o = Object.fromEntries(f.map((x) => [x.key, x])); if (m === 'partial') o.broken = r.pick([null, 5, 'x', [], { key: 'broken' }]); map.set(k('-flags'), JSON.stringify(o)); }
        if (m === 'garbage' || r.bool(0.3)) { map.set(k('-variants-options'), r.pick(['', '{', 'null', '5', '"track"', '[]', 'undefined', '{}', '{"trackingOption":'])); t.count('option-garbage'); } else if (r.bool()) { expO = r.pick(['track', 'no-track']); map.set(k('-variants-options'), JSON.stringify({ trackingOption: expO })); }
      } else { t.count('storage-throws'); const how = r.pick(['all', 'set', 'get', 'access', 'first']); let n = 0; dev.storageFault = (e) => how === 'all' || e.op === how || (how === 'first' && n++ < 3); if (how === 'set') expO = undefined; }
      const init = r.bool(0.3) ? flagConfigs(r, KEYS, 0.3) : []; if (init.length) t.count('initial-flags');
      const sut = page.load(t.sut.browser); let client, err; t.log({ m, map: [...map] });
      try { client = new sut.ExperimentClient(api, { ...page.json({ ...(web ? { internalInstanceNameSuffix: 'web' } : {}), initialFlags: init.length ? JSON.stringify(init) : undefined, pollOnStart: false, retryFetchOnFailure: false, automaticExposureTracking: false }), loggerProvider: recLogger() }); } catch (e) { err = e; }
      if (!t.check(!err, 'construction-throws', () => ({ m, err: String(err) }))) return;
      const got = (f) => { try { return f(); } catch (e) { t.violation('throws', { m, err: String(e), map: [...map] }); return undefined; } };
      const haveF = [...expF, ...init.filter((x) => !expF.some((y) => y.key === x.key))];
      if (!haveF.some((f) => f.metadata?.evaluationMode === 'local')) t.equal(got(() => client.all()), expV, 'variants-read', () => ({ m, raw: map.get(k('')) }));
      t.equal(got(() => flagKeysOf(client)), haveF.map((f) => f.key).sort(), 'flags-read', () => ({ m, raw: map.get(k('-flags')) }));
      for (const key of KEYS) if (!haveF.some((f) => f.key === key)) t.equal(got(() => client.variant(key, 'fb')), expV[key] && !expV[key].metadata?.default ? expV[key] : { key: 'fb', value: 'fb' }, 'variant-read', { key });
      // the client still works
      const s = settled(client.fetch(page.json(user(r)))); await dev.clock.advance(1); t.check(s.done && !s.error, 'fetch-fails', String(s.error)); const q = page.requests.find((x) => kind(x) === 'vardata'); t.check(!!q && q.headers['X-Amp-Exp-Track'] === expO, 'option-read', () => ({ sent: q?.headers['X-Amp-Exp-Track'], expO }));
      for (const key of KEYS) if (!haveF.some((f) => f.key === key)) { const w = fresh[key] && fromServer(fresh[key]); t.equal(got(() => client.variant(key, 'fb')), w && !w.metadata?.default ? w : { key: 'fb', value: 'fb' }, 'variant-after-fetch', { key }); }
      const s2 = settled(client.start(page.json(user(r)))); await dev.clock.advance(1); t.check(s2.done && !s2.error, 'start-fails', String(s2.error)); t.equal(got(() => flagKeysOf(client)), [...new Set([...freshFlags, ...init].map((f) => f.key))].sort(), 'flags-after-start');
      t.evaluated(canon([m, [...map], web, init.length])); t.sample({ m, raw: map.get(k('')) }); page.close();
    } },
    { name: 'suffix', quick: 30, thorough: 300, async run(t) { // the stored namespace is the deployment's last six characters: keys that differ there are isolated, other differences are not relied on
      const r = t.rng; const dev = new Device(); const page = dev.page({ url: 'https://www.example.com/', fetch: () => ({ status: 200, body: JSON.stringify(serverVariants(r, KEYS, 1)) }) }); const sut = page.load(t.sut.browser); const suffix = r.str(6, 6, 'abcdef0123456789'); let other; do { other = suffix.split('').map((c, i) => (i === r.int(0, 5) ? r.pick('abcdef0123456789') : c)).join(''); } while (other === suffix);
      const mk = (k) => new sut.ExperimentClient('client-' + k, page.json({ pollOnStart: false, retryFetchOnFailure: false })); const a = mk(suffix); await a.fetch(page.json({ user_id: 'u' })); t.check(Object.keys(mk(suffix).all()).length === KEYS.length, 'same-key-not-shared'); t.check(Object.keys(mk(other).all()).length === 0, 'other-key-sees', { suffix, other }); t.count('same-last6'); t.evaluated(suffix + other); page.close();
    } },
  ],
};
