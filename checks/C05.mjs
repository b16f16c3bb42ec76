import { BROWSER_ENTRY, API, sdkPage, settled, b64, recLogger, KEYS } from '../lib/client.mjs';
import { mergeUser } from '../models/client.mjs';
import { canon, clone, turn } from '../lib/util.mjs';
const ENTRY = BROWSER_ENTRY + `export { SdkEvaluationApi, SdkFlagApi } from '@amplitude/experiment-core';`;
const value = (r, d = 0) => r.weighted([[3, () => r.str(0, 10)], [3, () => r.unicode(0, 12)], [2, () => r.int(-5, 1e6)], [1, () => r.f()], [1, () => r.bool()], [1, () => '\ud83c'], [1, () => '"\\\n\u0000\u2028'], [d < 2 ? 2 : 0, () => r.list(0, 4, () => value(r, d + 1))], [d < 2 ? 2 : 0, () => Object.fromEntries(r.list(0, 4, () => [r.pick(['a', 'b c', 'ключ', 'constructor', '']), value(r, d + 1)]))], [0.3, () => 'x'.repeat(r.int(1000, 9000))]])();
const anyUser = (r) => { const u = {}; for (const f of ['user_id', 'device_id', 'country', 'city', 'version', 'carrier', 'custom_field']) if (r.bool(0.4)) u[f] = value(r, f === 'custom_field' ? 0 : 3); if (r.bool(0.6)) u.user_properties = Object.fromEntries(r.list(0, 5, () => [r.pick(['plan', 'x', 'список', 'n', '🎉']), value(r)])); if (r.bool(0.3)) u.groups = { org: [r.unicode(1, 4)] }; if (r.bool(0.3)) u.cookie = { session: 's3cret' }; if (r.bool(0.2)) u.cohort_ids = { a: true }; return u; };
const HOSTS = { us: ['https://api.lab.amplitude.com', 'https://flag.lab.amplitude.com'], eu: ['https://api.lab.eu.amplitude.com', 'https://flag.lab.eu.amplitude.com'] };
const lower = (h) => Object.fromEntries(Object.entries(h).map(([k, v]) => [k.toLowerCase(), v]));
export default {
  property: 'C05', bundles: { browser: ENTRY },
  rule: 'Random users, providers, options, zones, URLs and deployment keys; every request that reaches the network stand-in is decoded with an independent base64url/JSON decoder and compared with the user and options that were asked for; every status 100-599 and response delays around the timeout are answered. Non-trivial = distinct request judged.',
  requires: ['vardata', 'flags', 'flag-keys', 'track-option', 'eu', 'custom-url', 'web-flags-user', 'non-ascii', 'timeout', 'in-time', 'status-error', 'status-200', 'cookie-stripped', 'custom-http'],
  workloads: [
    { name: 'client', quick: 2500, thorough: 80000, async run(t) {
      const r = t.rng; const web = r.bool(0.25); const key = r.pick([API, 'k', 'server-ünïcode', 'abc.def/ghi=']); const seen = [];
      const conf = { pollOnStart: false, retryFetchOnFailure: false, automaticExposureTracking: false, fetchOnStart: r.pick([undefined, true, false]) };
      const zone = r.pick([undefined, 'us', 'US', 'EU', 'eu', 'Eu', null]); if (zone !== undefined) conf.serverZone = zone; if (r.bool(0.3)) conf.serverUrl = r.pick(['https://proxy.example.com', 'https://proxy.example.com/exp', 'http://localhost:8080']); if (r.bool(0.3)) conf.flagsServerUrl = r.pick(['https://flags.example.com', 'https://flags.example.com/p/q']); if (web) conf.internalInstanceNameSuffix = 'web';
      const s = sdkPage(t, {}); const { page, sut, clock } = s; const provider = r.bool(0.4) ? anyUser(r) : null; const custom = r.bool(0.2);
      const cc = page.json(conf); cc.loggerProvider = recLogger(); if (provider) cc.userProvider = { getUser: () => page.json(provider) };
      if (custom) { t.count('custom-http'); cc.httpClient = { request: async (url, method, headers, data, timeoutMillis) => { seen.push({ url, method, headers: { ...headers }, timeoutMillis, data }); return { status: 200, body: /flags/.test(url) ? '[]' : '{}' }; } }; }
      const client = new sut.ExperimentClient(key, cc); let tracking;
      const hosts = HOSTS[String(zone || '').toLowerCase() === 'eu' ? 'eu' : 'us']; if (hosts === HOSTS.eu) t.count('eu'); if (conf.serverUrl) t.count('custom-url'); const base = conf.serverUrl || hosts[0], fbase = conf.flagsServerUrl || hosts[1];
      let lastUser = null;
      for (let i = r.int(1, 4); i > 0; i--) {
        const given = r.bool(0.85) || i === 0 ? anyUser(r) : undefined; const op = r.pick(['fetch', 'fetch', 'start']); const flagKeys = op === 'fetch' && r.bool(0.4) ? r.list(0, 4, () => r.pick([...KEYS, r.unicode(1, 5)])) : undefined;
        if (r.bool(0.25)) { const on = r.bool(); await client.setTracksAssignment(on); tracking = on ? 'track' : 'no-track'; }
        const extra = op === 'fetch' && r.bool(0.15) ? { exposureTrackingOption: r.pick(['track', 'no-track']) } : {}; const mark = custom ? seen.length : page.requests.length;
        if (op === 'fetch') { const opts = flagKeys || Object.keys(extra).length ? { ...(flagKeys ? { flagKeys: page.json(flagKeys) } : {}), ...extra } : undefined; await (given === undefined && !opts ? client.fetch() : client.fetch(given && page.json(given), opts)); if (given !== undefined) lastUser = given; else if (lastUser === null) lastUser = {}; }
        else { client.stop(); await client.start(given && page.json(given)); lastUser = given ?? null; if (given === undefined && (conf.fetchOnStart ?? true)) lastUser = {}; }
        const reqs = custom ? seen.slice(mark) : page.requests.slice(mark); const vd = reqs.filter((q) => q.url.includes('/vardata')), fl = reqs.filter((q) => q.url.includes('/sdk/v2/flags'));
        t.check(reqs.length === vd.length + fl.length, 'stray-request', () => reqs.map((q) => q.url)); t.check(vd.length === (op === 'fetch' || (conf.fetchOnStart ?? true) ? 1 : 0), 'vardata-count', () => ({ op, n: vd.length })); t.check(fl.length === (op === 'start' ? 1 : 0), 'flags-count', () => ({ op, n: fl.length }));
        for (const q of vd) {
          t.count('vardata'); const h = lower(q.headers); const u = new URL(q.url); t.check(q.method === 'GET', 'method', q.method); t.check(q.url.startsWith(base + '/sdk/v2/vardata?') && u.searchParams.get('v') === '0', 'wrong-url', () => ({ url: q.url, base })); t.check(h.authorization === `Api-Key ${key}`, 'authorization', h.authorization);
          const raw = String(h['x-amp-exp-user']); t.check(/^[A-Za-z0-9_-]*$/.test(raw), 'not-base64url', raw); const sent = JSON.parse(b64(raw)); const eu = given === undefined && op === 'start' ? {} : lastUser; const exp = mergeUser(clone(eu), provider); if (exp.cookie) t.count('cookie-stripped'); delete exp.cookie;
          t.check(/^experiment-js-client\/\d+\.\d+\.\d+/.test(String(sent.library)), 'library', sent.library); delete sent.library; t.equal(sent, clone(exp), 'user-differs', () => ({ given, provider })); if (/[^\x00-\x7f]/.test(canon(exp))) t.count('non-ascii');
          if (flagKeys) { t.count('flag-keys'); t.equal(h['x-amp-exp-flag-keys'] === undefined ? 'missing' : JSON.parse(b64(h['x-amp-exp-flag-keys'])), flagKeys, 'flag-keys-differ'); } else t.check(h['x-amp-exp-flag-keys'] === undefined, 'unasked-flag-keys');
          if (tracking) t.count('track-option'); t.check(h['x-amp-exp-track'] === tracking, 'tracking-option', () => ({ sent: h['x-amp-exp-track'], tracking })); t.check(h['x-amp-exp-exposure-track'] === extra.exposureTrackingOption, 'exposure-tracking-option', () => h['x-amp-exp-exposure-track']);
          t.evaluated(canon([q.url, h]));
        }
        for (const q of fl) {
          t.count('flags'); const h = lower(q.headers); t.check(q.method === 'GET', 'method', q.method); t.check(q.url.startsWith(fbase + '/sdk/v2/flags'), 'wrong-flags-url', () => ({ url: q.url, fbase })); t.check(h.authorization === `Api-Key ${key}`, 'flags-authorization', h.authorization); t.check(/^experiment-js-client\/\d+\.\d+\.\d+/.test(String(h['x-amp-exp-library'])), 'flags-library', h['x-amp-exp-library']);
          const exp = mergeUser(clone(given ?? {}), provider); const dm = new URL(q.url).searchParams.get('delivery_method'); t.check(dm === (web ? 'web' : null), 'delivery-method', q.url);
          if (web && (exp.user_id || exp.device_id)) { t.count('web-flags-user'); t.equal(JSON.parse(b64(h['x-amp-exp-user'] || 'e30')), clone({ user_id: exp.user_id, device_id: exp.device_id }), 'flags-user'); } else t.check(h['x-amp-exp-user'] === undefined, 'unasked-flags-user', () => h['x-amp-exp-user']);
          t.evaluated(canon([q.url, h]));
        }
      }
      t.sample({ conf, provider: !!provider, requests: (custom ? seen : page.requests).map((q) => q.url) }); page.close();
    } },
    { name: 'api', quick: 1500, thorough: 40000, async run(t) {
      const r = t.rng; const { page, sut } = sdkPage(t, {}); const calls = []; let status = 200; const http = { request: async (q) => { calls.push(q); return { status, body: '{}' }; } };
      for (let i = 0; i < 6; i++) {
        const key = r.str(1, 30); const api = new sut.SdkEvaluationApi(key, 'https://h.example', http); const u = anyUser(r); const o = {}; if (r.bool()) o.flagKeys = r.list(0, 3, () => r.unicode(1, 5)); if (r.bool()) o.trackingOption = r.pick(['track', 'no-track', 'read-only']); if (r.bool()) o.exposureTrackingOption = r.pick(['track', 'no-track']); if (r.bool(0.3)) o.deliveryMethod = r.pick(['web', 'feature']); if (r.bool(0.3)) o.evaluationMode = r.pick(['local', 'remote']); if (r.bool()) o.timeoutMillis = r.int(1, 9999);
        status = r.bool(0.5) ? 200 : r.int(100, 599); const used = r.bool(0.9); const w = used ? o : {}; const s = settled(api.getVariants(page.json(u), used ? page.json(o) : undefined)); await turn(); const q = calls[calls.length - 1]; const h = lower(q.headers);
        t.equal(JSON.parse(b64(h['x-amp-exp-user'])), clone(u), 'api-user'); t.check(s.done, 'api-unsettled'); const p = new URL(q.requestUrl).searchParams;
        t.equal(h['x-amp-exp-flag-keys'] && JSON.parse(b64(h['x-amp-exp-flag-keys'])), w.flagKeys, 'api-flag-keys'); t.check(h['x-amp-exp-track'] === w.trackingOption, 'api-track'); t.check(h['x-amp-exp-exposure-track'] === w.exposureTrackingOption, 'api-exposure-track'); t.check((p.get('delivery_method') ?? undefined) === w.deliveryMethod, 'api-delivery'); t.check((p.get('eval_mode') ?? undefined) === w.evaluationMode, 'api-mode'); t.check(q.timeoutMillis === w.timeoutMillis, 'api-timeout');
        t.check(h.authorization === `Api-Key ${key}`, 'api-auth'); t.check(status === 200 ? !s.error : !!s.error && s.error.statusCode === status, 'api-status', () => ({ status, err: String(s.error), code: s.error?.statusCode })); t.count(status === 200 ? 'status-200' : 'status-error'); t.evaluated(canon([h, o, status]));
        const fa = new sut.SdkFlagApi(key, 'https://f.example', http); const fs = settled(fa.getFlags({ libraryName: 'n', libraryVersion: '1' })); await turn(); t.check(!!fs.error === (status !== 200 || true), 'flags-body-not-list'); if (status !== 200) t.check(String(fs.error).includes(String(status)), 'flags-error-without-status', () => String(fs.error));
      }
      page.close();
    } },
    { name: 'outcomes', quick: 1200, thorough: 30000, async run(t) {
      const r = t.rng; const timeout = r.pick([50, 1000, 10000]); const status = r.bool(0.4) ? 200 : t.index < 500 ? 100 + t.index : r.int(100, 599); const delay = r.pick([0, 1, timeout - 1, timeout + 1, timeout * 3, null, Math.floor(timeout / 2)]); const net = r.bool(0.1); const slowBody = r.bool(0.3);
      const { page, sut, clock } = sdkPage(t, { server: (k) => (k === 'flags' ? { status: 200, body: '[]' } : delay === null ? { hang: true } : { ...(slowBody ? { bodyDelay: delay } : {}), ...(net ? { error: 'down' } : { status, body: '{"f":{"key":"on","value":"on"}}' }), ...(slowBody && !net ? {} : { delay }) }) });
      const client = new sut.ExperimentClient(API, { ...page.json({ fetchTimeoutMillis: timeout, retryFetchOnFailure: false, throwOnError: true, pollOnStart: false }), loggerProvider: recLogger() });
      const t0 = clock.now; const s = settled(client.fetch(page.json({ user_id: 'u' }))); let at = null; const step = Math.max(1, Math.floor(timeout / 50)); for (let k = 0; k < 400 && !s.done && clock.now - t0 <= timeout * 4; k++) await clock.advance(step); at = clock.now - t0;
      const late = delay === null || delay > timeout; t.log({ timeout, delay, status, net });
      if (!t.check(s.done, 'hangs', { timeout, delay, status })) return;
      t.check(at <= (late ? timeout : delay) + step + 2, 'settles-late', { at, timeout, delay });
      if (late) { t.count('timeout'); t.check(s.error && s.error instanceof sut.TimeoutError, 'not-a-timeout-error', String(s.error)); t.check(at >= timeout - 1, 'times-out-early', { at, timeout }); }
      else { t.count('in-time'); if (net) t.check(!!s.error && !(s.error instanceof sut.TimeoutError), 'net-error', String(s.error)); else if (status === 200) { t.count('status-200'); t.check(!s.error && client.variant('f').key === 'on', 'good-answer-lost', String(s.error)); } else { t.count('status-error'); t.check(s.error instanceof sut.FetchError && s.error.statusCode === status, 'error-without-status', { status, err: String(s.error), code: s.error?.statusCode }); } }
      t.evaluated(canon([timeout, delay, status, net])); await clock.advance(timeout * 4); page.close();
    } },
  ],
};
