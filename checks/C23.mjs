import { BROWSER_ENTRY, API, KEYS, kind, storeKey, serverVariants, initialVariants, flagConfigs, user, sdkPage, settled, recLogger } from '../lib/client.mjs';
import { Device } from '../lib/env.mjs';
import { Rng } from '../lib/prng.mjs';
import { canon, clone } from '../lib/util.mjs';
const SDK_KEYS = (api) => ({ local: [storeKey('$default_instance', api), storeKey('$default_instance', api, '-flags'), storeKey('$default_instance', api, '-variants-options'), 'EXP_unsent_$default_instance', `EXP_${api.slice(0, 10)}_DEFAULT_USER_PROVIDER`, `AMP_${api.slice(0, 10)}`], session: ['EXP_sent_v3_$default_instance', 'EXP_sent_v2_$default_instance', `EXP_${api.slice(0, 10)}_DEFAULT_USER_PROVIDER`, `AMP_${api.slice(0, 10)}`, storeKey('$default_instance', api, '', true), storeKey('$default_instance', api, '-flags', true)] });
// nothing a version of the SDK could have written, or a torn write of it
const GARBAGE = ['', '{', 'null', 'undefined', '[]', '5', 'true', '"x"', 'NaN', '[null]', '[5,"x"]', '[object Object]', '{"flag-a":', '<html>', '\u0000\uffff', '{"a":{"b":', '[{', '[[]]', '{"flag-a":{"key"', 'x'.repeat(300), '%%%', '"\\ud800"', '-0', '0', '""', 'false'];
const DEEP = [{ key: 'flag-a', variants: {}, segments: [{ conditions: 5 }] }, { key: 'flag-a', variants: {}, segments: [{ conditions: [5] }] }, { key: 'flag-a', variants: {}, segments: [{ conditions: [[null]] }] }, { key: 'flag-a', variants: { on: { key: 'on' } }, segments: [{ conditions: [[{ selector: ['context', 'user', 'user_id'], op: 'regex match', values: ['('] }]], variant: 'on' }] }, { key: 'flag-a', variants: {}, segments: [{ bucket: {}, variant: 'on' }] }, { key: 'flag-a', variants: {}, segments: [{ bucket: { selector: ['context', 'user', 'user_id'], salt: 's' }, variant: 'on' }] }, { key: 'flag-a', dependencies: ['flag-a'], variants: {}, segments: [] }, { key: 'flag-a', dependencies: 5, variants: {}, segments: [] }, { key: 'flag-b', dependencies: ['flag-a'], variants: {}, segments: [] }, { key: 'flag-a', variants: {}, segments: [{ conditions: [[{ selector: 5, op: 'is', values: ['x'] }]] }] }, { key: 'flag-a', variants: {}, segments: [{ conditions: [[{ selector: ['context', 'user', 'user_id'], op: 'is', values: null }]] }] }, { key: 'flag-a', variants: { on: null }, segments: [{ variant: 'on' }] }, { key: 'flag-a', variants: { on: 5 }, segments: [{ variant: 'on' }], metadata: 5 }];
const INTEGRATIONS = ['none', 'plain', 'late', 'slow', 'fails', 'analytics'];

/** Runs a script of steps on one page and returns what the client answered and sent. */
export async function drive(t, script, device, prepare) {
  const obs = []; const sent = []; let cur = script.first; const answers = (k) => (cur.down ? { error: 'network down' } : { status: 200, body: JSON.stringify(k === 'flags' ? cur.flags : cur.variants) });
  const { page, clock } = (() => { const p = device.page({ url: 'https://www.example.com/shop?a=1', seed: script.seed, fetch: (q) => answers(kind(q)) }); if (prepare) prepare(p); return { page: p, clock: device.clock }; })();
  const guard = (name, f) => { try { return f(); } catch (e) { t.violation('throws', { call: name, error: String(e), stack: String(e?.stack).split('\n').slice(1, 5).join(' | '), fault: script.fault, flavour: script.flavour }); return 'threw'; } };
  const sut = guard('load', () => (script.load ? script.load(page) : page.load(t.sut.browser))); if (!sut || sut === 'threw') return { obs, sent, page };
  const conf = { ...page.json(script.config), ...(script.logger === null ? {} : { loggerProvider: script.logger ?? recLogger() }), ...(script.http ? { httpClient: { request: (url, method, headers, body) => page.doFetch(url, { method, headers, body }).then((x) => x.text().then((text) => ({ status: x.status, body: text }))) } } : {}) };
  const init = script.integration === 'analytics' ? 'initializeWithAmplitudeAnalytics' : 'initialize';
  const client = guard('construct', () => (script.factory ? sut.Experiment[init](script.api, conf) : new sut.ExperimentClient(script.api, conf))); if (client === 'threw') return { obs, sent, page };
  const plug = (slow, fail) => { const p = { type: 'integration', getUser: () => page.json({ user_properties: { seen: 'plugin' } }), track: (e) => { sent.push(clone(e)); return true; } }; if (slow) p.setup = () => new page.g.Promise((ok, no) => page.g.setTimeout(fail ? no : ok, 900)); guard('addPlugin', () => client.addPlugin(p)); };
  if (script.integration === 'analytics') { const c = sut.AnalyticsConnector.getInstance('$default_instance'); guard('connect', () => { c.identityStore.setIdentity(page.json({ userId: 'conn', deviceId: 'dev' })); c.eventBridge.setEventReceiver((e) => sent.push(clone(e))); }); }
  else if (script.integration !== 'none' && script.integration !== 'late') plug(script.integration !== 'plain', script.integration === 'fails');
  for (const [i, s] of script.steps.entries()) {
    if (script.fault?.from === i) device.storageFault = script.fault.fn; if (script.fault?.to === i) device.storageFault = null;
    const note = (v) => obs.push([i, s.op, v === undefined ? null : clone(v)]);
    const wait = async (p) => { if (p === 'threw') return; const st = settled(p); await clock.advance(12_000); if (st.error) t.violation('rejects', { call: s.op, error: String(st.error), fault: script.fault }); else t.check(st.done, 'never-settles', { call: s.op }); };
    cur = s.world || cur;
    if (s.op === 'variant') note(guard('variant', () => client.variant(s.key, s.fallback)));
    else if (s.op === 'all') note(guard('all', () => client.all()));
    else if (s.op === 'exposure') note(guard('exposure', () => client.exposure(s.key)));
    else if (s.op === 'clear') note(guard('clear', () => client.clear()));
    else if (s.op === 'fetch') await wait(guard('fetch', () => client.fetch(page.json(s.user), s.flagKeys ? page.json({ flagKeys: s.flagKeys }) : undefined)));
    else if (s.op === 'start') { client.stop(); await wait(guard('start', () => client.start(page.json(s.user)))); }
    else if (s.op === 'user') guard('setUser', () => client.setUser(s.user && page.json(s.user)));
    else if (s.op === 'option') await wait(guard('setTracksAssignment', () => client.setTracksAssignment(s.on)));
    else if (s.op === 'time') await clock.advance(s.ms);
    else if (s.op === 'plug' && script.integration === 'late') plug(false);
  }
  await clock.advance(3000); client.stop(); t.check(!page.timerErrors.length, 'timer-throws', () => String(page.timerErrors[0]?.stack));
  return { obs, sent: sent.map((e) => JSON.parse(JSON.stringify(e, (k, v) => (k === 'time' ? undefined : v)))), page, options: page.requests.filter((q) => kind(q) === 'vardata').map((q) => q.headers['X-Amp-Exp-Track']) };
}
export function scriptOf(r) {
  const world = () => ({ flags: flagConfigs(r, KEYS, 0.5), variants: serverVariants(r, KEYS, 0.6), down: r.bool(0.1) }); const web = r.bool(0.2); const factory = r.bool(0.7);
  const integration = r.pick(INTEGRATIONS.filter((x) => factory || x !== 'analytics')); const steps = []; const late = integration === 'late' ? r.int(0, 8) : -1;
  const n = r.int(4, 14); for (let i = 0; i < n; i++) {
    if (i === late) steps.push({ op: 'plug' });
    const op = r.weighted([[4, 'variant'], [2, 'all'], [3, 'exposure'], [1, 'clear'], [2, 'fetch'], [1.5, 'start'], [1, 'user'], [0.7, 'option'], [1, 'time']]); const s = { op };
    if (op === 'variant' || op === 'exposure') { s.key = r.pick(KEYS); if (r.bool(0.4)) s.fallback = 'fb'; } if (op === 'fetch' || op === 'start' || op === 'user') s.user = op === 'user' && r.bool(0.1) ? null : user(r); if (op === 'fetch' || op === 'start') { s.world = world(); if (op === 'fetch' && r.bool(0.2)) s.flagKeys = r.subset(KEYS, 0.4); }
    if (op === 'option') s.on = r.bool(); if (op === 'time') s.ms = r.pick([500, 1500, 61_000]); steps.push(s);
  }
  if (late >= n) steps.push({ op: 'plug' });
  return { seed: r.u32(), api: API, factory, integration, flavour: web ? 'web' : 'feature', first: world(), steps, config: { ...(web ? { internalInstanceNameSuffix: 'web' } : {}), source: r.pick([undefined, 'localStorage', 'initialVariants']), initialVariants: r.bool(0.5) ? initialVariants(r) : undefined, initialFlags: r.bool(0.4) ? JSON.stringify(flagConfigs(r, KEYS, 0.4)) : undefined, fallbackVariant: r.bool(0.3) ? { key: 'cfg', value: 'cfg' } : undefined, retryFetchOnFailure: r.bool(0.3), automaticExposureTracking: r.bool(0.7), pollOnStart: r.bool(0.3), fetchTimeoutMillis: 2000 } };
}
export default {
  property: 'C23', bundles: { browser: BROWSER_ENTRY }, onUnhandled: (t, e) => { t.violation('unhandled-rejection', String(e?.stack || e).slice(0, 400)); },
  rule: 'Each random script of client calls (both flavours, both sources, every kind of integration, the factories or the constructor) runs twice on identical simulated devices: once with a working empty storage and once with storage that is absent, denied, full, failing on some operation, failing from the nth access on, failing for a window of the script or at random, with denied cookies, or pre-filled with garbage under every key the SDK reads. No call may throw or reject and the returned variants, and the exposures integrations received, must be the same in both runs. A third workload stores flags that are well-formed at the top and corrupt below, or sends such flags, and requires the same calls to keep working and to recover with the next good flags. Non-trivial = distinct script and fault.',
  requires: ['absent', 'denied', 'quota', 'get-fails', 'from-nth', 'window', 'random', 'cookies-denied', 'garbage', 'analytics', 'late', 'slow', 'fails', 'exposures-compared', 'variants-compared', 'web', 'deep-flags', 'recovered'],
  workloads: [
    { name: 'differential', quick: 2500, thorough: 60000, async run(t) {
      const r = t.rng; const script = scriptOf(r); t.count(script.integration); t.count(script.flavour); const seed = r.u32(); t.log('script', script);
      const ref = await drive(t, script, new Device({ seed })); ref.page.close(); if (t.found) return;
      for (let k = 0; k < 2; k++) {
        const mode = r.pick(['absent', 'denied', 'quota', 'get-fails', 'remove-fails', 'from-nth', 'window', 'window', 'random', 'one-area', 'cookies-denied', 'garbage', 'garbage', 'nth-only']); t.count(mode); t.log('fault', mode);
        const dev = new Device({ seed }); const s = { ...script, fault: { mode } }; let prepare = null; let n = 0; const fr = new Rng('fault' + r.u32());
        if (mode === 'absent') prepare = (p) => { delete p.g.localStorage; delete p.g.sessionStorage; };
        else if (mode === 'denied') dev.storageFault = (e) => e.op === 'access';
        else if (mode === 'quota') dev.storageFault = (e) => e.op === 'set';
        else if (mode === 'get-fails') dev.storageFault = (e) => e.op === 'get';
        else if (mode === 'remove-fails') dev.storageFault = (e) => e.op === 'remove';
        else if (mode === 'from-nth') { const at = r.int(1, 60); dev.storageFault = () => ++n >= at; s.fault.at = at; }
        else if (mode === 'nth-only') { const at = r.int(1, 60); dev.storageFault = () => ++n === at; s.fault.at = at; }
        else if (mode === 'random') { const p = r.pick([0.1, 0.5, 0.9]); dev.storageFault = () => fr.bool(p); }
        else if (mode === 'one-area') { const a = r.pick(['local', 'session']); dev.storageFault = (e) => e.area === a; }
        else if (mode === 'window') { s.fault.from = r.int(0, s.steps.length - 1); s.fault.to = s.fault.from + r.int(1, 5); const op = r.pick(['set', 'get', 'any', 'access']); s.fault.op = op; s.fault.fn = (e) => op === 'any' || e.op === op; }
        else if (mode === 'cookies-denied') { const only = r.pick(['get', 'both']); dev.cookieFault = (e) => only === 'both' || e.op === only; if (r.bool()) dev.storageFault = () => true; }
        else if (mode === 'garbage') prepare = (p) => { const ks = SDK_KEYS(s.api); for (const k2 of ks.local) if (r.bool(0.8)) p.localMap().set(k2, r.pick(GARBAGE)); for (const k2 of ks.session) if (r.bool(0.8)) p.sessionMap().set(k2, r.pick(GARBAGE)); for (const c of ['AMP_' + s.api.slice(0, 10), 'amp_' + s.api.slice(0, 6)]) if (r.bool(0.5)) dev.jar.set('www.example.com', c + '=' + r.pick(['%', '!!!', 'x', '', '=', 'a.b.c', '%7B', 'bnVsbA=='])); t.log('garbage', [...p.localMap()], [...p.sessionMap()]); };
        const got = await drive(t, s, dev, prepare); got.page.close();
        if (mode === 'garbage') { const bad = got.obs.length !== ref.obs.length; if (bad) t.violation('calls-lost', {}); }
        t.equal(got.obs, ref.obs, 'different-answer', () => ({ mode, fault: s.fault })); t.count('variants-compared', ref.obs.length);
        // a queue restored after a refused read may be delivered later but never differently
        t.equal(got.sent, ref.sent, 'different-exposures', () => ({ mode, fault: s.fault, integration: s.integration })); if (ref.sent.length) t.count('exposures-compared', ref.sent.length);
        if (mode !== 'garbage') t.equal(got.options, ref.options, 'different-tracking-option', () => ({ mode }));
        t.evaluated(canon([script.seed, mode, k]));
      }
      t.sample({ integration: script.integration, flavour: script.flavour, steps: script.steps.map((x) => x.op), sent: ref.sent.length });
    } },
    { name: 'deep-flags', quick: 1500, thorough: 30000, async run(t) {
      const r = t.rng; const good = flagConfigs(r, KEYS, 0.6); const bad = clone(r.pick(DEEP)); if (r.bool()) { bad.metadata = { evaluationMode: 'local' }; } const more = r.bool(0.5) ? flagConfigs(r, KEYS.slice(2), 0.4) : []; const list = bad.key === 'flag-b' ? [bad, { key: 'flag-a', dependencies: ['flag-b'], variants: {}, segments: [] }, ...more] : [bad, ...more]; const viaServer = r.bool(0.4); let flags = list; const dev = new Device({ seed: r.u32() });
      const page = dev.page({ url: 'https://www.example.com/', fetch: (q) => ({ status: 200, body: JSON.stringify(kind(q) === 'flags' ? flags : serverV) }) }); const serverV = serverVariants(r, KEYS, 0.6); if (!viaServer) page.localMap().set(storeKey('$default_instance', API, '-flags'), JSON.stringify(Object.fromEntries(list.map((f) => [f.key, f])))); t.count('deep-flags'); t.log({ list, viaServer });
      const sut = page.load(t.sut.browser); const mk = () => new sut.ExperimentClient(API, { ...page.json({ pollOnStart: false, retryFetchOnFailure: false, source: r.pick(['localStorage', 'initialVariants']) }), loggerProvider: recLogger() });
      let client; try { client = mk(); } catch (e) { t.violation('throws', { call: 'construct', error: String(e), list }); return; }
      const calls = (when) => { for (const k of KEYS) for (const [n, f] of [['variant', () => client.variant(k)], ['exposure', () => client.exposure(k)]]) try { f(); } catch (e) { t.violation('throws', { when, call: n, key: k, error: String(e), list }); } try { client.all(); } catch (e) { t.violation('throws', { when, call: 'all', error: String(e), list }); } };
      const go = async (p, n) => { const s = settled(p); await dev.clock.advance(10); t.check(s.done && !s.error, 'rejects', () => ({ call: n, error: String(s.error) })); };
      calls('initial'); if (viaServer) { await go(client.start(page.json(user(r))), 'start'); calls('bad flags from server'); }
      else { await go(client.fetch(page.json(user(r))), 'fetch'); calls('after fetch'); client.clear(); calls('after clear'); }
      flags = good; client.stop(); const u = user(r); await go(client.start(page.json(u)), 'start'); const fresh = new Device({ seed: 1 }).page({ url: 'https://www.example.com/', fetch: (q) => ({ status: 200, body: JSON.stringify(kind(q) === 'flags' ? good : serverV) }) }); const sut2 = fresh.load(t.sut.browser); const c2 = new sut2.ExperimentClient(API, { ...fresh.json({ pollOnStart: false, retryFetchOnFailure: false }), loggerProvider: recLogger() }); const s2 = settled(c2.start(fresh.json(u))); await fresh.clock.advance(10); t.check(s2.done, 'rejects');
      t.equal(client.all(), c2.all(), 'not-recovered', () => ({ list })); t.count('recovered'); t.evaluated(canon([list, viaServer])); fresh.close(); page.close();
    } },
  ],
};
