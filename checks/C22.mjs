import { sdkPage, settled, recLogger, API, kind, b64 } from '../lib/client.mjs';
import { canon, clone } from '../lib/util.mjs';
const ENTRY = `export { segmentIntegrationPlugin } from '@src/segment/plugin'; export * from '@amplitude/experiment-js-client';`;
const STORED = (r) => ({ ajs_user_id: r.pick(['u1', 'ünï', '', null, '0']), ajs_anonymous_id: r.pick(['anon-1', 'anon-2', null]), ajs_user_traits: r.pick([{}, { plan: 'pro', n: 1 }, { deep: { a: [1, null] } }, null]) });
const JUNK = ['', '{', 'undefined', 'user-1', '{"a":', "'x'", '[1', 'NaN'];
/** A stand-in for the Segment library on a page. */
function segment(t, r, page, key) {
  const g = page.g; const S = { calls: [], user: STORED(r), initialized: false, fired: false, cbs: [], npm: false, throws: 0 };
  S.real = g.Object(); const R = S.real; Object.assign(R, { initialized: false, initialize: () => g.Promise.resolve(), ready: (fn) => { if (S.fired) fn(); else S.cbs.push(fn); return g.Promise.resolve(); }, track: (type, props) => { S.calls.push([type, clone(props), S.throws > 0]); if (S.throws > 0) { S.throws--; throw new g.Error('segment'); } return g.Promise.resolve(); }, user: () => ({ id: () => S.user.ajs_user_id, anonymousId: () => S.user.ajs_anonymous_id, traits: () => page.json(S.user.ajs_user_traits) }) });
  S.load = () => { const q = g[key]; if (S.nested) { const w = g.Array.isArray(q) ? q : page.json([]); w.instance = R; g[key] = w; } else g[key] = R; if (!S.npm && q && g.Array.isArray(q)) for (const c of [...q]) if (c[0] === 'ready') R.ready(c[1]); };
  S.init = () => { R.initialized = true; S.initialized = true; }; S.fire = () => { S.fired = true; for (const f of S.cbs.splice(0)) f(); };
  S.snippet = () => { const a = page.eval(`(function(){ var a = []; a.methods = ['track','identify','ready','page','user']; a.invoked = true; a.factory = function(m){ return function(){ var x = Array.prototype.slice.call(arguments); x.unshift(m); a.push(x); return a; }; }; a.methods.forEach(function(m){ a[m] = a.factory(m); }); return a; })()`); g[key] = a; };
  return S;
}
const wantUser = (u) => Object.fromEntries([['user_id', u.ajs_user_id], ['device_id', u.ajs_anonymous_id], ['user_properties', u.ajs_user_traits]].filter(([, v]) => v !== null && v !== undefined));
export default {
  property: 'C22', bundles: { browser: ENTRY },
  rule: 'A scripted Segment library appears on the page in every shape (nothing yet, official snippet, real library on the global, nested instance, instance passed as option, custom global key, npm build that ignores the snippet queue) and becomes initialized and ready at random times (up to ten minutes late), or never, before, during or after setup. The plugin is probed at random instants: tracking must be refused before readiness and forwarded once with type and properties after it, setup must settle with readiness and not before, and the contributed user must be what Segment has in storage (any JSON, rubbish, refusing storage) or in memory. A second workload drives a client through the plugin and requires every exposure to reach Segment once. Non-trivial = distinct probe.',
  requires: ['refused', 'forwarded', 'ready-by-callback', 'ready-by-polling', 'never-ready', 'late-load', 'skip-setup', 'skip-setup-tracked', 'instance-option', 'instance-key', 'nested', 'npm', 'user-from-storage', 'user-from-library', 'storage-junk', 'storage-throws', 'client-delivered', 'client-late', 'segment-throws', 'ready-before-setup'],
  workloads: [{ name: 'plugin', quick: 2500, thorough: 60000, async run(t) {
    const r = t.rng; const { page, sut, clock, device } = sdkPage(t); const g = page.g; const key = r.bool(0.3) ? 'myAnalytics' : 'analytics'; const S = segment(t, r, page, key); const shape = r.pick(['none', 'snippet', 'real', 'nested', 'option', 'none-npm', 'snippet-npm']); const skip = r.bool(0.15);
    const opts = {}; if (key !== 'analytics') { opts.instanceKey = key; t.count('instance-key'); } if (skip) { opts.skipSetup = true; t.count('skip-setup'); } if (shape === 'option') { opts.instance = S.real; t.count('instance-option'); } if (shape.endsWith('npm')) { S.npm = true; t.count('npm'); } if (shape === 'nested') { S.nested = true; t.count('nested'); }
    const real = ['real', 'nested', 'option'].includes(shape); const T0 = clock.now; const late = !real && r.bool(0.06); if (late) t.count('late-load'); let tLoad = real ? 0 : late ? r.pick([40000, 130000, 620000]) : r.int(1, 3000); const never = r.bool(0.12); let tInit = never ? Infinity : tLoad + r.pick([0, 0, 17, 500]); let tFire = never || r.bool(0.15) ? Infinity : tInit + r.pick([0, 1, 200, 4000]); if (never) t.count('never-ready');
    if (real && r.bool(0.4) && !never) { tInit = 0; if (tFire !== Infinity && r.bool()) tFire = 0; }
    if (shape.startsWith('snippet')) S.snippet(); if (real) { if (shape !== 'option') S.load(); if (tInit === 0) { S.init(); if (tFire === 0) { S.fire(); t.count('ready-before-setup'); } } }
    // storage
    const stored = STORED(r); const kept = {}; for (const k of Object.keys(stored)) { const how = r.weighted([[5, 'good'], [1.5, 'junk'], [1, 'absent']]); if (how === 'good') { page.localMap().set(k, JSON.stringify(stored[k])); if (stored[k] !== null && stored[k] !== '') kept[k] = stored[k]; } else if (how === 'junk') { page.localMap().set(k, r.pick(JUNK)); t.count('storage-junk'); } }
    const deny = r.bool(0.12); if (deny) { device.storageFault = (e) => e.op === 'get' || e.op === 'access'; t.count('storage-throws'); }
    let plugin; try { plugin = sut.segmentIntegrationPlugin(opts); } catch (e) { t.violation('plugin-throws', String(e)); throw e; }
    t.check(skip ? plugin.setup === undefined : typeof plugin.setup === 'function', 'setup-presence', { skip }); const tSetup = skip ? Infinity : r.pick([0, 0, 0, 5, 900]); let s = null; let setupAt = Infinity; const polls = shape !== 'option'; let sent = 0;
    const evs = []; for (const [at, fn] of [[tLoad, () => !real && S.load()], [tInit, S.init], [tFire, S.fire], [tSetup, () => { s = settled(plugin.setup()); setupAt = clock.now - T0; }]].filter(([a]) => a !== Infinity)) if (!(real && at === 0 && (fn === S.init || fn === S.fire))) evs.push([at, fn]);
    const probes = []; for (const [a] of evs) { probes.push(a); if (r.bool()) probes.push(a + 51); if (a > 0 && r.bool()) probes.push(a - 1); } for (let i = 0; i < 4; i++) probes.push(r.int(0, 6000)); probes.push(9000); if (late) probes.push(tLoad + 9000);
    const probe = () => {
      const now = clock.now - T0; const up = S.initialized && now >= tLoad; const noticed = s && (S.fired && (!S.npm || shape === 'x') || polls && S.initialized && now >= Math.max(setupAt, tInit) + 51); const possible = s && (S.fired || polls && S.initialized); const ready = skip ? up : noticed ? true : possible ? null : false; const sure = skip ? shape === 'option' || true : true; void sure;
      if (s && ready !== null) t.check(s.done === ready, ready ? 'setup-not-resolved' : 'setup-resolved-early', () => ({ shape, now, setupAt, tLoad, tInit, tFire })); if (s && s.error) t.violation('setup-rejects', String(s.error));
      const props = page.json({ flag_key: 'f' + now, variant: 'on', metadata: { a: [1] } }); const n0 = S.calls.length; let ok; try { ok = plugin.track({ eventType: r.pick(['$exposure', '$impression', 'custom']), eventProperties: props }); } catch (e) { t.violation('track-throws', { e: String(e), shape }); }
      const n1 = S.calls.length - n0; if (ready === false) { t.check(ok === false && n1 === 0, 'tracked-before-ready', { shape, now, ok, n1, tInit, tFire, setupAt, skip }); t.count('refused'); } else if (ready) { if (t.check(ok === true && n1 === 1, 'not-forwarded-once', () => ({ shape, now, ok, n1, tInit, tFire, setupAt, skip }))) { const c = S.calls[n0]; t.equal(c[1], props, 'forwarded-properties'); t.check(['$exposure', '$impression', 'custom'].includes(c[0]), 'forwarded-type', c[0]); t.count('forwarded'); sent++; if (skip) t.count('skip-setup-tracked'); else t.count(S.fired && !S.npm ? 'ready-by-callback' : 'ready-by-polling'); } } else t.check((ok === true) === (n1 === 1) && n1 <= 1, 'accepted-without-forwarding', { ok, n1 });
      let u; try { u = clone(plugin.getUser()); } catch (e) { t.violation('get-user-throws', { e: String(e), stored: [...page.localMap()], deny }); return; }
      const fromStore = wantUser(deny ? {} : kept); const fromLib = wantUser(S.user); if (ready === false) { t.equal(u, fromStore, 'stored-user', () => ({ shape, stored: [...page.localMap()], deny })); t.count('user-from-storage'); } else if (ready) { t.equal(Object.fromEntries(Object.entries(u).filter(([, v]) => v !== null)), fromLib, 'library-user', { shape }); t.count('user-from-library'); if (r.bool(0.2)) S.user = STORED(r); }
      t.evaluated(canon([shape, key, skip, ready, u, Math.floor(now / 50), setupAt, tInit, tFire]));
    };
    const q = [...evs.map(([a, f], i) => [a, 0, i, f]), ...probes.map((a) => [a, 1, 0, probe])].sort((x, y) => x[0] - y[0] || x[1] - y[1] || x[2] - y[2]);
    for (const [a, , , f] of q) { if (T0 + a > clock.now) await clock.advance(T0 + a - clock.now); f(); await clock.advance(0); }
    t.sample({ shape, skip, tLoad, tInit, tFire, setupAt, sent }); page.close();
  } }, { name: 'client', quick: 400, thorough: 10000, async run(t) { // every exposure of a client reaches Segment once
    const r = t.rng; const { page, sut, clock } = sdkPage(t, { server: (k) => ({ status: 200, body: k === 'flags' ? '[]' : JSON.stringify(Object.fromEntries([1, 2, 3].map((i) => ['f' + i, { key: 'on', value: 'on', metadata: { deliveryMethod: 'web' } }]))) }) });
    const S = segment(t, r, page, 'analytics'); const shape = r.pick(['real', 'snippet', 'none', 'none-npm', 'option']); if (shape.endsWith('npm')) S.npm = true; if (shape === 'snippet') S.snippet(); if (shape === 'real') S.load(); const skip = r.bool(0.25);
    const client = new sut.ExperimentClient(API, { ...page.json({ pollOnStart: false }), loggerProvider: recLogger() }); client.addPlugin(sut.segmentIntegrationPlugin({ ...(shape === 'option' ? { instance: S.real } : {}), ...(skip ? { skipSetup: true } : {}) }));
    const T0 = clock.now; const tReady = r.pick([0, 300, 2500]); const f = settled(client.fetch(page.json({}))); let up = false; const want = []; const boot = () => { if (shape !== 'real' && shape !== 'option') S.load(); S.init(); S.fire(); up = true; };
    if (tReady === 0) boot(); await clock.advance(60); if (skip || up) t.check(f.done, 'fetch-waits-for-skipped-setup', { skip, shape });
    for (let i = r.int(2, 8); i > 0; i--) { if (!up && clock.now - T0 >= tReady) { boot(); await clock.advance(60); } if (f.done && Object.keys(client.all()).length) { const k = r.pick(['f1', 'f2', 'f3']); if (up && r.bool(0.15)) { S.throws = 1; t.count('segment-throws'); want.push([k, true]); } else want.push([k, false]); if (!up) t.count('client-late'); client.exposure(k); } await clock.advance(r.pick([0, 10, 700, 1500])); t.evaluated(canon([shape, skip, up, want.length, tReady, S.calls.length])); }
    if (!up) boot(); await clock.advance(3000); if (!want.length) { const k = 'f1'; want.push([k, false]); client.exposure(k); await clock.advance(1500); }
    const got = S.calls.filter((c) => !c[2]).map((c) => c[1].flag_key); t.check(canon(got) === canon(want.map(([k]) => k)), got.length > want.length ? 'sent-again' : 'not-sent', () => ({ got, want, shape, skip, tReady })); // a call that threw is offered again
    t.check(S.calls.every((c) => c[0] === '$impression'), 'event-type', () => S.calls); t.count('client-delivered', got.length); page.close();
  } }],
};
