import { BROWSER_ENTRY, kind } from '../lib/client.mjs';
import { drive, scriptOf } from './C23.mjs';
import { Device } from '../lib/env.mjs';
import { canon } from '../lib/util.mjs';
import vm from 'node:vm';
const ALL = ['window', 'self', 'document', 'location', 'navigator', 'localStorage', 'sessionStorage', 'history', 'addEventListener', 'removeEventListener', 'performance', 'crypto', 'setInterval', 'clearInterval', 'setTimeout', 'clearTimeout', 'requestAnimationFrame', 'fetch', 'XMLHttpRequest', 'btoa', 'atob', 'AbortController', 'TextDecoder', 'structuredClone', 'queueMicrotask'];
const SHAPES = {
  server: ['window', 'self', 'document', 'location', 'navigator', 'localStorage', 'sessionStorage', 'history', 'addEventListener', 'removeEventListener', 'requestAnimationFrame', 'XMLHttpRequest'],
  worker: ['window', 'document', 'localStorage', 'sessionStorage', 'history', 'requestAnimationFrame', 'XMLHttpRequest'],
  native: ['document', 'location', 'localStorage', 'sessionStorage', 'history', 'addEventListener', 'removeEventListener', 'btoa', 'atob'],
  bare: ALL,
};
const wrapped = new WeakMap();
/** The bundle as run where the names given are not what they should be (globalThis === null, no window, …). */
const hide = (bundle, names) => { const m = wrapped.get(bundle) ?? wrapped.set(bundle, new Map()).get(bundle); const k = names.join(); if (!m.has(k)) { const end = bundle.code.lastIndexOf('globalThis.__SUT = __SUT'); m.set(k, new vm.Script(`var __G = globalThis; (function (${names.join(', ')}) {${bundle.code.slice(0, end)}__G.__SUT = __SUT;\n})(${names.map((n) => (n === 'globalThis' ? 'null' : 'undefined')).join(', ')});`, { filename: 'sut.js' })); } return m.get(k); };
export default {
  property: 'C24', bundles: { browser: BROWSER_ENTRY },
  rule: 'Each random script of client calls (as in C23) runs twice: in a browser page with everything, and in a runtime of another shape — server, worker, native shell, bare interpreter, any random subset of the browser\'s globals missing, present but null, present but empty, a null globalThis as some Safari versions have, no global scope at all; with the built-in transport or a custom one; through the factories or the constructor. Loading, constructing and calling must not throw or reject, and the variants answered and the exposures delivered must be the same; with a null globalThis and an intact window also the requests and everything stored. Non-trivial = distinct script and runtime.',
  requires: ['server', 'worker', 'native', 'bare', 'subset', 'nullish', 'partial', 'null-globalthis', 'no-scope', 'custom-http', 'no-network', 'analytics', 'plain', 'late', 'by-factory', 'by-constructor', 'variants-compared', 'exposures-compared', 'storage-compared', 'requests-compared', 'no-timers'],
  workloads: [{ name: 'runtimes', quick: 3000, thorough: 80000, async run(t) {
    const r = t.rng; const script = scriptOf(r); delete script.config.internalInstanceNameSuffix; script.flavour = 'feature'; script.api = r.pick([script.api, script.api, '0123456789abcdef0123456789abcdef']);
    const shape = r.weighted([[1, 'server'], [1, 'worker'], [1, 'native'], [1, 'bare'], [3, 'subset'], [1.5, 'nullish'], [1.5, 'partial'], [2, 'null-globalthis'], [1, 'no-scope']]); t.count(shape);
    // what is not there: names; how
    let gone = SHAPES[shape] ?? (shape === 'no-scope' || shape === 'null-globalthis' ? [] : r.subset(ALL, r.pick([0.15, 0.4, 0.8]))); if (shape === 'null-globalthis' && r.bool(0.3)) gone = r.subset(['document', 'location', 'navigator', 'localStorage', 'sessionStorage', 'history', 'self'], 0.5); if (shape === 'partial') gone = r.subset(['document', 'location', 'navigator', 'history', 'performance', 'crypto'], 0.6);
    const noScope = shape === 'no-scope'; const net = !gone.includes('fetch') && !noScope; script.http = r.bool(0.3) || (!net && r.bool(0.7)); if (script.http) t.count('custom-http'); const offline = !net && !script.http; if (offline) t.count('no-network');
    const noTimers = noScope || gone.some((x) => /Timeout|Interval/.test(x)); if (noTimers) { t.count('no-timers'); Object.assign(script.config, { retryFetchOnFailure: false, pollOnStart: false }); if (['late', 'slow', 'fails', 'analytics'].includes(script.integration)) script.integration = r.pick(['plain', 'none', 'late']); }
    if (offline) { script.first.down = true; for (const s of script.steps) if (s.world) s.world.down = true; }
    for (const w of [script.first, ...script.steps.map((s) => s.world)]) if (w) for (const f of w.flags) f.segments = f.segments.filter((s) => !s.conditions?.some((c) => c.some((x) => x.selector?.[1] === 'page'))); if (script.config.initialFlags) script.config.initialFlags = JSON.stringify(JSON.parse(script.config.initialFlags).map((f) => ({ ...f, segments: f.segments.filter((s) => !s.conditions?.some((c) => c.some((x) => x.selector?.[1] === 'page'))) })));
    t.count(script.integration); t.count(script.factory ? 'by-factory' : 'by-constructor'); const seed = r.u32(); t.log('script', script);
    const full = new Device({ seed }); const ref = await drive(t, script, full, (p) => { p.g.window ??= p.g; p.g.self ??= p.g; }); const store = (p) => [[...p.localMap()], [...p.sessionMap()]]; const reqs = (p) => p.requests.map((q) => [q.t, q.url, q.method, q.headers, q.body ?? null]); const refStore = store(ref.page); ref.page.close(); if (t.found) return;
    if (shape === 'nullish') gone = gone.filter((x) => x !== 'window'); const how = shape === 'nullish' ? r.pick([null, undefined]) : shape === 'partial' ? 'partial' : 'missing'; t.log('shape', { shape, gone, how });
    const prepare = (p) => { const g = p.g; g.window ??= g; g.self ??= g; for (const k of gone) { if (how === 'missing') delete g[k]; else Object.defineProperty(g, k, { value: how === 'partial' ? p.eval('({})') : how, configurable: true, writable: true }); } };
    const s = { ...script, fault: { shape, gone, how } }; if (shape === 'null-globalthis' || noScope) s.load = (p) => { hide(t.sut.browser, noScope ? ['globalThis', 'window', 'self', 'global'] : ['globalThis']).runInContext(p.ctx); return p.g.__SUT; };
    const got = await drive(t, s, new Device({ seed }), prepare); if (t.found) { got.page.close(); return; }
    t.equal(got.obs, ref.obs, 'different-answer', () => ({ shape, gone, how })); t.count('variants-compared', ref.obs.length); t.equal(got.sent, ref.sent, 'different-exposures', () => ({ shape, gone, how, integration: s.integration })); if (ref.sent.length) t.count('exposures-compared', ref.sent.length);
    t.equal(got.page.requests.map((q) => [kind(q), q.method]), offline ? [] : ref.page.requests.map((q) => [kind(q), q.method]), 'different-requests', () => ({ shape, gone, how })); if (!offline && ref.page.requests.length) t.count('requests-compared');
    if (shape === 'null-globalthis' && !gone.length) { t.equal(reqs(got.page), reqs(ref.page), 'different-request-content', () => ({ shape })); t.equal(store(got.page), refStore, 'different-storage', () => ({ shape })); if (refStore[0].length) t.count('storage-compared'); }
    got.page.close(); t.evaluated(canon([script.seed, shape, gone, how]));
  } }],
};
