// Random life of a page running the tag: navigations, triggers, variant changes, reverts and previews.
// The monitors of C41 (what is in effect) and C43 (impressions) look at the page after every step.
import { Device } from './env.mjs';
import { clone, turn } from './util.mjs';
import { TAG, API, tagPage, startTag, recorder, flag, page } from './tag.mjs';
export { TAG };
const PATHS = ['/', '/shop', '/shop?p=1', '/shop?p=2#x', '/cart', '/other'];
const HOST = 'https://www.example.com';
export const base = (u) => { const x = new URL(u); return x.origin + x.pathname; };
const has = (o, k) => Object.prototype.hasOwnProperty.call(o, k);
export async function drive(t, opt, look) {
  const r = t.rng; const d = new Device({ seed: t.index }); let seq = 0; const flags = []; const pages = {}; const defs = {}; const injects = new Map(); const bad = new Set();
  const keys = ['f1', 'f2', 'f3', 'f4'].slice(0, r.int(1, 4)); const remote = new Set(opt.remote === false ? [] : keys.filter(() => r.bool(0.2))); const assigned = {};
  for (const f of keys) {
    pages[f] = {}; for (let i = r.int(1, 3); i-- > 0;) { const type = r.weighted([[4, 'url_change'], [2, 'manual'], [1, 'analytics_event']]); const id = f + 'p' + i; pages[f][id] = page(id, { type, value: type === 'manual' ? { name: r.pick(['m1', 'm2']) } : type === 'analytics_event' ? [[{ selector: ['context', 'data', 'event'], op: 'is', values: ['Buy'] }]] : {}, conditions: r.bool(0.6) ? [[{ selector: ['context', 'page', 'url'], op: r.bool(0.8) ? 'contains' : 'does not contain', values: [r.pick(['/shop', '/cart', '/other'])] }]] : undefined }); }
    const scope = () => (r.bool(0.4) ? r.subset([...Object.keys(pages[f]), 'unknown'], 0.5) : undefined);
    const actions = () => r.list(0, 3, () => { if (r.bool(0.65)) return { action: 'mutate', data: r.bool(0.05) ? {} : { mutations: r.list(0, 3, () => { const s = scope(); const m = { selector: '#s' + seq, action: 'set', attribute: 'html', value: 'v' + seq++ }; if (s || r.bool(0.2)) m.metadata = s ? { scope: s } : {}; if (r.bool(0.05)) { bad.add(m.value); t.count('failing-mutation'); } return m; }) } };
      const id = 'aaaaaaaa-0000-4000-8000-' + String(1e11 + seq++).slice(0, 12); const s = scope(); injects.set(id.replace(/-/g, ''), { css: r.bool(0.7) ? '.i' + seq + '{color:red}' : undefined, fails: opt.failInject && r.bool(0.12) ? r.pick(['early', 'late']) : false }); const data = { id, html: r.bool(0.6) ? '<b>x</b>' : undefined, css: injects.get(id.replace(/-/g, '')).css, js: 'return 1;' }; if (s) data.scope = s; return { action: 'inject', data }; });
    const payloads = { A: actions(), B: actions(), control: r.bool(0.2) ? actions() : undefined }; if (r.bool(0.2)) payloads.C = r.pick([null, {}, 'x']);
    defs[f] = payloads; assigned[f] = r.pick(['A', 'A', 'B', 'control', 'off', ...(has(payloads, 'C') ? ['C'] : [])]);
    flags.push(flag(f, { mode: remote.has(f) ? 'remote' : 'local', blocking: r.bool(), payloads: clone(payloads), when: ['A', 'B', 'C', 'control'].filter((v) => has(payloads, v)).map((v) => [['user_properties', f], 'is', [v], v]), rest: 'off', metadata: r.bool(0.3) ? { experimentKey: 'exp-' + f } : {} }));
  }
  if (r.bool(0.3)) { // a flag of another product, delivered together with them: not for this tag to apply
    flags.push(flag('feature', { payloads: { treatment: [{ action: 'mutate', data: { mutations: [{ selector: '#s0', action: 'set', attribute: 'html', value: 'feature' }] } }] }, metadata: { deliveryMethod: r.pick(['feature', undefined]) } })); pages.feature = { fe: page('fe') }; t.count('feature-flag'); }
  const served = flags.map((f) => ({ ...f, metadata: { ...f.metadata, evaluationMode: 'local' } }));
  const pv = r.bool(0.2) ? Object.fromEntries(r.subset(keys, 0.6).map((f) => [f, r.pick(['A', 'B', 'control', 'nope'])])) : {}; const previewing = Object.keys(pv).length > 0; const first = r.pick(PATHS); if (previewing) t.count('preview-mode');
  const p = tagPage(d, { url: HOST + (previewing ? (([a, h]) => a + (a.includes('?') ? '&' : '?') + 'PREVIEW=true&' + new URLSearchParams(pv) + (h ? '#' + h : ''))(first.split('#')) : first), seed: t.index, fetch: (q) => (/configs/.test(q.url) ? { status: r.bool(0.8) ? 200 : 500, body: { flags, pageObjects: pages }, delay: r.pick([1, 200]) } : /flags/.test(q.url) ? { status: 200, body: served, delay: r.pick([1, 50, 300]) } : { status: 200, body: '{}', delay: 5 }) });
  const sheets = () => [...p.dom.window.document.adoptedStyleSheets].map((s) => s.css);
  const live = new Map(); // injections in effect, as their own code sees it
  for (const [id, x] of injects) p.g[id] = (html, utils, i) => { if (x.fails) t.count('failing-injection'); if (x.fails === 'early') throw new p.g.Error('injection failed'); live.set(id, (live.get(id) ?? 0) + 1); utils.remove = () => { live.set(id, live.get(id) - 1); }; if (x.fails) throw new p.g.Error('injection failed'); };
  const track = recorder(p); p.g.experimentIntegration.getUser = () => p.json({ user_id: 'u1', device_id: 'd1', user_properties: { ...assigned } });
  p.g.__domMutator = p.eval('({ live: new Map(), events: [], fail: null })'); p.g.__domMutator.fail = (s) => bad.has(s.value);
  const inEffect = { ...assigned }; const manual = new Set(); const ops = []; let visit = 0; let lastBase = base(p.url.href); const visits = [0]; // one entry per tracked event
  const events = []; let n0 = 0; const collect = () => { for (; n0 < track.length; n0++) events.push({ ...track[n0], visit }); };
  const push = track.push.bind(track); track.push = (e) => { const x = push(e); collect(); return x; };
  const nav = (u) => { if (HOST + u === p.url.href) return; for (const f of keys) inEffect[f] = assigned[f]; p.g.history[r.pick(['pushState', 'replaceState'])]({}, '', u); manual.clear(); };
  const navTo = (u) => { const target = HOST + u; if (base(target) !== lastBase) { visit++; lastBase = base(target); } nav(u); };
  const early = !previewing && r.bool(0.25); const cfg = r.bool(0.3) ? { redirectConfig: { encodeRedirectInCookie: r.bool(), encodeRedirectInUrl: r.bool() } } : {}; startTag(t, p, { flags, pages, wait: 0, config: cfg });
  if (early) for (let j = r.int(1, 3); j-- > 0;) { for (let w = r.int(0, 6); w-- > 0;) await turn(); if (r.bool(0.4)) await p.clock.advance(r.pick([1, 5, 20, 100])); const c = p.g.webExperiment; if (c.isRunning) break; t.count('while-starting'); const k = r.pick(['nav', 'nav', 'toggle', 'event', 'apply']); if (k === 'nav') navTo(r.pick(PATHS)); else if (c.isStub) continue; else if (k === 'toggle') c.toggleManualPageObject('m1', r.bool(0.7)); else if (k === 'event') c.trackEvent('Buy', p.json({})); else c.applyVariants()?.catch?.(() => {}); }
  for (let i = 0; i < 60 && !p.g.webExperiment?.isRunning; i++) await p.settle(50);
  const client = p.g.webExperiment;
  if (!t.check(client?.isRunning, 'never-started', { console: p.consoleLog.slice(0, 4) })) return; await p.settle(100);
  const active = () => Object.fromEntries(Object.entries(client.getActivePages()).map(([f, ps]) => [f, Object.keys(ps)]));
  const ctx = { r, d, p, client, flags, defs, pages, injects, bad, assigned, inEffect, ops, events, live, sheets, active, get visit() { return visit; }, mutations: () => [...p.g.__domMutator.live.values()].map((s) => s.value).sort(), mlog: p.g.__domMutator.events, scripts: () => p.$$('head script[id^="js-"]').map((s) => s.id.slice(3)).sort() };
  // what the given variants must show, per flag
  ctx.pv = pv; ctx.early = early; ctx.shown = (f, v) => { const act = active()[f] ?? []; const on = (s) => (s ? s.some((x) => act.includes(x)) : act.length > 0); const out = { mut: [], inj: [], any: act.length > 0, tried: false }; const pl = v === 'off' ? null : defs[f][v]; if (Array.isArray(pl)) for (const a of pl) { if (a.action === 'mutate') { for (const m of a.data.mutations ?? []) if (on(m.metadata?.scope)) { out.tried = true; if (!bad.has(m.value)) out.mut.push(m.value); } } else if (on(a.data.scope)) { out.tried = true; out.inj.push(a.data.id.replace(/-/g, '')); } } return out; };
  const judge = (why, extra) => { t.sample?.(); look(ctx, why, extra); };
  const settle = async () => { await p.settle(r.pick([60, 120])); await turn(); };
  const apply = async (fs) => { const q = client.applyVariants(fs ? { flagKeys: p.json(fs) } : r.bool() ? undefined : p.json({})); for (const f of fs ?? keys) inEffect[f] = assigned[f]; q?.catch?.(() => {}); };
  judge('start'); const n = r.int(4, 14);
  const reassign = (fs) => { for (const f of fs) assigned[f] = r.pick(['A', 'B', 'control', 'off', ...(has(defs[f], 'C') ? ['C'] : [])]); };
  for (let i = 0; i < n; i++) {
    const k = r.weighted([[3, 'nav'], [1, 'back'], [3, 'toggle'], [1.5, 'event'], [2, 'assign'], [1, 'assign-nav'], [1, 'reapply'], ...(previewing ? [] : [[1, 'revert']]), ...(opt.preview === false || previewing ? [] : [[1, 'preview']]), [1, 'burst'], [0.5, 'partial'], [0.5, 'off-on']]); let arg;
    try {
      if (k === 'nav') navTo(arg = r.pick(PATHS));
      else if (k === 'back') { if (p.histIdx > 0) { const target = p.hist[p.histIdx - 1]; if (base(target) !== lastBase) { visit++; lastBase = base(target); } if (target !== p.url.href) for (const f of keys) inEffect[f] = assigned[f]; p.go(-1); manual.clear(); } }
      else if (k === 'toggle') { arg = [r.pick(['m1', 'm2']), r.bool(0.65)]; client.toggleManualPageObject(...arg); }
      else if (k === 'event') { arg = r.pick(['Buy', 'x']); client.trackEvent(arg, p.json({ n: 1 })); }
      else if (k === 'assign') { const fs = r.subset(keys, 0.6); reassign(fs); arg = clone(assigned); await apply(r.bool(0.5) ? undefined : fs); for (const f of fs) inEffect[f] = assigned[f]; }
      else if (k === 'assign-nav') { reassign(r.subset(keys, 0.6)); arg = r.pick(PATHS.filter((u) => HOST + u !== p.url.href)); navTo(arg); }
      else if (k === 'reapply') { for (let j = r.int(1, 3); j-- > 0;) await apply(); }
      else if (k === 'partial') { arg = r.subset(keys, 0.5); await apply(arg); }
      else if (k === 'revert') { arg = r.bool(0.4) ? undefined : r.subset(keys, 0.5); client.revertVariants(arg ? p.json({ flagKeys: arg }) : undefined); ops.push([k, arg]); judge('revert', { reverted: arg ?? keys }); await settle(); await apply(); }
      else if (k === 'preview') { arg = Object.fromEntries(r.subset(keys, 0.6).map((f) => [f, r.pick(['A', 'B', 'control', 'off', 'nope', ...(has(defs[f], 'C') ? ['C'] : [])])])); client.previewVariants({ keyToVariant: p.json(arg) })?.catch?.(() => {}); ops.push([k, arg]); await settle(); judge('preview', { preview: arg }); await apply(); }
      else if (k === 'burst') { arg = []; for (let j = r.int(2, 4); j-- > 0;) { const x = r.pick(['nav', 'toggle', 'apply']); arg.push(x); if (x === 'nav') navTo(r.pick(PATHS)); else if (x === 'toggle') client.toggleManualPageObject(r.pick(['m1', 'm2']), r.bool()); else apply(); if (r.bool(0.3)) await turn(); } }
      else { client.toggleManualPageObject('m1', true); client.toggleManualPageObject('m1', false); }
    } catch (e) { if (e?.constructor?.name === 'StopCase') throw e; t.violation('threw', { k, arg, e: String(e.stack || e).slice(0, 300), ops: ops.slice(-8) }); return; }
    ops.push([k, arg]); t.count('op:' + k); await settle(); judge(k);
  }
  p.close();
}
