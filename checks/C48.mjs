import { Device } from '../lib/env.mjs';
import { canon, turn } from '../lib/util.mjs';
import { TAG, API, tagPage, configs, flag, page, recorder } from '../lib/tag.mjs';
const HOST = 'https://www.example.com'; const T = 1000;
const AF = `export { applyAntiFlickerCss, removeAntiFlickerCss } from '@src/tag/util/anti-flicker'; export { cspSafeStyleSheet, supportsAdoptedStyleSheets } from '@src/tag/util/csp-safe-stylesheet';`;
const isHide = (c) => /visibility:\s*hidden/.test(c ?? ''); const isHost = (c) => /^\/\*host/.test(c ?? '');
/** Follows the style sheets of a page: hides, and the sheets of others. */
class Watch {
  constructor(t, p, det) { this.t = t; this.p = p; this.det = det; this.at = 0; this.since = null; this.hides = []; this.host = []; }
  get doc() { return (this.p.dom?.window ?? this.p.g).document; }
  hostSet(fn) { const css = fn([...this.doc.adoptedStyleSheets]); this.host = css.map((s) => s.css).filter(isHost); this.doc.adoptedStyleSheets = css; this.look(); }
  look() { const { t, p } = this; for (; this.at < p.log.length; this.at++) { const e = p.log[this.at]; if (e.type !== 'sheets') continue; const on = e.css.filter(isHide).length; t.check(on <= 1, 'hidden-twice', this.det({ css: e.css })); if (on && this.since === null) { this.since = e.t; this.hides.push({ from: e.t, to: null }); t.count('hides'); } else if (!on && this.since !== null) { this.end(e.t); } this.hostNow = e.css.filter(isHost); }
    t.equal([...this.doc.adoptedStyleSheets].map((s) => s.css).filter(isHost), this.host, 'host-sheets-changed', this.det()); if (this.since !== null) t.check(p.clock.now - this.since <= T, 'hidden-too-long', this.det({ since: this.since, now: p.clock.now })); }
  end(at) { const h = this.hides[this.hides.length - 1]; h.to = at; this.t.check(at - h.from <= T, 'hidden-too-long', this.det({ h })); if (at - h.from === T) this.t.count('timed-out'); else this.t.count('removed-early'); this.since = null; }
  get hidden() { this.look(); return this.since !== null; }
}
export default {
  property: 'C48', bundles: { tag: TAG, af: AF },
  rule: 'starts: the whole tag starts on pages with blocking and other remote flags, in preview, by the extension, behind consent, with redirects (real, soft, failing), failing variants, integrations, storages and requests that fail, hang or answer garbage, while the host changes its own style sheets; a monitor over every change of the adopted style sheets requires every hide to last at most a second, to be there while variants that must not flicker are being fetched, to be gone when they are applied, when only other remote flags are being fetched and when the start has ended or failed, except while a redirect is in flight, the snippet\'s own style to go too, and the host\'s sheets to be untouched. module: random histories of hide, show, time and host changes on documents with and without sheet support. Non-trivial = distinct history of hides.',
  requires: ['hides', 'timed-out', 'removed-early', 'blocking', 'not-blocking', 'preview', 'extension', 'consent', 'flags-hang', 'flags-fail', 'configs-hang', 'configs-fail', 'redirect', 'soft-redirect', 'failing-redirect', 'start-fails', 'snippet-style', 'host-sheets', 'later-hide-full', 'failing-variant', 'kept-while-fetching', 'gone-when-applied', 'kept-while-redirecting', 'inactive-blocking', 'shadow', 'synthetic-shadow', 'iframe'],
  workloads: [
    { name: 'starts', quick: 1200, thorough: 50000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const shape = r.weighted([[4, 'plain'], [2, 'preview'], [1, 'extension'], [0.5, 'editor']]); if (['preview', 'extension'].includes(shape)) t.count(shape); const held = r.bool(0.2); if (held) t.count('consent');
      const flags = []; const pages = {}; const blocking = []; const bad = new Set(); const redirect = r.bool(0.25) ? r.pick(['hard', 'soft', 'throws']) : null; const ops = [];
      const mut = (f, v) => ({ action: 'mutate', data: { mutations: [{ selector: '#x', action: 'set', attribute: 'html', value: f + v }] } });
      const nloc = r.int(0, 2); for (let i = 0; i < nloc; i++) { const f = 'loc' + i; const acts = [mut(f, 'A')]; if (r.bool(0.2)) { bad.add(f + 'A'); t.count('failing-variant'); } if (r.bool(0.3)) acts.push({ action: 'inject', data: { id: 'aaaaaaaa-0000-4000-8000-00000000000' + i, html: '<b>x</b>', css: '.x{}', js: 'x' } }); flags.push(flag(f, { payloads: { treatment: acts } })); pages[f] = { ['p' + f]: page('p' + f) }; }
      const nrem = r.int(0, 3); for (let i = 0; i < nrem; i++) { const f = 'rem' + i; const b = r.bool(0.6); const act = r.bool(0.75); flags.push(flag(f, { mode: 'remote', blocking: b, payloads: { treatment: [mut(f, 'A')] } })); pages[f] = { ['p' + f]: page('p' + f, act ? {} : { conditions: [[{ selector: ['context', 'page', 'url'], op: 'contains', values: ['/elsewhere'] }]] }) }; if (b && act) blocking.push(f); else if (b) t.count('inactive-blocking'); }
      if (redirect) { flags.push(flag('red', { payloads: { treatment: [{ action: 'redirect', data: { url: HOST + '/target' } }] } })); pages.red = { pr: page('pr', { conditions: [[{ selector: ['context', 'page', 'url'], op: 'does not contain', values: ['/target'] }]] }) }; } if (r.bool(0.15)) { flags.push(flag('holdout-x', { payloads: { treatment: [] } })); }
      const pv = shape === 'preview' ? Object.fromEntries(r.subset(flags.map((f) => f.key).filter((k) => !/holdout/.test(k)), 0.5).map((f) => [f, 'treatment'])) : {}; if (shape === 'preview' && !Object.keys(pv).length && flags.length) pv[flags[0].key] = 'treatment';
      const allPrev = flags.filter((f) => f.metadata.evaluationMode === 'remote').every((f) => f.key in pv); const block = blocking.length && !allPrev; t.count(block ? 'blocking' : 'not-blocking');
      const hang = { flags: r.weighted([[5, null], [1.5, 'hang'], [1, 'fail'], [1, 'reject'], [0.5, 'garbage'], [1.5, 'slow']]), configs: r.weighted([[5, null], [1.5, 'hang'], [1, 'fail'], [1, 'reject'], [1, 'garbage'], [1, 'slow']]) };
      const served = flags.map((f) => ({ ...f, metadata: { ...f.metadata, evaluationMode: 'local' } })); const reply = (kind, body) => ({ null: { status: 200, body, delay: r.pick([1, 40, 300]) }, hang: { status: 200, body, delay: 30000 }, fail: { status: r.pick([403, 500, 429]), body: 'x', delay: 30 }, reject: { error: 'network', delay: 20 }, garbage: { status: 200, body: r.pick(['<html>', 'null', '[]', '{"flags":3}']), delay: 10 }, slow: { status: 200, body, delay: r.pick([900, 999, 1000, 1001, 1500, 2500]) } }[String(kind)]);
      let w; const asked = []; const p = tagPage(d, { url: HOST + '/' + ({ preview: '?PREVIEW=true&' + new URLSearchParams(pv), editor: '?VISUAL_EDITOR=true' }[shape] ?? ''), seed: t.index, fetch: (q) => { if (/configs/.test(q.url)) { if (hang.configs) t.count(hang.configs === 'hang' ? 'configs-hang' : 'configs-fail'); return reply(hang.configs, { flags, pageObjects: pages }); } if (/flags/.test(q.url)) { if (hang.flags) t.count(hang.flags === 'hang' ? 'flags-hang' : 'flags-fail'); asked.push(d.clock.now); if (asked.length === 1) atFetch(); return reply(hang.flags, served); } return { status: 200, body: '{}', delay: 5 }; } });
      if (shape === 'extension') p.g.WebExperiment = p.json({ injectedByExtension: true }); if (shape === 'editor') p.g.opener = r.bool() ? p.g : null; recorder(p, { user: { user_id: 'u' } }); const integ = r.weighted([[6, null], [1, 'track'], [1, 'setup'], [1, 'user']]); if (integ === 'track') p.g.experimentIntegration.track = () => { throw new p.g.Error('track'); }; if (integ === 'setup') p.g.experimentIntegration.setup = () => p.g.Promise.reject(new p.g.Error('setup')); if (integ === 'user') p.g.experimentIntegration.getUser = () => { throw new p.g.Error('user'); };
      p.g.__domMutator = p.eval('({ live: new Map(), events: [], fail: null })'); p.g.__domMutator.fail = (s) => bad.has(s.value); for (let i = 0; i < 2; i++) p.g['aaaaaaaa00004000800000000000000' + i] = () => { if (r.bool(0.2)) throw new p.g.Error('inject'); };
      const det = (x) => ({ x, shape, held, redirect, block, blocking, pv, hang, integ, hides: w?.hides, ops, asked: asked.map((a) => a - d.clock.now), console: p.consoleLog.slice(0, 3) }); w = new Watch(t, p, det); const S = (c) => new p.g.CSSStyleSheet(); const sheet = (c) => { const s = S(); s.replaceSync(c); return s; };
      const snippet = r.bool(0.6); if (snippet) { const s = w.doc.createElement('style'); s.id = 'amp-exp-css'; w.doc.head.appendChild(s); t.count('snippet-style'); } if (r.bool(0.6)) w.hostSet((a) => [...a, sheet('/*host0*/')]);
      const fault = r.weighted([[8, null], [0.7, 'json'], [0.7, 'cookie'], [0.7, 'session'], [0.5, 'local-write']]); if (fault === 'cookie') d.cookieFault = () => true; if (fault === 'session') d.storageFault = (e) => e.area === 'session' && e.op !== 'remove'; if (fault === 'local-write') d.storageFault = (e) => e.area === 'local' && e.op === 'set';
      let started = false; const redirecting = () => p.navigations.length > 0;
      const atFetch = () => { const h = w.hidden; if (block) { const last = w.hides[w.hides.length - 1]; if (t.check(!!last, 'not-hidden-for-blocking', det())) { if (last.to === null) t.count('kept-while-fetching'); else t.check(last.to - last.from === T, 'shown-before-applied', det()); } } else t.check(!h || redirecting(), 'hidden-for-non-blocking', det()); };
      const sut = p.load(t.sut.tag); const cfg = { ...(held ? { consentOptions: { consentRequired: true } } : {}) }; const C = configs(p, { flags, pages }); if (fault === 'json') { C.initialFlags = '{nope'; t.count('start-fails'); }
      let threw = null; const launch = () => { started = true; const h0 = w.hides.length; if (redirect === 'soft' || redirect === 'throws') { const iv = () => { const c = p.g.webExperiment; if (c && !c.isStub && c.setRedirectHandler && !c.hooked) { c.hooked = true; c.setRedirectHandler((u) => { ops.push('soft'); if (redirect === 'throws') { t.count('failing-redirect'); throw new p.g.Error('nav'); } t.count('soft-redirect'); p.g.setTimeout(() => { ops.push('nav'); p.g.history.pushState({}, '', '/target'); w.look(); t.check(w.since === null || block, 'hidden-after-soft-redirect', det()); }, r.pick([0, 5, 200])); }); } }; hook = iv; } void h0; };
      let hook = () => {}; const go = () => { launch(); if (['preview', 'extension'].includes(shape)) t.check(w.hidden, 'not-hidden-for-preview', det()); hook(); };
      try { sut.initialize(API, C, p.json(cfg)); } catch (e) { threw = e; } if (held) { t.check(!w.hidden, 'hidden-while-held', det()); await p.clock.advance(r.pick([0, 50, 1500])); t.check(!w.hidden && w.hides.length === 0, 'hidden-while-held', det()); try { sut.setConsentStatus('granted'); } catch (e) { threw = e; } } if (!threw) go(); else t.count('start-fails');
      let ran = null; for (let i = 0, n = r.int(10, 30); i < n || (i < 90 && !p.g.webExperiment?.isRunning && fault !== 'json'); i++) {
        if (r.bool(0.1)) { t.count('host-sheets'); const k = r.pick(['add', 'drop', 'swap']); ops.push(k); w.hostSet((a) => (k === 'add' ? [...a, sheet('/*host' + i + '*/')] : k === 'drop' ? a.filter((s) => !isHost(s.css) || r.bool()) : [...a.filter((s) => isHost(s.css)), ...a.filter((s) => !isHost(s.css))])); }
        hook(); await turn(); w.look(); if (!ran && p.g.webExperiment?.isRunning) { ran = d.clock.now; for (let j = 0; j < 4; j++) await turn(); if (!redirecting() && !(redirect === 'soft' && ops.includes('soft') && !ops.includes('nav'))) { t.check(!w.hidden, 'hidden-after-start', det()); t.check(!w.doc.getElementById('amp-exp-css'), 'snippet-style-left', det()); t.count('gone-when-applied'); } else if (w.hides.length) { const h = w.hides[w.hides.length - 1]; t.count('redirect'); if (h.to === null) t.count('kept-while-redirecting'); else t.check(h.to - h.from === T, 'shown-while-redirecting', det()); } else t.count('redirect'); }
        await p.clock.advance(r.pick([1, 10, 20, 100, 500, 1000])); w.look();
      }
      await p.clock.advance(15000); for (let j = 0; j < 5; j++) await turn(); w.look(); t.check(!w.hidden, 'hidden-for-ever', det()); const ended = p.g.webExperiment?.isRunning || threw || p.unhandled?.length; if (!redirecting() && p.g.webExperiment?.isRunning) t.check(!w.doc.getElementById('amp-exp-css'), 'snippet-style-left', det({ ended: !!ended, threw: String(threw) })); if (p.g.webExperiment?.isRunning && w.hides.length > 1) t.count('hid-twice');
      t.evaluated(canon([shape, held, redirect, block, hang, integ, fault, w.hides.map((h) => h.to - h.from)])); p.close();
    } },
    { name: 'module', quick: 3000, thorough: 150000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const p = tagPage(d, { url: HOST + '/', seed: t.index }); const m = p.load(t.sut.af); const ops = []; let w; const det = (x) => ({ x, ops: ops.slice(-12), hides: w?.hides.slice(-3) }); w = new Watch(t, p, det); const sheet = (c) => { const s = new p.g.CSSStyleSheet(); s.replaceSync(c); return s; };
      let want = null; let n = 0; const el = () => w.doc.getElementById('amp-exp-css'); let ended = null;
      const judge = (why) => { w.look(); t.check((w.since !== null) === (want !== null), want !== null ? 'shown-too-early' : 'still-hidden', det({ why, want, now: d.clock.now })); };
      for (let i = r.int(4, 20); i-- > 0;) {
        const k = r.weighted([[4, 'hide'], [3, 'show'], [4, 'time'], [1, 'host'], [1, 'style']]); let a;
        if (k === 'hide') { m.applyAntiFlickerCss(); if (want === null) { want = d.clock.now; if (ended !== null && d.clock.now - ended < T) t.count('re-hidden'); } } else if (k === 'show') { m.removeAntiFlickerCss(); if (want !== null) ended = want; want = null; t.check(!el(), 'snippet-style-left', det()); }
        else if (k === 'time') { a = r.pick([0, 1, 200, 400, 600, 999, 1000, 1001, 3000]); await p.clock.advance(a); if (want !== null && d.clock.now - want >= T) { if (ended !== null && want - ended < T) t.count('later-hide-full'); ended = want; want = null; t.check(!el(), 'snippet-style-left', det()); } }
        else if (k === 'style') { if (!el()) { const s = w.doc.createElement('style'); s.id = 'amp-exp-css'; w.doc.head.appendChild(s); } } else w.hostSet((x) => (r.bool() ? [...x, sheet('/*host' + n++ + '*/')] : x.filter((s) => !isHost(s.css) || r.bool())));
        ops.push(a === undefined ? k : a); judge(k);
      }
      // sheets of other targets
      const kind = r.pick(['document', 'shadow', 'synthetic', 'iframe']); const doc = w.doc; let target = doc; let host = doc; let win = p.g; t.count({ shadow: 'shadow', synthetic: 'synthetic-shadow', iframe: 'iframe', document: 'document' }[kind]);
      if (kind === 'shadow' || kind === 'synthetic') { let list = [sheet('/*host-s*/')]; target = { nodeType: 11, ownerDocument: doc }; if (kind === 'shadow') { Object.defineProperty(target, 'adoptedStyleSheets', { get: () => list, set: (v) => { list = [...v]; } }); host = target; } }
      if (kind === 'iframe') { let list = []; class Sheet { replaceSync(c) { this.css = c; } } target = { nodeType: 9, defaultView: { CSSStyleSheet: Sheet } }; Object.defineProperty(target, 'adoptedStyleSheets', { get: () => list, set: (v) => { for (const s of v) if (!(s instanceof Sheet)) throw new Error('NotAllowedError'); list = [...v]; } }); host = target; }
      const before = [...host.adoptedStyleSheets]; t.check(m.supportsAdoptedStyleSheets(target) === (kind !== 'synthetic'), 'support-misjudged', { kind }); const A = m.cspSafeStyleSheet(target, '.a{}'); const B = m.cspSafeStyleSheet(target, '.b{}'); let on = { a: true, b: true }; let order = ['.a{}', '.b{}'];
      for (let i = r.int(2, 8); i-- > 0;) { const x = r.pick(['a', 'b']); const h = x === 'a' ? A : B; const css = `.${x}{}`; if (r.bool()) { h.revert(); order = order.filter((c) => c !== css); on[x] = false; } else { h.reapply(); if (!on[x]) order.push(css); on[x] = true; } const now = [...host.adoptedStyleSheets]; t.check(before.every((s, j) => now[j] === s), 'others-touched', { kind }); t.equal(now.slice(before.length).map((s) => s.css), order, 'handle-state', { kind }); }
      t.evaluated(canon([ops, kind])); p.close();
    } },
  ],
};
