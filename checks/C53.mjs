import { Device } from '../lib/env.mjs';
import { canon, clone, turn } from '../lib/util.mjs';
import { TAG, API, tagPage, startTag, configs, recorder, flag, page, url as urlIs } from '../lib/tag.mjs';
import { pagesRun } from './C40.mjs';
const HOST = 'https://www.example.com'; const PATHS = ['/', '/shop', '/cart']; const SRC = 'https://app.amplitude.com/script/overlay.js';
const payload = (r, f) => r.pick([[{ action: 'mutate', data: { mutations: [{ selector: '#out', action: 'set', attribute: 'html', value: 'x' + f }] } }], [{ action: 'inject', data: { id: 'i' + f, js: 'window.__injected = (window.__injected || 0) + 1', css: '.injected{}', html: '<p class="injected"></p>' } }], [{ action: 'redirect', data: { url: HOST + '/elsewhere' } }], []]);
const watch = (p, track) => { const scripts = () => p.$$('script[src]').map((e) => e.src); return { scripts, touched: () => ({ tracked: track.map((e) => e.type), live: p.g.__domMutator.live.size, injected: p.g.__injected ?? 0, elements: p.$$('.injected').length, navigations: p.navigations.length, fetched: p.requests.map((q) => q.url).filter((u) => /flags|vardata|relay/.test(u)) }) }; };
const none = (x) => !x.tracked.length && !x.live && !x.injected && !x.elements && !x.navigations && !x.fetched.length;
const domMutator = (p) => { p.g.__domMutator = p.eval('({ live: new Map(), events: [], fail: null })'); p.g.__domMutator.fail = () => false; };
export default {
  property: 'C53', bundles: { tag: TAG },
  rule: 'editing: the page objects workload of C40 inside the visual editor, whose page objects are replaced any number of times in between (the model starts the triggers of the new ones from that moment); a monitor on mutations, injections, impressions, requests and redirects must see none. starts: tab sessions of documents opened with every combination of editor parameter, stored editor session, state of window.opener, mobile mode and device frame, followed by messages, navigations and interactions; judged: which mode the document is in, that an editing document stays untouched, the address, the banner, the overlay script, the mobile shell and the mirroring of its frame address. Non-trivial = distinct judged (mode, step, active set)',
  requires: ['page-objects-replaced', 'notified', 'nav', 'editor', 'by-session', 'normal', 'broken', 'opener-null', 'opener-closed', 'opener-throws', 'overlay-by-message', 'overlay-by-session', 'ignored-message', 'mobile', 'device-frame', 'frame-nav', 'frame-load', 'frame-foreign', 'other-params', 'banner-closed', 'normal-after-editor', 'has-redirect', 'has-injection', 'damaged-session', 'late-ready', 'other-mobile-value', 'frame-click', 'frame-hover', 'frame-appear', 'frame-scroll', 'frame-exit', 'outer-action', 'frame-unreachable', 'frame-activated', 'frame-history-kept'],
  workloads: [
    { name: 'editing', quick: 700, thorough: 25000, run: (t) => { let w; let href; return pagesRun(t, {
      repage: true, url: (r) => { href = HOST + r.pick(PATHS) + r.pick(['?VISUAL_EDITOR=true', '?a=1&VISUAL_EDITOR=true', '?VISUAL_EDITOR=true&p=1#x']); return href; }, payload: (r, f) => { const x = payload(r, f); if (x[0]?.action === 'redirect') t.count('has-redirect'); if (x[0]?.action === 'inject') t.count('has-injection'); return x; },
      setup(p) { p.g.opener = p.json({ closed: false }); domMutator(p); w = watch(p, recorder(p)); },
      started({ p, client }) { t.count('editor'); const want = new URL(href); want.searchParams.delete('VISUAL_EDITOR'); t.check(p.url.href === want.href, 'address', { got: p.url.href, href }); return (why, got, ops) => { const x = w.touched(); t.check(none(x), 'touched-while-editing', { why, x, ops: ops.slice(-6) }); t.check(client.isRunning === true, 'not-running', {}); }; },
    }); } },
    { name: 'starts', quick: 1200, thorough: 50000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const tab = d.tab(); const n = r.int(1, 3); let edited = false; let keep = null; let mobileOn = false;
      const FS = ['f1', 'f2'].slice(0, r.int(1, 2)); const flags = FS.map((f) => flag(f, { mode: r.bool(0.3) ? 'remote' : 'local', blocking: r.bool(), payloads: { treatment: [{ action: 'mutate', data: { mutations: [{ selector: '#out', action: 'set', attribute: 'html', value: 'x' + f }] } }] } })); const where = Object.fromEntries(FS.map((f) => [f, r.pick([null, '/shop', '/cart'])])); const pages = Object.fromEntries(FS.map((f) => [f, { ['p' + f]: page('p' + f, { conditions: where[f] ? [[urlIs('contains', where[f])]] : undefined }) }]));
      for (let i = 0; i < n; i++) {
        const param = r.weighted([[3, 'true'], [3, null], [0.5, 'false'], [0.5, '1'], [0.3, '']]); const other = r.list(0, 2, () => r.pick([['id', '5'], ['q', 'a b&c'], ['utm', 'x'], ['id', '6']])); if (other.length) t.count('other-params'); const prm = [...other]; if (param !== null) prm.splice(r.int(0, prm.length), 0, ['VISUAL_EDITOR', param]); const hash = r.bool(0.2) ? '#h' : '';
        const u = HOST + r.pick(PATHS) + (prm.length ? '?' + prm.map(([k, v]) => k + '=' + encodeURIComponent(v)).join('&') : '') + hash;
        if (i === 0 || r.bool(0.3)) keep = r.weighted([[4, null], [2, JSON.stringify({ injectSrc: SRC, amplitudeWindowUrl: 'https://app.amplitude.com' })], [0.6, r.pick(['{', 'null', '""', '0', '{}', '{"injectSrc":"https://evil.com/x.js"}', '[]'])]]); if (i === 0 || r.bool(0.3)) mobileOn = r.bool(0.25);
        const opener = r.weighted([[4, 'ok'], [1, 'null'], [1, 'closed'], [1, 'throws'], [0.5, 'closed-throws']]); const frame = r.weighted([[6, null], [1, 'device'], [0.5, 'other'], [0.5, 'throws']]); const late = r.bool(0.2);
        const p = tagPage(d, { url: u, tab, seed: t.index + ':' + i, html: '<!DOCTYPE html><html><head></head><body>words<p id="out">site</p><!-- note -->more words<button id="b"></button>last words</body></html>', fetch: (q) => ({ status: 200, body: (/flags/.test(q.url) ? flags : []).map((f) => ({ ...f, metadata: { ...f.metadata, evaluationMode: 'local' } })), delay: 5 }) });
        if (keep === null) p.g.sessionStorage.removeItem('visual-editor-state'); else p.g.sessionStorage.setItem('visual-editor-state', keep); if (mobileOn) p.g.sessionStorage.setItem('amp-visual-editor-mobile-mode', 'true'); else { p.g.sessionStorage.removeItem('amp-visual-editor-mobile-mode'); if (r.bool(0.2)) { t.count('other-mobile-value'); p.g.sessionStorage.setItem('amp-visual-editor-mobile-mode', r.pick(['false', 'null', '0'])); } }
        const def = (o, k, f) => Object.defineProperty(o, k, { get: f, configurable: true }); if (opener === 'throws') def(p.g, 'opener', () => { throw new p.g.Error('denied'); }); else if (opener === 'closed-throws') { const o = p.json({}); def(o, 'closed', () => { throw new p.g.Error('opaque'); }); p.g.opener = o; } else p.g.opener = opener === 'null' ? null : p.json({ closed: opener === 'closed' });
        if (frame === 'throws') def(p.g, 'frameElement', () => { throw new p.g.Error('cross-origin'); }); else p.g.frameElement = frame === 'device' ? p.json({ id: 'amp-device-iframe' }) : frame === 'other' ? p.json({ id: 'x' }) : null;
        const doc = p.dom.window.document; let ready = !late; if (late) { t.count('late-ready'); def(doc, 'readyState', () => (ready ? 'complete' : 'interactive')); } else def(doc, 'readyState', () => 'complete');
        const errs = []; p.dom.window.addEventListener('error', (e) => { errs.push(String(e.error?.stack || e.message).slice(0, 200)); e.preventDefault?.(); }); domMutator(p); const track = recorder(p); const w = watch(p, track); let sess = null; try { sess = keep === null ? null : JSON.parse(keep); } catch { sess = null; } if (keep !== null && !sess?.injectSrc) t.count('damaged-session');
        const stored = sess !== null; const inFrame = frame === 'device' && mobileOn; const editor = !inFrame && (param === 'true' || stored); const broken = editor && opener !== 'ok'; const shell = editor && !broken && mobileOn; const ops = [];
        const det = (x) => ({ doc: i, u, at: p.url.href, keep, opener, frame, mobileOn, ops, ...x });
        let client; try { client = (await startTag(t, p, { flags, pages, wait: 0 })).client; } catch (e) { t.violation('start-threw', det({ e: String(e) })); return; }
        await p.settle(r.pick([20, 100])); if (late) { if (shell) t.check(!doc.getElementById('amp-device-iframe'), 'shell-before-ready', det({})); ready = true; } for (let k = 0; k < 60 && !client?.isRunning; k++) await p.settle(50); await p.settle(300);
        if (!t.check(client?.isRunning === true, 'never-started', det({ console: p.consoleLog.slice(0, 3) }))) { p.close(); return; }
        const mode = inFrame ? 'device-frame' : broken ? 'broken' : shell ? 'mobile' : editor ? 'editor' : 'normal'; t.count(mode); if (editor && param !== 'true') t.count('by-session'); if (broken) t.count({ null: 'opener-null', closed: 'opener-closed' }[opener] ?? 'opener-throws'); if (mode === 'normal' && edited) t.count('normal-after-editor'); if (editor) edited = true;
        t.check((p.g.ampDomMutator !== undefined) === inFrame, 'mutator-exposed', det({ mode }));
        const now = new URL(p.url.href); const was = new URL(u); const left = [...now.searchParams]; const want = editor ? prm.filter(([k]) => k !== 'VISUAL_EDITOR') : prm; t.check(canon(left) === canon(want) && now.pathname + now.hash === was.pathname + was.hash, 'address', det({ mode, left, want }));
        const banners = () => p.$$('#amp-exp-opener-severed').length; const fromSession = editor && !broken && sess?.injectSrc === SRC; if (fromSession) t.count('overlay-by-session'); const scripts = fromSession ? [SRC] : [];
        const judge = (why) => {
          const x = w.touched(); if (mode !== 'normal') t.check(none(x), 'touched-while-editing', det({ why, mode, x })); t.check(!p.$('#amp-exp-css'), 'anti-flicker-left', det({ why, mode }));
          t.check(canon(w.scripts()) === canon(scripts), 'overlay-script', det({ why, mode, got: w.scripts(), scripts }));
          const act = Object.keys(client.getActivePages()).sort(); if (mode !== 'broken' && mode !== 'device-frame') { const exp = FS.filter((f) => !where[f] || p.url.href.includes(where[f])).sort(); t.check(canon(act) === canon(exp), 'active-pages', det({ why, mode, act, exp })); if (mode === 'normal') { const on = [...p.g.__domMutator.live.values()].map((s) => s.value).sort(); t.check(canon(on) === canon(exp.map((f) => 'x' + f)), 'normal-not-applied', det({ why, on, exp })); } }
          t.evaluated(canon([mode, why, act, scripts.length, x]));
        };
        judge('start'); t.check(banners() === (broken ? 1 : 0), 'banner', det({ mode, n: banners() }));
        const ifr = doc.getElementById('amp-device-iframe'); t.check(!!ifr === shell, 'shell', det({ mode })); t.check(!!p.$('#out') === !shell, 'site-in-shell', det({ mode })); let fw = null; let foreign = false; if (shell) { t.check([...doc.body.childNodes].every((x) => x.nodeType === 1 && /^amp-/.test(x.id)) && ifr.closest('body > *')?.id === 'amp-overlay-device-iframe-container', 'shell-layout', det({})); t.check(new URL(ifr.src).pathname === was.pathname, 'frame-address', det({ src: ifr.src })); }
        const inner = (href) => { const o = { location: { href }, _l: {}, addEventListener: (k, f) => { (o._l[k] ??= []).push(f); }, history: { pushState: (s, _t, v) => { if (v != null) o.location.href = new URL(v, o.location.href).href; }, replaceState: (s, _t, v) => { if (v != null) o.location.href = new URL(v, o.location.href).href; } } }; return o; };
        for (let s = r.int(1, 6); s-- > 0;) {
          const k = r.weighted([[2, 'nav'], [2, 'message'], [1, 'event'], [1, 'time'], [broken ? 1 : 0, 'close'], [shell ? 3 : 0, 'frame-load'], [shell && fw ? 4 : 0, 'frame-nav'], [mode !== 'normal' && mode !== 'broken' && mode !== 'device-frame' ? 1 : 0, 'again']]); let arg; const href = p.url.href;
          try {
            if (k === 'nav') { arg = r.pick(PATHS) + r.pick(['', '?z=1']); p.g.history[r.pick(['pushState', 'replaceState'])]({}, '', arg); }
            else if (k === 'message') { p.win.dispatch('message', { type: 'message', origin: 'https://app.amplitude.com', source: {}, data: p.json({ type: 'OpenOverlay', context: { injectSrc: SRC + '?m', amplitudeWindowUrl: 'x' } }) }); if (editor && !broken && !scripts.length) { scripts.push(SRC + '?m'); t.count('overlay-by-message'); } else t.count('ignored-message'); }
            else if (k === 'event') client.trackEvent('Buy', p.json({ n: 1 })); else if (k === 'close') { const bs = p.$$('#amp-exp-opener-severed [data-action=close]'); if (!bs.length) continue; const b = r.pick([...bs]); p.fire(b, 'click'); t.count('banner-closed'); t.check(banners() === 0, 'banner-not-closed', det({})); }
            else if (k === 'again') await client.start();
            else if (k === 'frame-load') { foreign = r.bool(0.25); arg = HOST + r.pick(PATHS) + '?fr=' + s; if (foreign) { t.count('frame-foreign'); fw = null; const o = {}; def(o, 'location', () => { throw new p.g.Error('cross-origin'); }); def(o, 'history', () => { throw new p.g.Error('cross-origin'); }); Object.defineProperty(ifr, 'contentWindow', { value: o, configurable: true }); } else { t.count('frame-load'); fw = inner(arg); Object.defineProperty(ifr, 'contentWindow', { value: fw, configurable: true }); } Object.defineProperty(ifr, 'contentDocument', { value: foreign ? null : doc, configurable: true }); p.fire(ifr, 'load'); t.check(p.url.href === (foreign ? href : arg), 'frame-not-mirrored', det({ arg, foreign })); }
            else if (k === 'frame-nav') { t.count('frame-nav'); const st = p.json({ kept: r.int(0, 9) }); p.g.history.replaceState(st, ''); const len = p.hist.length; arg = r.pick(PATHS) + r.pick(['', '?y=2', '#k']); const m = r.pick(['pushState', 'replaceState', 'pop']); if (m === 'pop') { fw.location.href = new URL(arg, fw.location.href).href; for (const f of fw._l.popstate ?? []) f(); } else fw.history[m]({}, '', arg); t.check(p.url.href === fw.location.href && fw.location.href === new URL(arg, HOST).href, 'frame-not-mirrored', det({ arg, m, frame: fw.location.href })); t.equal(canon(p.g.history.state), canon(st), 'frame-changed-state', det({ arg, m })); t.check(p.hist.length === len, 'frame-added-history', det({ arg, m })); t.count('frame-history-kept'); }
          } catch (e) { t.violation('threw', det({ k, arg, e: String(e.stack || e).slice(0, 300) })); return; }
          ops.push([k, arg]); await p.settle(k === 'time' ? 3000 : 60); judge(k);
        }
        for (const e of d.clock.errors) t.violation('timer-threw', det({ e: String(e) })); t.check(!errs.length, 'listener-threw', det({ errs: errs.slice(0, 2) })); p.close();
      }
    } },
    { name: 'frames', quick: 300, thorough: 15000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const p = tagPage(d, { url: HOST + '/?VISUAL_EDITOR=true', seed: t.index, html: '<!DOCTYPE html><html><head></head><body><p id="out">site</p></body></html>', fetch: () => ({ status: 200, body: [] }) });
      p.g.sessionStorage.setItem('amp-visual-editor-mobile-mode', 'true'); p.g.opener = p.json({ closed: false }); p.g.frameElement = null; const w = p.dom.window; const doc = w.document; Object.defineProperty(doc, 'readyState', { get: () => 'complete', configurable: true });
      domMutator(p); const track = recorder(p); const seen = watch(p, track); const { client } = await startTag(t, p, { flags: [], pages: {} }); await p.settle(300); const ifr = doc.getElementById('amp-device-iframe'); if (!t.check(ifr && client?.isRunning, 'no-shell', {})) { p.close(); return; }
      const reach = !r.bool(0.15); if (!reach) t.count('frame-unreachable'); const fdoc = doc.implementation.createHTMLDocument('site'); fdoc.body.innerHTML = '<button id="go"><i>go</i></button><a id="hv">x</a><div id="old" style="display:none"></div>'; const tops = doc.createElement('div'); tops.id = 'overlay-shadow-host'; tops.innerHTML = fdoc.body.innerHTML; doc.body.appendChild(tops);
      const L = {}; const fw = { document: fdoc, location: { href: p.url.href }, innerHeight: 500, innerWidth: 400, get pageYOffset() { return this.scrollY; }, removeEventListener() {}, dispatchEvent() { return true; }, scrollY: 0, getComputedStyle: (e) => w.getComputedStyle(e), addEventListener: (k, f) => { (L[k] ??= []).push(f); }, history: { pushState() {}, replaceState() {} } }; Object.defineProperty(fdoc.documentElement, 'scrollHeight', { value: 1500, configurable: true }); Object.defineProperty(doc.documentElement, 'scrollHeight', { value: 1500, configurable: true });
      Object.defineProperty(ifr, 'contentDocument', { value: reach ? fdoc : null, configurable: true }); Object.defineProperty(ifr, 'contentWindow', { value: reach ? fw : null, configurable: true }); p.fire(ifr, 'load');
      const TY = { click: () => ['user_interaction', { selector: '#go', interactionType: 'click', ...(r.bool() ? { minThresholdMs: r.pick([0, 100]) } : {}) }], hover: () => ['user_interaction', { selector: '#hv', interactionType: 'hover', minThresholdMs: r.pick([0, 100]) }], appear: () => ['element_appeared', { selector: r.pick(['#new', '#old']) }], scroll: () => ['scrolled_to', { mode: 'percent', percentage: 40 }], exit: () => ['exit_intent', {}] };
      const ops = []; const det = (x) => ({ reach, ops, ...x });
      for (let rounds = r.int(1, 3); rounds-- > 0;) {
        const kinds = r.subset(Object.keys(TY), 0.5); if (!kinds.length) kinds.push('click'); const pages = {}; const hit = new Set(); const val = {}; for (const k of kinds) { const [type, value] = TY[k](); val[k] = value; pages['f' + k] = { ['p' + k]: page('p' + k, { type, value }) }; } ops.push(['pages', val]);
        for (const x of [doc, fdoc]) { x.querySelector('#new')?.remove(); x.querySelector('#old').style.display = 'none'; } fw.scrollY = 0; p.g.scrollY = 0; await p.settle(700); client.setPageObjects(p.json(pages)); await p.settle(700);
        for (let s = r.int(2, 7); s-- > 0;) {
          const k = r.pick([...kinds, ...Object.keys(TY)]); const inner = r.bool(); const x = inner ? fdoc : doc; let sel = null;
          if (k === 'click') p.fire(r.pick([x.querySelector('#go'), x.querySelector('#go i')]), 'click'); else if (k === 'hover') p.fire(x.querySelector('#hv'), 'mouseover'); else if (k === 'exit') p.fire(x, 'mouseleave', { bubbles: false, clientY: 1, relatedTarget: null }); else if (k === 'appear') { sel = r.pick(['#new', '#old']); if (sel === '#old') x.querySelector('#old').style.display = 'block'; else if (!x.querySelector('#new')) { const e = x.createElement('div'); e.id = 'new'; (inner ? x.body : tops).appendChild(e); } } else if (inner) { fw.scrollY = 600; for (const f of L.scroll ?? []) f({}); } else { p.g.scrollY = 600; p.win.dispatch('scroll', { type: 'scroll' }); }
          ops.push([k, inner ? 'frame' : 'outer', sel]); await p.settle(k === 'hover' ? 400 : 700); if (k === 'hover') p.fire(x.querySelector('#hv'), 'mouseout', { relatedTarget: null }); await p.settle(300);
          if (inner === reach) { t.count('frame-' + k); if (kinds.includes(k) && (k !== 'appear' || val.appear.selector === sel)) hit.add('f' + k); } else t.count('outer-action'); const act = Object.keys(client.getActivePages()).sort(); const want = [...hit].sort(); t.equal(act, want, 'active-pages-of-frame', det({ k, inner })); if (act.length && reach) t.count('frame-activated'); t.check(none(seen.touched()), 'touched-while-editing', det({ x: seen.touched() })); t.evaluated(canon([val, act, k, inner]));
        }
      }
      for (const e of d.clock.errors) t.violation('timer-threw', det({ e: String(e) })); p.close();
    } },
  ],
};
