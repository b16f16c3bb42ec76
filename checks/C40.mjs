import { Device } from '../lib/env.mjs';
import { canon, clone, turn } from '../lib/util.mjs';
import { TAG, tagPage, startTag, recorder, flag, page } from '../lib/tag.mjs';
const HTML = `<!DOCTYPE html><html><head></head><body>
<div id="e0" class="a" data-top="100" data-h="100"><span id="e1" class="a b">x</span></div>
<div id="e2" class="b" style="display:none"></div><div id="e3" class="c" style="visibility:hidden"></div>
<div id="v0" class="vis" data-top="1000" data-h="200"></div><div id="v1" class="vis" data-top="300" data-h="1000"></div><div id="v2" data-top="2600" data-h="100"></div><div id="v3" data-top="0" data-h="50"></div>
<div class="card" id="card"><button class="cta" id="btn"><i id="ico"></i></button><input id="inp" class="cta field"></div>
<div class="hv" id="h0"><div class="hv" id="h1"><p id="h2"></p></div></div><p id="out"></p><div id="wr"><p class="deep"></p><i id="sg"></i></div><p class="next"></p><p class="later"><b class="in"></b></p></body></html>`;
const APPEAR = ['.a', '#e2', '.b', '.c', '.dyn', '.dyn.on', 'div > .dyn', '.open .deep', '.open + .next', '.open ~ .later', '.open ~ .later .in', '#wr:has(.flag)', '#wr i:empty', '[[bad', '#never'];
const VISIBLE = ['#v0', '.vis', '#v2', '#v3', '#vdyn', '#v1'];
const ACT = ['.cta', '#btn', '.card', '.hv', '#h1', '#inp', 'button', '#out', '[[bad', '#never'];
const TARGETS = ['#btn', '#ico', '#inp', '#card', '#h0', '#h1', '#h2', '#out'];
const URLS = ['https://www.example.com/', 'https://www.example.com/shop', 'https://www.example.com/shop?p=1', 'https://www.example.com/cart#x', 'https://www.example.com/cart', 'https://www.example.com/other'];
const cond = (r) => { const c = { selector: ['context', 'page', 'url'], op: r.pick(['contains', 'does not contain', 'regex match', 'is']), values: [r.pick(['/shop', '/cart', 'example', '^https://www.example.com/(shop)?$', URLS[r.int(0, 5)]])] }; if (c.op !== 'regex match' && c.values[0].startsWith('^')) c.values = ['/shop']; if (c.op === 'regex match') c.values = ['example.com/(shop|cart)']; return c; };
const holds = (c, u) => { const v = c.values[0]; return { contains: u.toLowerCase().includes(v.toLowerCase()), 'does not contain': !u.toLowerCase().includes(v.toLowerCase()), 'regex match': new RegExp(v).test(u), is: u === v }[c.op]; };
export const urlOk = (pg, u) => !pg.conditions || !pg.conditions.length || pg.conditions.some((g) => g.every((c) => holds(c, u)));
const event = (r) => { const g = r.list(1, 2, () => [{ selector: ['context', 'data', 'event'], op: 'is', values: [r.pick(['Buy', 'View', 'constructor'])] }, ...(r.bool(0.4) ? [{ selector: ['context', 'data', 'properties', 'n'], op: 'is', values: [String(r.int(0, 2))] }] : [])]); return g; };
const evOk = (v, e) => v.some((g) => g.every((c) => (c.selector[2] === 'event' ? e.event === c.values[0] : e.properties && e.properties.n !== undefined && String(e.properties.n) === c.values[0])));
export const TYPES = ['url_change', 'manual', 'element_appeared', 'element_visible', 'user_interaction', 'exit_intent', 'time_on_page', 'scrolled_to', 'analytics_event'];
function value(r, type, focus) {
  switch (type) {
    case 'manual': return { name: r.pick(['m1', 'm2', 'constructor']) };
    case 'element_appeared': return { selector: r.pick(APPEAR) };
    case 'element_visible': return { selector: r.pick(VISIBLE), ...(r.bool(0.6) ? { visibilityRatio: r.pick([0, 0.25, 0.5, 1]) } : {}) };
    case 'user_interaction': return { selector: r.pick(focus === 'hover' ? [...ACT, '.hv', '.hv', '.hv', '#h1'] : ACT), interactionType: focus || r.pick(['click', 'hover', 'focus']), ...(r.bool(0.7) ? { minThresholdMs: r.pick([0, 100, 1000]) } : {}) };
    case 'exit_intent': return r.bool(0.7) ? { minTimeOnPageMs: r.pick([0, 500, 3000]) } : {};
    case 'time_on_page': return { durationMs: r.pick([500, 1000, 3000]) };
    case 'scrolled_to': return r.bool(0.5) ? { mode: 'percent', percentage: r.pick([10, 50, 75, 100]) } : { mode: 'element', selector: r.pick(VISIBLE), ...(r.bool(0.6) ? { offsetPx: r.pick([0, 100, -100, 400]) } : {}) };
    case 'analytics_event': return event(r);
    default: return {};
  }
}
const SLOW = 260; // mutation debounce (100, at most 200 ms) and frames
const ids = (o) => Object.entries(o).flatMap(([f, ps]) => Object.values(ps).filter(Boolean).map((x) => f + '/' + x.id)).sort();
/** Random page objects driven through navigations, interactions, DOM changes and time; also used with further monitors attached (opt). */
export async function pagesRun(t, opt = {}) {
      const r = t.rng; const d = new Device({ seed: t.index }); const H = r.bool(0.9) ? 4800 : 800; const p = tagPage(d, { url: opt.url?.(r) ?? r.pick(URLS), html: HTML, seed: t.index, scrollHeight: H, ...(opt.page ?? {}) }); if (r.bool(0.1)) p.hidden = true; recorder(p); opt.setup?.(p, r);
      const kinds = opt.kinds ? opt.kinds(r) : r.bool(0.5) ? r.subset(TYPES, 0.5) : [r.pick(TYPES), 'url_change']; const focus = r.bool(opt.everywhere ? 0.7 : 0.4) ? r.pick(['click', 'hover', 'focus']) : null; const pages = {}; const flags = []; const all = [];
      const FS = ['f1', 'f2', 'f3'].slice(0, r.int(1, 3)); for (const f of FS) flags.push(flag(f, { payloads: { treatment: opt.payload ? opt.payload(r, f) : r.bool() ? [{ action: 'mutate', data: { mutations: [{ selector: '#out', action: 'set', attribute: 'html', value: 'x' }] } }] : [] } })); const gen = () => { for (const f of FS) { pages[f] = {}; for (let i = r.int(1, 4); i-- > 0;) { const type = r.pick(kinds.length ? kinds : TYPES); const pg = page(r.pick(['A', 'B', 'C']) + i + (r.bool(0.2) ? '' : f), { type, name: r.bool(0.3) ? 'Home' : undefined, value: value(r, type, focus), conditions: r.bool(opt.everywhere ? 0.1 : 0.5) ? r.list(1, 2, () => [cond(r)]) : r.pick([undefined, []]) }); const same = Object.values(pages).map((x) => x[pg.id]).find(Boolean); pages[f][pg.id] = same ?? pg; } } all.length = 0; for (const f in pages) for (const k in pages[f]) all.push({ f, pg: pages[f][k], id: f + '/' + k }); }; gen();
      // half of the runs favour the steps that bear on one kind of page, and a few neighbouring elements
      const boost = r.bool(0.6) ? { manual: ['manual'], element_appeared: ['dom'], element_visible: ['scroll', 'layout', 'dom'], user_interaction: focus ? [focus, focus, 'time'] : ['click', 'hover', 'focus'], exit_intent: ['exit', 'time'], time_on_page: ['time', 'hide'], scrolled_to: ['scroll', 'layout', 'dom'], analytics_event: ['event'] }[r.pick(kinds.length ? kinds : TYPES)] : null;
      const near = r.bool(0.5) ? r.pick([...(focus === 'hover' ? [['#h0', '#h2'], ['#h0', '#h2'], ['#h0', '#h1', '#h2']] : []), ['#btn', '#ico', '#card'], ['#h0', '#h1', '#h2'], ['#h0', '#h2', '#out'], ['#inp', '#btn', '#out']]) : TARGETS;
      // model
      const now = () => d.clock.now; const w = p.dom.window; let nav = now(); let init = now(); const st = new Map(); let visibleSince = p.hidden ? Infinity : now(); const hover = new Map(); const manual = new Set(); const ops = []; const timers = [];
      const disp = (sel) => { try { return p.$$(sel).some((e) => { const s = w.getComputedStyle(e); return s.display !== 'none' && s.visibility !== 'hidden'; }); } catch { return false; } };
      const seen = (sel, m, ratio) => { try { return p.$$(sel).some((e) => { const v = p.seen(e, m); return v.on && v.ratio >= ratio; }); } catch { return false; } };
      const state = (x) => { const { pg } = x; const v = pg.trigger_value; switch (pg.trigger_type) { case 'element_appeared': return disp(v.selector); case 'element_visible': return seen(v.selector, 0, v.visibilityRatio ?? 0); case 'scrolled_to': return v.mode === 'element' ? seen(v.selector, v.offsetPx || 0, 0) : null; default: return null; } };
      // per page: may = the trigger may have occurred since the navigation, must = it has; since: the observed state holds from then on
      let busy = null; let hiddenNav = p.hidden; const reset = () => { nav = now(); hiddenNav = p.hidden; manual.clear(); timers.length = 0; st.clear(); hover.clear(); if (!p.hidden) visibleSince = now(); for (const x of all) st.set(x.id, { may: false, must: false, since: null }); observe(true); };
      const observe = (atNav) => { for (const x of all) { const s = st.get(x.id); const on = state(x); if (on === null) continue; if (on) { s.may = true; if (s.since === null) s.since = now(); if (now() - s.since >= SLOW || (atNav && x.pg.trigger_type === 'element_appeared')) s.must = true; } else s.since = null; } };
      const tick = () => { for (const x of all) { const s = st.get(x.id); const v = x.pg.trigger_value; if (x.pg.trigger_type === 'time_on_page') { if (hiddenNav && now() - nav >= v.durationMs) s.may = true; if (!p.hidden && now() - Math.max(nav, visibleSince) >= v.durationMs) s.may = s.must = true; } } for (const z of timers) if (z.at <= now() && !z.dead && !z.done) { z.done = true; const s = st.get(z.id); s.may = s.must = true; } observe(); };
      const must = (x) => { const s = st.get(x.id); s.may = s.must = true; };
      const time = async (ms) => { const end = now() + ms; while (now() < end) { const next = Math.min(end, now() + 20); await d.clock.advance(next - now()); tick(); } await turn(); };
      reset(); const started = await startTag(t, p, { flags, pages, wait: 0, config: r.bool(0.2) ? { redirectConfig: { encodeRedirectInCookie: false } } : {} }); const client = started.client; await time(300); for (let i = 0; i < 20 && !client.isRunning; i++) await time(100);
      if (!t.check(client.isRunning, 'never-started', { console: p.consoleLog.slice(0, 3) })) return;
      const told = []; let threw = 0; if (r.bool(0.3)) client.addPageChangeSubscriber(() => { threw++; throw new p.g.Error('page handler failed'); });
      let before = ids(client.getActivePages()); let last = before; client.addPageChangeSubscriber((e) => { told.push(ids(e.activePages)); });
      const also = opt.started ? await opt.started({ client, p, r, d, all, pages, flags, now, time, since: () => nav }) : null;
      const judge = (why) => {
        const got = ids(client.getActivePages()); const u = p.url.href;
        for (const x of all) { const s = st.get(x.id); const ty = x.pg.trigger_type; const on = got.includes(x.id); if (!urlOk(x.pg, u)) { t.count('url-mismatch'); t.check(!on, 'active-on-other-url', { why, page: x.pg, u, ops: ops.slice(-8) }); continue; }
          const may = ty === 'url_change' ? true : ty === 'manual' ? manual.has(x.pg.trigger_value.name) : s.may; const mst = ty === 'url_change' ? true : ty === 'manual' ? may : s.must;
          if (on) t.count('active:' + ty); else t.count('inactive:' + ty);
          if (mst) t.check(on, 'not-active:' + ty, { why, page: x.pg, u, ops: ops.slice(-12), t: now() - nav }); else if (!may) t.check(!on, 'active-without-trigger:' + ty, { why, page: x.pg, u, ops: ops.slice(-12), t: now() - nav }); }
        t.check(got.every((i) => all.some((x) => x.id === i)), 'unknown-page', { got });
        if (why !== 'start') { for (const s of told) { t.check(canon(s) !== canon(last), 'told-twice', { why, s, ops: ops.slice(-8) }); last = s; } if (told.length) t.count('notified'); else t.count('quiet'); t.check(canon(last) === canon(got), 'not-told', { why, last, got, threw, ops: ops.slice(-8) }); }
        told.length = 0; before = got; also?.(why, got, ops); t.evaluated(canon([why, got]));
      };
      judge('start'); const n = r.int(6, opt.steps ?? 18);
      const leave = (to) => { for (const [k, h] of hover) if (!h.el.contains(to)) { h.timer.dead = true; hover.delete(k); t.count('hover-left'); } };
      const enter = (type, el) => { for (const x of all) { const v = x.pg.trigger_value; if (x.pg.trigger_type !== 'user_interaction' || v.interactionType !== type) continue; let a = null; try { a = el.closest(v.selector); } catch { continue; } for (; a; a = a.parentElement?.closest(v.selector)) { const k = type + x.id + a.id; if (hover.has(k)) continue; const timer = { id: x.id, at: now() + (v.minThresholdMs || 0) }; timers.push(timer); hover.set(k, { el: a, timer }); } } tick(); };
      let at = null; let focused = null;
      for (let i = 0; i < n; i++) {
        const k = r.bool(boost ? (opt.everywhere ? 0.8 : 0.5) : 0) ? r.pick(boost) : r.weighted([[2, 'nav'], [0.7, 'back'], [0.4, 'same'], [2, 'click'], [2.5, 'hover'], [1.5, 'focus'], [1.5, 'exit'], [3, 'time'], [2, 'scroll'], [1.5, 'manual'], [2, 'event'], [2, 'dom'], [1, 'hide'], [0.5, 'layout'], ...(opt.repage ? [[2, 'pages']] : [])]); let arg;
        try {
          if (k === 'nav') { arg = r.pick(URLS); const f = r.pick(['pushState', 'replaceState']); if (arg !== p.url.href) { t.count('nav'); if (before.length) t.count('nav-reset'); p.g.history[f]({}, '', arg); at = null; focused = null; reset(); } else { t.count('same-url'); p.g.history[f]({}, '', arg); } }
          else if (k === 'back') { const u = p.url.href; const i0 = p.histIdx; if (p.histIdx > 0) { p.go(-1); if (p.url.href !== u) { t.count('history-back'); at = null; focused = null; reset(); } } else arg = i0; }
          else if (k === 'same') { t.count('same-url'); p.g.history.replaceState({ x: 1 }, '', p.url.href); }
          else if (k === 'click') { const el = p.$(arg = r.pick(near)); p.fire(el, 'click'); for (const x of all) { const v = x.pg.trigger_value; if (x.pg.trigger_type !== 'user_interaction' || v.interactionType !== 'click') continue; try { if (!el.closest(v.selector)) continue; } catch { continue; } timers.push({ id: x.id, at: now() + (v.minThresholdMs || 0) }); } tick(); }
          else if (k === 'hover') { const to = r.bool(0.15) ? null : p.$(arg = r.pick(near)); if (to === at) continue; if (at) { p.fire(at, 'mouseout', { relatedTarget: to }); for (const [q, h] of hover) if (q.startsWith('hover') && (!to || !h.el.contains(to))) { h.timer.dead = !h.timer.done; hover.delete(q); t.count('hover-left'); } } if (to) { p.fire(to, 'mouseover', { relatedTarget: at }); enter('hover', to); } at = to; }
          else if (k === 'focus') { const to = r.bool(0.15) ? null : p.$(arg = r.pick(['#btn', '#inp', '#h2'])); if (to === focused) continue; if (focused) { p.fire(focused, 'focusout', { relatedTarget: to }); for (const [q, h] of hover) if (q.startsWith('focus') && (!to || !h.el.contains(to))) { h.timer.dead = !h.timer.done; hover.delete(q); } } if (to) { p.fire(to, 'focusin', { relatedTarget: focused }); enter('focus', to); } focused = to; }
          else if (k === 'exit') { const y = r.pick([-1, 0, 50, 51, 300]); const rel = r.bool(0.2) ? p.$('#out') : null; arg = [y, !!rel]; w.document.dispatchEvent(new w.MouseEvent('mouseleave', { clientY: y, relatedTarget: rel })); if (y <= 50 && !rel) for (const x of all) if (x.pg.trigger_type === 'exit_intent' && now() - nav >= (x.pg.trigger_value.minTimeOnPageMs ?? 0)) must(x); }
          else if (k === 'time') { arg = r.pick([50, 100, 300, 500, 1000, 3000]); await time(arg); }
          else if (k === 'scroll' || k === 'layout') { if (k === 'layout') { const el = p.$(r.pick(['#v0', '#v1', '#v2'])); el.setAttribute('data-top', String(r.pick([0, 700, 900, 1500, 3000]))); arg = [el.id, el.getAttribute('data-top')]; p.frame(); } else { arg = H === 4800 ? r.pick([0, 200, 399, 400, 1000, 1999, 2000, 3001, 4000]) : 0; p.scrollTo(arg); for (const x of all) if (x.pg.trigger_type === 'scrolled_to' && x.pg.trigger_value.mode === 'percent') { if (arg / 40 >= x.pg.trigger_value.percentage) must(x); } } }
          else if (k === 'manual') { const nm = r.pick(['m1', 'm2', 'constructor']); const on = r.bool(0.7); arg = [nm, on]; if (on) manual.add(nm); else manual.delete(nm); if (on && r.bool()) client.toggleManualPageObject(nm); else client.toggleManualPageObject(nm, on); }
          else if (k === 'event') { const e = { event: r.pick(['Buy', 'View', 'constructor', 'x']), properties: r.pick([{}, { n: r.int(0, 3) }, undefined]) }; arg = e; for (const x of all) if (x.pg.trigger_type === 'analytics_event' && urlOk(x.pg, p.url.href) && evOk(x.pg.trigger_value, { event: e.event, properties: e.properties })) must(x); client.trackEvent(e.event, e.properties && p.json(e.properties)); }
          else if (k === 'dom') { arg = all.some((x) => x.pg.trigger_value?.selector === '#vdyn') && r.bool(0.5) ? 'vdyn' : r.pick(['add', 'add', 'remove', 'on', 'show', 'hide', 'unhide', 'vdyn', 'many', 'open', 'open', 'flag', 'fill', ...(opt.busy ? ['busy', 'busy'] : [])]); const b = w.document.body; const mk = (tag, o) => { const e = w.document.createElement(tag); Object.entries(o).forEach(([a, v]) => e.setAttribute(a, v)); return e; };
            if (arg === 'busy') { t.count('busy-site'); if (busy) { p.g.clearInterval(busy); busy = null; } else busy = p.g.setInterval(() => { p.$('#e1').classList.toggle('q'); }, r.pick([20, 40, 60])); } else if (arg === 'add') { const e = mk('div', { class: 'dyn', ...(r.bool(0.3) ? { style: 'display:none' } : {}) }); (r.bool() ? b : p.$('#e0')).appendChild(r.bool(0.3) ? (() => { const o = mk('section', {}); o.appendChild(e); return o; })() : e); } else if (arg === 'remove') p.$('.dyn')?.remove(); else if (arg === 'on') p.$('.dyn')?.classList.toggle('on'); else if (arg === 'show') { const e = p.$(r.pick(['#e2', '#e3'])); e.setAttribute('style', ''); } else if (arg === 'hide') p.$(r.pick(['#e0', '#e1', '#e2'])).style.display = 'none'; else if (arg === 'unhide') { const e = p.$('.dyn'); if (e) e.style.display = ''; } else if (arg === 'vdyn') { const o = p.$('#vdyn'); if (o) o.remove(); else b.appendChild(mk('div', { id: 'vdyn', 'data-top': String(r.pick([10, 900, 2500])), 'data-h': '100' })); } else if (arg === 'open') { t.count('by-relative'); p.$('#wr').classList.toggle('open'); } else if (arg === 'flag') p.$('#sg').classList.toggle('flag'); else if (arg === 'fill') { const e = p.$('#sg'); e.textContent = e.textContent ? '' : 'x'; } else for (let j = r.pick([5, 1100]); j-- > 0;) { p.$('#e1').classList.toggle('q'); } p.frame(); observe(); }
          else if (k === 'pages') { t.count('page-objects-replaced'); gen(); arg = all.map((x) => [x.id, x.pg.trigger_type]); client.setPageObjects(p.json(clone(pages))); at = null; focused = null; reset(); }
          else if (k === 'hide') { t.count('hidden'); const h = !p.hidden; arg = h; p.hide(h); visibleSince = h ? Infinity : now(); }
        } catch (e) { t.violation('threw', { k, arg, e: String(e.stack || e).slice(0, 300), ops: ops.slice(-8) }); return; }
        ops.push([k, arg, now() - nav]); await time(k === 'time' ? 0 : r.pick(opt.lull ?? [40, 40, 60, 300])); await turn(); await turn(); if (opt.calm) await time(opt.calm); judge(k);
      }
      if (threw) t.count('subscriber-threw');
      p.close();
}
export default {
  property: 'C40', bundles: { tag: TAG }, 
  rule: 'the whole tag runs in a page with a DOM, a layout and a faithful IntersectionObserver; random page objects of every trigger type are driven by navigations, DOM changes, scrolling, clicks, hovering, focus, leaving the window, time, tab hiding, manual toggles and analytics events. After every step the set of active pages is compared with a model that knows, per page, whether its trigger must have occurred since the last navigation, cannot have, or is still inside the debounce window. Page change subscribers (one of which may throw) must have been told the current set, and nothing twice in a row. Non-trivial = distinct judged (step, active set).',
  requires: [...TYPES.map((x) => 'active:' + x), ...TYPES.slice(1).map((x) => 'inactive:' + x), 'nav', 'nav-reset', 'url-mismatch', 'notified', 'quiet', 'hover-left', 'hidden', 'subscriber-threw', 'history-back', 'same-url', 'by-relative'],
  workloads: [
    { name: 'pages', quick: 1000, thorough: 40000, run: (t) => pagesRun(t) },
    { name: 'interactions', quick: 400, thorough: 15000, run: (t) => pagesRun(t, { everywhere: true, kinds: () => ['user_interaction'], steps: 30, lull: [50, 100, 300, 500] }) },
    { name: 'elements', quick: 300, thorough: 12000, run: (t) => pagesRun(t, { everywhere: true, kinds: (r) => r.pick([['element_appeared'], ['element_appeared'], ['element_visible'], ['scrolled_to']]), steps: 24, busy: true }) },
    { name: 'moments', quick: 200, thorough: 10000, run: (t) => pagesRun(t, { everywhere: true, kinds: (r) => r.pick([['time_on_page'], ['exit_intent'], ['manual', 'url_change'], ['analytics_event']]), steps: 24 }) },
  ],
};
