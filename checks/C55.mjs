import { Device } from '../lib/env.mjs';
import { canon, turn } from '../lib/util.mjs';
import { TAG, tagPage, startTag, recorder, flag, page, url as urlIs } from '../lib/tag.mjs';
const HOST = 'https://www.example.com'; const PARENTS = ['.p1', '.p2', '#root .p1']; const BEFORE = [null, null, '.s1', '.s2'];
export default {
  property: 'C55', bundles: { tag: TAG },
  rule: 'the whole tag injects code that uses its helpers (insertElement with random parents and siblings, with and without callback, its own or the variant\'s HTML; waitForElement), at once or later, while the page adds, removes, moves and renames parents, siblings and inserted elements, fights the insertion by removing it every time, changes unrelated things in bursts, lets time pass and navigates so that the injection ends and begins again. An independent observer of the document counts what is added; after every step each element of a living injection must be where it belongs unless it was inserted ten times in the last second, callbacks and promises must agree with what was added, nothing is added for an ended injection, and the mutations of other experiments are never left paused. Non-trivial = distinct judged (operation, document, insertions)',
  requires: ['insert', 'wait', 'at-once', 'when-parent-appears', 'when-sibling-appears', 'waiting-for-sibling', 'reinserted', 'before-sibling', 'as-last', 'rate-limited', 'after-limit', 'burst', 'fought', 'moved-by-page', 'by-class', 'callback', 'own-element', 'variant-html', 'ended', 'ended-not-inserted', 'ended-not-resolved', 'called-after-end', 'begun-again', 'wait-at-once', 'wait-later', 'wait-for-inserted', 'awaited-by-class', 'nested-sibling', 'failing-injection', 'two-injections', 'subtree'],
  workloads: [{ name: 'insertions', quick: 900, thorough: 40000, async run(t) {
    const r = t.rng; const d = new Device({ seed: t.index }); const nInj = r.int(1, 2); const flags = []; const pages = {}; const defs = {}; const ops = [];
    for (let i = 0; i < nInj; i++) { const id = `aaaaaaaa-0000-4000-8000-00000000000${i}`; const key = 'f' + i; flags.push(flag(key, { payloads: { treatment: [{ action: 'inject', data: { id, js: `window.__injected('${key}', html, utils, id)`, ...(r.bool(0.8) ? { html: `<b class="ins ins${i}">x<i>y</i></b>` } : {}) } }] } })); pages[key] = { ['p' + key]: page('p' + key, { conditions: r.bool(0.8) ? [[urlIs('contains', '/shop')]] : undefined }) }; defs[key] = { scoped: !!pages[key]['p' + key].conditions, plan: r.list(0, 3, () => r.weighted([[4, 'insert'], [1.5, 'wait']])), fails: r.bool(0.1) }; }
    if (nInj > 1) t.count('two-injections');
    const p = tagPage(d, { url: HOST + r.pick(['/shop', '/shop', '/']), seed: t.index, html: '<!DOCTYPE html><html><head></head><body><div id="root"></div><div id="other"></div></body></html>', fetch: () => ({ status: 200, body: '{}' }) });
    recorder(p, { user: { user_id: 'u', device_id: 'd' } }); p.g.__domMutator = p.eval('({ live: new Map(), events: [], fail: null })'); const w = p.dom.window; const doc = w.document; const root = doc.getElementById('root'); const other = doc.getElementById('other');
    const head = doc.head; const append = head.appendChild.bind(head); head.appendChild = (n) => { const x = append(n); if (n.tagName === 'SCRIPT' && n.textContent) p.eval(n.textContent); return x; };
    const lives = []; const inserts = []; const waits = []; let fight = false; let budget = 0; let uncaught = 0; w.addEventListener('error', (e) => { uncaught++; e.preventDefault?.(); });
    const target = (x) => { let par; try { par = doc.querySelector(x.parent); } catch { return null; } if (!par) return null; if (!x.before) return { par, sib: null }; const all = [...par.querySelectorAll(x.before)]; const sib = [...par.children].find((e) => all.includes(e)); return sib ? { par, sib, nested: all[0] !== sib } : null; };
    const inDoc = (e) => e.isConnected && e.ownerDocument === doc; const mine = new Set(); // adds made by the page itself
    const insert = (life, late) => {
      const own = !life.html || r.bool(0.4); if (!own && inserts.some((y) => y.el === life.html)) return; const el = own ? doc.createElement('em') : life.html; if (own) el.className = 'ins'; t.count(own ? 'own-element' : 'variant-html');
      const x = { n: inserts.length, life, el, parent: r.pick(PARENTS), before: r.pick(BEFORE), adds: 0, cbs: 0, times: [], done: false, failed: false, cb: r.bool(0.75), bad: null, had: false, why: '' }; const first = target(x);
      x.dead = life.ended; if (x.dead) t.count('called-after-end'); inserts.push(x); t.count('insert'); if (x.cb) t.count('callback');
      const cb = () => { x.cbs++; const tt = { par: el.parentNode, next: el.nextSibling }; const want = target(x); if (!want || tt.par !== want.par || (x.before ? tt.next !== want.sib : tt.next !== null)) x.bad = { at: tt.par?.className, next: tt.next?.className ?? null }; };
      const q = life.utils.insertElement(el, p.json({ parentSelector: x.parent, insertBeforeSelector: x.before }), x.cb ? cb : undefined); q.then(() => { x.done = true; }, () => { x.failed = true; });
      if (!x.dead && first) { t.count('at-once'); t.check(inDoc(el) && el.parentNode === first.par && (first.sib ? el.nextSibling === first.sib : el.nextSibling === null), 'not-inserted-at-once', det({ x: show(x) })); }
    };
    const wait = (life) => { const sel = r.pick(['.p1', '.p2', '.s1', '.p1 .s2', '.ins', '.never']); const now = doc.querySelector(sel); const x = { sel, life, got: null, done: false, dead: life.ended, now: !!now, n: waits.length }; waits.push(x); t.count('wait'); if (/ins/.test(sel)) t.count('wait-for-inserted'); if (x.dead) t.count('called-after-end'); life.utils.waitForElement(sel).then((e) => { x.got = e; x.done = true; x.when = { ended: life.ended, matches: !!e?.matches?.(sel) }; if (!x.dead && now && e !== now && e !== undefined) x.when.other = true; }); };
    p.g.__injected = (key, html, utils, id) => { const life = { key, html, utils, id, ended: false, n: lives.length }; if (lives.some((l) => l.key === key)) t.count('begun-again'); t.check(!lives.some((l) => l.key === key && !l.ended), 'injected-twice', { key }); lives.push(life); const keep = r.bool(); utils.remove = () => { life.ended = true; t.count('ended'); if (!keep) for (const x of inserts) if (x.life === life) { x.el.remove(); x.had = false; } }; for (const k of defs[key].plan) (k === 'insert' ? insert : wait)(life); if (defs[key].fails) { t.count('failing-injection'); throw new p.g.Error('injected code failed'); } };
    const show = (x) => ({ n: x.n, parent: x.parent, before: x.before, adds: x.adds, cbs: x.cbs, done: x.done, in: inDoc(x.el), ended: x.life.ended, limit: recent(x), bad: x.bad }); const recent = (x) => x.times.filter((s) => s > p.clock.now - 1000).length;
    const det = (o) => ({ at: p.url.href, t: p.clock.now, doc: doc.body.innerHTML.slice(0, 300), ops: ops.slice(-6), all: inserts.map(show), ...o });
    for (const f of ['insertBefore', 'appendChild']) { const was = w.Node.prototype[f]; w.Node.prototype[f] = function (n, ...z) { const x = inserts.find((y) => y.el === n); if (x && !mine.has(n) && inDoc(n)) t.violation('inserted-although-there', det({ x: show(x) })); return was.call(this, n, ...z); }; }
    const watcher = new w.MutationObserver((rs) => { for (const m of rs) for (const n of m.addedNodes) { const x = inserts.find((y) => y.el === n); if (!x) continue; if (mine.has(n)) { mine.delete(n); continue; } x.adds++; x.times.push(p.clock.now); if (x.dead || x.life.ended) x.late = true; } if (fight) for (const x of inserts) if (budget > 0 && x.el.isConnected && x.el.ownerDocument === doc) { budget--; x.el.remove(); x.had = false; t.count('fought'); } });
    watcher.observe(doc, { childList: true, subtree: true }); const flush = async () => { for (let i = 0; i < 4; i++) await turn(); };
    const judge = (why) => {
      const on = lives.filter((l) => !l.ended).map((l) => l.key).sort(); const want = running ? Object.keys(defs).filter((k) => !reverted && (!defs[k].scoped || p.url.href.includes('/shop'))).sort() : on; t.equal(on, want, 'injections-living', det({ why }));
      let paused = 0; for (const e of p.g.__domMutator.events) { if (e.op === 'pause') paused = 1; else if (e.op === 'resume') paused = 0; } t.check(!paused, 'left-paused', det({ why }));
      for (const x of inserts) {
        t.check(!x.bad, 'wrong-place', det({ why, x: show(x) })); if (x.cb) t.check(x.cbs === x.adds, 'callbacks', det({ why, x: show(x) })); if (x.adds) t.count(x.before ? 'before-sibling' : 'as-last');
        for (let i = 10; i < x.times.length; i++) t.check(x.times[i] - x.times[i - 10] >= 1000, 'too-often', det({ why, x: show(x), times: x.times.slice(i - 11, i + 1) }));
        t.check(!x.late, 'inserted-after-end', det({ why, x: show(x) })); const tt = target(x); const dead = x.dead || x.life.ended;
        if (tt?.nested || (!tt && x.before && doc.querySelector(x.parent)?.querySelector(x.before))) t.count('nested-sibling'); t.check(!x.failed && x.done === x.adds > 0, 'promise', det({ why, x: show(x) }));
        if (dead) { if (!inDoc(x.el) && tt) t.count('ended-not-inserted'); continue; }
        if (x.before && !tt && doc.querySelector(x.parent)) { t.count('waiting-for-sibling'); x.waited = 'sibling'; } else if (!tt) x.waited ??= 'parent';
        if (inDoc(x.el)) { if (x.adds && x.waited && !x.told) { x.told = true; t.count(x.waited === 'sibling' ? 'when-sibling-appears' : 'when-parent-appears'); } if (x.adds > 1) t.count('reinserted'); if (x.limited) { t.count('after-limit'); x.limited = false; } }
        else if (tt) { if (recent(x) >= 10) { t.count('rate-limited'); x.limited = true; } else t.violation('not-inserted', det({ why, x: show(x) })); }
      }
      for (const x of waits) { const e = doc.querySelector(x.sel); if (x.done) { if (!t.check(x.when.matches && !x.when.other && !(x.when.ended && !x.now), 'resolved-wrongly', det({ why, w: [x.sel, x.when, x.now] }))) continue; t.count(x.now ? 'wait-at-once' : 'wait-later'); t.check(!x.dead, 'resolved-after-end', det({ why, w: x.sel })); } else if (x.dead || x.life.ended) { if (e) t.count('ended-not-resolved'); } else t.check(!e, 'not-resolved', det({ why, w: x.sel })); }
      t.evaluated(canon([why, doc.body.innerHTML, p.url.pathname, inserts.map(show)]));
    };
    let running = false; let reverted = false; const early = r.bool(0.6); const mk = (c) => { const e = doc.createElement('div'); e.className = c; return e; };
    const addParent = () => { const e = mk(r.pick(['p1', 'p2'])); if (r.bool(0.5)) e.appendChild(mk(r.pick(['s1', 's2', 'c']))); if (r.bool(0.1)) { const q = mk('c'); q.appendChild(mk('s1')); e.insertBefore(q, e.firstChild); } if (r.bool(0.2)) { const q = mk('wrap'); q.appendChild(e); t.count('subtree'); r.pick([root, doc.body]).appendChild(q); } else { const at = r.pick([root, doc.body]); at.insertBefore(e, r.bool() ? at.firstChild : null); } };
    if (early) for (let k = r.int(1, 2); k-- > 0;) addParent();
    const { client } = await startTag(t, p, { flags, pages }); await flush(); if (!t.check(client?.isRunning, 'never-started', { console: p.consoleLog.slice(0, 3) })) return; running = true; judge('start');
    for (let i = 0, n = r.int(4, 16); i < n; i++) {
      const k = r.weighted([[3, 'add-parent'], [2, 'drop-parent'], [3, 'add-sibling'], [1.5, 'drop-sibling'], [3, 'drop-inserted'], [1, 'move-inserted'], [1.5, 'class'], [0.8, 'flicker'], [2, 'burst'], [0.8, 'churn'], [0.8, 'fight'], [2, 'time'], [1, 'nav'], [0.4, 'revert'], [2, 'call']]); let arg; const ps = p.$$('.p1, .p2, .q1, .q2');
      if (k === 'add-parent') addParent();
      else if (k === 'drop-parent') { const es = ps.filter((e) => e !== other); if (!es.length) continue; r.pick(es).remove(); }
      else if (k === 'add-sibling') { if (!ps.length) continue; const par = r.pick(ps); const s = mk(r.pick(['s1', 's2'])); if (r.bool(0.08)) { const q = mk('c'); q.appendChild(s); par.appendChild(q); } else par.insertBefore(s, r.bool() ? par.firstChild : null); }
      else if (k === 'drop-sibling') { const ss = p.$$('.s1, .s2'); if (!ss.length) continue; r.pick(ss).remove(); }
      else if (k === 'drop-inserted') { const es = inserts.filter((x) => inDoc(x.el)); if (!es.length) continue; r.pick(es).el.remove(); }
      else if (k === 'move-inserted') { const es = inserts.filter((x) => inDoc(x.el)); if (!es.length) continue; const e = r.pick(es).el; mine.add(e); other.appendChild(e); t.count('moved-by-page'); }
      else if (k === 'class') {
        const open = waits.filter((x) => !x.done && !x.dead && !x.life.ended && x.sel !== '.never' && !doc.querySelector(x.sel)); t.count('by-class');
        if (open.length && r.bool(0.7)) { const sel = r.pick(open).sel; const inner = sel.split(' ').pop().slice(1); const par = sel.includes(' ') ? ps[0] : null; if (par) par.className = sel.split(' ')[0].slice(1); const es = par ? [...par.children] : [other, ...ps]; if (es.length) { r.pick(es).className = inner; if (doc.querySelector(sel)) t.count('awaited-by-class'); } }
        else { if (!ps.length) continue; r.pick(ps).className = r.pick(['p1', 'p2', 'q1', 'q2']); }
      }
      else if (k === 'flicker') { const e = mk('p1'); root.appendChild(e); e.remove(); }
      else if (k === 'burst') { arg = r.int(3, 25); t.count('burst'); for (let j = arg; j-- > 0;) { other.setAttribute('data-x', String(j)); await turn(); if (r.bool(0.1)) await p.clock.advance(r.pick([1, 20])); } if (r.bool(0.7)) { addParent(); ops.push(['burst', arg]); } }
      else if (k === 'churn') { arg = r.int(3, 14); for (let j = arg; j-- > 0;) { for (const x of inserts) if (inDoc(x.el)) x.el.remove(); await flush(); await p.clock.advance(r.pick([0, 1, 30])); } }
      else if (k === 'fight') { fight = !fight; budget = r.pick([3, 12, 60]); arg = fight; if (fight) for (const x of inserts) if (inDoc(x.el)) x.el.remove(); }
      else if (k === 'time') { arg = r.pick([10, 200, 600, 1000, 1500]); await p.settle(arg); }
      else if (k === 'nav') { arg = r.pick(['/', '/shop', '/cart']); if (HOST + arg === p.url.href) continue; p.g.history.pushState({}, '', arg); reverted = false; await p.settle(60); }
      else if (k === 'revert') { client.revertVariants(); reverted = true; }
      else if (k === 'call') { if (!lives.length) continue; const l = r.bool(0.7) ? lives[lives.length - 1] : r.pick(lives); arg = r.bool(0.7) ? 'insert' : 'wait'; (arg === 'insert' ? insert : wait)(l); }
      ops.push([k, arg, p.clock.now]); await flush(); judge(k);
    }
    fight = false; await p.settle(1100); await flush(); judge('quiet');
  } }],
};
