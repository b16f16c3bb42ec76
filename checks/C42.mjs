import { Device } from '../lib/env.mjs';
import { canon, turn } from '../lib/util.mjs';
import { TAG, flag, page } from '../lib/tag.mjs';
import { Tab } from '../lib/tab.mjs';
const O = 'https://www.example.com'; const PATHS = ['/a', '/b', '/c', '/d'];
/** The address a redirect leads to: parameters of the page that the target does not define are carried over. */
export const target = (cur, to) => { const c = new URL(cur); const r = new URL(to); const have = new Set(r.searchParams.keys()); for (const [k, v] of c.searchParams) if (!have.has(k)) r.searchParams.append(k, v); return r.href; };
const sorted = (u) => { const x = new URL(u); x.hash = ''; x.searchParams.sort(); return x.href; };
const there = (cur, tg) => cur === tg || ((!new URL(tg).hash || new URL(tg).hash === new URL(cur).hash) && sorted(cur) === sorted(tg));
const base = (u) => { const x = new URL(u); return x.origin + x.pathname; }; const place = (u) => { const x = new URL(u); return x.origin + x.pathname + x.hash; };
const params = (u) => { const o = {}; for (const [k, v] of new URL(u).searchParams) (o[k] ??= []).push(v); return o; };
/** The parameters whose values differ between the two addresses. */
const added = (from, to) => { const a = params(from); const b = params(to); return Object.keys(b).filter((k) => canon(a[k] ?? []) !== canon(b[k])); };
/** Led back: the address is the source's and something the redirect had added is gone. */
const ledBack = (from, tg, at) => { if (place(at) !== place(from)) return false; const ks = added(from, tg); if (!ks.length) return true; const x = params(at); const y = params(tg); return ks.some((k) => canon(x[k] ?? []) !== canon(y[k])); };
const arrived = (tg, at, from) => { if (place(at) !== place(tg)) return false; const x = params(at); const y = params(tg); return added(from, tg).every((k) => canon(x[k] ?? []) === canon(y[k])); };
function world(t, r, o = {}) {
  const uni = r.bool(0.2); const flags = []; const pages = {}; const plan = {}; const props = {}; const n = o.n ?? r.weighted([[3, 1], [2, 2], [1, 3]]);
  for (let i = 0; i < n; i++) {
    const f = 'f' + i; const at = o.at ?? r.int(0, PATHS.length - 2); const self = r.bool(o.self ?? 0.25); const to = self ? at : r.int(at + 1, PATHS.length - 1);
    const again = self && Object.values(plan).some((y) => y.self && y.path === PATHS[at]); // two experiments adding parameters to one page
    const q = again ? '?w' + i + '=1' : o.q?.(r) ?? r.weighted([[3, ''], [2, '?v=2'], [1, '?v=2&x=t'], [1, '?utm_source=t'], [0.5, '?v=2&v=3'], [uni ? 2 : 0, '?v=gr\u00f6\u00dfe'], [uni ? 2 : 0, '?v=\u65e5\u672c&x=1']]); const h = r.bool(o.hash ?? 0.15) ? '#sec' : ''; const url = (o.host?.(r) ?? O) + PATHS[to] + (r.bool(0.1) && !self && !o.plain ? '/' : '') + (self && !q ? '?v=2' : q) + h;
    const scope = o.plain ? undefined : r.weighted([[3, undefined], [2, ['p' + i]], [1, ['other']], [1, ['p' + i, 'other']]]); const assigned = o.plain ? 'treatment' : r.weighted([[6, 'treatment'], [1, 'control'], [1, 'off']]);
    if (uni) t.count('non-ascii'); const remote = r.bool(0.15); const redirect = { action: 'redirect', data: { url, ...(scope ? { metadata: { scope } } : {}) } }; const extra = { action: 'mutate', data: { mutations: [{ selector: '#x', action: 'set', attribute: 'html', value: 'y' }] } };
    const payload = o.plain ? [redirect] : r.weighted([[4, [redirect]], [1, [extra, redirect]], [1, [redirect, extra]]]); const expKey = r.bool(0.3) ? 'e' + i : undefined;
    pages[f] = { ['p' + i]: page('p' + i, { conditions: [[{ selector: ['context', 'page', 'url'], op: 'contains', values: [PATHS[at]] }]] }) };
    flags.push(flag(f, { payloads: { treatment: payload }, when: [[['user_properties', f], 'is', ['treatment'], 'treatment'], [['user_properties', f], 'is', ['control'], 'control']], rest: 'off', mode: remote ? 'remote' : 'local', metadata: { ...(expKey ? { experimentKey: expKey } : {}), ...(uni ? { experimentName: r.pick(['Gr\u00f6\u00dfe', '\u65e5\u672c\u8a9e \ud83d\ude00']) } : {}) } })); props[f] = assigned;
    plan[f] = { url, scope, assigned, page: 'p' + i, path: PATHS[at], extra: payload.length > 1, expKey, self, remote };
  }
  const redirectTo = (f, cur) => { const x = plan[f]; if (x.assigned !== 'treatment') return null; if (!cur.toLowerCase().includes(x.path)) return null; if (x.scope && !x.scope.includes(x.page)) return null; const tg = target(cur, x.url); return there(cur, tg) ? null : tg; };
  return { flags, pages, plan, user: { user_id: 'u', device_id: 'd', user_properties: props }, redirectTo };
}
const imps = (tab, f, from = 0) => tab.events.slice(from).filter((e) => e.type === '$impression' && e.props.flag_key === f && e.props.variant === 'treatment');
const QUERY = ['', '', '?q=1', '?v=1', '?q=1&q=2&x=a%20b', '?v=2', '?AMP=1'];
export default {
  property: 'C42', bundles: { tag: TAG },
  rule: 'whole browser sessions: documents follow each other in a tab as redirects commit, the server may rewrite addresses (canonical slash, language prefix, back to the source, parameters stripped), the page may strip parameters itself or route in place through a redirect handler, and visitors reload, navigate, interact and return; targets lie on the same host, another subdomain or another site, with the impression carried in the session, a root-domain cookie or the address. Every document must be left for exactly the address an independent model computes, and only if an eligible redirect exists; a redirect led back to its source without a user acting happens once; impressions equal redirects. Non-trivial = distinct judged document or session.',
  requires: ['redirected', 'stayed', 'at-target', 'out-of-scope', 'params-kept', 'impression', 'looped', 'suppressed', 'rewritten', 'user-broke-loop', 'reloaded', 'soft', 'soft-strip', 'handler-threw', 'handler-ignored', 'cross:cookie', 'cross:url', 'cross:none', 'two-flags', 'hash', 'slow-commit', 'user-acted', 'repeated-params', 'other-impression', 'non-ascii', 'one-stripped', 'several-looped', 'near-target'],
  workloads: [
    { name: 'session', quick: 1300, thorough: 40000, async run(t) {
      const r = t.rng; const w = world(t, r); const d = new Device({ seed: t.index }); const slow = r.bool(0.2);
      const tab = new Tab(t, { device: d, site: () => ({ flags: w.flags, pages: w.pages, config: {} }), user: w.user, latency: () => (slow ? r.pick([100, 450, 700]) : r.pick([0, 0, 5, 40])) });
      if (Object.keys(w.plan).length > 1) t.count('two-flags'); if (slow) t.count('slow-commit');
      let judged = 0; const sent = []; const log = [];
      const judge = (final) => { for (; judged < tab.docs.length - (final ? 0 : 1); judged++) { const p = tab.docs[judged]; const u = p.startedAt; const opts = Object.keys(w.plan).sort((a, b) => (w.plan[a].remote ? 1 : 0) - (w.plan[b].remote ? 1 : 0)).map((f) => [f, w.redirectTo(f, u)]).filter(([, x]) => x); const went = p.navigations.map((e) => e.url); const det = () => ({ at: u, options: opts, went, log, plan: w.plan, asked: p.asked });
        t.check(went.length <= 1, 'left-twice', det()); for (const e of went) { const hit = opts.filter(([, x]) => x === e); if (!t.check(hit.length, opts.length ? 'wrong-target' : 'redirected-without-reason', det())) continue; const f = hit[0][0]; sent.push(f); t.count('redirected'); if (new URL(u).search) t.count('params-kept'); if (new URL(e).hash) t.count('hash'); }
        if (!went.length && p.stayed) { t.check(!opts.length, 'not-redirected', det()); t.count('stayed'); for (const f in w.plan) { const x = w.plan[f]; if (x.assigned === 'treatment' && u.includes(x.path)) t.count(x.scope && !x.scope.includes(x.page) ? 'out-of-scope' : 'at-target'); } }
        t.evaluated(canon(['doc', u, went, Object.values(w.plan).map((x) => [x.url, x.scope, x.assigned, x.path])])); } };
      tab.o.onPage = (p) => { p.startedAt = p.url.href; p.born = d.clock.now; };
      const settle = async () => { for (let i = 0; i < 40 && (tab.page.navigations.length || d.clock.now - tab.page.born < 120); i++) await tab.run(50); tab.page.stayed = true; };
      const visit = async (u, ms) => { log.push(['visit', u, ms]); await tab.open(u); await tab.run(ms); await settle(); judge(); };
      const near = () => { const x = r.pick(Object.values(w.plan)); const y = new URL(x.url); const q = [...y.searchParams]; if (r.bool(0.4)) q.reverse(); if (r.bool(0.3)) q.push(['q', '1']); if (r.bool(0.15) && q.length) q.splice(0, 1); y.search = new URLSearchParams(q).toString(); y.hash = r.pick(['', '', '#top', '#sec']); t.count('near-target'); if (x.self) y.pathname = x.path; return y.href; }; // the target itself, written differently
      for (let i = r.int(1, 4); i-- > 0;) { const u = r.bool(0.2) ? near() : O + r.pick(PATHS) + r.pick(QUERY) + (r.bool(0.15) ? '#top' : ''); await visit(u, r.pick([130, 700, 1500])); if (r.bool(0.2)) { t.count('reloaded'); await visit(tab.page.url.href, r.pick([130, 700])); } if (r.bool(0.3)) { log.push('user'); tab.user(r.pick(['pointerdown', 'keydown']), r.bool(0.4)); t.count('user-acted'); } if (r.bool(0.2)) { const c = tab.page.g.webExperiment; log.push('apply'); await c.applyVariants?.(); await settle(); } }
      await tab.run(2500); judge(true); t.check(tab.docs.length < 60, 'endless', { plan: w.plan, log, docs: tab.docs.slice(0, 6).map((p) => p.url.href) });
      const shared = (f) => Object.keys(w.plan).some((g) => g !== f && w.plan[g].url === w.plan[f].url);
      for (const f in w.plan) { const n = imps(tab, f).length; const s = sent.filter((x) => x === f).length; const x = w.plan[f]; const det = () => ({ f, plan: x, sent: s, impressions: imps(tab, f), events: tab.events.map((e) => [e.page, e.type, e.props.flag_key, e.props.variant]), log, docs: tab.docs.map((p) => [p.startedAt, p.navigations.map((e) => e.url)]) }); if (shared(f)) continue; if (x.extra) { t.check(n >= (s ? 1 : 0), 'impression-missing', det()); continue; }
        if (s) t.count('impression'); t.check(n <= s, 'impression-twice', det()); t.check(n === s, 'impression-missing', det());
        for (const e of imps(tab, f)) { t.check(e.props.experiment_key === x.expKey, 'experiment-key', { e, x }); t.check(base(e.url) === base(x.url), 'impression-elsewhere', { ...det(), e }); } t.evaluated(canon(['imp', f, n, s, x.url, slow])); }
      tab.leave();
    } },
    { name: 'loop', quick: 900, thorough: 30000, async run(t) {
      const r = t.rng; const one = r.bool(0.2); const w = world(t, r, { n: 1, at: 0, plain: true, self: one ? 0.8 : 0.5, ...(one ? { q: (z) => z.pick(['?v=2&x=t', '?x=t&v=2', '?v=2&v=3&x=t']) } : {}) }); const x = w.plan.f0; const d = new Device({ seed: t.index }); const back = one ? 'strip-one' : r.weighted([[3, 'strip'], [2, 'return'], [1, 'slash'], [1, 'lang'], [1, 'drop-added']]); t.count('rewritten'); let on = true; const log = [back];
      const server = (u) => { if (!on) return u; const y = new URL(u); const tu = new URL(x.url); if (back === 'strip') { if ([...tu.searchParams.keys()].length && (y.searchParams.has('v') || y.searchParams.has('utm_source') || y.searchParams.has('x'))) for (const k of ['v', 'x', 'utm_source']) y.searchParams.delete(k); if (!x.self && y.pathname === tu.pathname) y.pathname = x.path; return y.href; } if (back === 'strip-one') { const k = [...tu.searchParams.keys()][0]; if (y.searchParams.has(k)) { t.count('one-stripped'); y.searchParams.delete(k); if (!x.self && y.pathname === tu.pathname) y.pathname = x.path; } return y.href; } if (back === 'return') return y.origin + y.pathname === tu.origin + tu.pathname && !x.self ? (y.pathname = x.path, y.href) : x.self && y.search ? (y.search = '', y.href) : u; if (back === 'drop-added') { if (y.pathname === tu.pathname) { const k = [...tu.searchParams.keys()]; for (const q of k) y.searchParams.delete(q); } return y.href; } if (back === 'slash' && !y.pathname.endsWith('/')) { y.pathname += '/'; return y.href; } if (back === 'lang' && !y.pathname.startsWith('/en')) { y.pathname = '/en' + y.pathname; return y.href; } return u; };
      const tab = new Tab(t, { device: d, site: () => ({ flags: w.flags, pages: w.pages, config: {} }), user: w.user, latency: () => r.pick([0, 5, 40, 300]), server }); tab.o.onPage = (p) => { p.startedAt = p.url.href; p.born = d.clock.now; };
      const settle = async () => { for (let i = 0; i < 200 && tab.docs.length < 58 && (tab.page.navigations.length || d.clock.now - tab.page.born < 120); i++) await tab.run(50); };
      let loopAt = null; // the redirect was led back to here without a user acting
      let done = 0; let pending = null; let noise = false;
      const judge = () => { for (; done < tab.docs.length; done++) { const p = tab.docs[done]; const u = p.startedAt; const det = () => ({ at: u, plan: x, back, log, docs: tab.docs.slice(0, 12).map((q) => [q.startedAt, q.navigations.map((e) => e.url), !!q.acted]) });
        if (pending && p.byRedirect) { if (!arrived(pending.tg, u, pending.from) && ledBack(pending.from, pending.tg, u) && !pending.acted) { t.count('looped'); loopAt = u; } if (pending.acted) { t.count('user-broke-loop'); } }
        const tg = w.redirectTo('f0', u); const went = p.navigations.map((e) => e.url); t.check(went.length <= 1, 'left-twice', det());
        if (went.length) { t.check(went[0] === tg, tg ? 'wrong-target' : 'redirected-without-reason', det()); t.check(!loopAt, 'redirected-after-loop', det()); t.count('redirected'); pending = { from: u, tg: went[0], acted: p.acted }; }
        else { pending = null; if (tg && !loopAt && !tab.docs.slice(0, done).some((q) => q.redirected)) t.violation('not-redirected', det()); if (tg && loopAt) t.count('suppressed'); } p.redirected = went.length > 0; t.evaluated(canon(['loop', u, went, !!loopAt, x.url, back])); } };
      const open = tab.open.bind(tab); let userOpen = true; tab.open = async (u) => { const mine = userOpen; userOpen = false; const q = tab.docs.length; tab.onceN = q; const o0 = tab.o.onPage; tab.o.onPage = (p) => { p.byRedirect = !mine; o0(p); }; try { return await open(u); } finally { tab.o.onPage = o0; } };
      const visit = async (u) => { userOpen = true; await tab.open(u); await tab.run(130); if (r.bool(0.15) && tab.page.navigations.length) { tab.user('pointerdown', r.bool(0.4)); tab.page.acted = true; log.push('act-in-flight'); } await settle(); judge(); t.check(tab.docs.length < 58, 'endless', { plan: x, back, log, docs: tab.docs.slice(0, 6).map((p) => [p.startedAt, p.navigations.map((e) => e.url)]) }); };
      for (let i = r.int(1, 4); i-- > 0;) { const u = O + r.pick(['/a', '/a', '/c']) + r.pick(['', '?q=1', '?q=1&q=2', '?v=1', '?v=1&v=5']); if (/q=2|v=5/.test(u)) t.count('repeated-params'); const n0 = tab.docs.length; const live = !loopAt; log.push(['visit', u]); await visit(u); const chain = tab.docs.slice(n0).filter((p) => p.navigations.length).length; t.check(chain <= 3, 'many-hops', { plan: x, back, log, docs: tab.docs.slice(n0).map((p) => [p.startedAt, p.navigations.map((e) => e.url)]) }); void live;
        if (r.bool(0.3)) { tab.user(r.pick(['pointerdown', 'keydown', 'popstate']), r.bool(0.4)); log.push('user'); t.count('user-acted'); } if (r.bool(0.2)) { await tab.page.g.webExperiment.applyVariants?.(); await settle(); log.push('apply'); judgeAgain(); } if (r.bool(0.15)) on = !on; }
      function judgeAgain() { const p = tab.page; if (done === tab.docs.length && p.navigations.length && !p.redirected) { t.check(!loopAt, 'redirected-after-loop', { at: p.startedAt, log, plan: x }); } judge(); }
      await tab.run(1500); tab.leave(); void noise;
    } },
    { name: 'loops', quick: 500, thorough: 15000, async run(t) { // several redirects whose parameters the server drops: each is led back once and then left alone
      const r = t.rng; const w = world(t, r, { n: r.int(2, 3), plain: true, self: 1, q: (z) => z.pick(['?v=2', '?v=2&x=t']), hash: 0 }); const d = new Device({ seed: t.index }); const log = []; const drop = ['v', 'x', 'w0', 'w1', 'w2'];
      const server = (u) => { const y = new URL(u); for (const k of drop) y.searchParams.delete(k); return [...new URL(u).searchParams.keys()].some((k) => drop.includes(k)) ? y.href : u; };
      const tab = new Tab(t, { device: d, site: () => ({ flags: w.flags, pages: w.pages, config: {} }), user: w.user, latency: () => r.pick([0, 5, 40]), server }); tab.o.onPage = (p) => { p.startedAt = p.url.href; p.born = d.clock.now; };
      const back = new Set(); let done = 0; const det = () => ({ plan: w.plan, log, back: [...back], docs: tab.docs.slice(0, 12).map((q) => [q.startedAt, q.navigations.map((e) => e.url)]) });
      for (let i = r.int(2, 6); i-- > 0;) {
        const u = O + r.pick(PATHS) + r.pick(['', '', '?q=1']); log.push(u); await tab.open(u); for (let j = 0; j < 100 && tab.docs.length < 40 && (tab.page.navigations.length || d.clock.now - tab.page.born < 150); j++) await tab.run(50);
        for (; done < tab.docs.length; done++) { const p = tab.docs[done]; const opts = Object.keys(w.plan).map((f) => [f, w.redirectTo(f, p.startedAt)]).filter(([f, x]) => x && !back.has(f)); const went = p.navigations.map((e) => e.url); t.check(went.length === (opts.length ? 1 : 0), went.length ? 'redirected-after-loop' : 'not-redirected', { at: p.startedAt, opts, went, ...det() }); const hit = opts.find(([, x]) => x === went[0]); if (went.length && t.check(hit, 'wrong-target', { at: p.startedAt, opts, went, ...det() })) { back.add(hit[0]); t.count('looped'); if (back.size > 1) t.count('several-looped'); } else if (!went.length && Object.keys(w.plan).some((f) => w.redirectTo(f, p.startedAt))) t.count('suppressed'); t.evaluated(canon(['loops', p.startedAt, went, [...back].sort()])); }
        t.check(tab.docs.length < 40, 'endless', det());
      }
      tab.leave();
    } },
    { name: 'soft', quick: 900, thorough: 30000, async run(t) {
      const r = t.rng; const w = world(t, r, { n: 1, at: 0, plain: true, self: 0.4, hash: 0.1 }); const x = w.plan.f0; w.flags.push(flag('g', { payloads: { on: [{ action: 'mutate', data: { mutations: [] } }, { action: 'mutate', data: { mutations: [{ selector: '#g', action: 'set', attribute: 'html', value: 'g' }] } }] }, variant: 'on' })); w.pages.g = { pg: page('pg') }; const d = new Device({ seed: t.index }); const mode = r.weighted([[4, 'sync'], [2, 'late'], [1, 'ignore'], [1, 'throw']]); const strips = r.bool(0.3) && ['sync', 'late'].includes(mode); const calls = []; let throws = mode === 'throw'; let stripping = strips; const log = [mode, strips];
      const tab = new Tab(t, { device: d, site: () => ({ flags: w.flags, pages: w.pages, config: {} }), user: w.user }); let p;
      const go = (u) => { p.g.history[r.pick(['pushState', 'replaceState'])]({}, '', u); };
      const stripOne = r.bool(0.3); const route = (u) => { go(u); if (stripping) { const back = () => { const y = new URL(u); const from = calls[calls.length - 1].from; const f = new URL(from); if (place(from) === place(p.url.href) || true) { y.pathname = f.pathname; y.hash = f.hash; const own = [...new Set(new URL(x.url).searchParams.keys())]; for (const k of stripOne ? own.slice(0, 1) : own) y.searchParams.delete(k); for (const [k, v] of f.searchParams) if (!y.searchParams.has(k)) y.searchParams.append(k, v); } p.g.history.replaceState({}, '', y.pathname + y.search + y.hash); log.push(['stripped', p.url.href]); t.count('soft-strip'); }; if (r.bool()) back(); else p.clock.add(p, 'timer', back, r.pick([0, 10, 100]), []); } };
      tab.o.onTag = (q) => { p = q; q.g.webExperiment.setRedirectHandler((u) => { const c = { from: q.url.href, to: u, t: d.clock.now, user: false }; calls.push(c); log.push(['handler', c.from, u]); if (throws) throw new Error('router'); if (mode === 'sync' || mode === 'throw') route(u); else if (mode === 'late') q.clock.add(q, 'timer', () => route(u), r.pick([0, 20, 120]), []); }); };
      const start = O + r.pick(['/a', '/a', '/c']) + r.pick(['', '?q=1', '?v=1', '?q=1&q=2']); if (/q=2/.test(start)) t.count('repeated-params'); await tab.open(start); await tab.run(r.pick([300, 900])); t.count('soft'); let judged = 0; let loop = false; let lastFrom = null; let acted = true;
      const det = () => ({ plan: x, mode, strips, log, calls, at: p.url.href });
      const judge = (why) => { for (; judged < calls.length; judged++) { const c = calls[judged]; const tg = w.redirectTo('f0', c.from); t.check(c.to === tg, tg ? 'wrong-target' : 'redirected-without-reason', { ...det(), c }); t.check(!loop, 'redirected-after-loop', { ...det(), c }); if (strips && stripping && lastFrom !== null && !acted && ledBack(lastFrom.from, lastFrom.to, c.from)) t.violation('loop-continued', { ...det(), c }); lastFrom = c; acted = false; t.evaluated(canon(['soft', c.from, c.to, mode, strips])); } if (strips && lastFrom && !acted && ledBack(lastFrom.from, lastFrom.to, p.url.href)) { loop = true; t.count('suppressed'); } void why; };
      judge('start'); if (!w.redirectTo('f0', start)) t.check(!calls.length, 'redirected-without-reason', det()); else t.check(calls.length >= 1, 'not-redirected', det());
      for (let i = r.int(1, 4); i-- > 0;) { const k = r.pick(['nav', 'nav', 'apply', 'user', 'home']); log.push(k); const n = calls.length; const before = p.url.href;
        if (k === 'user') { tab.user(r.pick(['pointerdown', 'keydown']), r.bool(0.4)); acted = true; t.count('user-acted'); continue; }
        if (k === 'apply') { const c = p.g.webExperiment.applyVariants(); await turn(); void c?.catch?.(() => {}); await tab.run(300); if (throws) { if (w.redirectTo('f0', before)) t.check(calls.length > n, 'failed-handler-not-retried', det()); } }
        else { const u = O + (k === 'home' ? '/a' : r.pick(['/b', '/c', '/d'])) + r.pick(['', '?q=2']); tab.user('pointerdown', r.bool(0.4)); acted = true; if (r.bool(0.3)) throws = false; const fixed = mode === 'ignore'; const e1 = tab.events.length; const other = base(u) !== base(p.url.href); if (u !== p.url.href) go(u); await tab.run(r.pick([300, 900])); if (other && !w.redirectTo('f0', u) && !strips) { const n = tab.events.slice(e1).filter((e) => e.props.flag_key === 'g' && base(e.url) === base(u)).length; t.check(n === 1, n ? 'other-impression-twice' : 'other-impression-missing', { ...det(), n }); t.count('other-impression'); } const want = w.redirectTo('f0', u); if (want && u !== before && !loop && !fixed) t.check(calls.length > n, 'not-redirected', { ...det(), u }); if (!want && !strips) t.check(calls.length === n, 'redirected-without-reason', { ...det(), u }); }
        judge(k); }
      if (mode === 'throw') t.count('handler-threw'); if (mode === 'ignore') t.count('handler-ignored'); t.check(calls.length < 20, 'endless', det());
      await tab.run(1200); judge('end'); const got = imps(tab, 'f0'); if (!strips && ['sync', 'late'].includes(mode)) { t.check(got.length <= calls.length, 'impression-twice', { ...det(), got }); t.check(x.self ? got.length >= Math.min(1, calls.length) : got.length === calls.length, 'impression-missing', { ...det(), got }); for (const e of got) t.check(base(e.url) === base(x.url), 'impression-elsewhere', { ...det(), got }); if (got.length) t.count('impression'); }
      tab.leave();
    } },
    { name: 'mixed', quick: 700, thorough: 25000, async run(t) {
      const r = t.rng; const w = world(t, r, { n: r.int(2, 3), plain: true, self: 0, hash: 0 }); const d = new Device({ seed: t.index }); const lang = r.bool(0.8); const log = []; const shared = (f) => Object.keys(w.plan).some((g) => g !== f && w.plan[g].url === w.plan[f].url); if (Object.keys(w.plan).some(shared)) return; t.count('rewritten');
      const soft = r.bool(0.4); const calls = [];
      const tab = new Tab(t, { device: d, site: () => ({ flags: w.flags, pages: w.pages, config: r.bool(0.3) ? { redirectConfig: { encodeRedirectInCookie: r.bool(), encodeRedirectInUrl: r.bool() } } : {} }), user: w.user, latency: () => r.pick([0, 5, 40]), server: (u) => { const x = new URL(u); if (lang && !x.pathname.startsWith('/en')) { x.pathname = '/en' + x.pathname; return x.href; } return u; } });
      if (soft) tab.o.onTag = (p) => p.g.webExperiment.setRedirectHandler((u) => { calls.push(u); log.push(['handler', u]); p.g.history.pushState({}, '', lang && r.bool() ? u.replace(O, O + '/en') : u); });
      const sent = () => [...calls, ...tab.docs.flatMap((p) => p.navigations.map((e) => e.url))];
      await tab.open(O + r.pick(PATHS)); await tab.run(r.pick([50, 200, 600]));
      for (let i = r.int(2, 6); i-- > 0 && tab.docs.length < 40;) { for (let j = 0; j < 20 && tab.page.navigations.length; j++) await tab.run(20); const u = O + (r.bool(0.2) ? '/en' : '') + r.pick(PATHS) + r.pick(['', '?q=' + i]); tab.user('pointerdown', r.bool(0.4)); log.push([r.bool(0.25) ? 'open' : 'nav', u, d.clock.now]); if (log[log.length - 1][0] === 'open') await tab.open(u); else if (u !== tab.page.url.href) tab.page.g.history.pushState({}, '', u); await tab.run(r.pick([20, 50, 200, 450, 600, 1100])); }
      await tab.run(3000); t.check(tab.docs.length < 40, 'endless', { log });
      for (const f in w.plan) { const x = w.plan[f]; const s = sent().filter((u) => target(u, x.url) === new URL(u).href || base(u) === base(x.url)).length; const n = imps(tab, f).length; const det = () => ({ f, plan: w.plan, s, n, log, soft, sent: sent(), events: tab.events.map((e) => [e.page, e.t, e.url, e.props.flag_key, e.props.variant]), docs: tab.docs.map((p) => [p.url.href, p.navigations.map((e) => e.url)]) }); if (Object.values(w.plan).filter((y) => base(y.url) === base(x.url)).length > 1) continue; t.check(n <= s, 'impression-twice', det()); t.check(!s || n >= 1, 'impression-missing', det()); if (s) t.count('impression'); t.evaluated(canon(['mixed', f, s, n, x.url, log.length])); }
      tab.leave();
    } },
    { name: 'cross', quick: 900, thorough: 30000, async run(t) {
      const r = t.rng; const enc = r.pick(['none', 'cookie', 'url', 'both', 'default']); const host = r.pick(['https://shop.example.com', 'https://www.other.org', O]); const w = world(t, r, { n: 1, at: 0, plain: true, self: 0, host: () => host }); const x = w.plan.f0; const d = new Device({ seed: t.index }); const slow = r.bool(0.25); if (slow) t.count('slow-commit'); t.count('cross:' + (enc === 'default' ? 'cookie' : enc));
      const cfg = enc === 'default' ? {} : { redirectConfig: { encodeRedirectInCookie: ['cookie', 'both'].includes(enc), encodeRedirectInUrl: ['url', 'both'].includes(enc) } }; const log = [enc, host, slow];
      const tab = new Tab(t, { device: d, site: () => ({ flags: w.flags, pages: w.pages, config: cfg }), user: w.user, latency: () => (slow ? r.pick([300, 700, 1500]) : r.pick([0, 5, 40])) }); tab.o.onPage = (p) => { p.startedAt = p.url.href; p.born = d.clock.now; };
      const settle = async () => { for (let i = 0; i < 100 && (tab.page.navigations.length || d.clock.now - tab.page.born < 1200); i++) await tab.run(100); };
      const cross = host !== O; let away = false; // the last redirect left the site, and no other page of it was visited since
      const sub = host === 'https://shop.example.com';
      for (let i = r.int(1, 3); i-- > 0;) {
        const u = O + '/a' + r.pick(['', '?q=1', '?q=a%20b&q=c', '?v=1']); const n0 = tab.docs.length; const e0 = tab.events.length; log.push(u); if (/q=c/.test(u)) t.count('repeated-params'); await tab.open(u); await tab.run(20); if (r.bool(0.2)) { void tab.page.g.webExperiment?.applyVariants?.()?.catch?.(() => {}); log.push('apply'); } await settle();
        const [src, dst] = tab.docs.slice(n0); const det = () => ({ plan: x, log, docs: tab.docs.slice(n0).map((p) => [p.startedAt, p.url.href, p.navigations.map((e) => e.url)]), events: tab.events.slice(e0).map((e) => [e.page, e.url, e.type, e.props.flag_key, e.props.variant]), cookies: src.g.document.cookie });
        const want = target(u, x.url); if (away && src && !dst && !src.navigations.length) { t.violation('suppressed-after-other-origin', det()); return; } away = cross; if (!t.check(src && dst && tab.docs.length === n0 + 2 && src.navigations.length === 1, 'not-redirected-once', det())) return; t.count('redirected');
        const carried = cross && (enc === 'url' || enc === 'both'); const sent = new URL(src.navigations[0].url); const clean = new URL(sent.href); clean.searchParams.delete('AMP_REDIRECT'); t.check(carried ? new URL(clean.href).href === new URL(want).href || canon([...clean.searchParams]) === canon([...new URL(want).searchParams]) && place(clean.href) === place(want) : sent.href === want, 'wrong-target', det()); t.check(sent.searchParams.has('AMP_REDIRECT') === carried, 'impression-in-address', det());
        const left = new URL(dst.url.href); t.check(!left.searchParams.has('AMP_REDIRECT') && place(left.href) === place(want) && canon([...left.searchParams]) === canon([...new URL(want).searchParams]), 'address-not-restored', det());
        const onSrc = imps(tab, 'f0', e0).filter((e) => e.page === src.n); const onDst = imps(tab, 'f0', e0).filter((e) => e.page === dst.n); const reaches = !cross || carried || (sub && ['cookie', 'both', 'default'].includes(enc));
        t.check(onSrc.length <= (i0(log) > 1 && cross ? 1 : 0), 'impression-on-source', det()); t.check(onDst.length <= 1, 'impression-twice', det()); if (reaches) { t.check(onDst.length === 1, 'impression-missing', det()); t.count('impression'); t.check(onDst.every((e) => e.props.experiment_key === x.expKey), 'experiment-key', det()); } else t.check(!onDst.length, 'impression-from-nowhere', det());
        t.evaluated(canon(['cross', enc, host, u, x.url, onSrc.length, onDst.length, slow]));
        if (r.bool(0.5)) { away = false; const e1 = tab.events.length; const o1 = O + r.pick(['/d', '/c']); log.push(['return', o1]); await tab.open(o1); await settle(); const n = imps(tab, 'f0', e1).length; if (!reaches) t.check(n === 1, 'impression-lost', { ...det(), n }); else t.check(n <= (cross ? 1 : 0), 'impression-twice', { ...det(), n, after: 'return' }); log.length = 3; }
        if (r.bool(0.3)) { const e1 = tab.events.length; await tab.open(dst.url.href); await settle(); t.count('reloaded'); t.check(imps(tab, 'f0', e1).length === 0, 'impression-on-reload', det()); }
      }
      tab.leave();
    } },
  ],
};
const i0 = (log) => log.slice(3).filter((x) => typeof x === 'string' && x !== 'apply').length;
