import { Device } from '../lib/env.mjs';
import { canon, clone, turn } from '../lib/util.mjs';
import * as G from '../models/flags.gen.mjs';
import * as M from '../models/evaluation.mjs';
const ENTRY = `export { BehavioralTargetingManager } from '@src/tag/behavioral-targeting/behavioral-targeting-manager'; export { BehavioralTargetingEvaluator } from '@src/tag/behavioral-targeting/evaluator'; export { EventStorageManager } from '@src/tag/behavioral-targeting/event-storage'; export { SessionManager } from '@src/tag/behavioral-targeting/session-manager'; export { areBehaviorsEqual } from '@src/tag/behavioral-targeting/util';`;
const TYPES = ['View', 'Click', 'Purchase', 'constructor', '__proto__', 'toString', 'ünï', 'View ']; const API = 'client-0123456789'; const KEY = `EXP_${API.slice(0, 10)}_rtbt_events`;
const OPS = ['greater or equal', 'greater', 'is', 'less', 'less or equal', 'is not']; const H = 3_600_000;
const PKEYS = ['price', 'cat', 'deep', 'tags'];
const props = (r) => { const o = {}; for (const k of PKEYS) if (r.bool(0.6)) o[k] = k === 'deep' ? { k: G.propValue(r) ?? null } : G.propValue(r) ?? null; return o; };
const pcond = (r) => { const op = r.pick(M.OPS); return { selector: r.pick([['context', 'price'], ['context', 'cat'], ['context', 'tags'], ['context', 'deep', 'k'], ['context', 'missing']]), op, values: G.values(r, op) }; };
const cond = (r) => { const c = { type: 'behavior', event_type: r.pick(TYPES), op: r.bool(0.02) ? 'unknown' : r.pick(OPS), value: r.weighted([[8, () => r.int(0, 4)], [1, () => -1], [1, () => 1.5]])(), time_type: r.pick(['current_session', 'rolling']), time_value: r.pick([0, 1, 1, 2, 24, 7, 0.5]) }; if (r.bool(0.7)) c.interval = r.pick(['day', 'hour']); if (r.bool(0.4)) c.event_props = r.list(0, 2, () => pcond(r)); const s = { condition: c }; if (r.bool(0.4)) s.negated = r.bool(0.8); return s; };
const rule = (r) => r.list(r.bool(0.04) ? 0 : 1, 3, () => r.list(r.bool(0.04) ? 0 : 1, 3, () => cond(r)));
// the oracle: history of {ty, at, sess, props}
const counted = (c, hist, now, sess) => hist.filter((e) => e.ty === c.event_type && (c.time_type === 'current_session' ? e.sess === sess : e.at >= now - c.time_value * (c.interval === 'day' ? 24 : 1) * H) && (c.event_props || []).every((q) => M.condition({ context: e.props, result: {} }, q))).length;
const cmp = { 'greater or equal': (a, b) => a >= b, greater: (a, b) => a > b, is: (a, b) => a === b, less: (a, b) => a < b, 'less or equal': (a, b) => a <= b, 'is not': (a, b) => a !== b };
const holds = (s, hist, now, sess) => { const c = s.condition; const v = !!cmp[c.op]?.(counted(c, hist, now, sess), c.value); return s.negated ? !v : v; };
const match = (rules, hist, now, sess) => rules.some((g) => g.every((s) => holds(s, hist, now, sess)));
const types = (rules) => new Set(rules.flat().map((s) => s.condition.event_type));
const simple = (m) => { const o = new Map(); for (const [k, v] of m) o.set(k, [...v].sort()); return canon([...o].sort()); };
export default {
  property: 'C37', bundles: { tag: ENTRY },
  rule: 'manager: random rule sets (AND/OR groups, negation, every count operator, both window kinds, property filters over every operator) driven by random histories of tracked events with gaps at the edges of the windows and of the session, events no rule names, and page loads; after every event each behavior that names its type, and after every load and relay merge every behavior, must have the verdict an independent evaluator gives the whole kept history; the others keep theirs. evaluator: a random stored history judged in one go. Non-trivial = distinct judged verdict on a non-empty history.',
  requires: ['matched', 'unmatched', 'negated', 'session-window', 'rolling-window', 'rolling-edge', 'session-rotated', 'props-true', 'props-false', 'untouched', 'ignored-type', 'reload', 'relay-merge', 'changed-reported', 'unchanged-reported', 'cap', 'empty-group', 'equal-sets', 'different-sets'],
  workloads: [
    { name: 'manager', quick: 2000, thorough: 80000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const rules = {}; for (const f of r.subset(['flag-a', 'flag-b', 'constructor', 'ф'], 0.6)) { rules[f] = {}; for (const b of r.subset(['b1', 'b2', 'toString', 'b4'], 0.6)) rules[f][b] = rule(r); } const all = Object.entries(rules).flatMap(([f, bs]) => Object.entries(bs).map(([b, ru]) => ({ f, b, ru, ty: types(ru) }))); if (!all.length) return; const keep = new Set(all.flatMap((x) => [...x.ty])); for (const x of all) if (!x.ru.length || x.ru.some((g) => !g.length)) t.count('empty-group');
      const W = r.bool(0.5) ? undefined : r.pick([60_000, 10_000]); const T = W ?? 1_800_000; const ops = []; let hist = []; let sess = 0; let last = null; const verdict = new Map(); let p, sut, m;
      const now = () => d.clock.now; const touch = (act) => { if (last === null || now() - last > T) { if (last !== null) t.count('session-rotated'); sess++; last = now(); } else if (act) last = now(); };
      const judge = (which, why) => { let got; try { got = m.getMatchedBehaviors(); } catch (e) { t.violation('threw', { e: String(e) }); return; }
        for (const x of all) { const v = !!(got.get(x.f) && got.get(x.f).has(x.b)); const id = x.f + '/' + x.b; const again = which(x); const want = again ? match(x.ru, hist, now(), sess) : verdict.get(id); if (again) { t.count(want ? 'matched' : 'unmatched'); for (const s of x.ru.flat()) { if (s.negated) t.count('negated'); t.count(s.condition.time_type === 'rolling' ? 'rolling-window' : 'session-window'); if (s.condition.time_type === 'rolling' && hist.some((e) => e.ty === s.condition.event_type && Math.abs(e.at - (now() - s.condition.time_value * (s.condition.interval === 'day' ? 24 : 1) * H)) <= 1)) t.count('rolling-edge'); for (const q of s.condition.event_props || []) for (const e of hist.slice(-3)) if (e.ty === s.condition.event_type) t.count(M.condition({ context: e.props, result: {} }, q) ? 'props-true' : 'props-false'); } if (hist.length) t.evaluated(canon([x.ru, hist.slice(-12).map((e) => [e.ty, e.at, e.sess, e.props]), now(), sess])); } else t.count('untouched');
          t.check(v === want, again ? 'wrong-verdict' : 'verdict-changed-untouched', { id, got: v, want, why, rule: x.ru, hist: hist.slice(-6).map((e) => [e.ty, now() - e.at, e.sess]), sess, ops: ops.slice(-8) }); verdict.set(id, want); }
        for (const [f, s] of got) { t.check(rules[f] && Object.hasOwn(rules, f) && s.size > 0, 'phantom-flag', { f }); for (const b of s) t.check(Object.hasOwn(rules[f], b), 'phantom-behavior', { f, b }); } };
      const load = () => { p = d.page({ url: 'https://www.example.com/x', seed: t.index * 13 + ops.length }); sut = p.load(t.sut.tag); try { m = new sut.BehavioralTargetingManager(API, p.json(rules), W); } catch (e) { t.violation('threw', { op: 'load', e: String(e) }); return false; } touch(false); judge(() => true, 'load'); return true; };
      if (!load()) return; const big = r.bool(0.01);
      for (let i = 0, n = r.int(4, 22); i < n; i++) {
        const k = r.weighted([[10, 'event'], [5, 'time'], [1, 'reload'], [1, 'relay']]); ops.push(k);
        if (k === 'event') { const ty = r.bool(0.8) && keep.size ? r.pick([...keep]) : r.pick([...TYPES, 'Other']); for (let j = big && r.bool(0.3) ? 520 : 1; j-- > 0;) { const pr = props(r); try { m.trackEvent(ty, p.json(pr)); } catch (e) { t.violation('threw', { op: 'event', ty, e: String(e) }); return; } touch(true); if (keep.has(ty)) { hist.push({ ty, at: now(), sess, props: pr }); if (hist.length > 500) { t.count('cap'); hist = hist.slice(-500); } } else t.count('ignored-type'); ops[ops.length - 1] = ty; if (j === 0) judge((x) => x.ty.has(ty), 'event ' + ty); } }
        else if (k === 'time') { const edges = hist.length ? [H, 24 * H, 2 * H, 7 * H, 30 * 60000].flatMap((w) => { const e = r.pick(hist.slice(-8)); return [e.at + w - now(), e.at + w + 1 - now()]; }).filter((x) => x > 0) : []; const ms = edges.length && r.bool(0.6) ? r.pick(edges) : r.pick([1, 600, T - 1, T, T + 1, 5 * H, 30 * H]); ops[ops.length - 1] = ms; d.clock.skip(ms); }
        else if (k === 'reload') { t.count('reload'); p.win.dispatch('beforeunload', {}); p.close(); if (!load()) return; }
        else { // a relay that knows events of other subdomains
          t.count('relay-merge'); const extra = r.list(0, 3, (j) => ({ uuid: `x${ops.length}-${j}`, id: 900 + j, event_type: keep.size ? r.pick([...keep]) : 'View', timestamp: now() - r.pick([0, 1, H, H + 1, 24 * H, 100 * H]), session_id: 'elsewhere', properties: props(r) })); const G2 = p.g; const client = { relayAvailable: true, init: () => G2.Promise.resolve(), waitForAvailable: () => G2.Promise.resolve(true), checkMigrated: () => G2.Promise.resolve(true), migrateEvents: () => G2.Promise.resolve(), readEvents: () => G2.Promise.resolve(p.json({ events: extra, nextId: 1000 })), writeEvent() {}, flush() {} }; const before = simple(m.getMatchedBehaviors()); let res; m.beginRelaySync(client).then((x) => { res = x; }, (e) => { res = { status: 'threw ' + e }; }); for (let j = 0; j < 6 && !res; j++) await turn();
          if (!t.check(res && ['behaviors_changed', 'unchanged'].includes(res.status), 'relay-sync', { res })) return; hist = [...hist, ...extra.map((e) => ({ ty: e.event_type, at: e.timestamp, sess: 'elsewhere', props: e.properties }))].sort((a, b) => a.at - b.at).slice(-500); touch(false); judge(() => true, 'relay'); const changed = before !== simple(m.getMatchedBehaviors()); t.count(changed ? 'changed-reported' : 'unchanged-reported'); t.check((res.status === 'behaviors_changed') === changed, 'relay-change-misreported', { res, changed });
        }
      }
    } },
    { name: 'evaluator', quick: 3000, thorough: 150000, run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const p = d.page({ url: 'https://www.example.com/x', seed: t.index }); const sut = p.load(t.sut.tag); const now = d.clock.now; const sm = new sut.SessionManager(API); const cur = sm.getCurrentSessionId(); const hist = r.list(0, 12, () => ({ ty: r.pick(TYPES), at: now - r.pick([0, 1, H - 1, H, H + 1, 2 * H, 24 * H - 1, 24 * H, 24 * H + 1, 7 * H, 7 * 24 * H, -5000]), sess: r.bool() ? cur : 'old', props: props(r) }));
      d.localFor(p.origin).set(KEY, JSON.stringify({ events: hist.map((e, i) => ({ uuid: 'u' + i, id: i + 1, event_type: e.ty, timestamp: e.at, session_id: e.sess, properties: e.props })), nextId: 99 })); const st = new sut.EventStorageManager(API, sm); const ev = new sut.BehavioralTargetingEvaluator(st);
      for (let i = 0; i < 12; i++) { const ru = rule(r); const before = canon(ru, true); const R = p.json(ru); let got; try { got = ev.evaluate(R); } catch (e) { t.violation('evaluate-threw', { e: String(e), ru }); continue; } const want = match(ru, hist, now, cur); t.check(got === want, 'wrong-verdict', { ru, hist: hist.map((e) => [e.ty, now - e.at, e.sess === cur, e.props]), got, want }); t.check(canon(clone(R), true) === before, 'rules-modified', {}); t.count(want ? 'matched' : 'unmatched'); t.evaluated(hist.length ? canon([ru, hist]) : null); }
      const mk = () => new Map(r.subset(['a', 'b', 'c'], 0.6).map((k) => [k, new Set(r.subset(['x', 'y', 'z'], 0.5))])); const a = mk(), b = r.bool(0.3) ? new Map(r.shuffle([...a])) : mk(); const eq = canon(a) === canon(b); t.count(eq ? 'equal-sets' : 'different-sets'); t.check(sut.areBehaviorsEqual(a, b) === eq, 'sets-compared-wrongly', () => ({ a: canon(a), b: canon(b) })); t.check(sut.areBehaviorsEqual(undefined, b) === (b.size === 0), 'sets-compared-wrongly', () => ({ a: 'none', b: canon(b) }));
    } },
  ],
};
