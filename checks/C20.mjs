import { bare } from '../lib/corelib.mjs';
import { canon, clone } from '../lib/util.mjs';
import { CONNECTOR_ENTRY } from './C19.mjs';
const KEYS = ['plan', 'age', 'length', 'constructor', 'toString', 'a', 'b', 'tags', 'ünï', ''];
function value(r, d = 0) { const k = r.weighted([[3, 's'], [2, 'n'], [1.5, 'b'], [1, 'null'], [d < 3 ? 2 : 0, 'arr'], [d < 3 ? 2 : 0, 'obj']]); if (k === 's') return r.pick(['', 'x', 'y', '1', 'true', 'long '.repeat(5)]); if (k === 'n') return r.pick([0, 1, -1, 1.5, 2]); if (k === 'b') return r.bool(); if (k === 'null') return null; if (k === 'arr') return Array.from({ length: r.int(0, 3) }, () => value(r, d + 1)); const o = {}; for (let i = r.int(0, 3); i > 0; i--) o[r.pick(KEYS)] = value(r, d + 1); return o; }
const props = (r) => { const o = {}; for (let i = r.int(0, 4); i > 0; i--) o[r.pick(KEYS)] = value(r); return o; };
function mutate(r, o, d = 0) { // change something inside a JSON value in place
  if (o === null || typeof o !== 'object') return false; const ks = Object.keys(o); const k = ks.length ? r.pick(ks) : undefined;
  if (k !== undefined && d < 4 && r.bool(0.7) && mutate(r, o[k], d + 1)) return true;
  if (Array.isArray(o)) { if (r.bool() || !o.length) o.push('MUTATED'); else if (r.bool()) o.pop(); else o[0] = 'MUTATED'; return true; }
  if (k !== undefined && r.bool()) { if (r.bool()) delete o[k]; else o[k] = 'MUTATED'; } else o['MUT' + r.int(0, 3)] = { x: 1 }; return true;
}
const subtle = (r, v) => { // a deep copy that differs in one small place
  const c = clone(v); const spots = []; const walk = (o) => { if (o && typeof o === 'object') for (const k of Object.keys(o)) { if (o !== c || k !== 'userProperties') spots.push([o, k]); walk(o[k]); } }; walk(c); if (!spots.length) return c; const [o, k] = r.pick(spots); const old = o[k];
  if (typeof old === 'string') o[k] = r.bool() ? old + '!' : old === '1' ? 1 : null; else if (typeof old === 'number') o[k] = r.bool() ? old + 1 : String(old); else if (typeof old === 'boolean') o[k] = !old; else if (old === null) o[k] = r.pick([false, 0, '', {}, []]); else if (Array.isArray(old)) { if (old.length > 1 && r.bool()) old.reverse(); else if (!old.length && r.bool()) o[k] = {}; else old.push(0); } else { if (!Object.keys(old).length && r.bool()) o[k] = []; else if (Object.keys(old).length && r.bool()) delete old[Object.keys(old)[0]]; else old.extra = null; } return c; };
const reorder = (r, v) => { if (Array.isArray(v)) return v.map((x) => reorder(r, x)); if (v && typeof v === 'object') return Object.fromEntries(r.shuffle(Object.entries(v)).map(([k, x]) => [k, reorder(r, x)])); return v; };
const sorted = (v) => canon(v, true);
export default {
  property: 'C20', bundles: { connector: CONNECTOR_ENTRY },
  rule: 'Random histories of identity edits (setters, ordered property actions, editors committed again), whole-identity sets that are equal, reordered or differ in one nested place, listeners added, removed (also from inside a listener) and mutation of every object that went in or came out. A reference state of JSON copies predicts what each listener hears and what getIdentity returns after every step. Non-trivial = distinct step that committed or set an identity.',
  requires: ['notified', 'silent', 'subtle-difference', 'equal-reordered', 'mutated-returned', 'mutated-input', 'mutated-notified', 'editor-reused', 'set', 'unset', 'clear-all', 'removed-listener', 'removed-in-listener', 'key-length', 'twice-added'],
  workloads: [{ name: 'histories', quick: 12000, thorough: 500000, async run(t) {
    const r = t.rng; const sut = bare(t.sut.connector); const store = new sut.AnalyticsConnector().identityStore; let S = { userProperties: {} }; let heard = []; const L = []; const inputs = []; const outs = [];
    const own = (k, o) => Object.prototype.hasOwnProperty.call(o, k);
    const add = () => { const l = { on: true }; l.fn = (i) => { heard.push({ l, at: canon(i), on: l.on }); outs.push({ o: i, how: 'mutated-notified' }); if (l.removes && l.removes.on && l.removes !== l) { store.removeIdentityListener(l.removes.fn); l.removes.on = false; l.removes.offNow = true; t.count('removed-in-listener'); } if (l.once) { store.removeIdentityListener(l.fn); l.on = false; } }; L.push(l); if (r.bool(0.15) && L.length > 1) l.removes = r.pick(L); if (r.bool(0.1)) l.once = true; store.addIdentityListener(l.fn); if (r.bool(0.1)) { t.count('twice-added'); store.addIdentityListener(l.fn); } };
    const expectChange = (next, act, what) => {
      const before = S; const want = canon(next); const differs = canon(before) !== want; heard = []; for (const l of L) { l.had = l.on; l.offNow = false; } act(); S = clone(next);
      for (const l of L) { const h = heard.filter((x) => x.l === l); const n = h.length; const must = differs && l.had && !l.offNow; const may = differs && l.had;
        if (h.some((x) => !x.on)) t.violation('removed-listener-called', { what }); if (must ? n !== 1 : n > (may ? 1 : 0)) t.violation(n > 1 ? 'notified-twice' : n ? (l.had ? 'notified-without-change' : 'removed-listener-called') : 'not-notified', { what, before, next, n }); for (const x of h) if (x.at !== want) t.violation('notified-with-other-identity', { what, got: x.at, want }); }
      t.count(differs ? 'notified' : 'silent'); if (canon(next).includes('"length"')) t.count('key-length');
      judge(what); t.evaluated(canon([what, before, next, L.length]));
    };
    const judge = (what) => { const got = store.getIdentity(); t.equal(got, S, 'stored-identity', () => ({ what })); if (r.bool(0.3)) outs.push({ o: got, how: 'mutated-returned' }); for (const i of inputs) if (canon(i.o) !== i.copy) { t.violation('input-mutated', { what, now: i.o, was: i.copy }); i.copy = canon(i.o); } };
    const give = (o) => { inputs.push({ o, copy: canon(o) }); if (inputs.length > 6) inputs.shift(); return o; };
    let editor = null; let E = null; // the editor last committed and its state, as long as nothing else changed the identity
    for (let i = r.int(1, 3); i > 0; i--) add();
    for (let i = r.int(3, 14); i > 0; i--) {
      const op = r.weighted([[4, 'edit'], [2.5, 'setIdentity'], [1, 'add'], [1, 'remove'], [2.5, 'mutate']]); t.log(op);
      if (op === 'add') add();
      else if (op === 'remove') { const l = r.pick(L); if (l) { store.removeIdentityListener(l.fn); l.on = false; t.count('removed-listener'); } }
      else if (op === 'mutate') {
        if (r.bool() && outs.length) { const x = r.pick(outs); if (mutate(r, x.o)) t.count(x.how); } else if (inputs.length) { const x = r.pick(inputs); if (mutate(r, x.o)) { t.count('mutated-input'); x.copy = canon(x.o); } } heard = []; judge('mutation'); t.check(!heard.length, 'notified-without-change', { what: 'mutation' });
      } else if (op === 'setIdentity') {
        const how = r.pick(['fresh', 'equal', 'subtle', 'reordered', 'partial']); let n; if (how === 'fresh') { n = { userProperties: props(r) }; if (r.bool()) n.userId = r.pick(['u1', 'u2']); if (r.bool()) n.deviceId = r.pick(['d1', 'd2']); if (r.bool(0.3)) n.optOut = r.bool(); } else if (how === 'partial') n = r.pick([{}, { userId: 'u1' }, { deviceId: 'd1' }, { userProperties: {} }]); else if (how === 'equal') n = clone(S); else if (how === 'reordered') { n = reorder(r, clone(S)); t.count('equal-reordered'); } else { n = subtle(r, S); t.count('subtle-difference'); }
        editor = null; const g = give(n); expectChange(clone(n), () => store.setIdentity(g), 'setIdentity-' + how);
      } else {
        let ed = editor; let A; if (ed && r.bool(0.5)) { t.count('editor-reused'); A = E; } else { ed = store.editIdentity(); A = { ...clone(S), userProperties: clone(S.userProperties || {}) }; }
        for (let k = r.int(0, 3); k > 0; k--) {
          const e = r.pick(['userId', 'deviceId', 'optOut', 'props', 'update', 'update', 'update']);
          if (e === 'userId') { const v = r.pick(['u1', 'u2', '']); ed.setUserId(v); A.userId = v; } else if (e === 'deviceId') { const v = r.pick(['d1', 'd2']); ed.setDeviceId(v); A.deviceId = v; } else if (e === 'optOut') { const v = r.bool(); ed.setOptOut(v); A.optOut = v; }
          else if (e === 'props') { const p = r.pick([() => props(r), () => clone(A.userProperties), () => reorder(r, clone(A.userProperties))])(); ed.setUserProperties(give(p)); A.userProperties = clone(p); }
          else { const u = {}; for (const a of r.shuffle(['$set', '$unset', '$clearAll', '$add']).slice(0, r.int(0, 3))) { u[a] = a === '$clearAll' ? r.pick([{}, '-']) : a === '$unset' ? Object.fromEntries(r.shuffle(KEYS).slice(0, 2).map((x) => [x, '-'])) : a === '$add' ? { plan: 1 } : props(r); }
            ed.updateUserProperties(give(u)); const P = A.userProperties; for (const [a, v] of Object.entries(u)) { if (a === '$set') { t.count('set'); for (const [x, y] of Object.entries(v)) A.userProperties[x] = clone(y); } else if (a === '$unset') { t.count('unset'); for (const x of Object.keys(v)) if (own(x, A.userProperties)) delete A.userProperties[x]; } else if (a === '$clearAll') { t.count('clear-all'); A.userProperties = {}; } } void P; }
          if (r.bool(0.3)) judge('uncommitted-edit');
        }
        if (r.bool(0.85)) { expectChange(clone(A), () => ed.commit(), 'commit'); editor = ed; E = clone(A); } else { heard = []; judge('abandoned'); t.check(!heard.length, 'notified-without-change', { what: 'abandoned' }); if (ed === editor) editor = null; }
      }
    }
    t.sample({ listeners: L.length });
  } }],
};
