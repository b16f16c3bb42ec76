import { bare } from '../lib/corelib.mjs';
import { canon } from '../lib/util.mjs';
export const CONNECTOR_ENTRY = `export * from '@amplitude/analytics-connector'; export { isEqual } from '@src/connector/util/equals';`;
export default {
  property: 'C19', bundles: { connector: CONNECTOR_ENTRY },
  rule: 'Random histories of logging, attaching and replacing receivers that throw, log further events (nested, up to two levels) or replace themselves, with up to 600 events waiting. An online checker is told of every logEvent call and every receiver call and knows which event each receiver must get next; at the end nothing may be left. Non-trivial = distinct step that reached a receiver or changed the queue.',
  requires: ['queued', 'dropped', 'flushed', 'immediate', 'replaced', 'threw-in-flush', 'threw-direct', 'reentrant-in-flush', 'reentrant-direct', 'replaced-in-flush', 'same-event-twice'],
  workloads: [{ name: 'histories', quick: 6000, thorough: 300000, async run(t) {
    const r = t.rng; const sut = bare(t.sut.connector); const b = new sut.AnalyticsConnector().eventBridge;
    const Q = []; const trace = []; let cur = null; let flushing = false; let n = 0; let nested = 0; const shared = { eventType: 'shared' };
    const ev = () => { n++; if (r.bool(0.1)) { t.count('same-event-twice'); return shared; } const e = { eventType: 'e' + n }; if (r.bool(0.5)) e.eventProperties = { n, list: [n] }; if (r.bool(0.3)) e.userProperties = { u: n }; return e; };
    const log = (dir) => { // every event becomes an expectation before the real call
      const e = ev(); const copy = canon(e);
      if (!cur) { if (Q.length < 512) { Q.push({ e, copy }); t.count('queued'); } else t.count('dropped'); } else { Q.push({ e, copy, direct: !flushing }); if (!flushing) t.count('immediate'); }
      const before = cur ? cur.got : 0; const owner = cur; let threw = null;
      try { b.logEvent(e); } catch (x) { threw = x; }
      if (threw && !(owner && owner.threw && String(threw.message).startsWith('receiver'))) t.violation('log-threw', { e: String(threw) });
      if (owner && !flushing && dir !== 'nested' && Q.length) { t.violation('not-delivered-at-once', { waiting: Q.map((x) => x.copy).slice(0, 3), by: owner.id }); Q.length = 0; }
      if (owner && !flushing && dir === 'nested' && owner.got === before && !Q.every((x) => !x.direct)) { t.violation('nested-not-delivered', { by: owner.id }); }
    };
    let ids = 0;
    const receiver = () => {
      const R = { id: ++ids, got: 0, threw: false, mode: r.pick(['plain', 'plain', 'throws', 'logs', 'logs2', 'mixed', 'swaps']) };
      R.fn = (e) => {
        R.got++; trace.push(R.id + ':' + (e && e.eventType)); if (trace.length > 60) trace.shift();
        if (cur !== R) { t.violation('delivered-to-wrong-receiver', { got: e, by: R.id, current: cur && cur.id, trace: trace.slice(-10) }); return; }
        // nested direct deliveries are stacked: the youngest direct expectation is the one being delivered
        const i = flushing ? 0 : Q.findIndex((x) => x.direct); const want = Q[i]; if (!want || want.e !== e && want.copy !== canon(e)) { t.violation(want ? (Q.some((x) => x.e === e) ? 'out-of-order' : 'repeated-or-foreign') : 'repeated-or-foreign', { got: e, want: want && want.copy, flushing, trace: trace.slice(-10) }); return; }
        if (want.copy !== canon(e)) t.violation('event-altered', { got: e, want: want.copy });
        Q.splice(i, 1); if (flushing) t.count('flushed');
        const m = R.mode === 'mixed' ? r.pick(['plain', 'throws', 'logs']) : R.mode;
        if (m.startsWith('logs') && nested < 40 && r.bool(0.6)) { nested++; t.count(flushing ? 'reentrant-in-flush' : 'reentrant-direct'); log('nested'); if (m === 'logs2' && r.bool()) log('nested'); if (r.bool(0.2)) fail(); }
        if (m === 'swaps' && r.bool(0.3)) { if (flushing) t.count('replaced-in-flush'); attach(true); }
        if (m === 'throws' && r.bool(0.5)) fail();
        function fail() { R.threw = true; t.count(flushing ? 'threw-in-flush' : 'threw-direct'); throw new Error('receiver ' + R.id); }
      }; return R;
    };
    const attach = (inner) => {
      const R = receiver(); if (cur) t.count('replaced'); cur = R; const was = flushing; if (Q.length) flushing = true; let threw = null;
      try { b.setEventReceiver(R.fn); } catch (x) { threw = x; } if (threw && !String(threw.message).startsWith('receiver')) t.violation('attach-threw', { e: String(threw) });
      flushing = was; if (!inner) { if (!t.check(Q.length === 0, 'lost-at-attach', () => ({ left: Q.length, head: Q[0].copy, mode: R.mode }))) Q.length = 0; }
    };
    const steps = r.int(3, 18);
    for (let i = 0; i < steps; i++) {
      const op = r.weighted([[6, 'log'], [1.5, 'attach'], [0.3, 'burst']]); const at = [op, Q.length, cur && cur.mode, n];
      if (op === 'log') log(); else if (op === 'attach') attach(); else { const k = cur ? 20 : r.pick([100, 511, 512, 513, 600]); for (let j = 0; j < k; j++) log(); }
      t.evaluated(canon([at, trace.slice(-6)]));
    }
    if (!cur) attach(); t.check(Q.length === 0, 'lost', () => ({ left: Q.length })); log(); t.sample({ n, ids });
  } }],
};
