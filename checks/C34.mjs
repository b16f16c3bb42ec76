import { Device } from '../lib/env.mjs';
import { canon } from '../lib/util.mjs';
const ENTRY = `export * from '@src/tag/consent/consent-impression-buffer'; export * from '@src/tag/consent/consent-gate';`;
export default {
  property: 'C34', bundles: { tag: ENTRY },
  rule: 'Random histories of impressions (with, without and with odd times, up to 600 waiting), consent decisions and their reversal, on one to three wrapped integrations whose tracker accepts, refuses, throws, tracks again or decides consent from inside, with virtual time between. An online monitor owns the list of what each integration is owed and judges every tracker call: only the head of the list may be attempted while it is owed, unchanged and with the time it happened, nothing after a refusal, and an attempt at least every second while something is owed. Non-trivial = distinct step with something buffered, delivered or dropped.',
  requires: ['buffered', 'evicted', 'delivered', 'refused', 'threw', 'retried', 'denied-drop', 'revoked-while-owed', 'regranted', 'stamped', 'kept-time', 'direct', 'reentrant-track', 'decided-inside', 'wrapped-twice', 'not-required'],
  workloads: [{ name: 'histories', quick: 5000, thorough: 250000, async run(t) {
    const r = t.rng; const d = new Device({ seed: t.index }); const p = d.page({ noDocument: true, seed: t.index }); const sut = p.load(t.sut.tag); const gate = sut.consentGate; const ops = []; let n = 0;
    let required = r.bool(0.9); gate.required = required; let status = 'pending'; if (!required) t.count('not-required'); if (r.bool(0.15)) { status = r.pick(['granted', 'denied']); gate.manager.setStatus(status); }
    const withheld = () => required && status !== 'granted'; let depth = 0;
    const all = [];
    const make = (id) => {
      const I = { id, mode: 'accept', owed: [], direct: [], lastTry: -1, seen: new Set() };
      I.plugin = { type: 'integration', name: 'i' + id, getUser: () => ({}), track(e) {
        if (this !== I.plugin) t.violation('tracker-lost-this', { ops });
        const isDirect = I.direct.length && I.direct[I.direct.length - 1].e === e;
        if (!isDirect) {
          const head = I.owed[0]; I.lastTry = d.clock.now;
          if (withheld()) { t.violation('sent-while-withheld', { e, status, ops }); return true; }
          if (!head) { t.violation(I.seen.has(canon(e)) ? 'sent-again' : 'sent-unowed', { e, ops }); return true; }
          if (canon(e) !== head.copy) { t.violation(I.owed.some((x) => x.copy === canon(e)) ? 'out-of-order' : I.seen.has(canon(e)) ? 'sent-again' : 'altered', { e, head: head.copy, ops }); return true; }
        } else if (withheld()) t.violation('sent-while-withheld', { e, status, ops });
        const m = I.mode === 'mixed' ? r.pick(['accept', 'accept', 'refuse', 'throw', 'again', 'decide']) : I.mode;
        if (m === 'refuse') { t.count('refused'); return r.pick([false, undefined, 0, null]); }
        if (m === 'throw') { t.count('threw'); throw new Error('tracker'); }
        const take = () => { if (!isDirect && I.owed[0]) { I.seen.add(I.owed[0].copy); I.owed.shift(); t.count('delivered'); } };
        if (depth < 2 && (m === 'again' || m === 'decide')) { depth++; const h = isDirect ? null : I.owed.shift(); if (h) { I.seen.add(h.copy); t.count('delivered'); } if (m === 'again') { t.count('reentrant-track'); track(I); } else { t.count('decided-inside'); decide(r.pick(['granted', 'denied'])); } depth--; return true; }
        take(); return true;
      } };
      sut.wrapIntegrationTrack(I.plugin); if (r.bool(0.2)) { t.count('wrapped-twice'); const before = I.plugin.track; sut.wrapIntegrationTrack(I.plugin); t.check(I.plugin.track === before, 'wrapped-twice', {}); }
      all.push(I); return I;
    };
    const track = (I) => {
      n++; const e = p.json({ eventType: '$impression', eventProperties: { flag_key: 'f' + r.int(1, 3), n } }); const tm = r.pick(['none', 'none', 'number', 'zero', 'bare', 'null']);
      if (tm === 'number') e.eventProperties.time = d.clock.now - 5000; else if (tm === 'zero') e.eventProperties.time = 0; else if (tm === 'null') e.eventProperties.time = null; else if (tm === 'bare') { delete e.eventProperties; e.eventType = 'e' + n; }
      const before = canon(e); let got;
      if (withheld()) {
        if (status === 'pending') { const kept = e.eventProperties?.time !== undefined; t.count(kept ? 'kept-time' : 'stamped'); const copy = kept ? before : canon({ ...e, eventProperties: { ...e.eventProperties, time: d.clock.now } }); I.owed.push({ copy }); t.count('buffered'); if (I.owed.length > 512) { I.owed.shift(); t.count('evicted'); } } else t.count('denied-drop');
        try { got = I.plugin.track(e); } catch (x) { t.violation('track-threw', { x: String(x), ops }); } t.check(got === true, 'withheld-not-taken', { got, ops });
      } else { const mark = { e }; I.direct.push(mark); t.count('direct'); try { got = I.plugin.track(e); } catch (x) { t.check(x.message === 'tracker', 'track-threw', { x: String(x) }); } I.direct = I.direct.filter((x) => x !== mark); }
      t.check(canon(e) === before, 'caller-event-changed', { ops });
    };
    const decide = (s) => { if (s === status) { gate.manager.setStatus(s); return; } ops.push([s, all.map((I) => [I.mode, I.owed.length])]); if (s === 'denied') { if (status === 'granted' && all.some((I) => I.owed.length)) t.count('revoked-while-owed'); for (const I of all) I.owed.length = 0; } else if (status === 'denied') t.count('regranted'); status = s; for (const I of all) I.lastTry = -1; gate.manager.setStatus(s); };
    for (let i = r.int(1, 3); i-- > 0;) make(i);
    const steps = r.int(4, 20);
    for (let i = 0; i < steps; i++) {
      const k = r.weighted([[8, 'track'], [2, 'decide'], [3, 'mode'], [3, 'wait'], [0.15, 'burst']]); const I = r.pick(all); const was = [status, all.map((x) => [x.mode, x.owed.length])];
      if (k === 'track') { ops.push(['t', I.id]); track(I); } else if (k === 'burst') { const c = r.pick([510, 512, 513, 600]); ops.push(['burst', c]); for (let j = 0; j < c; j++) track(I); }
      else if (k === 'mode') { I.mode = r.pick(['accept', 'refuse', 'throw', 'again', 'decide', 'mixed']); ops.push(['mode', I.id, I.mode]); }
      else if (k === 'decide') { const s = r.pick(['granted', 'granted', 'denied']); const ch = s !== status; decide(s); if (ch && status === 'granted' && required) for (const x of all) if (x.owed.length) t.check(x.lastTry === d.clock.now || !['accept', 'refuse', 'throw'].includes(x.mode), 'not-attempted-on-grant', { ops }); }
      else { const ms = r.pick([10, 500, 1000, 1500, 3000, 60000]); ops.push(['wait', ms]); const owing = all.map((x) => status === 'granted' && x.owed.length > 0); const at = d.clock.now; const settledModes = all.map((x) => ['accept', 'refuse', 'throw'].includes(x.mode)); await d.clock.advance(ms);
        if (ms >= 1000) all.forEach((x, j) => { if (!owing[j] || !settledModes[j]) return; t.count('retried'); t.check(x.lastTry > at || status !== 'granted', 'not-retried', { ms, id: x.id, mode: x.mode, ops }); if (status === 'granted' && x.mode === 'accept') t.check(x.owed.length === 0, 'not-drained', { left: x.owed.length, ops }); if (x.owed.length) t.check(x.lastTry >= d.clock.now - 1000, 'retry-late', { now: d.clock.now, last: x.lastTry, ops }); }); }
      all.forEach((x) => { if (x.mode === 'accept' && k === 'decide' && was[0] !== 'granted' && status === 'granted') t.check(x.owed.length === 0, 'not-flushed', { left: x.owed.length, ops }); });
      t.evaluated(canon([was, k, ops.slice(-5)]));
    }
    for (const I of all) I.mode = 'accept'; await d.clock.advance(2500); if (status === 'granted') for (const I of all) t.check(I.owed.length === 0, 'lost', { left: I.owed.length, ops }); await d.clock.advance(2000); t.check(status === 'pending' || d.clock.pending().length === 0, 'timer-left-running', { n: d.clock.pending().length, ops });
    t.check(d.clock.errors.length === 0, 'timer-threw', { e: String(d.clock.errors[0]) }); t.sample({ ops: ops.slice(0, 8) }); p.close();
  } }],
};
