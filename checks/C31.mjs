import { bare } from '../lib/corelib.mjs';
import { Device } from '../lib/env.mjs';
import { canon } from '../lib/util.mjs';
const ENTRY = `export * from '@src/tag/consent/consent-manager'; export * from '@src/tag/consent/consent-gate'; export { initialize, setConsentStatus } from '@src/tag/index';`;
const ST = ['pending', 'granted', 'denied'];
export default {
  property: 'C31', bundles: { tag: ENTRY },
  rule: 'machine: random histories of configured seeds, runtime decisions and (un)subscriptions on the consent state machine, with subscribers that throw, unsubscribe themselves or each other, subscribe others and decide again while a change is being announced; an online monitor versions every change and checks what each subscriber hears. gate: random sequences of initialize calls (build config, window config, both) and decisions (recognised, unrecognised, hostile values) on a fresh page; status, gate queries and announcements are compared with a reference gate after every call. Non-trivial = distinct history in which a subscriber heard a change or the gate moved.',
  requires: ['changes', 'ignored', 'seed-ignored', 'seed-used', 'reentrant', 'superseded', 'threw', 'unsubscribed-other', 'unrecognised', 'gate-open', 'gate-pending', 'gate-denied', 'decision-before-init', 'window-config', 'started-late', 'relaxed-ignored'],
  workloads: [
    { name: 'machine', quick: 4000, thorough: 300000, run(t) {
      const r = t.rng; const sut = bare(t.sut.tag); const first = r.pick([undefined, ...ST]); const m = first === undefined ? new sut.ConsentManager() : new sut.ConsentManager(first);
      let status = first ?? 'pending'; let explicit = false; let ver = 0; const announcing = []; const subs = []; const hist = []; const ops = [];
      const sub = () => {
        const S = { id: subs.length, heard: [], from: ver, during: announcing.map((a) => a.v), mode: r.pick(['plain', 'plain', 'throw', 'unself', 'unother', 'subother', 'decide', 'decide', 'seed']) }; subs.push(S);
        S.off = m.onChange((s, p) => {
          if (S.gone) t.violation('heard-after-unsubscribing', { ops });
          const last = S.heard.length ? S.heard[S.heard.length - 1].v : S.from; const h = hist.find((x) => x.v > last && x.s === s && x.p === p); S.heard.push({ s, p, v: h ? h.v : last });
          if (!h) { const stale = hist.some((x) => x.s === s && x.p === p); t.violation(stale ? 'stale-or-repeated-change' : 'unknown-change', { heard: S.heard, hist, ops }); } else if (h.v > last + 1) t.violation('change-missed', { heard: S.heard, hist, ops }); else if (h.v < ver) t.count('superseded');
          if (S.mode === 'throw' && r.bool(0.6)) { t.count('threw'); throw new Error('listener'); }
          if (S.mode === 'unself') { S.gone = true; S.off(); }
          if (S.mode === 'unother' && r.bool()) { const o = r.pick(subs); if (!o.gone) { o.gone = true; o.off(); t.count('unsubscribed-other'); } }
          if (S.mode === 'subother' && subs.length < 12) sub();
          if (S.mode === 'decide' && announcing.length < 4 && r.bool(0.7)) { t.count('reentrant'); set(r.pick(ST)); }
          if (S.mode === 'seed') seed(r.pick(ST));
          if (S.mode === 'throw') throw new TypeError('again');
        }); ops.push('sub' + S.id + S.mode);
      };
      const apply = (name, s, effective, call) => {
        const moves = effective && s !== status && s !== 'pending'; ops.push(name + ':' + s);
        if (moves) { ver++; const a = ver; hist.push({ v: ver, s, p: status }); status = s; announcing.push(a); t.count('changes'); } else t.count('ignored');
        const got = call(); t.check(got === moves, 'result', { got, moves, ops }); t.check(m.getStatus() === status, 'status', { got: m.getStatus(), status, ops });
        if (!moves) return; announcing.pop(); if (announcing.length) return;
        for (const S of subs) { if (S.gone) continue; const last = S.heard.length ? S.heard[S.heard.length - 1].v : S.from; t.check(last === ver || S.from === ver, 'not-heard', { sub: S.id, mode: S.mode, from: S.from, heard: S.heard, ver, ops }); }
        t.evaluated(canon([first, ops.slice(-8), subs.map((x) => x.heard)]));
      };
      const set = (s) => { explicit = true; apply('set', s, true, () => m.setStatus(s)); };
      const seed = (s) => { t.count(explicit ? 'seed-ignored' : 'seed-used'); apply('seed', s, !explicit, () => m.seedFromConfig(s)); };
      const steps = r.int(2, 14);
      for (let i = 0; i < steps; i++) { const k = r.weighted([[4, 'set'], [1, 'seed'], [3, 'sub'], [1, 'off']]); if (k === 'set') set(r.pick(ST)); else if (k === 'seed') seed(r.pick(ST)); else if (k === 'sub') sub(); else if (subs.length) { const o = r.pick(subs); o.gone = true; o.off(); o.off(); ops.push('off' + o.id); } t.check(m.hasExplicitStatus() === explicit, 'explicit', { ops }); }
      
    } },
    { name: 'gate', quick: 1500, thorough: 60000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const p = d.page({ dom: false, seed: t.index, url: 'https://www.example.com/' }); const ops = [];
      const odd = () => r.pick(['GRANTED', ' granted', 'grant', '', null, undefined, 0, 1, true, false, NaN, 'constructor', '__proto__', p.eval(`({toString(){return 'granted'}})`), p.eval(`['granted']`), p.eval(`new String('denied')`), p.eval('({})'), p.eval(`Symbol('granted')`), p.eval('(()=>1)')]);
      let required = false; let status = 'pending'; let explicit = false; let deferred = false; let started = false; const changes = []; const heard = []; const once = [];
      let sut; const load = () => { sut = p.load(t.sut.tag); sut.consentGate.manager.onChange((s, q) => heard.push([s, q])); };
      load();
      const move = (s) => { if (s !== status && s !== 'pending') { changes.push([s, status]); status = s; } };
      const steps = r.int(1, 8);
      for (let i = 0; i < steps; i++) {
        if (r.bool(0.55)) {
          const s = r.bool(0.3) ? odd() : r.pick(ST); const known = ST.includes(s); ops.push(['set', typeof s === 'symbol' ? 'symbol' : s]); if (!known) t.count('unrecognised'); else if (!started && !deferred) t.count('decision-before-init');
          const api = p.g.webExperiment && r.bool() ? p.g.webExperiment.setConsentStatus.bind(p.g.webExperiment) : sut.setConsentStatus;
          try { api(s); } catch (e) { t.violation('decision-threw', { e: String(e), ops }); }
          if (known) { explicit = true; move(s); if (status === 'granted' && deferred && !started) { started = true; deferred = false; t.count('started-late'); } }
        } else {
          const co = () => r.pick([undefined, undefined, {}, { consentRequired: true }, { consentRequired: true, consentStatus: r.pick(ST) }, { consentRequired: false }, { consentStatus: r.pick(ST) }, { consentRequired: true, consentStatus: odd() }, { consentRequired: false, consentStatus: 'denied' }]);
          const arg = co(); const win = co(); const cfg = {}; if (arg) cfg.consentOptions = arg; if (win || r.bool(0.2)) { p.g.experimentConfig = win ? { consentOptions: win } : {}; t.count('window-config'); } else delete p.g.experimentConfig;
          const eff = { ...arg, ...(win || {}) }; const gated = !!eff.consentRequired || deferred; ops.push(['init', { arg: Object.keys(arg || {}), eff: String(eff.consentRequired) + '/' + (typeof eff.consentStatus === 'symbol' ? 'symbol' : String(Object.prototype.toString.call(eff.consentStatus) + (typeof eff.consentStatus === 'string' ? eff.consentStatus : '')))}]);
          if (deferred && !eff.consentRequired) t.count('relaxed-ignored');
          try { sut.initialize('apikey-1234567', { initialFlags: '[]', pageObjects: '{}' }, cfg); } catch (e) { t.violation('initialize-threw', { e: String(e && e.stack || e), ops }); }
          if (!started) { required = required || gated; if (gated) { if (!explicit) move(ST.includes(eff.consentStatus) ? eff.consentStatus : 'pending'); if (status === 'granted') { started = true; deferred = false; } else deferred = true; } else started = true; }
        }
        t.check(typeof p.g.webExperiment?.setConsentStatus === 'function' || !ops.some((o) => o[0] === 'init'), 'no-way-to-decide', { ops });
        if (r.bool(0.3)) { const o = { at: changes.length, got: [] }; once.push(o); sut.onConsentDecision((g) => o.got.push(g)); ops.push(['once']); }
        for (const o of once) t.equal(o.got, changes.slice(o.at, o.at + 1).map((c) => c[0] === 'granted'), 'one-shot', { ops });
        const pending = required && status === 'pending'; const withheld = required && status !== 'granted'; t.count(pending ? 'gate-pending' : withheld ? 'gate-denied' : 'gate-open');
        t.equal([sut.consentGate.manager.getStatus(), sut.isConsentPending(), sut.isConsentWithheld()], [status, pending, withheld], 'gate', { ops });
        const dbg = sut.getConsentDebugState(); t.equal([dbg.status, !!dbg.required, dbg.started, dbg.startDeferred], [status, required, started, deferred], 'debug-state', { ops });
        t.equal(heard, changes, 'announced', { ops }); t.evaluated(canon([required, status, explicit, deferred, started, ops]));
      }
      await d.clock.advance(3000); p.close();
    } },
  ],
};
