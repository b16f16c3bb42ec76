import { Device } from '../lib/env.mjs';
import { canon } from '../lib/util.mjs';
const ENTRY = `export * from '@src/tag/behavioral-targeting/session-manager'; export * from '@src/tag/consent/consent-gate';`;
const SITES = [['www.example.com', 'example.com', 'shop.example.com', 'a.b.example.com'], ['www.shop.co.uk', 'shop.co.uk', 'm.shop.co.uk'], ['me.github.io', 'x.me.github.io'], ['localhost'], ['10.0.0.7'], ['WWW.Example.com', 'example.com']];
const CORRUPT = ['', '{', 'null', '5', '"s"', '[]', '{}', '{"sessionId":5,"lastEventTime":1}', '{"sessionId":"x"}', '{"sessionId":"x","lastEventTime":"1"}', '{"sessionId":null,"lastEventTime":null}', '%', '%7B', '%E0%A4%A', 'x'.repeat(50), '[{"sessionId":"x","lastEventTime":1700000000000}]'];
export default {
  property: 'C35', bundles: { tag: ENTRY },
  rule: 'shared: random histories of activity, reads and page loads in several tabs on the hosts of one site, with gaps around the inactivity window (one millisecond either side), corrupt, missing and legacy cookies; an online checker holds the one session the site should have and judges every id and start time, and that reads write nothing while a session stands. blocked: cookies refused, unreadable or unwritable (from the start or for a while): every page must still have a session of its own that follows the same rule. consent: sessions held in memory until grant. Non-trivial = distinct step judged.',
  requires: ['kept', 'rotated', 'edge-kept', 'edge-rotated', 'read-kept', 'read-rotated', 'other-tab-agrees', 'other-host-agrees', 'corrupt', 'legacy', 'removed', 'reload', 'blocked-step', 'unblocked', 'consent-pending', 'consent-granted', 'consent-denied', 'cleared', 'custom-timeout'],
  workloads: [
    { name: 'shared', quick: 3000, thorough: 150000, run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const site = r.pick(SITES); const api = r.pick(['client-abcdef123', 'k', 'client-abcdef999']); const T = r.bool(0.7) ? undefined : r.pick([1000, 60_000, 3_600_000]); const W = T ?? 1_800_000; if (T) t.count('custom-timeout'); const ops = [];
      const key = `EXP_${api.slice(0, 10)}_rtbt_session`; const tabs = []; const known = new Map(); let cur = null; let loose = false; // the session the site has, and whether the cookie was damaged since it was last written
      const open = () => { const host = r.pick(site); const p = d.page({ url: `https://${host}/p`, seed: t.index * 97 + tabs.length }); const sut = p.load(t.sut.tag); const x = { p, host, m: T === undefined ? new sut.SessionManager(api) : new sut.SessionManager(api, T), last: null }; tabs.push(x); return x; };
      const fresh = (x, s, now) => { if (known.has(s.id)) t.violation('session-id-reused', { s, ops }); t.check(s.start === now, 'fresh-start-time', { s, now, ops }); cur = { id: s.id, start: now, last: now }; known.set(s.id, cur); loose = false; };
      const look = (x, why) => { let s; try { s = { id: x.m.getCurrentSessionId(), start: x.m.getSessionStartTime() }; } catch (e) { t.violation('threw', { e: String(e), why, ops }); return null; } t.check(typeof s.id === 'string' && s.id.length > 0, 'no-id', { s }); return s; };
      const judge = (x, activity) => {
        const now = d.clock.now; const live = cur && now - cur.last <= W; const before = cur && { id: cur.id, start: cur.start, last: cur.last, by: cur.by }; const pub = before && { ...before, by: undefined }; const mark = d.jar.log.length;
        if (activity) { try { x.m.recordActivity(); } catch (e) { t.violation('threw', { e: String(e), ops }); return; } }
        const s = look(x, activity ? 'activity' : 'read'); if (!s) return;
        const edge = before && Math.abs(now - before.last - W) <= 1;
        if (loose) { // whatever survived in a page may go on, otherwise a fresh one starts
          const kn = known.get(s.id);
          if (kn) { if (kn.legacy) kn.start = s.start; t.check(s.start === kn.start, 'start-time-moved', { s, start: kn.start, ops }); t.check(now - kn.last <= W, 'not-rotated', { s, idle: now - kn.last, ops }); if (activity) { cur = kn; cur.last = now; loose = false; } } else fresh(x, s, now);
        } else if (live) {
          t.count(activity ? 'kept' : 'read-kept'); if (edge) t.count('edge-kept'); if (x !== before.by) { t.count('other-tab-agrees'); if (before.by && before.by.host !== x.host) t.count('other-host-agrees'); }
          if (!t.check(s.id === before.id, 'session-lost', { s, before: pub, now, idle: now - before.last, activity, ops })) fresh(x, s, now); else { t.check(s.start === before.start, 'start-time-moved', { s, before: pub, ops }); if (activity) cur.last = now; else t.check(d.jar.log.slice(mark).every((e) => e.name !== key), 'read-wrote', { log: d.jar.log.slice(mark), ops }); }
        } else { t.count(activity ? 'rotated' : 'read-rotated'); if (edge) t.count('edge-rotated'); if (before && s.id === before.id) { t.violation('not-rotated', { s, before: pub, idle: now - before.last, activity, ops }); } fresh(x, s, now); }
        if (activity || !live) cur.by = x; ops.push([activity ? 'act' : 'read', tabs.indexOf(x), now - 1_700_000_000_000]); t.evaluated(canon([site, W, before && now - before.last, activity, loose, ops.slice(-4)]));
      };
      open(); const n = r.int(4, 20);
      for (let i = 0; i < n; i++) {
        const k = r.weighted([[5, 'act'], [5, 'read'], [6, 'time'], [1, 'open'], [0.6, 'reload'], [0.5, 'corrupt'], [0.3, 'remove'], [0.3, 'legacy'], [0.2, 'clear']]); const x = r.pick(tabs);
        if (k === 'act' || k === 'read') judge(x, k === 'act');
        else if (k === 'time') d.clock.skip(r.pick([1, 1000, W / 2, W - 1, W, W + 1, W, W + 1, W * 3, cur ? Math.max(0, cur.last + W - d.clock.now) : 5, cur ? Math.max(0, cur.last + W + 1 - d.clock.now) : 5]));
        else if (k === 'open') { if (tabs.length < 5) open(); } else if (k === 'reload') { t.count('reload'); tabs.splice(tabs.indexOf(x), 1); x.p.close(); open(); }
        else if (k === 'clear') { t.count('cleared'); try { x.m.clearSession(); } catch (e) { t.violation('threw', { e: String(e) }); } loose = true; ops.push(['clear']); }
        else { const c = d.jar.cookies.find((o) => o.name === key); if (!c) continue; ops.push([k]); if (k === 'remove') { t.count('removed'); d.jar.cookies.splice(d.jar.cookies.indexOf(c), 1); loose = true; } else if (k === 'corrupt') { t.count('corrupt'); c.value = r.pick(CORRUPT); loose = true; } else if (cur && !loose) { t.count('legacy'); c.value = encodeURIComponent(JSON.stringify({ sessionId: cur.id, lastEventTime: cur.last })); cur.start = cur.last; cur.legacy = true; } }
      }
      t.sample({ ops: ops.slice(0, 8) });
    } },
    { name: 'blocked', quick: 1500, thorough: 60000, run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const site = r.pick(SITES); const W = 1_800_000; const ops = []; const mode = r.pick(['refused', 'get-throws', 'set-throws', 'both-throw', 'no-document', 'one-domain']); const passing = r.bool(0.3) && mode !== 'no-document';
      const on = () => { if (mode === 'refused') d.jar.refuse = () => true; else if (mode === 'one-domain') d.jar.refuse = (c) => !c.hostOnly; else d.cookieFault = (e) => mode === 'both-throw' || (mode === 'get-throws' ? e.op === 'get' : e.op === 'set'); }; const off = () => { d.jar.refuse = null; d.cookieFault = null; };
      on(); const tabs = Array.from({ length: r.int(1, 3) }, (_, i) => { const host = r.pick(site); const p = d.page({ url: `https://${host}/`, seed: t.index * 7 + i, noDocument: mode === 'no-document' }); return { host, m: new (p.load(t.sut.tag).SessionManager)('client-abc'), cur: null }; });
      for (let i = r.int(3, 14); i-- > 0;) {
        if (passing && r.bool(0.15)) { off(); t.count('unblocked'); for (const x of tabs) x.loose = true; continue; } if (passing && r.bool(0.1)) { on(); continue; }
        if (r.bool(0.4)) { d.clock.skip(r.pick([1, 1000, W - 1, W, W + 1, W * 2])); continue; }
        const x = r.pick(tabs); const act = r.bool(); const now = d.clock.now; let s; t.count('blocked-step');
        try { if (act) x.m.recordActivity(); s = { id: x.m.getCurrentSessionId(), start: x.m.getSessionStartTime() }; } catch (e) { t.violation('threw', { mode, e: String(e), ops }); break; }
        const one = mode === 'one-domain'; const c = x.cur; const live = c && now - c.last <= W; ops.push([act, s.id, now - 1_700_000_000_000]);
        if (!one && !x.loose) { if (live) { t.check(s.id === c.id && s.start === c.start, 'session-lost', { mode, s, c, now, ops }); if (act) c.last = now; } else { t.check(!c || s.id !== c.id, 'not-rotated', { mode, s, c, ops }); t.check(s.start === now, 'fresh-start-time', { mode, s, now }); x.cur = { id: s.id, start: now, last: now }; } } else { t.check(typeof s.id === 'string' && s.id && s.start <= now, 'unusable', { s }); if (one) { const again = x.m.getCurrentSessionId(); t.check(again === s.id, 'unstable', { again, s, mode }); } }
        t.evaluated(canon([mode, passing, ops.slice(-4)]));
      }
    } },
    { name: 'consent', quick: 500, thorough: 20000, run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const p = d.page({ url: 'https://www.example.com/', seed: t.index }); const sut = p.load(t.sut.tag); sut.consentGate.required = true; const m = new sut.SessionManager('client-abc'); const key = 'EXP_client-abc_rtbt_session';
      if (r.bool()) d.jar.set('www.example.com', `${key}=${encodeURIComponent(JSON.stringify({ sessionId: 'old', sessionStartTime: d.clock.now - 10, lastEventTime: d.clock.now - 10 }))}; domain=.example.com; path=/`);
      const before = d.jar.log.length; t.count('consent-pending'); m.recordActivity(); const id = m.getCurrentSessionId(); t.check(id !== 'old', 'read-before-consent', {}); d.clock.skip(r.pick([0, 1000, 60000])); if (r.bool()) m.recordActivity(); t.check(m.getCurrentSessionId() === id, 'session-lost', {});
      t.check(d.jar.log.slice(before).length === 0 && p.log.every((e) => e.type !== 'cookie'), 'cookie-before-consent', { log: p.log.slice(0, 5) });
      const end = r.pick(['granted', 'denied']); sut.consentGate.manager.setStatus(end); t.count('consent-' + end); t.check(m.getCurrentSessionId() === id, 'session-lost-at-decision', { end }); m.recordActivity(); t.check(m.getCurrentSessionId() === id, 'session-lost-after-decision', { end });
      const wrote = d.jar.log.slice(before).filter((e) => e.name === key && e.op === 'set').length; if (end === 'denied') t.check(wrote === 0, 'cookie-after-denial', {}); else { t.check(wrote > 0, 'not-shared-after-grant', {}); const q = d.page({ url: 'https://shop.example.com/' }); t.check(new (q.load(t.sut.tag).SessionManager)('client-abc').getCurrentSessionId() === id, 'other-page-disagrees', {}); }
      t.evaluated(canon([t.index % 1000, end]));
    } },
  ],
};
