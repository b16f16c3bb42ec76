import { Device } from '../lib/env.mjs';
import { canon, clone, turn } from '../lib/util.mjs';
import { TAG, API, K10, configs, flag, page, recorder } from '../lib/tag.mjs';
const HOSTS = ['https://www.example.com', 'https://shop.example.com', 'https://example.com', 'https://a.eu.example.com', 'https://www.other.org', 'http://localhost'];
const LS = K10; const DK = K10 + '_DEFAULT_USER_PROVIDER'; const CK = K10 + '_identity'; const UUID = /^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$/;
const enc = (s) => Buffer.from(encodeURIComponent(JSON.stringify(s))).toString('base64');
const dec = (v) => { try { let x = v; try { x = decodeURIComponent(v); } catch { /* raw */ } const j = JSON.parse(decodeURIComponent(Buffer.from(x, 'base64').toString())); const o = JSON.parse(j); return o && typeof o === 'object' && !Array.isArray(o) ? o : {}; } catch { return {}; } };
const site = (h) => (/example\.com$/.test(h) ? 'example.com' : new URL(h).hostname.replace(/^www\./, ''));
const obj = (s) => { try { const v = JSON.parse(s); return v && typeof v === 'object' && !Array.isArray(v) ? v : {}; } catch { return {}; } };
const str = (v) => typeof v === 'string' && v !== '';
export default {
  property: 'C44', bundles: { tag: TAG },
  rule: 'journeys: visitors load pages on the hosts of a site and of other sites, one after the other or several at once, days or years apart, with what earlier versions left (device ids, ids without the shared cookie, partial cookies, first-seen times), with unreadable or wrongly shaped entries, and with cookies or the storage refusing; after every load the ids and first-seen time evaluated, sent with requests, and left in storage and cookie are compared with an independent resolution: shared cookie, else what this origin remembers, else older forms, else new. Non-trivial = distinct judged load.',
  requires: ['first-visit', 'same-origin-again', 'subdomain', 'other-site', 'legacy-device-id', 'both-ids', 'partial-cookie', 'corrupt-cookie', 'corrupt-local', 'cookies-refused', 'cookies-throw', 'storage-refuses-writes', 'cookie-expired', 'concurrent', 'evaluated-user', 'local-cleared', 'cookie-cleared', 'legacy-first-seen', 'later-pages-agree'],
  workloads: [
    { name: 'journeys', quick: 1500, thorough: 60000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const ops = []; const seen = new Map(); const remoteFlag = flag('rf', { mode: 'remote', blocking: r.bool(0.3) }); const everV2 = new Map(); const tabs = [d.tab()];
      const jarGet = (h) => { const c = d.jar.visible(new URL(h).hostname).find((x) => x.name === CK); return c ? c.value : undefined; };
      let fault = null; const setFault = () => { d.cookieFault = fault === 'cookies-throw' ? () => true : null; d.jar.refuse = fault === 'cookies-refused' ? () => true : null; d.storageFault = fault === 'storage-refuses-writes' ? (e) => e.op === 'set' && e.area === 'local' && !/test/i.test(e.key) : null; };
      const who = (h) => { const b = state(h); const E = obj(b.e); const C = fault !== 'cookies-throw' && b.c !== undefined ? dec(b.c) : {}; return { w: E.web_exp_id || E.device_id || 'none', v: str(C.web_exp_id_v2) ? C.web_exp_id_v2 : E.web_exp_id_v2 ?? (E.web_exp_id || E.device_id || 'none'), f: str(C.first_seen) ? C.first_seen : obj(b.f).first_seen ?? 'none' }; };
      const load = (h, tab) => { const e = who(h); const flags = [remoteFlag, ...Object.entries({ w: 'web_exp_id', v: 'web_exp_id_v2', f: 'first_seen' }).map(([k, s]) => flag('who-' + k, { payloads: { treatment: undefined }, when: [[[s], 'is', [e[k]], 'treatment']], rest: 'off' }))]; const p = d.page({ url: h + '/' + r.pick(['', 'p?x=1']), tab, seed: t.index + ':' + ops.length, fetch: (q) => { p.sent = q; return { status: 200, body: [], delay: 20 }; } }); p.who = e; p.got = recorder(p, { user: {} }); p.sut = p.load(t.sut.tag); p.sut.initialize(API, configs(p, { flags, pages: { rf: { p1: page('p1') } } }), p.json({})); return p; };
      const finish = async (ps) => { for (let i = 0; i < 30 && !ps.every((p) => p.g.webExperiment?.isRunning); i++) { await d.clock.advance(50); await turn(); } await d.clock.advance(40); await turn(); };
      const state = (h) => ({ e: d.localFor(h).get(LS), f: d.localFor(h).get(DK), c: jarGet(h) });
      for (let n = r.int(2, 7), i = 0; i < n; i++) {
        const h = r.weighted([[4, HOSTS[0]], [3, HOSTS[1]], [1, HOSTS[2]], [1, HOSTS[3]], [1, HOSTS[4]], [0.5, HOSTS[5]]]); const ls = d.localFor(h); const k = r.weighted([[6, 'none'], [1, 'legacy'], [0.6, 'both'], [1, 'corrupt-local'], [0.7, 'corrupt-cookie'], [0.7, 'partial-cookie'], [0.5, 'clear-local'], [0.5, 'clear-cookie'], [0.5, 'first-seen'], [0.6, 'wait']]);
        if (k === 'legacy') { if (!ls.has(LS)) { t.count('legacy-device-id'); ls.set(LS, JSON.stringify({ device_id: 'dev-' + i, ...(r.bool(0.3) ? { extra: 1 } : {}) })); } } else if (k === 'both') { t.count('both-ids'); ls.set(LS, JSON.stringify({ web_exp_id: 'w-' + i, device_id: 'dev-' + i, ...(r.bool() ? { web_exp_id_v2: 'v2-' + i } : {}) })); }
        else if (k === 'corrupt-local') { t.count('corrupt-local'); ls.set(r.bool(0.7) ? LS : DK, r.pick(['{', '"abc"', '5', 'true', 'null', '[]', '""', '[{"web_exp_id":"x"}]', ''])); } else if (k === 'corrupt-cookie' || k === 'partial-cookie') { t.count(k); d.jar.set(new URL(h).hostname, `${CK}=${k === 'corrupt-cookie' ? r.pick(['x', '%', '', enc('5'), enc('null'), enc('[]'), enc('"s"'), enc('{'), enc(JSON.stringify({ web_exp_id_v2: 5, first_seen: null })), enc(JSON.stringify({ web_exp_id_v2: '', first_seen: '' }))]) : enc(JSON.stringify(r.bool() ? { web_exp_id_v2: 'ck-' + i } : { first_seen: '16' + i }))}; path=/; max-age=31536000${/example\.com|other\.org/.test(h) ? '; domain=.' + site(h) : ''}`); }
        else if (k === 'clear-local') { t.count('local-cleared'); ls.clear(); } else if (k === 'clear-cookie') { t.count('cookie-cleared'); d.jar.cookies = []; } else if (k === 'first-seen') { t.count('legacy-first-seen'); ls.set(DK, JSON.stringify({ first_seen: String(1500000000 + i) })); } else if (k === 'wait') { const days = r.pick([1, 100, 400]); d.clock.skip ? d.clock.skip(days * 864e5) : 0; if (days > 365 && d.jar.cookies.some((c) => c.name === CK)) t.count('cookie-expired'); }
        fault = r.weighted([[8, null], [0.6, 'cookies-refused'], [0.6, 'cookies-throw'], [0.6, 'storage-refuses-writes']]); if (fault) t.count(fault); setFault();
        const many = !fault && r.bool(0.15); const hosts = many ? [h, r.pick([h, r.pick(HOSTS)])] : [h]; if (many) t.count('concurrent'); const before = hosts.map(state); const t0 = d.clock.now; ops.push([k, hosts, fault, before]);
        const ps = []; for (const x of hosts) { ps.push(load(x, r.bool() ? tabs[0] : d.tab())); for (let j = r.int(0, 5); j-- > 0;) await turn(); } await finish(ps); for (const p of ps) p.early = p.g.webExperiment?.isRunning ? clone(p.g.webExperiment.getVariants()) : null;
        for (let j = 0; j < ps.length; j++) {
          const p = ps[j]; const x = hosts[j]; const b = before[j]; const det = () => ({ fault, many, host: x, before: b, user: p.user, after: state(x), ops: ops.slice(-4), console: p.consoleLog.slice(0, 3), errors: p.timerErrors.slice(0, 2) });
          if (!t.check(p.g.webExperiment?.isRunning && !p.g.webExperiment.isStub, 'not-started', det())) return;
          const u = p.user = clone(p.g.webExperiment.getExperimentClient().getUser()); const E = obj(b.e); const F = obj(b.f); const readable = fault !== 'cookies-throw'; const C = readable && b.c !== undefined ? dec(b.c) : {};
          t.check(str(u.web_exp_id) && str(u.web_exp_id_v2) && str(u.first_seen), 'no-identity', det());
          if (many) { // whoever finished last decides; they must agree with storage on the same origin
            const now = state(x); t.check(obj(now.e).web_exp_id && obj(now.e).web_exp_id_v2, 'identity-not-kept', det()); continue; }
          const wid = E.web_exp_id || E.device_id; if (wid) t.check(u.web_exp_id === wid, 'web-exp-id-replaced', det()); else { t.check(UUID.test(u.web_exp_id), 'malformed-id', det()); t.check(!seen.has(u.web_exp_id), 'id-reused', det()); t.count('first-visit'); } seen.set(u.web_exp_id, x);
          const v2 = str(C.web_exp_id_v2) ? C.web_exp_id_v2 : E.web_exp_id_v2 ?? u.web_exp_id; t.check(u.web_exp_id_v2 === v2, 'shared-id', { ...det(), v2 });
          const fs = str(C.first_seen) ? C.first_seen : F.first_seen; if (fs !== undefined) t.check(u.first_seen === fs, 'first-seen', { ...det(), fs }); else { const s = Number(u.first_seen) * 1000; t.check(s >= t0 - 1000 && s <= d.clock.now, 'first-seen-time', det()); }
          t.check(u.device_id === undefined, 'device-id-kept', det());
          const a = state(x); if (fault !== 'storage-refuses-writes') { const A = obj(a.e); t.check(A.web_exp_id === u.web_exp_id && A.web_exp_id_v2 === u.web_exp_id_v2 && !('device_id' in A), 'not-remembered', det()); t.check(obj(a.f).first_seen === u.first_seen, 'first-seen-not-remembered', det()); }
          if (!fault || fault === 'storage-refuses-writes') { const now = dec(a.c ?? ''); t.check(now.web_exp_id_v2 === u.web_exp_id_v2 && now.first_seen === u.first_seen, 'cookie-not-shared', det()); t.check(d.jar.cookies.filter((c) => c.name === CK && (c.domain === site(x) || c.domain.endsWith('.' + site(x)))).length === 1, 'cookies-shadow', det()); const ck = d.jar.visible(new URL(x).hostname).find((c) => c.name === CK); if (site(x) !== 'localhost') t.check(!ck.hostOnly && ck.domain === site(x), 'cookie-not-on-root', { ...det(), ck }); t.check(ck.expires === null ? false : ck.expires - d.clock.now > (b.c === undefined ? 300 * 864e5 : 0), 'cookie-not-persistent', det()); }
          if (p.early) for (const k of 'wvf') { const known = p.who[k] !== 'none'; t.check((p.early['who-' + k]?.key === 'treatment') === known, 'evaluated-for-another', { ...det(), k, who: p.who, early: p.early }); if (known) t.count('evaluated-user'); }
          // pages of one site agree from then on
          const S = site(x); if (!fault && everV2.has(S) && everV2.get(S).n === i - 1 && ['none', 'wait'].includes(k) && b.c !== undefined) { t.count(everV2.get(S).h === x ? 'same-origin-again' : 'subdomain'); t.check(everV2.get(S).v === u.web_exp_id_v2 && everV2.get(S).f === u.first_seen, 'identity-changed', { ...det(), prev: everV2.get(S) }); t.count('later-pages-agree'); } if (!fault) everV2.set(S, { v: u.web_exp_id_v2, f: u.first_seen, h: x, n: i }); if (S !== 'example.com') t.count('other-site');
          t.evaluated(canon([k, fault, x, E, F, C]));
        }
        for (const p of ps) p.close();
      }
    } },
  ],
};
