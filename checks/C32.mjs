import { Device } from '../lib/env.mjs';
import { Tab } from '../lib/tab.mjs';
import { canon, clone, turn } from '../lib/util.mjs';
import { TAG, API, K10, flag, page } from '../lib/tag.mjs';
const HOSTS = ['https://www.example.com', 'https://shop.example.com', 'https://a.eu.example.com', 'https://example.com', 'http://localhost'];
const MARK = K10 + '_erased'; const EXEMPT = new Set(['amp-preview-mode', 'visual-editor-state', MARK]);
const dels = (v) => { const x = /expires=([^;]*)/i.exec(v); return /max-age=(0|-)/i.test(v) || (x && Date.parse(x[1]) < 1.7e12); }; const site = (h) => (/example\.com$/.test(h) ? 'example.com' : 'localhost');
const CACHES = /^(amp-exp-|EXP_sent|EXP_unsent|EXP_.*_DEFAULT_USER_PROVIDER$)/; // kept by the browser client underneath, which does not know of consent
export default {
  property: 'C32', bundles: { tag: TAG },
  rule: 'journeys: visitors of the hosts of one site (and of localhost) load pages with and without consent gating, track events, are redirected, see campaign links and previews, with integrations that do or do not take their impressions and cookie policies that differ between visits; then consent is refused at load, while pending, while starting or when running, with removals that may fail. Whatever key any tag page was ever seen writing must then be gone from the page\'s storages and visible cookies, entries of others must be as they were, and no write follows but the marker (and the caches of an already running browser client); ids, first-seen times, campaigns and events from before the refusal must not show up again in users, requests or storage on any host of the site. Non-trivial = distinct judged refusal or later load.',
  requires: ['refused', 'refused-at-load', 'refused-pending', 'refused-starting', 'refused-running', 'erased-keys', 'erased-cookies', 'others-kept', 'quiet-after', 'later-load', 'sibling-load', 'same-host-load', 'removal-fails', 'instance-name', 'narrow-cookie', 'regranted', 'redirected', 'events', 'ungated-visit', 'refused-twice', 'fresh-identity', 'fresh-kept', 'unsent-left', 'older-records', 'led-back', 'instance-by-window'],
  workloads: [
    { name: 'journeys', quick: 900, thorough: 40000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const instanceName = r.bool(0.25) ? 'inst-' + r.int(1, 2) : undefined; if (instanceName) t.count('instance-name'); const byWindow = !!instanceName && r.bool(); if (byWindow) t.count('instance-by-window'); const INST = instanceName ?? '$default_instance'; const ops = []; const owned = new Set(); const hosts = r.subset(HOSTS, 0.6); if (!hosts.length) hosts.push(HOSTS[0]); let visit = 0; let narrowed = false;
      // foreign entries
      const foreign = new Map(); for (const h of HOSTS) { const ls = d.localFor(h); for (const k of ['app', 'EXP_otherkey12', 'EXP_otherkey12_rtbt_events', 'AMP_MKTG_' + API.slice(0, 10), 'EXP_' + API.slice(0, 9), 'amp-exp-x-web-zzzzzz', 'EXP_unsent_else', K10 + '_mine', 'amp-ve-x']) ls.set(k, '"foreign"'); }
      for (const [h, c] of [['www.example.com', 'AMP_MKTG_' + API.slice(0, 10) + '=f; domain=.example.com'], ['www.example.com', 'app=f; domain=.example.com'], ['www.example.com', 'EXP_otherkey12_identity=f; domain=.example.com'], ['localhost', 'app=f']]) d.jar.set(h, c + '; path=/; max-age=99999999');
      const foreignNow = (origin, tab) => canon([[...d.localFor(origin)].filter(([k, v]) => v === '"foreign"').map(([k]) => k).sort(), d.jar.cookies.filter((c) => c.value === 'f').map((c) => c.name + c.domain).sort()]); const foreignAll = Object.fromEntries(HOSTS.map((h) => [h, foreignNow(h)]));
      const secrets = {}; for (const s of ['example.com', 'localhost']) secrets[s] = { now: { v: new Set(), w: new Set(), data: new Set() }, erased: { v: new Set(), w: new Set(), data: new Set() } }; // per site: of visits since / before the last refusal
      const behaviors = { loc: { b1: [[{ condition: { type: 'behavior', event_type: 'Buy', op: 'greater or equal', value: 1, time_type: 'rolling', time_value: 1, interval: 'day' } }]] } };
      const redirect = r.bool(0.4) ? { action: 'redirect', data: { url: '' } } : null;
      const mkSite = (h, consent) => ({ flags: [flag('loc', { payloads: { treatment: [] } }), flag('rem', { mode: 'remote', payloads: { treatment: [] } }), ...(redirect ? [flag('red', { payloads: { treatment: [{ action: 'redirect', data: { url: h + '/target' } }] } })] : [])], pages: { loc: { p1: page('p1') }, rem: { p2: page('p2') }, ...(redirect ? { red: { p3: page('p3', { conditions: [[{ selector: ['context', 'page', 'url'], op: 'contains', values: ['/source'] }]] }) } } : {}) }, behaviors, config: { ...(instanceName && !byWindow ? { instanceName } : {}), ...(consent ? { consentOptions: consent } : {}), redirectConfig: { encodeRedirectInCookie: r.bool(0.7) } } });
      const scan = (p, origin, tab) => JSON.stringify([[...d.localFor(origin)].filter(([k]) => owned.has('local:' + k)), [...tab.sessionFor(origin)].filter(([k]) => owned.has('session:' + k)), d.jar.visible(new URL(origin).hostname).filter((c) => owned.has('cookie:' + c.name)).map((c) => { let v = c.value; for (let i = 0; i < 2; i++) try { v = decodeURIComponent(v); } catch { /* raw */ } try { v += decodeURIComponent(Buffer.from(v, 'base64').toString()); } catch { /* not coded */ } return [c.name, v]; })]);
      const tabs = [];
      const total = r.int(2, 7);
      for (let i = 0; i < total; i++) {
        d.clock.skip(r.int(3, 5000) * 1000); visit++; const h = r.pick(hosts); const S = site(h); const host = new URL(h).hostname; const sec = secrets[S]; const narrow = host.split('.').length > 2 && r.bool(0.2); if (narrow) narrowed = true; d.jar.refuse = narrow ? (c) => c.domain === 'example.com' && !c.hostOnly && !(c.expires !== null && c.expires <= d.clock.now) : null; if (narrow && host.split('.').length > 2) t.count('narrow-cookie');
        const mode = i === total - 1 || (i > 0 && r.bool(0.35)) ? 'refuse' : r.weighted([[3, 'grant'], [1.5, 'ungated'], [0.5, 'pend']]); if (mode === 'ungated') t.count('ungated-visit');
        const when = mode === 'refuse' ? r.pick(['load', 'pending', 'starting', 'running', 'pre-init']) : null; const consent = mode === 'ungated' ? undefined : { consentRequired: true, ...(when === 'load' ? { consentStatus: 'denied' } : mode === 'grant' && r.bool(0.6) ? { consentStatus: 'granted' } : ['starting', 'running'].includes(when) ? { consentStatus: 'granted' } : {}) };
        const path = r.pick(['/', '/source', '/?utm_source=src-' + visit + '&gclid=g-' + visit, r.bool(0.3) ? '/?PREVIEW=true&loc=treatment' : '/x']); const accept = r.bool(0.6); const had = d.jar.visible(host).some((c) => c.name === K10 + '_identity'); const marked = d.jar.visible(host).some((c) => c.name === MARK);
        const loops = !!redirect && r.bool(0.3); const held = (() => { const c = d.jar.visible(host).find((x) => x.name === K10 + '_identity'); try { let v = JSON.parse(decodeURIComponent(Buffer.from(decodeURIComponent(c.value), 'base64').toString())); if (typeof v === 'string') v = JSON.parse(v); return v.web_exp_id_v2; } catch { return undefined; } })(); const st = mkSite(h, consent); const tab = new Tab(t, { device: d, seed: t.index + '/' + i, site: () => st, user: {}, latency: () => r.pick([0, 30]), server: loops ? (u) => { const v = u.replace('/target', '/source'); if (v !== u) t.count('led-back'); return v; } : undefined, onPage: (p) => { if (byWindow) p.g.experimentConfig = p.json({ instanceName }); p.g.experimentIntegration.track = ((f) => (e) => (accept ? f(e) : false))(p.g.experimentIntegration.track); } }); if (tabs.length && r.bool(0.5)) tab.tab = r.pick(tabs); else tabs.push(tab.tab);
        const ses = tab.tab.sessionFor(h); if (r.bool(0.3)) ses.set('app', '"foreign-s"'); const sesForeign = ses.get('app'); if (r.bool(0.2)) { t.count('older-records'); for (const k of ['EXP_sent_v2_' + INST, 'EXP_sent_' + INST]) { ses.set(k, '{"flag":"on"}'); owned.add('session:' + k); } }
        const det = (e) => ({ e, host: h, mode, when, path, had, marked, ops: ops.slice(-6), marks: d.jar.visible(host).map((c) => c.name), console: tab.page?.consoleLog.slice(0, 2), urls: tab.docs.map((p) => p.url.href) });
        const note = () => { for (const p of tab.docs) { for (; p.seenLog === undefined ? (p.seenLog = 0, true) : p.seenLog < p.log.length; p.seenLog++) { const e = p.log[p.seenLog]; if (!e) break; if (e.type === 'storage' && e.op === 'set' && !EXEMPT.has(e.key) && !/test/i.test(e.key)) owned.add(e.area + ':' + e.key); if (e.type === 'cookie' && e.op === 'set' && !dels(e.value) && !EXEMPT.has(e.key) && !/test/i.test(e.key)) owned.add('cookie:' + e.key); } } };
        ops.push([h, mode, when, path, narrow ? 'narrow' : '', accept ? '' : 'unsent']);
        const early = when === 'pre-init'; if (early) { st.config = { ...st.config, consentOptions: { consentRequired: true } }; const f = tab.o.onPage; tab.o.onPage = (p) => { f(p); const load = p.load.bind(p); p.load = (b) => { const s = load(b); if (tab.docs.length === 1) s.setConsentStatus('denied'); return s; }; }; }
        let fail = null; if (mode === 'refuse' && r.bool(0.2)) { const keys = [...owned].filter((k) => !k.startsWith('cookie:')); if (keys.length) { fail = r.pick(keys); t.count('removal-fails'); d.storageFault = (e) => e.op === 'remove' && e.area + ':' + e.key === fail; } }
        await tab.open(h + path); const P = () => tab.page; const user = () => { const c = P().g.webExperiment; try { return c && !c.isStub ? clone(c.getExperimentClient().getUser()) : null; } catch { return null; } };
        const remember = () => { note(); const u = user(); if (u) { if (u.web_exp_id) sec.now.w.add(u.web_exp_id); if (u.web_exp_id_v2) sec.now.v.add(u.web_exp_id_v2); if (u.first_seen) sec.now.data.add(u.first_seen); } };
        const act = async () => { for (let j = r.int(1, 4); j-- > 0;) { const k = r.pick(['event', 'event', 'nav', 'time', 'user', 'apply']); const p = P(); const c = p.g.webExperiment; if (k === 'event') { const ev = 'ev-' + visit + '-' + j; (p.plug ??= p.sut.createPlugin()).execute(p.json({ event_type: 'Buy', event_properties: { n: ev } })); sec.now.data.add('"' + ev + '"'); t.count('events'); } else if (k === 'nav') p.g.history.pushState({}, '', '/n' + r.int(1, 3)); else if (k === 'time') await tab.run(r.pick([50, 700, 3000])); else if (k === 'user') tab.user(); else if (c && !c.isStub && c.applyVariants) c.applyVariants()?.catch?.(() => {}); await turn(); if (r.bool()) await tab.run(30); } await tab.run(r.pick([0, 600, 1500])); };
        if (/utm_source/.test(path)) { sec.now.data.add('src-' + visit); sec.now.data.add('g-' + visit); }
        const refuse = async () => { // judge one refusal on the page shown
          const p = P(); const origin = p.url.origin; const ran = ['starting', 'running'].includes(when); note(); const run = () => p.sut.setConsentStatus('denied'); if (!early && when !== 'load') { for (const q of tab.docs) q.atRefusal = q.log.length; run(); } else for (const q of tab.docs) q.atRefusal = 0; st.config = { ...st.config, consentOptions: { consentRequired: true, consentStatus: 'denied' } }; // the page's consent manager says so on the next page too
          const left = () => [...[...d.localFor(origin).keys()].filter((k) => owned.has('local:' + k)).map((k) => 'local:' + k), ...[...tab.tab.sessionFor(origin).keys()].filter((k) => owned.has('session:' + k)).map((k) => 'session:' + k), ...d.jar.visible(new URL(origin).hostname).filter((c) => owned.has('cookie:' + c.name)).map((c) => 'cookie:' + c.name)].filter((k) => k !== fail);
          if ((early || when === 'load') && tab.docs.length > 1) return false; t.count('refused'); t.count('refused-' + ({ load: 'at-load', 'pre-init': 'at-load' }[when] ?? when)); if (sec.erased.v.size) t.count('refused-twice'); if (owned.size) t.count('erased-keys'); if ([...owned].some((k) => k.startsWith('cookie:'))) t.count('erased-cookies');
          t.check(left().length === 0, 'not-erased', det({ left: left(), fail })); const others = () => { t.equal(foreignNow(origin), foreignAll[origin], 'others-touched', det()); t.check(tab.tab.sessionFor(h).get('app') === sesForeign, 'others-touched', det()); t.count('others-kept'); }; others();
          if (S === 'example.com' && !narrow) t.check(d.jar.visible(host).some((c) => c.name === MARK && c.value === '1' && c.expires > d.clock.now + 300 * 864e5), 'not-marked', det({ at: d.jar.visible(host).filter((c) => c.name === MARK) }));
          // what follows on this page
          const from = new Map(tab.docs.map((q) => [q, q.log.length])); d.storageFault = null; await act(); await tab.run(r.pick([100, 2500])); if (r.bool(0.3)) { P().win.dispatch('pagehide', { type: 'pagehide' }); P().hidden = true; }
          const wrote = []; for (const [q, n] of from) for (const e of q.log.slice(n)) { if (e.type === 'storage' && e.op === 'set' && !EXEMPT.has(e.key) && !(ran && CACHES.test(e.key)) && !/test/i.test(e.key)) wrote.push(e.area + ':' + e.key); if (e.type === 'cookie' && e.op === 'set' && !dels(e.value) && e.key !== MARK && !/TLD_?TEST/i.test(e.key)) wrote.push('cookie:' + e.key); } if (!ran) t.check(P().requests.length === 0, 'request-after-refusal', det(P().requests[0]?.url));
          t.check(wrote.length === 0, 'written-after-refusal', det({ wrote, ran })); t.check(left().filter((k) => !(ran && CACHES.test(k.slice(k.indexOf(':') + 1)))).length === 0, 'recreated', det({ left: left() })); t.count('quiet-after'); others();
          for (const k of ['v', 'w', 'data']) { for (const x of sec.now[k]) sec.erased[k].add(x); sec.now[k].clear(); } t.evaluated(canon(['refuse', when, h, path, ran, [...owned].sort().join()])); return true;
        };
        const judgeLoad = (label) => { const p = P(); const u = user(); if (!u || !sec.erased.v.size) return; t.count('later-load'); t.count(label); const fresh = had && !label.startsWith('re'); const bad = (x, sig, e) => t.violation(sig, det({ x, ...e, user: u }));
          for (const x of sec.erased.v) if (u.web_exp_id_v2 === x) bad(x, 'erased-identity-used'); for (const x of sec.erased.data) if (u.first_seen === x) bad(x, 'erased-first-seen-used'); for (const x of sec.erased.w) if (u.web_exp_id === x) bad(x, fresh ? 'erased-web-exp-id-on-sibling' : 'erased-identity-used');
          if (!fresh && S === 'example.com') { const text = scan(p, h, tab.tab) + JSON.stringify(u) + JSON.stringify(tab.events) + JSON.stringify(p.requests.map((q) => { let s = q.url; for (const v of Object.values(q.headers)) s += Buffer.from(String(v), 'base64').toString() + v; return s; })); for (const k of ['v', 'w', 'data']) for (const x of sec.erased[k]) if (text.includes(x) && !(label === 'regrant-load' && [`src-${visit}`, `g-${visit}`].includes(x))) bad(x, 'erased-data-used', { k, text: text.slice(0, 3000) }); t.count('fresh-identity'); } t.evaluated(canon(['load', h, path, had, mode])); };
        const last = ops[ops.length - 2];
        if (mode === 'grant' || mode === 'ungated') { if (mode === 'grant' && !consent.consentStatus) { if (r.bool()) await act(); P().sut.setConsentStatus('granted'); } await tab.run(400); const usable = S !== 'localhost' && !narrowed; /* cookies on narrower domains are out of reach of the siblings */ if (tab.docs.length > 1) t.count('redirected'); if (usable && marked && had && held && S === 'example.com') { const u = user(); if (u) { t.count('fresh-kept'); t.check(u.web_exp_id_v2 === held, 'fresh-identity-lost', det({ held, user: u })); } } if (usable && marked) judgeLoad(last && last[0] === h ? 'same-host-load' : 'sibling-load'); remember(); await act(); await tab.run(100); remember(); }
        else if (mode === 'pend') { await act(); note(); }
        else {
          let judged; if (when === 'load' || early) { judged = await refuse(); } else if (when === 'pending') { if (r.bool()) await act(); judged = await refuse(); } else if (when === 'starting') { for (let j = r.int(0, 12); j-- > 0;) await turn(); if (r.bool(0.4)) await tab.run(r.pick([1, 10, 30])); remember(); judged = await refuse(); } else { await tab.run(300); remember(); await act(); remember(); judged = await refuse(); }
          if (judged && r.bool(0.35) && !P().closed) { const was = user(); st.config = { ...st.config, consentOptions: { consentRequired: true, consentStatus: 'granted' } }; P().sut.setConsentStatus('granted'); t.count('regranted'); ops.push(['regrant']); if (!was && !['running', 'starting'].includes(when)) { await tab.run(500); if (S === 'example.com' && !narrowed && !fail) judgeLoad('regrant-load'); } remember(); await act(); await tab.run(700); note(); }
        }
        note(); d.storageFault = null; if (tab.page) tab.leave(); note(); if ((mode === 'grant' || mode === 'ungated') && r.bool(0.3)) { t.count('unsent-left'); const k = 'EXP_unsent_' + INST; d.localFor(h).set(k, JSON.stringify([{ eventType: '$exposure', eventProperties: { flag_key: 'unsent-' + visit, variant: 'on' } }])); owned.add('local:' + k); sec.now.data.add('unsent-' + visit); } for (const p of tab.docs) p.close();
      }
    } },
  ],
};
