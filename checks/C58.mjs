import { BROWSER_ENTRY, settled, recLogger, b64, kind } from '../lib/client.mjs';
import { Device } from '../lib/env.mjs';
import { canon, clone } from '../lib/util.mjs';
// Well-known browsers: user agent, os (browser and major version), device_model (operating system), browser, device_category.
const UAS = [
  ['Mozilla/5.0 (Windows NT 10.0; Win64; x64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36', 'Chrome 120', 'Windows', 'Chrome', 'desktop'],
  ['Mozilla/5.0 (Macintosh; Intel Mac OS X 10_15_7) AppleWebKit/605.1.15 (KHTML, like Gecko) Version/17.1 Safari/605.1.15', 'Safari 17', 'Mac OS', 'Safari', 'desktop'],
  ['Mozilla/5.0 (X11; Linux x86_64; rv:121.0) Gecko/20100101 Firefox/121.0', 'Firefox 121', 'Linux', 'Firefox', 'desktop'],
  ['Mozilla/5.0 (Windows NT 10.0; Win64; x64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36 Edg/120.0.2210.91', 'Edge 120', 'Windows', 'Edge', 'desktop'],
  ['Mozilla/5.0 (iPhone; CPU iPhone OS 17_1 like Mac OS X) AppleWebKit/605.1.15 (KHTML, like Gecko) Version/17.1 Mobile/15E148 Safari/604.1', 'Mobile Safari 17', 'iOS', 'Safari', 'mobile'],
  ['Mozilla/5.0 (Linux; Android 13; Pixel 7) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Mobile Safari/537.36', 'Chrome 120', 'Android', 'Chrome', 'mobile'],
  ['Mozilla/5.0 (iPad; CPU OS 16_6 like Mac OS X) AppleWebKit/605.1.15 (KHTML, like Gecko) Version/16.6 Mobile/15E148 Safari/604.1', 'Mobile Safari 16', 'iOS', 'Safari', 'tablet'],
  ['Mozilla/5.0 (Windows NT 10.0; Win64; x64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/119.0.0.0 Safari/537.36 OPR/105.0.0.0', 'Opera 105', 'Windows', 'Opera', 'desktop'],
];
const OWN = ['language', 'platform', 'os', 'browser', 'device_model', 'device_category', 'referring_url', 'landing_url', 'first_seen', 'user_agent', 'cookie', 'url_param'];
const QUERIES = ['', '?', '?q=a', '?q=a,b', '?q=a&q=b', '?q=a,b&q=c&z=1', '?q=a,a', '?q=,', '?q=', '?q=a%2Cb', '?q=x%20y&utm_source=%C3%BC', '?constructor=1&q=a', '?toString=x', '?__proto__=x&q=b', '?q=a&Q=b', '?a[]=1&a[]=2', '?hasOwnProperty=1,2&hasOwnProperty=3', '?q'];
const COOKIES = [['sid', 's1'], ['sid', 's2'], ['token', 'YWJjZA=='], ['eq', 'a=b&c=d'], ['empty', ''], ['t.x', '%7B1%7D'], ['constructor', 'c'], ['Sid', 'other']];
const rawUrl = (q) => { const o = new Map(); for (const part of q.replace(/^\?/, '').split('&')) { if (!part) continue; const [n, ...v] = part.split('='); const d = (s) => decodeURIComponent(s.replace(/\+/g, ' ')); const k = d(n); o.set(k, [...(o.get(k) || []), ...d(v.join('=')).split(',')]); } return Object.fromEntries([...o].map(([k, v]) => [k, v.length === 1 ? v[0] : v])); };
const noSlash = (s) => (s.endsWith('/') ? s.slice(0, -1) : s);
const probe = (name, selector, values) => ({ key: 'probe-' + name, metadata: { evaluationMode: 'local' }, variants: Object.fromEntries([...values.map((v, i) => ['v' + i, { key: 'v' + i, value: String(v) }]), ['none', { key: 'none', value: 'none' }]]), segments: [...values.map((v, i) => ({ conditions: [[{ selector, op: 'is', values: [v] }]], variant: 'v' + i })), { variant: 'none' }] });
export default {
  property: 'C58', bundles: { browser: BROWSER_ENTRY },
  rule: 'Visits over several pages, tabs and origins of one device, with well-known browsers, changing languages, cookies, referrers, URLs (within a page too), several deployments, an application provider and explicit users. After every step the user in the request headers, the user in the reported events and the user seen by probe flags are compared with what a reference browser history says; storage and cookies sometimes fail. Non-trivial = distinct judged facts.',
  requires: ['sent', 'reported', 'evaluated', 'landing-kept', 'landing-new-tab', 'first-seen-kept', 'first-seen-new-origin', 'url-changed-in-page', 'url-list', 'url-prototype-name', 'cookie', 'cookie-equals', 'cookie-changed', 'cookie-not-sent', 'provider-wins', 'explicit-wins', 'language-list', 'language-single', 'mobile', 'tablet', 'referrer', 'other-deployment', 'storage-failed', 'cookie-failed'],
  workloads: [{ name: 'visits', quick: 1500, thorough: 50000, async run(t) {
    const r = t.rng; const device = new Device({ seed: r.u32() }); const { clock } = device; const ua = r.pick(UAS); if (ua[4] !== 'desktop') t.count(ua[4]); const orgs = ['https://www.example.com', 'https://shop.example.com', 'https://www.example.org']; const keys = r.pick([['client-0123456789'], ['client-0123456789', 'abcdef0123456789']]);
    const landing = new Map(); const firstSeen = new Map(); const jars = new Map(orgs.map((o) => [o, new Map()])); const tabs = [device.tab()]; let nav, page, tab; const clients = new Map(); let broken = false; const broke = new Set(); let cookieFail = false;
    const open = (how) => {
      const prev = page; if (page) { page.close(); clients.clear(); } if (how === 'tab') tabs.push(device.tab()); if (how === 'tab' || !tab) tab = tabs[tabs.length - 1]; else if (how === 'other-tab') tab = r.pick(tabs);
      const origin = prev && r.bool(0.7) ? prev.url.origin : r.pick(orgs); const url = how === 'reload' ? prev.url.href : origin + r.pick(['/', '/shop', '/shop/', '/a/b/']) + r.pick(QUERIES) + r.pick(['', '', '#top', '#/']); const ref = r.pick(['', 'https://www.google.com/', 'https://www.google.com/search?q=x', 'https://t.co/abc/']); const got = []; const state = { ref, url, got };
      page = device.page({ url, tab, referrer: ref, fetch: (q) => { if (kind(q) === 'vardata') got.push(q); return { status: 200, body: kind(q) === 'flags' ? '[]' : '{}' }; } }); page.state = state;
      nav = page.g.navigator; nav.userAgent = ua[0]; langs(); if (ref) t.count('referrer'); t.log('open', { how, url, ref });
    };
    const langs = () => { const l = r.pick([['en-US', 'de'], ['de-DE'], ['pt-BR', 'en'], [], undefined]); nav.languages = l && page.json(l); nav.language = r.pick(['fr-FR', 'en-US', '', undefined]); t.count(l && l.length ? 'language-list' : 'language-single'); };
    const lang = () => (nav.languages && nav.languages[0]) || nav.language || '';
    const make = (key) => { if (clients.has(key)) return clients.get(key);
      const sut = (page.sut ||= page.load(t.sut.browser)); const c = { key, prov: undefined, mine: undefined, reported: [] };
      const provided = r.bool(0.3); const cfg = { ...page.json({ pollOnStart: false, retryFetchOnFailure: false, instanceName: r.pick([undefined, 'alt']), initialFlags: JSON.stringify([probe('language', ['context', 'user', 'language'], ['en-US', 'de-DE', 'pt-BR', 'fr-FR']), probe('sid', ['context', 'user', 'cookie', 'sid'], ['s1', 's2']), probe('token', ['context', 'user', 'cookie', 'token'], ['YWJjZA==']), probe('q', ['context', 'user', 'url_param', 'q'], ['a', 'b', 'a,b', 'x y']), probe('browser', ['context', 'user', 'browser'], ['Chrome', 'Safari', 'Firefox', 'Edge', 'Opera']), probe('landing', ['context', 'user', 'landing_url'], orgs.flatMap((o) => [o, o + '/shop']))]) }), loggerProvider: recLogger(), analyticsProvider: { track: (e) => c.reported.push(clone(e.user)), setUserProperty() {}, unsetUserProperty: (e) => c.reported.push(clone(e.user)) } };
      if (provided) { c.prov = {}; cfg.userProvider = { getUser: () => c.prov && page.json(c.prov) }; } c.client = sut.Experiment.initialize(key, cfg); clients.set(key, c); return c; };
    // what the browser knows about the visit, at this moment, for one deployment
    const facts = (c) => {
      const o = page.url.origin; const lk = canon([tabs.indexOf(tab), o, c.key.slice(0, 10)]); const fk = canon([o, c.key.slice(0, 10)]);
      if (broken) { broke.add(lk); broke.add(fk); }
      if (!landing.has(lk)) { if (!broken) landing.set(lk, noSlash(page.url.href)); if (tabs.length > 1) t.count('landing-new-tab'); } else if (landing.get(lk) !== noSlash(page.url.href)) t.count('landing-kept');
      if (!firstSeen.has(fk)) { if (!broken) firstSeen.set(fk, String(clock.now / 1000)); if (firstSeen.size > 1) t.count('first-seen-new-origin'); } else if (firstSeen.get(fk) !== String(clock.now / 1000)) t.count('first-seen-kept');
      const jar = jars.get(o); const params = rawUrl(page.url.search); if (Object.values(params).some(Array.isArray)) t.count('url-list'); if (Object.keys(params).some((k) => k in {})) t.count('url-prototype-name');
      return { language: lang(), platform: 'Web', os: ua[1], device_model: ua[2], device_category: ua[4], referring_url: noSlash(page.state.ref), cookie: jar.size && !cookieFail ? Object.fromEntries(jar) : undefined, browser: ua[3], landing_url: broken ? undefined : landing.get(lk), first_seen: broken ? undefined : firstSeen.get(fk), url_param: params, user_agent: ua[0] };
    };
    const clean = (u) => { const x = { ...u }; for (const k of Object.keys(x)) if (x[k] === undefined || x[k] === null) delete x[k]; delete x.library; if (x.user_properties && !Object.keys(x.user_properties).length) delete x.user_properties; if (broken) { delete x.landing_url; delete x.first_seen; } return x; };
    const judge = async (c, op) => {
      const f = facts(c); const prov = { ...f, ...(c.prov || {}) }; const want = { ...prov }; for (const [k, v] of Object.entries(c.mine || {})) if (v !== undefined && v !== null) want[k] = v;
      if (c.prov) for (const k of OWN) if (k in c.prov) t.count('provider-wins'); if (c.mine) for (const k of OWN) if (c.mine[k] != null) t.count('explicit-wins'); const ctx = () => ({ op, url: page.url.href, key: c.key, prov: c.prov, mine: c.mine, lang: [nav.languages, nav.language] });
      if (r.bool(0.6)) { c.reported.length = 0; let e; try { c.client.variant('missing-' + r.u32()); } catch (x) { e = x; } t.check(!e, 'throws', String(e)); if (t.check(c.reported.length === 1, 'reported-count', c.reported.length)) { t.equal(clean(c.reported[0]), clean(want), 'reported', ctx); t.count('reported'); } }
      for (const [n, got, pool] of [['language', want.language, ['en-US', 'de-DE', 'pt-BR', 'fr-FR']], ['sid', want.cookie?.sid, ['s1', 's2']], ['token', want.cookie?.token, ['YWJjZA==']], ['q', want.url_param?.q, ['a', 'b', 'a,b', 'x y']], ['browser', want.browser, ['Chrome', 'Safari', 'Firefox', 'Edge', 'Opera']], ['landing', want.landing_url, orgs.flatMap((o) => [o, o + '/shop'])]]) { if (n === 'landing' && broken) continue; if (Array.isArray(got)) continue; const v = c.client.variant('probe-' + n).value; t.check(v === (pool.includes(got) ? got : 'none'), 'evaluated-' + n, () => ({ got: v, is: got, ...ctx() })); t.count('evaluated'); }
      if (r.bool(0.5)) { const n = page.state.got.length; const s = settled(c.client.fetch(...(c.mine ? [page.json(c.mine)] : []))); await clock.advance(50); const q = page.state.got.slice(n); if (t.check(s.done && q.length === 1, 'not-sent', () => ({ n: q.length, err: String(s.error) }))) { const u = JSON.parse(b64(q[0].headers['X-Amp-Exp-User'])); t.check(!('cookie' in u), 'cookies-sent', u.cookie); if (want.cookie) t.count('cookie-not-sent'); const w = clean(want); delete w.cookie; delete u.cookie; t.equal(clean(u), w, 'sent', ctx); t.count('sent'); } }
      t.evaluated(canon([want.language, want.url_param, want.cookie, want.landing_url, want.referring_url, ua[3], c.prov, c.mine]));
    };
    open('tab'); let c = make(keys[0]);
    for (let i = r.int(4, 10); i > 0; i--) {
      const op = r.weighted([[2, 'url'], [2, 'cookie'], [1, 'lang'], [2, 'reload'], [1.5, 'tab'], [1, 'other-tab'], [1, 'navigate'], [1, 'wait'], [1, 'provider'], [1, 'user'], [1, 'deployment'], [0.5, 'break'], [0.4, 'cookie-break']]); t.log(op);
      if (op === 'url') { page.g.history.pushState(null, '', r.pick(['/x/', '/y', '/shop', '/']) + r.pick(QUERIES)); t.count('url-changed-in-page'); }
      else if (op === 'cookie') { const j = jars.get(page.url.origin); const [n, v] = r.pick(COOKIES); if (cookieFail) continue; if (j.has(n)) t.count('cookie-changed'); if (r.bool(0.15) && j.has(n)) { page.g.document.cookie = `${n}=; path=/; expires=Thu, 01 Jan 1970 00:00:00 GMT`; j.delete(n); } else { page.g.document.cookie = `${n}=${v}; path=/`; j.set(n, v); t.count('cookie'); if (v.includes('=')) t.count('cookie-equals'); } }
      else if (op === 'lang') langs(); else if (op === 'wait') await clock.advance(r.pick([1, 1000, 90000, 2 * 86400000, 40 * 86400000]));
      else if (['reload', 'tab', 'other-tab', 'navigate'].includes(op)) { const key = c.key; open(op); if (r.bool(0.3)) await clock.advance(r.int(1, 5000)); c = make(key); }
      else if (op === 'provider') { if (c.prov) { c.prov = r.bool(0.15) ? null : {}; if (c.prov) { if (r.bool()) c.prov.user_id = 'u1'; for (const k of r.subset(['language', 'browser', 'landing_url', 'cookie', 'url_param', 'device_category', 'first_seen'], 0.3)) c.prov[k] = k === 'cookie' ? { sid: 's2' } : k === 'url_param' ? { q: 'b' } : r.bool(0.2) ? r.pick(['', null]) : 'own-' + k; } } }
      else if (op === 'user') { c.mine = r.bool(0.2) ? { user_id: 'm' } : { user_id: 'm', ...Object.fromEntries(r.subset(['language', 'browser', 'landing_url', 'cookie', 'url_param', 'country'], 0.3).map((k) => [k, r.bool(0.2) ? null : k === 'cookie' ? { sid: 's1' } : k === 'url_param' ? { q: 'x y' } : 'my-' + k])) }; c.client.setUser(page.json(c.mine)); }
      else if (op === 'deployment') { c = make(r.pick(keys)); if (c.key !== keys[0]) t.count('other-deployment'); }
      else if (op === 'break') { broken = true; t.count('storage-failed'); device.storageFault = () => true; } else if (op === 'cookie-break') { if (r.bool()) { cookieFail = true; t.count('cookie-failed'); device.cookieFault = () => true; } }
      await judge(c, op);
      if (broken && r.bool()) { broken = false; device.storageFault = null; } if (cookieFail && r.bool()) { cookieFail = false; device.cookieFault = null; }
    }
    t.sample({ landing: [...landing], firstSeen: [...firstSeen] }); page.close();
  } }],
};
