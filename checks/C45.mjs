import { Device } from '../lib/env.mjs';
import { canon, clone, turn } from '../lib/util.mjs';
import { TAG, flag, page } from '../lib/tag.mjs';
import { Tab } from '../lib/tab.mjs';
const ENTRY = `export * from '@src/tag/util/campaign'; export * from '@src/tag/consent/consent-gate';`;
const UTM = ['utm_source', 'utm_medium', 'utm_campaign', 'utm_term', 'utm_content', 'utm_id'];
const val = (r) => r.pick(['google', 'a b', 'ünï', '日本', '%', 'x&y', 'a=b', '"q"', '{}', '0', 'false', 'null', 'A', '<b>', '💥', 'x'.repeat(200)]);
const amp = (o) => encodeURIComponent(Buffer.from(encodeURIComponent(JSON.stringify(o))).toString('base64'));
const CORRUPT = ['', '{', 'null', '5', '"utm_source"', '[]', '["utm_x"]', 'true', '{"other":1}', '{"gclid":"g","referrer":"r"}'];
export default {
  property: 'C45', bundles: { own: ENTRY, tag: TAG },
  rule: "journeys: random series of pages of one site with campaign parameters in the URL (some, all, none, empty, repeated, badly encoded, click ids), an Amplitude campaign cookie that comes, changes, goes or is garbage, remembered parameters of earlier pages or of a prior visit (some unreadable) and storage or cookies that fail; each page's result and what is remembered afterwards are compared with the per-parameter priority URL, remembered, cookie. redirect: a redirect leaves a page with random campaign parameters, click ids and referrer; what the shared original-campaign cookie then holds is compared with them. consent: nothing remembered before is used or written while consent is pending. Non-trivial = distinct page judged.",
  requires: ['from-url', 'from-remembered', 'from-cookie', 'url-over-remembered', 'remembered-over-cookie', 'mixed', 'none', 'no-params-unchanged', 'corrupt-remembered', 'corrupt-cookie', 'empty-param', 'repeated-param', 'bad-encoding', 'click-ids', 'storage-fault', 'cookie-fault', 'consent', 'left-with-campaign', 'left-without-campaign', 'cookie-replaced', 'left-by-handler'],
  workloads: [
    { name: 'journeys', quick: 3000, thorough: 150000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const api = r.pick(['client-abcdef1234', 'k', 'client-abcdef9']); const KEY = `EXP_MKTG_${api.slice(0, 10)}`; const CK = `AMP_MKTG_${api.slice(0, 10)}`; let remembered = null; let cookie = null; const ops = []; const host = 'www.example.com'; const ls = d.localFor('https://' + host);
      const setCookie = (v) => d.jar.set(host, `${CK}=${v}; domain=.example.com; path=/`);
      for (let i = 0, n = r.int(1, 6); i < n; i++) {
        const k = r.weighted([[6, 'none'], [2, 'cookie'], [0.5, 'cookie-gone'], [0.5, 'cookie-bad'], [0.5, 'mem-bad'], [0.5, 'mem-set'], [0.3, 'mem-gone']]);
        if (k === 'cookie') { cookie = Object.fromEntries(r.subset(UTM, 0.5).map((u) => [u, 'ck-' + val(r)])); if (r.bool(0.3)) cookie.gclid = 'g'; if (r.bool(0.3)) cookie.referrer = 'https://ref/'; setCookie(amp(cookie)); } else if (k === 'cookie-gone') { cookie = null; d.jar.cookies = []; } else if (k === 'cookie-bad') { t.count('corrupt-cookie'); cookie = null; setCookie(r.pick(['x', '%', 'bnVsbA==', amp(null), amp(5), amp('s'), amp([1]), '%7B', 'e30'])); } else if (k === 'mem-bad') { t.count('corrupt-remembered'); remembered = null; ls.set(KEY, r.pick(CORRUPT)); } else if (k === 'mem-set') { remembered = Object.fromEntries(r.subset(UTM, 0.5).map((u) => [u, 'old-' + val(r)])); ls.set(KEY, JSON.stringify({ ...remembered, ...(r.bool() ? { gclid: 'x' } : {}) })); } else if (k === 'mem-gone') { remembered = null; ls.delete(KEY); }
        const url = {}; const parts = []; for (const u of r.bool(0.4) ? [] : r.subset(UTM, 0.5)) { const m = r.weighted([[7, 'ok'], [1, 'empty'], [1, 'twice'], [0.5, 'bad']]); const v = val(r).replace(/=/g, ''); if (m === 'ok') { url[u] = v; parts.push(`${u}=${encodeURIComponent(v)}`); } else if (m === 'empty') { t.count('empty-param'); parts.push(r.pick([`${u}=`, u])); } else if (m === 'bad') { t.count('bad-encoding'); parts.push(`${u}=%E0%A4%A`); } else { t.count('repeated-param'); parts.push(`${u}=first`); parts.push(`${u}=${encodeURIComponent(v)}`); url[u] = v; } } if (r.bool(0.2)) { t.count('click-ids'); parts.push('gclid=G1', 'fbclid=F1'); } if (r.bool(0.3)) parts.push('q=1', 'UTM_SOURCE=no', 'xutm_source=no');
        const fault = r.weighted([[8, null], [0.5, 'set'], [0.5, 'get'], [0.5, 'access'], [0.7, 'cookie']]); const p = d.page({ url: `https://${host}/p${i}${parts.length ? '?' + parts.join('&') : ''}#utm_source=hash`, seed: t.index, referrer: r.bool(0.3) ? 'https://ref.com/x' : '' }); const sut = p.load(t.sut.own); const user = { user_id: 'u', user_properties: { a: 1 } }; const U = p.json(user);
        if (fault) t.count(fault === 'cookie' ? 'cookie-fault' : 'storage-fault'); if (fault === 'cookie') d.cookieFault = () => true; else if (fault) d.storageFault = (e) => e.op === fault; const mem = fault === 'get' || fault === 'access' ? null : remembered; const ck = fault === 'cookie' ? null : cookie;
        const want = {}; for (const u of UTM) { const v = url[u] ?? mem?.[u] ?? ck?.[u]; if (v !== undefined) { want[u] = v; t.count(url[u] !== undefined ? 'from-url' : mem?.[u] !== undefined ? 'from-remembered' : 'from-cookie'); if (url[u] !== undefined && mem?.[u] !== undefined) t.count('url-over-remembered'); if (url[u] === undefined && mem?.[u] !== undefined && ck?.[u] !== undefined) t.count('remembered-over-cookie'); } } const has = Object.keys(want).length > 0; if (!has) t.count('none'); else if (Object.keys(url).length && Object.keys(url).length < Object.keys(want).length) t.count('mixed');
        const rawBefore = ls.get(KEY); let got, err; sut.enrichUserWithCampaignData(api, U).then((x) => { got = x; }, (e) => { err = e; }); for (let j = 0; j < 10 && !got && !err; j++) await turn(); d.cookieFault = null; d.storageFault = null; ops.push([k, parts.join('&'), fault]);
        if (err || !got) { t.violation('enrich-failed', { e: String(err), fault, ops }); return; }
        t.equal(clone(got), has ? { ...user, persisted_url_param: want } : user, 'campaign', { url, mem, ck, fault, ops: ops.slice(-3) }); t.equal(clone(U), user, 'user-modified', {});
        if (fault === 'set' || fault === 'access') t.check(ls.get(KEY) === rawBefore, 'written-though-refused', {}); else if (!has) { t.count('no-params-unchanged'); t.check(ls.get(KEY) === rawBefore, 'remembered-changed', { rawBefore, now: ls.get(KEY) }); } else { let s; try { s = JSON.parse(ls.get(KEY)); } catch { s = 'unreadable'; } t.equal(s, want, 'remembered', { url, mem, ck, fault }); remembered = want; if (!Object.keys(url).length && canon(want) === canon(mem)) t.count('no-params-unchanged'); }
        t.evaluated(canon([url, mem, ck, fault])); p.close();
      }
    } },
    { name: 'redirect', quick: 400, thorough: 15000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const flags = [flag('f', { payloads: { treatment: [{ action: 'redirect', data: { url: r.pick(['https://www.example.com/b', 'https://shop.example.com/b', 'https://www.example.com/b?utm_source=target']) } }] } })]; const pages = { f: { p: page('p', { conditions: [[{ selector: ['context', 'page', 'url'], op: 'contains', values: ['/a'] }]] }) } };
      const put = {}; const parts = []; for (const u of r.bool(0.2) ? [] : r.subset([...UTM, 'gclid', 'fbclid', 'msclkid'], 0.4)) { const v = val(r).replace(/%/g, ''); if (!v) continue; put[u] = v; parts.push(`${u}=${encodeURIComponent(v)}`); } if (r.bool(0.3)) parts.push('q=1'); const referrer = r.pick(['', 'https://ref.com/x', 'https://www.google.com/']);
      const CK = 'AMP_MKTG_ORIGINAL_client-012'; const tab = new Tab(t, { device: d, site: () => ({ flags, pages, config: {} }), user: { user_id: 'u', device_id: 'd' }, latency: () => 5, referrer }); const handler = r.bool(0.25); const asked = [];
      if (handler) tab.o.onTag = (p) => p.g.webExperiment.setRedirectHandler?.((u) => asked.push(u));
      if (r.bool(0.3)) { t.count('cookie-replaced'); d.jar.set('www.example.com', `${CK}=${amp({ utm_source: 'stale', utm_id: 'stale' })}; domain=.example.com; path=/`); }
      await tab.open('https://www.example.com/a' + (parts.length ? '?' + parts.join('&') : '')); await tab.run(600); const left = tab.docs[0].navigations.length + asked.length; t.check(left === 1, 'did-not-leave', { left, docs: tab.docs.map((p) => p.url.href) }); if (handler && asked.length) t.count('left-by-handler');
      const c = d.jar.cookies.filter((x) => x.name === CK); t.check(c.length === 1 && c[0].domain === 'example.com', 'campaign-cookie', { c }); let got; try { got = JSON.parse(decodeURIComponent(Buffer.from(decodeURIComponent(c[0].value), 'base64').toString())); } catch (e) { got = String(e); }
      const want = { ...put, ...(referrer ? { referrer, referring_domain: new URL(referrer).hostname } : {}) }; t.count(Object.keys(put).length ? 'left-with-campaign' : 'left-without-campaign'); t.equal(got, want, 'campaign-left-behind', { url: tab.docs[0].url.href }); t.evaluated(canon([put, referrer, handler])); tab.leave();
    } },
    { name: 'consent', quick: 300, thorough: 10000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const api = 'client-abc'; const KEY = `EXP_MKTG_${api}`; const u = r.bool() ? { utm_source: 'now' } : {}; const p = d.page({ url: 'https://www.example.com/' + (u.utm_source ? '?utm_source=now' : ''), seed: t.index }); const ls = d.localFor(p.origin); ls.set(KEY, JSON.stringify({ utm_source: 'old', utm_term: 'old' })); d.jar.set('www.example.com', `AMP_MKTG_${api}=${amp({ utm_id: 'c' })}; path=/`); const sut = p.load(t.sut.own); sut.consentGate.required = true; if (r.bool(0.3)) sut.consentGate.manager.setStatus('denied'); const raw = ls.get(KEY); t.count('consent'); let got; sut.enrichUserWithCampaignData(api, p.json({ user_id: 'u' })).then((x) => { got = x; }, () => { got = 'failed'; }); for (let j = 0; j < 10 && !got; j++) await turn(); t.equal(clone(got), u.utm_source ? { user_id: 'u', persisted_url_param: u } : { user_id: 'u' }, 'used-before-consent', {}); t.check(ls.get(KEY) === raw, 'written-before-consent', {}); t.evaluated(canon([u, t.index % 50]));
    } },
  ],
};
