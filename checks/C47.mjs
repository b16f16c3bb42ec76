import { Device } from '../lib/env.mjs';
import { canon } from '../lib/util.mjs';
const ENTRY = `export * from '@src/tag/util/cookie'; export { createCookieStorage } from '@src/tag/consent/consent-cookie-storage';`;
const LABELS = ['www', 'shop', 'a', 'b-1', 'm', 'x9'];
// registrable part, public suffix it sits on (null: not on the list)
const BASES = ['example.com', 'shop.co.uk', 'brand.com.au', 'me.github.io', 'site.vercel.app', 'acme.io', 'acme.de', 'acme.co.jp', 'store.myshopify.com', 'odd.co.xy', 'acme.xy', 'example.net', 'two.ltd.uk', 'app.pages.dev', 'shop.com.br', 'Example.COM', 'blog.fly.dev', 'mygithub.io', 'dotcom.au', 'usco.uk', 'notfly.dev'];
const SUFFIXES = ['com', 'org', 'net', 'io', 'dev', 'uk', 'co.uk', 'ltd.uk', 'com.au', 'au', 'github.io', 'jp', 'co.jp', 'br', 'com.br', 'localhost', 'app', 'vercel.app', 'de', 'myshopify.com', 'xy', 'co.xy', 'pages.dev', 'fly.dev', 'local'];
const text = (r) => r.pick([() => r.str(r.int(0, 30)), () => ['a b', 'a;b', 'a=b', '=', ';', '%', '%7B', '%zz', 'é', '日本', '"q"', ', ', '\n', '\u0000x', '😀', 'a%20b', '{"a":1}'][r.int(0, 16)], () => JSON.stringify({ id: r.str(8), s: r.str(3) })])();
export default {
  property: 'C47', bundles: { tag: ENTRY },
  rule: 'probe: random hosts (subdomains of sites on listed and unlisted public suffixes, bare hosts, IPs, localhost, mixed case) with random cookie policies (domain levels refused, all refused, reading or writing throws); the domain found by both probes is compared with the widest one the simulated jar really accepts, and the jar must be as it was. roundtrip: values of any text written to the found domain are read back identically on every host below it and nowhere else, deletion removes them, failures are reported. resolve: shared fields from random cookies, fallbacks and generators, with failing storage. Non-trivial = distinct input judged.',
  requires: ['root-found', 'deeper-level', 'none-accepts', 'host-only-site', 'ip', 'probe-throws', 'two-label-suffix', 'unlisted-suffix', 'roundtrip', 'sub-reads', 'foreign-blind', 'blocked-write', 'shadowed', 'deleted', 'from-cookie', 'from-fallback', 'generated', 'partly', 'garbage-cookie', 'resolve-fault', 'unchanged-not-written', 'marketing', 'http'],
  workloads: [
    { name: 'probe', quick: 4000, thorough: 200000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); d.jar.suffixes = new Set(SUFFIXES); const kind = r.weighted([[10, 'site'], [1, 'ip'], [1, 'local']]); let base = r.pick(BASES);
      const host = kind === 'ip' ? r.pick(['10.0.0.7', '127.0.0.1', '192.168.1.20']) : kind === 'local' ? r.pick(['localhost', 'intranet']) : [...r.subset(LABELS, 0.3), base].join('.'); const low = host.toLowerCase(); if (kind === 'ip') t.count('ip'); if (base.endsWith('.xy') && kind === 'site') t.count('unlisted-suffix');
      const policy = r.pick(['normal', 'normal', 'normal', 'level', 'level', 'none', 'host-only', 'get-throws', 'set-throws']); const p = d.page({ url: `https://${host}/a/b`, seed: t.index });
      d.jar.set(low, 'keep=1; path=/'); d.jar.set(low, 'theirs=x; path=/'); const banned = new Set(); const parts = low.split('.'); const sufs = parts.map((_, i) => parts.slice(i).join('.'));
      if (policy === 'level') for (const s of sufs) if (r.bool(0.5)) banned.add(s);
      if (policy === 'level') d.jar.refuse = (c) => !c.hostOnly && banned.has(c.domain); else if (policy === 'none') d.jar.refuse = () => true; else if (policy === 'host-only') d.jar.refuse = (c) => !c.hostOnly;
      const before = canon(d.jar.dump());
      // the truth: write on every suffix of at least two labels and see which the jar takes
      const accepts = (s) => { const n = '__truth'; d.jar.set(low, `${n}=1; domain=.${s}; path=/`); const ok = d.jar.visible(low).some((c) => c.name === n); d.jar.cookies = d.jar.cookies.filter((c) => c.name !== n); return ok; };
      const wide = policy.endsWith('throws') ? undefined : [...sufs].reverse().filter((s) => s.includes('.')).find(accepts); const want = wide ? '.' + wide : '';
      if (policy.endsWith('throws')) { t.count('probe-throws'); d.cookieFault = (e) => e.op === policy.slice(0, 3); }
      const sut = p.load(t.sut.tag); const r1 = () => { try { return sut.getTopLevelDomainSync(host); } catch (e) { t.violation('probe-threw', { host, policy, e: String(e) }); return ''; } }; let a, b; const first = r.bool();
      if (first) a = r1(); try { b = await sut.getTopLevelDomain(host); } catch (e) { t.violation('probe-threw', { host, policy, e: String(e) }); b = ''; } if (!first) a = r1(); d.cookieFault = null;
      t.equal([a, b], [want, want], 'wrong-domain', { host, policy, banned: [...banned] }); t.check(canon(d.jar.dump()) === before, 'probe-left-a-cookie', { host, policy, jar: d.jar.dump() });
      if (want) { t.count('root-found'); if (want.split('.').length > 3) t.count('two-label-suffix'); if (policy === 'level') t.count('deeper-level'); } else t.count(kind === 'local' ? 'host-only-site' : 'none-accepts');
      t.evaluated(canon([host, policy, [...banned]])); 
      if (want && policy === 'normal') { const again = await sut.getTopLevelDomain(host); t.check(again === b, 'unstable', { again, b }); try { await sut.setMarketingCookie('client-abcdef', host); } catch (e) { t.violation('marketing-threw', { e: String(e) }); } const m = d.jar.cookies.filter((c) => c.name.startsWith('AMP_MKTG')); t.count('marketing'); t.check(m.length === 1 && m[0].name === 'AMP_MKTG_ORIGINAL_client-abc' && '.' + m[0].domain === want, 'marketing-cookie', { m, want }); }
    } },
    { name: 'roundtrip', quick: 2500, thorough: 100000, run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); d.jar.suffixes = new Set(SUFFIXES); const base = r.pick(BASES).toLowerCase(); const hosts = [base, 'www.' + base, 'a.b.' + base, 'shop.' + base]; const proto = r.bool(0.75) ? 'https' : 'http'; if (proto === 'http') t.count('http'); const page = (h) => { const p = d.page({ url: `${proto}://${h}/x`, seed: t.index }); return { p, s: p.load(t.sut.tag) }; };
      const h = r.pick(hosts); const A = page(h); const dom = A.s.getTopLevelDomainSync(h); const key = r.pick(['EXP_client-abc_rtbt_session', 'EXP_k_identity', 'x']); const v = text(r);
      if (r.bool(0.4)) { d.jar.set(h, `${key}2=other; path=/`); d.jar.set(h, `p${key}=other; path=/`); } const mode = r.weighted([[6, 'ok'], [1, 'blocked'], [1, 'shadowed']]);
      if (mode === 'blocked') d.jar.refuse = (c) => c.name === key; if (mode === 'shadowed') d.jar.set(h, `${key}=stale; path=/`);
      let ok; try { ok = A.s.writeRawCookie(key, v, { domain: dom || undefined, ...(r.bool() ? { maxAgeSeconds: 100 } : {}) }); } catch (e) { t.violation('write-threw', { e: String(e), v }); return; }
      if (mode === 'blocked') { t.count('blocked-write'); t.check(ok === false, 'blocked-reported-written', { v }); t.check(A.s.readRawCookie(key) === undefined, 'blocked-readable', {}); }
      else if (mode === 'shadowed') { t.count('shadowed'); t.check(ok === (A.s.readRawCookie(key) === v), 'shadowed-misreported', { ok, v, got: A.s.readRawCookie(key) }); }
      else {
        t.check(ok === true, 'write-reported-blocked', { v, h, dom }); t.count('roundtrip');
        for (const x of dom ? hosts : [h]) { const got = page(x).s.readRawCookie(key); t.count('sub-reads'); t.check(got === v, 'read-back-differs', { x, v, got }); }
        for (const x of ['www.other.com', 'not' + base]) { t.count('foreign-blind'); t.check(page(x).s.readRawCookie(key) === undefined, 'leaked-to-other-site', { x }); }
        page(r.pick(dom ? hosts : [h])).s.deleteRawCookie(key, dom || undefined); t.count('deleted'); t.check(!d.jar.cookies.some((c) => c.name === key), 'not-deleted', { jar: d.jar.dump() });
      }
      t.evaluated(canon([h, key, v, mode]));
    } },
    { name: 'resolve', quick: 3000, thorough: 150000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const p = d.page({ url: 'https://www.example.com/', seed: t.index }); const sut = p.load(t.sut.tag); const key = 'EXP_client-abc_identity'; const F = r.subset(['web_exp_id_v2', 'first_seen', 'third'], 0.8); if (!F.length) F.push('first_seen');
      const cookie = r.weighted([[3, () => undefined], [4, () => { const o = {}; for (const f of [...F, 'extra']) { const c = r.pick(['ok', 'ok', 'none', 'empty', 'number', 'null']); if (c !== 'none') o[f] = { ok: 'c' + r.int(1, 99), empty: '', number: 5, null: null }[c]; } return JSON.stringify(o); }], [2, () => { t.count('garbage-cookie'); return r.pick(['{', 'null', '[]', '5', '"s"', '', 'undefined', '[1,2]', 'true']); }]])();
      const fault = r.weighted([[5, 'none'], [1, 'get'], [1, 'set'], [1, 'both']]); if (fault !== 'none') t.count('resolve-fault'); let stored = cookie; const sets = []; let gets = 0;
      const store = { get: async () => { gets++; if (fault === 'get' || fault === 'both') throw new Error('io'); return stored; }, set: async (k, v) => { sets.push([k, v]); if (fault === 'set' || fault === 'both') throw new Error('io'); stored = v; }, remove: async () => {} };
      const fallback = {}; for (const f of F) if (r.bool(0.5)) fallback[f] = 'f' + r.int(1, 99); const made = []; const gens = {}; for (const f of F) gens[f] = () => { made.push(f); return 'g-' + f; };
      let cur = {}; if (fault !== 'get' && fault !== 'both') { try { const q = JSON.parse(cookie || '{}'); if (q && typeof q === 'object') cur = q; } catch { /* none */ } }
      const want = {}; const src = F.map((f) => { if (typeof cur[f] === 'string' && cur[f]) { want[f] = cur[f]; t.count('from-cookie'); return 'c'; } if (fallback[f] !== undefined) { want[f] = fallback[f]; t.count('from-fallback'); return 'f'; } want[f] = 'g-' + f; t.count('generated'); return 'g'; });
      let got; try { got = await sut.resolveCrossSubdomainObject(store, key, p.json(fallback), gens); } catch (e) { t.violation('resolve-threw', { e: String(e), cookie, fault }); return; }
      t.equal(got, want, 'resolved', { cookie, fallback, fault }); t.equal(made.sort(), F.filter((f, i) => src[i] === 'g').sort(), 'generated-needlessly', { cookie, fallback });
      const changed = src.some((s) => s !== 'c'); if (changed && src.includes('c')) t.count('partly'); if (!changed) { t.count('unchanged-not-written'); t.check(sets.length === 0, 'written-needlessly', { sets }); } else { t.check(sets.length === 1 && sets[0][0] === key, 'not-written-once', { sets, cookie }); if (sets.length) { const w = JSON.parse(sets[0][1]); for (const f of F) t.check(w[f] === want[f], 'written-differs', { w, want }); } }
      t.evaluated(canon([cookie, fallback, fault, F]));
    } },
  ],
};
