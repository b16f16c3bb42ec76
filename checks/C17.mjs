import { BROWSER_ENTRY, API, KEYS, sdkPage, serverVariants, initialVariants, flagConfigs, user, settled, recLogger } from '../lib/client.mjs';
import { Ref } from '../models/client.mjs';
import { canon, clone } from '../lib/util.mjs';
export default {
  property: 'C17', bundles: { browser: BROWSER_ENTRY },
  rule: 'Random histories of variant(), exposure(), fetches, flag loads, user, provider and page changes over every variant source, fallback shape and delivery method, with an exposure provider that records, keeps every exposure it was handed and sometimes throws. Each call is judged against an exposure model and a once-per-identity model; kept exposures and returned variants are re-read later to catch retroactive changes. Non-trivial = distinct call that had to report or had to stay silent because of a duplicate, a fallback or a disabled flag.',
  requires: ['reported', 'reported-default', 'reported-fallback-over-default', 'silent-fallback', 'silent-disabled', 'silent-duplicate', 're-reported-identity', 're-reported-variant', 'automatic-off', 'explicit', 'web', 'keyless-response', 'provider-throws', 'kept-intact'],
  workloads: [{ name: 'histories', quick: 1800, thorough: 50000, async run(t) {
    const r = t.rng; const web = r.bool(0.25); const auto = r.bool(0.75); const keys = [...KEYS.slice(0, r.int(2, 6)), ...(r.bool(0.1) ? ['constructor', 'toString'] : [])]; if (web) t.count('web');
    const conf = { source: r.pick([undefined, 'localStorage', 'initialVariants']), initialVariants: r.bool(0.6) ? initialVariants(r, keys, 0.3) : undefined, fallbackVariant: r.weighted([[4, undefined], [2, { key: 'cfg', value: 'cfg' }], [1, { value: 'cfgv', metadata: { trackExposure: false } }]]) };
    const initialFlags = r.bool(0.4) ? flagConfigs(r, keys, 0.4) : []; let responses = {}; let flagList = [];
    const { page, sut, device, clock } = sdkPage(t, { server: (k) => ({ status: 200, body: JSON.stringify(k === 'flags' ? flagList : responses) }), url: 'https://www.example.com/shop?a=1#h' });
    let got = []; const kept = []; let throws = false; const provider = { track: (e) => { got.push(clone(e)); kept.push({ e, snap: canon(e, true) }); if (throws) throw new page.g.Error('provider down'); } };
    const client = new sut.ExperimentClient(API, { ...page.json({ ...clone(conf), ...(web ? { internalInstanceNameSuffix: 'web' } : {}), initialFlags: initialFlags.length ? JSON.stringify(initialFlags) : undefined, automaticExposureTracking: auto, pollOnStart: false, retryFetchOnFailure: false }), loggerProvider: recLogger(), exposureTrackingProvider: provider });
    const ref = new Ref({ apiKey: API, source: conf.source, initialVariants: conf.initialVariants, fallbackVariant: conf.fallbackVariant, initialFlags, href: page.url.href, lib: 'x' });
    const tracked = new Map(); const lastReported = new Map(); let identity = null;
    const expose = (how, key, inline) => {
      got = []; const given = inline && typeof inline === 'object' ? page.json(inline) : inline; let shown, err; throws = r.bool(0.04); if (throws) t.count('provider-throws');
      try { shown = how === 'variant' ? client.variant(key, given) : client.exposure(key); } catch (e) { err = e; } const threw = throws; throws = false;
      if (how !== 'variant') inline = undefined; if (!err && how === 'variant') t.equal(shown, ref.variant(key, inline), 'wrong-variant', { key, inline });
      const s = ref.resolve(key, inline); let exp = how === 'variant' && !auto ? null : ref.exposure(key, inline); const why = () => ({ how, key, inline, web, auto, exp, resolved: s, user: ref.mergedUser() });
      if (how === 'variant' && !auto) t.count('automatic-off'); if (how === 'exposure') t.count('explicit');
      let dup = false; const raw = exp;
      if (exp) { if (web) { exp.time = clock.now; if (exp.metadata) exp.metadata.url = page.url.href.split('?')[0]; }
        const m = ref.mergedUser(); const id = canon([m.user_id, m.device_id]); if (id !== identity) { identity = id; tracked.clear(); }
        dup = tracked.has(key) && tracked.get(key) === exp.variant; const before = lastReported.get(key);
        if (dup) { t.count('silent-duplicate'); exp = null; } else { tracked.set(key, exp.variant); t.count('reported'); if (before && before.id !== id && before.v === exp.variant) t.count('re-reported-identity'); if (before && before.id === id && before.v !== exp.variant) t.count('re-reported-variant'); lastReported.set(key, { id, v: exp.variant }); if (exp.variant === undefined) t.count(s.fallback ? 'reported-fallback-over-default' : 'reported-default'); } }
      else if (auto || how === 'exposure') t.count(s.fallback ? 'silent-fallback' : 'silent-disabled');
      t.equal(got, exp ? [exp] : [], dup ? 'reported-twice' : exp ? 'wrong-exposure' : 'reported-though-silent', why);
      if (err) t.check(threw && got.length, 'throws', String(err && err.stack)); else if (threw && got.length) { /* a provider failure may or may not surface */ }
      t.evaluated(raw || dup || !s.fallback ? canon([how, key, inline, web, exp, dup, ref.mergedUser().user_id]) : null);
    };
    for (let i = r.int(3, 8); i > 0; i--) {
      const op = r.pick(['fetch', 'fetch', 'flags', 'user', 'user', 'nav', 'clear', 'provider', 'none', 'pass']); t.log(op);
      if (op === 'fetch') { responses = serverVariants(r, keys, r.pick([0.4, 0.8]), { web, def: 0.5 }); if (r.bool(0.2)) for (const v of Object.values(responses)) if (v.value && r.bool(0.5)) { delete v.key; v.value = r.pick([v.value, 'ON', 'Blue x']); t.count('keyless-response'); } const u = ref.user && r.bool() ? ref.user : user(r); await client.fetch(page.json(u)); ref.user = u; ref.fetched(clone(responses)); }
      else if (op === 'flags') { flagList = flagConfigs(r, keys, 0.5); responses = serverVariants(r, keys, 0.4, { web }); const u = user(r); client.stop(); settled(client.start(page.json(u))); await clock.advance(1); ref.user = u; ref.setFlags(clone(flagList)); ref.fetched(clone(responses)); }
      else if (op === 'user') { const u = r.bool(0.1) ? null : user(r); client.setUser(u && page.json(u)); ref.user = u; } else if (op === 'provider') { const u = r.bool(0.2) ? null : user(r); client.setUserProvider(u && { getUser: () => page.json(u) }); ref.provider = u; }
      else if (op === 'nav') { page.history.pushState(null, '', r.pick(['/shop/x?q=1', '/', '/blog?q=/shop#z'])); ref.href = page.url.href; } else if (op === 'clear') { client.clear(); ref.variants = {}; } else if (op === 'pass') await clock.advance(r.int(1, 100000));
      for (let n = r.int(2, 8); n > 0; n--) { const key = r.bool(0.08) ? 'unknown' : r.pick(keys); expose(r.pick(['variant', 'variant', 'exposure']), key, r.weighted([[5, undefined], [1, null], [2, 'inline'], [1, { key: 'in', value: 'in', metadata: { a: 1 } }]])); }
    }
    for (const k of kept) t.check(canon(k.e, true) === k.snap, 'reported-exposure-changed-later', () => ({ now: canon(k.e), then: k.snap })); t.count('kept-intact', kept.length);
    t.sample({ web, auto, conf, reported: kept.length }); page.close();
  } }],
};
