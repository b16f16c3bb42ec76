import { BROWSER_ENTRY, API, KEYS, sdkPage, serverVariants, initialVariants, flagConfigs, user, storedShape, storeKey } from '../lib/client.mjs';
import { Ref, fromStored } from '../models/client.mjs';
import { canon, clone } from '../lib/util.mjs';
export default {
  property: 'C11', bundles: { browser: BROWSER_ENTRY },
  rule: 'Random configurations and histories (stored variants, initial variants, flag refreshes, fetches, user changes, clear, reload, edits of returned objects); after each step all() is compared with an independent merge model, then the returned object is edited and all()/variant() are compared again. Non-trivial = distinct non-empty result.',
  requires: ['both-sources', 'local-overrides', 'remote-flag-ignored', 'edited', 'source-initial', 'cleared', 'no-api-key'],
  workloads: [{ name: 'histories', quick: 2500, thorough: 60000, async run(t) {
    const r = t.rng; const apiKey = r.bool(0.03) ? '' : API; if (!apiKey) t.count('no-api-key');
    const conf = { source: r.pick([undefined, 'localStorage', 'initialVariants']), initialVariants: r.bool(0.8) ? initialVariants(r, KEYS, 0.5) : undefined, fallbackVariant: r.bool(0.2) ? { key: 'cfg', value: 'cfg' } : undefined };
    const initialFlags = r.bool(0.4) ? flagConfigs(r, KEYS, 0.35) : []; if (conf.source === 'initialVariants') t.count('source-initial');
    let responses = {}; let flagList = [];
    const s0 = sdkPage(t, { server: (k) => ({ status: 200, body: JSON.stringify(k === 'flags' ? flagList : responses) }) }); const { page } = s0; const dev = s0.device; const sut = s0.sut;
    const stored = r.bool(0.6) ? Object.fromEntries(r.subset(KEYS, 0.5).map((k) => [k, storedShape(r)])) : null;
    if (stored && apiKey) page.localMap().set(storeKey('$default_instance', apiKey), JSON.stringify(stored));
    const client = new sut.ExperimentClient(apiKey, page.json({ ...clone(conf), initialFlags: initialFlags.length ? JSON.stringify(initialFlags) : undefined, automaticExposureTracking: r.bool(), pollOnStart: false, retryFetchOnFailure: false }));
    const ref = new Ref({ apiKey, ...conf, initialFlags, href: page.url.href }); if (stored && apiKey) for (const [k, v] of Object.entries(stored)) ref.variants[k] = fromStored(v);
    t.log('config', { conf, initialFlags, stored });
    const judge = (step) => {
      const exp = ref.all(); const got = client.all(); t.equal(got, exp, 'wrong-all', () => ({ step }));
      const both = Object.keys(ref.variants).filter((k) => ref.initial[k]); if (both.length) t.count('both-sources');
      for (const [k, f] of Object.entries(ref.flags)) { const loc = f.metadata?.evaluationMode === 'local'; if (loc && exp[k] && (ref.variants[k] || ref.initial[k])) t.count('local-overrides'); if (!loc && ref.evaluate([k])[k]) t.count('remote-flag-ignored'); }
      t.evaluated(Object.keys(exp).length ? canon([conf.source, exp, step]) : null);
      // edit the object that was returned
      for (const k of r.subset([...KEYS, 'extra'], 0.5)) { if (r.bool()) delete got[k]; else got[k] = { key: 'edited', value: 'edited' }; t.count('edited'); }
      t.equal(client.all(), exp, 'edit-leaked', () => ({ step })); for (const k of r.subset(KEYS, 0.3)) t.equal(client.variant(k), ref.variant(k), 'variant-after-all', () => ({ step, k }));
    };
    judge('constructed');
    for (let i = r.int(2, 6); i > 0; i--) {
      const op = r.pick(['fetch', 'fetch', 'flags', 'flags', 'user', 'nav', 'clear']);
      if (op === 'fetch') { responses = serverVariants(r, KEYS, 0.5); const u = user(r); const flagKeys = r.bool(0.3) ? r.list(1, 3, () => r.pick(KEYS)) : undefined; await client.fetch(page.json(u), flagKeys ? { flagKeys: page.json(flagKeys) } : undefined); ref.user = u; if (apiKey) ref.fetched(clone(responses), flagKeys); }
      else if (op === 'flags') { flagList = flagConfigs(r, KEYS, 0.6); const u = user(r); client.stop(); const p = client.start(page.json(u)); await dev.clock.advance(1); await p; ref.user = u; ref.setFlags(clone(flagList)); if (apiKey) ref.fetched(clone(responses)); }
      else if (op === 'user') { const u = r.bool(0.1) ? null : user(r); client.setUser(u && page.json(u)); ref.user = u; }
      else if (op === 'nav') { page.history.pushState(null, '', r.pick(['/shop/x', '/', '/a'])); ref.href = page.url.href; }
      else { client.clear(); ref.variants = {}; t.count('cleared'); }
      t.log(op); judge(op);
    }
    t.sample({ conf, all: client.all() }); page.close();
  } }],
};
