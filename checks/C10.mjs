import { BROWSER_ENTRY, API, KEYS, sdkPage, serverVariants, initialVariants, flagConfigs, user, storedShape, storeKey, settled } from '../lib/client.mjs';
import { Ref, fromStored } from '../models/client.mjs';
import { canon, clone, turn } from '../lib/util.mjs';
export default {
  property: 'C10', bundles: { browser: BROWSER_ENTRY },
  rule: 'Random client configuration (source, initial variants, initial flags, configured fallback, pre-stored variants in any supported shape) driven through fetches, flag refreshes, user changes, navigation and reloads; after each step variant() is compared with an independent precedence model for every key and fallback shape. Non-trivial = distinct (configuration, state, key, fallback) where a variant was resolved.',
  requires: ['rung-stored', 'rung-initial', 'rung-inline', 'rung-config', 'rung-local', 'default-shown', 'none', 'source-initial', 'reload', 'no-api-key'],
  workloads: [{ name: 'histories', quick: 2500, thorough: 60000, async run(t) {
    const r = t.rng; const apiKey = r.bool(0.04) ? '' : API; if (!apiKey) t.count('no-api-key');
    const keys = [...KEYS, ...(r.bool(0.15) ? ['constructor', 'toString'] : [])];
    const conf = { source: r.pick([undefined, 'localStorage', 'initialVariants']), initialVariants: r.bool(0.75) ? initialVariants(r, keys, r.pick([0.2, 0.6])) : undefined, fallbackVariant: r.weighted([[3, undefined], [1, {}], [2, { key: 'cfg', value: 'cfg' }], [1, { value: 'cfgv', payload: 1 }], [1, null], [1, 'cfg-string']]) };
    const initialFlags = r.bool(0.4) ? flagConfigs(r, keys, 0.3) : []; if (conf.source === 'initialVariants') t.count('source-initial');
    let responses = {}; let flagList = [];
    const device = undefined; const server = (k) => ({ status: 200, body: JSON.stringify(k === 'flags' ? flagList : responses) });
    const s0 = sdkPage(t, { server }); let { page } = s0; const dev = s0.device; let sut = s0.sut;
    const stored = r.bool(0.5) ? Object.fromEntries(r.subset(keys, 0.4).map((k) => [k, storedShape(r)])) : null;
    if (stored && apiKey) page.localMap().set(storeKey('$default_instance', apiKey), JSON.stringify(stored));
    const mk = () => new sut.ExperimentClient(apiKey, page.json({ ...clone(conf), initialFlags: initialFlags.length ? JSON.stringify(initialFlags) : undefined, automaticExposureTracking: r.bool(), pollOnStart: false, retryFetchOnFailure: false }));
    let client = mk(); const ref = new Ref({ apiKey, source: conf.source, initialVariants: conf.initialVariants, fallbackVariant: conf.fallbackVariant, initialFlags, href: page.url.href, lib: 'x' });
    if (stored && apiKey) for (const [k, v] of Object.entries(stored)) ref.variants[k] = fromStored(v);
    const judge = (step) => {
      for (const key of [...keys, 'unknown']) for (const inline of r.subset([undefined, null, 'inline', { key: 'in', value: 'in' }, '', {}], 0.45)) {
        const given = typeof inline === 'object' && inline ? page.json(inline) : inline;
        const actual = inline === undefined && r.bool() ? client.variant(key) : client.variant(key, given);
        const m = ref.resolve(key, inline); const exp = ref.variant(key, inline);
        t.equal(actual, exp, 'wrong-variant:' + (m.rung || 'none'), () => ({ step, key, inline }));
        t.count(m.rung ? (m.variant?.metadata?.default && m.hasDefault ? 'default-shown' : 'rung-' + m.rung) : 'none');
        t.evaluated(m.rung ? canon([conf, key, inline, ref.variants, Object.keys(ref.flags).length, actual]) : null);
      }
    };
    t.log('config', { conf, initialFlags, stored }); judge('constructed');
    const steps = r.int(2, 5);
    for (let i = 0; i < steps; i++) {
      const op = r.pick(['fetch', 'fetch', 'flags', 'flags', 'user', 'nav', 'reload', 'clear', 'provider']);
      if (op === 'fetch') { responses = serverVariants(r, keys, 0.5); const u = user(r); const flagKeys = r.bool(0.3) ? r.list(1, 3, () => r.pick(keys)) : undefined; t.log('fetch', { responses, flagKeys, u }); await client.fetch(page.json(u), flagKeys ? { flagKeys: page.json(flagKeys) } : undefined); ref.user = u; if (apiKey) ref.fetched(clone(responses), flagKeys); }
      else if (op === 'flags') { flagList = flagConfigs(r, keys, 0.6); const u = user(r); t.log('start', flagList, u); client.stop(); const p = settled(client.start(page.json(u))); if (!client.__noFetch) responses = serverVariants(r, keys, 0.4); await dev.clock.advance(1); await turn(); ref.user = u; if (apiKey) { ref.setFlags(clone(flagList)); ref.fetched(clone(responses)); } else ref.setFlags(clone(flagList)); t.check(p.done, 'start-not-settled'); }
      else if (op === 'user') { const u = r.bool(0.1) ? null : user(r); t.log('setUser', u); client.setUser(u && page.json(u)); ref.user = u; }
      else if (op === 'provider') { const u = r.bool(0.2) ? null : user(r); t.log('provider', u); client.setUserProvider(u && { getUser: () => page.json(u) }); ref.provider = u; }
      else if (op === 'nav') { const u = r.pick(['/shop/x', '/', '/blog?q=/shop', '/a']); page.history.pushState(null, '', u); ref.href = page.url.href; t.log('nav', u); }
      else if (op === 'clear') { t.log('clear'); client.clear(); ref.variants = {}; }
      else { t.count('reload'); t.log('reload'); const old = page; page = dev.page({ ...old.opts, url: old.url.href }); old.close(); sut = page.load(t.sut.browser); client = mk(); ref.user = null; ref.provider = null; for (const k of Object.keys(ref.variants)) ref.variants[k] = fromStored(clone(ref.variants[k])); const persisted = ref.persistedFlags || {}; ref.flags = clone(persisted); ref.mergeInitial(); }
      if (op === 'flags') ref.persistedFlags = Object.fromEntries(flagList.map((f) => [f.key, clone(f)]));
      judge(op);
    }
    t.sample({ conf, steps, stored }); page.close();
  } }],
};
