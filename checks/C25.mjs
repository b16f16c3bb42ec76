import { BROWSER_ENTRY, API, KEYS, sdkPage, serverVariants, initialVariants, flagConfigs, user, settled, recLogger } from '../lib/client.mjs';
import { Ref } from '../models/client.mjs';
import { canon, clone } from '../lib/util.mjs';
const SOURCE = { stored: 'storage', initial: 'initial', local: 'local-evaluation', inline: 'fallback-inline', config: 'fallback-config' }; // 'secondary-' is said when it was not the first choice
export default {
  property: 'C25', bundles: { browser: BROWSER_ENTRY },
  rule: 'Random histories of variant(), exposure(), fetches, flag loads, user and user provider changes, fallbacks and clears on a client with an analytics provider of every shape the interface allows (with or without setUserProperty and unsetUserProperty, also methods of a class, also the providers for the legacy Amplitude SDK, whose calls to it are judged), over every variant source, together with an exposure provider or without. A model of the shown variant and of what the provider was last told decides after each call which of the three methods must have been called, in which order and with what event. Non-trivial = distinct call and state judged',
  requires: ['set-and-tracked', 'unset', 'silent-same', 'silent-unset', 'changed', 'after-unset', 'fallback', 'no-value', 'disabled', 'automatic-off', 'explicit', 'only-track', 'without-unset', 'class', 'amplitude', 'with-exposure-provider', 'no-provider', 'odd-key'],
  workloads: [{ name: 'histories', quick: 1800, thorough: 50000, async run(t) {
    const r = t.rng; const auto = r.bool(0.75); const odd = r.bool(0.15) ? ['constructor', 'toString', '__proto__'] : []; const keys = [...KEYS.slice(0, r.int(2, 5)), ...odd];
    const conf = { source: r.pick([undefined, 'localStorage', 'initialVariants']), initialVariants: r.bool(0.6) ? initialVariants(r, keys.filter((k) => k !== '__proto__'), 0.3) : undefined, fallbackVariant: r.weighted([[4, undefined], [2, { key: 'cfg', value: 'cfg' }]]) };
    const plain = keys.filter((k) => k !== '__proto__'); const initialFlags = r.bool(0.4) ? flagConfigs(r, plain, 0.4) : []; let responses = {}; let flagList = []; const { page, sut, clock } = sdkPage(t, { server: (k) => ({ status: 200, body: JSON.stringify(k === 'flags' ? flagList : responses) }) });
    let got = []; const shape = r.weighted([[4, 'full'], [1, 'only-track'], [1, 'without-unset'], [1, 'without-set'], [1, 'class'], [1.5, 'amplitude'], [0.5, 'none']]); const hear = (what) => function (e) { if (shape === 'class' && this !== provider) throw new page.g.TypeError('called without its provider'); got.push([what, clone(e)]); };
    const provider = { track: hear('track'), ...(shape === 'only-track' || shape === 'without-set' ? {} : { setUserProperty: hear('set') }), ...(shape === 'only-track' || shape === 'without-unset' ? {} : { unsetUserProperty: hear('unset') }) }; if (shape === 'none') t.count('no-provider'); else t.count(shape);
    const calls = []; const opts = r.bool(0.8) ? { deviceId: r.pick(['d', undefined]), userId: r.pick(['u', null]), versionName: r.pick(['1.2', undefined]), language: r.pick(['en', undefined]), platform: r.pick(['Web', undefined]) } : undefined; const ua = r.bool(0.7) ? { browser: r.bool(0.8) ? { name: r.pick(['Chrome', undefined, null]), major: r.pick(['120', undefined]) } : undefined, os: r.bool(0.8) ? { name: r.pick(['Mac', undefined]) } : undefined } : undefined;
    const inst = { options: opts, _ua: ua, logEvent: (...a) => calls.push(['logEvent', ...clone(a)]), setUserProperties: (...a) => calls.push(['setUserProperties', ...clone(a)]), _logEvent: (...a) => calls.push(['_logEvent', ...clone(a)]) };
    if (shape === 'amplitude') { const a = new sut.AmplitudeAnalyticsProvider(inst); provider.track = (e) => { hear('track')(e); a.track(e); }; provider.setUserProperty = (e) => { hear('set')(e); a.setUserProperty(e); }; provider.unsetUserProperty = (e) => { hear('unset')(e); a.unsetUserProperty(e); }; t.equal(new sut.AmplitudeUserProvider(inst).getUser(), { device_id: opts?.deviceId, user_id: opts?.userId, version: opts?.versionName, language: opts?.language, platform: opts?.platform, os: [ua?.browser?.name, ua?.browser?.major].filter((x) => x != null).join(' '), device_model: ua?.os?.name }, 'amplitude-user', { opts, ua }); }
    const exposures = []; const both = r.bool(0.4); if (both) t.count('with-exposure-provider');
    const client = new sut.ExperimentClient(API, { ...page.json({ ...clone(conf), initialFlags: initialFlags.length ? JSON.stringify(initialFlags) : undefined, automaticExposureTracking: auto, pollOnStart: false, retryFetchOnFailure: false }), loggerProvider: recLogger(), ...(shape === 'none' ? {} : { analyticsProvider: provider }), ...(both ? { exposureTrackingProvider: { track: (e) => exposures.push(clone(e)) } } : {}) });
    const ref = new Ref({ apiKey: API, source: conf.source, initialVariants: conf.initialVariants, fallbackVariant: conf.fallbackVariant, initialFlags, href: page.url.href, lib: 'x' }); const told = new Map(); const ops = [];
    const call = (how, key, inline) => {
      got = []; let err; let shown; try { shown = how === 'variant' ? client.variant(key, inline && typeof inline === 'object' ? page.json(inline) : inline) : client.exposure(key); } catch (e) { err = e; } const why = (x) => ({ how, key, inline, shape, auto, told: [...told], err: err && String(err.stack).slice(0, 300), ops: ops.slice(-5), ...x }); if (!t.check(!err, 'throws', why)) return;
      if (how !== 'variant') { inline = undefined; t.count('explicit'); } const s = ref.resolve(key, inline); const v = s.variant; if (how === 'variant') t.equal(shown, v ?? {}, 'wrong-variant', why);
      let want = []; const silent = v?.metadata?.trackExposure === false; const was = told.get(key); if (how === 'variant' && !auto) t.count('automatic-off'); else if (silent) t.count('disabled');
      else if (s.fallback || !v?.value) { t.count(s.fallback ? 'fallback' : 'no-value'); if (was?.unset) t.count('silent-unset'); else { want = ['unset']; told.set(key, { unset: true }); t.count('unset'); } }
      else if (was && !was.unset && was.value === v.value) t.count('silent-same'); else { want = ['set', 'track']; if (was) t.count(was.unset ? 'after-unset' : 'changed'); told.set(key, { value: v.value }); t.count('set-and-tracked'); }
      if (odd.includes(key) && want.length) t.count('odd-key'); if (shape === 'amplitude') t.equal(calls.splice(0), got.map(([k, e]) => (k === 'track' ? ['logEvent', e.name, e.properties] : k === 'set' ? ['setUserProperties', { [e.userProperty]: e.variant?.value }] : ['_logEvent', '$identify', null, null, { $unset: { [e.userProperty]: '-' } }])), 'amplitude-calls', why); const can = { set: !!provider.setUserProperty, unset: !!provider.unsetUserProperty, track: true }; want = shape === 'none' ? [] : want.filter((w) => can[w]); t.equal(got.map((g) => g[0]), want, 'calls', () => why({ resolved: s }));
      const m = ref.mergedUser(); for (const [, e] of got) { const user2 = { ...e.user, library: m.library }; t.equal({ name: e.name, key: e.key, variant: e.variant, userProperty: e.userProperty, properties: { key: e.properties.key, variant: e.properties.variant }, userProperties: e.userProperties }, { name: '[Experiment] Exposure', key, variant: v, userProperty: `[Experiment] ${key}`, properties: { key, variant: v?.value }, userProperties: { [`[Experiment] ${key}`]: v?.value } }, 'event', () => why({ resolved: s })); t.equal(user2, m, 'event-user', why); if (s.rung) t.equal(String(e.properties.source).replace('secondary-', ''), SOURCE[s.rung], 'event-source', () => why({ resolved: s })); }
      t.evaluated(canon([how, key, inline, v, s.rung, was, shape, want]));
    };
    for (let i = r.int(3, 9); i > 0; i--) {
      const op = r.pick(['fetch', 'fetch', 'flags', 'user', 'user', 'clear', 'provider', 'none', 'pass']); ops.push(op);
      if (op === 'fetch') { responses = serverVariants(r, plain, r.pick([0.4, 0.8]), { def: 0.4 }); const u = user(r); await client.fetch(page.json(u)); ref.user = u; ref.fetched(clone(responses)); }
      else if (op === 'flags') { flagList = flagConfigs(r, plain, 0.5); responses = serverVariants(r, plain, 0.4); const u = user(r); client.stop(); settled(client.start(page.json(u))); await clock.advance(1); ref.user = u; ref.setFlags(clone(flagList)); ref.fetched(clone(responses)); }
      else if (op === 'user') { const u = r.bool(0.1) ? null : user(r); client.setUser(u && page.json(u)); ref.user = u; } else if (op === 'provider') { const u = r.bool(0.2) ? null : user(r); client.setUserProvider(u && { getUser: () => page.json(u) }); ref.provider = u; } else if (op === 'clear') { client.clear(); ref.variants = {}; } else if (op === 'pass') await clock.advance(r.int(1, 100000));
      for (let n = r.int(2, 8); n > 0; n--) call(r.pick(['variant', 'variant', 'exposure']), r.bool(0.08) ? 'unknown' : r.pick(keys), r.weighted([[5, undefined], [1, null], [1.5, 'inline'], [1, { key: 'in', value: 'in' }]]));
    }
    page.close();
  } }],
};
