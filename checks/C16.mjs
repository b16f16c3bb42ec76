import { BROWSER_ENTRY, API, KEYS, sdkPage, settled, recLogger, b64, kind } from '../lib/client.mjs';
import { mergeUser } from '../models/client.mjs';
import { canon, clone, freezeDeep } from '../lib/util.mjs';
const PROPS = ['plan', 'n', 'flagged', 'list']; const FIELDS = ['user_id', 'device_id', 'country', 'language', 'platform', 'browser', 'landing_url'];
const val = (r, k) => ({ user_id: () => r.pick(['u1', 'u2', 'u3']), device_id: () => r.pick(['d1', 'd2', 'd3']), country: () => r.pick(['DE', 'US', '']), n: () => r.int(0, 3), flagged: () => r.bool(), list: () => r.pick([['a'], ['b', 'c'], []]) }[k] || (() => r.pick(['x', 'y', 'z'])))();
function anyUser(r) {
  const u = {}; for (const k of r.subset(FIELDS, 0.45)) u[k] = r.bool(0.15) ? r.pick([null, '']) : val(r, k);
  if (r.bool(0.65)) { u.user_properties = {}; for (const k of r.subset(PROPS, 0.5)) u.user_properties[k] = r.bool(0.08) ? null : val(r, k); } else if (r.bool(0.1)) u.user_properties = null;
  if (r.bool(0.25)) { u.groups = { org: r.pick([['acme'], ['umbrella'], ['acme', 'umbrella'], ['umbrella', 'acme', 'x'], []]) }; if (r.bool(0.3)) u.groups.team = ['red']; } if (r.bool(0.25)) u.group_properties = { org: { [r.pick(['acme', 'umbrella'])]: r.pick([{ tier: 'x' }, { tier: 'y' }, {}]), other: { tier: 'z' } } }; if (r.bool(0.15)) u.cookie = { sid: 's' + r.int(0, 9) }; return u;
}
const probe = (name, selector, values) => ({ key: 'probe-' + name, metadata: { evaluationMode: 'local' }, variants: Object.fromEntries([...values.map((v, i) => ['v' + i, { key: 'v' + i, value: String(v) }]), ['none', { key: 'none', value: 'none' }]]), segments: [...values.map((v, i) => ({ conditions: [[{ selector, op: 'is', values: [String(v)] }]], variant: 'v' + i })), { variant: 'none' }] });
const PROBES = [...FIELDS.filter((f) => f !== 'landing_url').map((f) => probe(f, ['context', 'user', f], f === 'user_id' ? ['u1', 'u2', 'u3'] : f === 'device_id' ? ['d1', 'd2', 'd3'] : f === 'country' ? ['DE', 'US', ''] : ['x', 'y', 'z'])), probe('p-plan', ['context', 'user', 'user_properties', 'plan'], ['x', 'y', 'z']), probe('p-n', ['context', 'user', 'user_properties', 'n'], [0, 1, 2, 3]), probe('p-flagged', ['context', 'user', 'user_properties', 'flagged'], ['true', 'false']), probe('g-name', ['context', 'groups', 'org', 'group_name'], ['acme', 'umbrella', 'x']), probe('g-tier', ['context', 'groups', 'org', 'group_properties', 'tier'], ['x', 'y', 'z']), probe('g-team', ['context', 'groups', 'team', 'group_name'], ['red']), probe('g-gone', ['context', 'user', 'groups', 'team'], ['red', '["red"]'])];
const probed = (m, name) => { const org = m.groups?.org?.[0]; const v = name === 'g-name' ? org : name === 'g-tier' ? org && m.group_properties?.org?.[org]?.tier : name === 'g-team' ? m.groups?.team?.[0] : name === 'g-gone' ? null : name.startsWith('p-') ? m.user_properties?.[name.slice(2)] : m[name]; return v === null || v === undefined ? 'none' : String(v); };
export default {
  property: 'C16', bundles: { browser: BROWSER_ENTRY },
  rule: 'Random histories over one client with a user provider and an integration: user objects are passed in and later mutated by their owner, getUser() results are mutated, provider and integration users change, requests and their retries are in flight meanwhile. After every step the client\'s user, the user sent (every recorded request, retries included), the user evaluated (read back through probe flags) and the user reported (analytics events) are compared with a reference merge, and every caller object with its own snapshot (half of them deep-frozen). Non-trivial = distinct history step with a merge of at least two sources or a foreign mutation.',
  requires: ['mutated-input', 'mutated-output', 'mutated-properties', 'null-falls-back', 'provider-wins-missing', 'integration-over-provider', 'explicit-over-integration', 'property-merge', 'sent', 'sent-retry', 'sent-after-mutation', 'evaluated', 'reported', 'web-flags-user', 'frozen', 'late-integration', 'several-groups', 'group-property'],
  workloads: [{ name: 'histories', quick: 1600, thorough: 50000, async run(t) {
    const r = t.rng; const web = r.bool(0.2); const sent = []; let fail = 0; const delay = r.pick([undefined, 40]); const flagHeaders = [];
    const { page, sut, clock } = sdkPage(t, { server: (k, q) => { const u = q.headers['X-Amp-Exp-User']; if (k === 'flags') { flagHeaders.push(u ? JSON.parse(b64(u)) : undefined); return { status: 200, body: JSON.stringify(PROBES) }; } sent.push({ at: clock.now, u: JSON.parse(b64(u)) }); if (fail > 0) { fail--; return { status: 500, delay }; } return { status: 200, body: '{}', delay }; } });
    const reported = []; const plugin = { type: 'integration', getUser: () => integ, track: () => true }; const hasInteg = r.bool(0.6); let integ = {}; let prov = null; const hasProv = r.bool(0.7);
    if (hasInteg) integ = page.json(anyUser(r)); const provObj = { getUser: () => prov }; if (hasProv) prov = page.json(anyUser(r));
    const rep = { track: (e) => reported.push(clone(e.user)), setUserProperty: (e) => reported.push(clone(e.user)), unsetUserProperty: (e) => reported.push(clone(e.user)) };
    const client = new sut.ExperimentClient(API, { ...page.json({ pollOnStart: false, fetchOnStart: false, fetchTimeoutMillis: 5000, ...(web ? { internalInstanceNameSuffix: 'web' } : {}), initialFlags: JSON.stringify(PROBES) }), loggerProvider: recLogger(), analyticsProvider: rep, ...(hasProv ? { userProvider: provObj } : {}) });
    if (hasInteg) client.addPlugin(plugin); await clock.advance(0);
    let mine; const passed = []; // mine: the model of the client's user
    const merged = () => mergeUser(mine, hasProv ? prov : null, hasInteg ? integ : null); const noNull = (u) => Object.fromEntries(Object.entries(u).filter(([, v]) => v !== null && v !== undefined)); const noLib = (u) => { const c = noNull(u); delete c.library; return c; };
    const sentOf = (m) => { const c = clone(m); delete c.cookie; return c; }; let nKey = 0; const expectedSent = [];
    const judge = (op) => {
      t.equal(client.getUser(), mine === undefined ? undefined : mine, 'get-user', { op }); const m = merged();
      for (const p of PROBES) { const n = p.key.slice(6); const got = client.variant(p.key).value ?? ''; const e = probed(m, n); t.check(got === (e === '' && n !== 'country' ? 'none' : e), 'evaluated-user', () => ({ op, field: n, got, want: e, mine, prov, integ })); }
      t.count('evaluated'); if (m.groups?.org?.length > 1) t.count('several-groups'); if (probed(m, 'g-tier') !== 'none') t.count('group-property'); reported.length = 0; client.variant('missing-' + nKey++); if (t.check(reported.length === 1, 'reported-count', () => reported.length)) t.equal(noLib(reported[0]), clone(m), 'reported-user', () => ({ op, mine, prov, integ })); t.count('reported');
      for (const p of passed) t.check(canon(p.o, true) === p.snap, 'caller-object-changed', () => ({ op, now: canon(p.o), was: p.snap }));
      if (mine) for (const f of FIELDS) { if (mine[f] === null && (prov?.[f] || (hasInteg && integ?.[f]))) t.count('null-falls-back'); if (mine[f] && hasInteg && integ[f] && mine[f] !== integ[f]) t.count('explicit-over-integration'); }
      if (hasInteg && hasProv) for (const f of FIELDS) if (integ[f] && prov[f] && integ[f] !== prov[f] && !mine?.[f]) t.count('integration-over-provider'); if (hasProv) for (const f of FIELDS) if (prov[f] && !mine?.[f] && !integ?.[f]) t.count('provider-wins-missing'); if (mine?.user_properties && hasProv && prov.user_properties && canon(m.user_properties) !== canon(mine.user_properties)) t.count('property-merge');
      t.evaluated((hasProv || hasInteg) || op.startsWith('mutate') ? canon([op, mine, hasProv && prov, hasInteg && integ]) : null);
    };
    const give = () => { const u = page.json(anyUser(r)); const p = { o: u, snap: canon(u, true) }; if (r.bool(0.5)) { freezeDeep(u); p.frozen = true; t.count('frozen'); } passed.push(p); return u; };
    const mutate = (o) => { const how = r.pick(['field', 'prop', 'prop', 'delprop', 'replace', 'delete']); if (how === 'field') o[r.pick(FIELDS)] = 'mutated'; else if (how === 'prop') (o.user_properties ||= page.json({})).plan = 'mutated'; else if (how === 'delprop') { if (o.user_properties) for (const k of Object.keys(o.user_properties)) delete o.user_properties[k]; } else if (how === 'replace') o.user_properties = page.json({ plan: 'mutated' }); else for (const k of Object.keys(o)) delete o[k]; if (how.includes('prop')) t.count('mutated-properties'); return how; };
    judge('constructed');
    for (let i = r.int(3, 9); i > 0; i--) {
      const op = r.weighted([[3, 'set'], [3, 'fetch'], [3, 'mutate-input'], [2, 'mutate-output'], [1, 'provider'], [1, 'integration'], [1, 'start'], [0.5, 'unset'], [2, 'pass']]); t.log(op);
      if (op === 'set') { const u = give(); client.setUser(u); mine = clone(u); }
      else if (op === 'unset') { client.setUser(r.pick([null, undefined])); mine = null; }
      else if (op === 'fetch') {
        const u = r.bool(0.75) ? give() : undefined; if (u) mine = clone(u); else mine ||= {}; fail = r.pick([0, 0, 1, 2]); const n0 = sent.length; const s = settled(u ? client.fetch(u) : client.fetch()); const m0 = clone(mine); const frozenInput = u && passed[passed.length - 1].frozen; let hot = false;
        // the owner of the object changes it while the request is on its way
        if (u && !frozenInput && r.bool(0.6)) { mutate(u); passed[passed.length - 1].snap = canon(u, true); hot = true; t.count('sent-after-mutation'); }
        await clock.advance(r.pick([0, 100])); judge('fetching'); await clock.advance(2000); const reqs = sent.slice(n0); const m = mergeUser(m0, hasProv ? prov : null, hasInteg ? integ : null);
        if (t.check(reqs.length >= 1 && s.done, 'not-sent')) reqs.forEach((q, k) => { t.count(k ? 'sent-retry' : 'sent'); t.equal(noLib(q.u), sentOf(m), hot ? 'sent-user-after-mutation' : 'sent-user', () => ({ k, m0, prov, integ })); t.check(/^experiment-js-client\//.test(q.u.library || ''), 'sent-library', q.u.library); });
      } else if (op === 'mutate-input') { const c = passed.filter((p) => !p.frozen); if (!c.length) continue; const p = r.pick(c); mutate(p.o); p.snap = canon(p.o, true); t.count('mutated-input'); }
      else if (op === 'mutate-output') { const g = client.getUser(); if (!g) continue; mutate(g); t.count('mutated-output'); }
      else if (op === 'provider') { if (hasProv) prov = page.json(anyUser(r)); } else if (op === 'integration') { if (hasInteg) integ = page.json(anyUser(r)); }
      else if (op === 'start') { client.stop(); const u = give(); const n = flagHeaders.length; await client.start(u); mine = clone(u); if (web && flagHeaders.length > n) { const m = merged(); t.count('web-flags-user'); t.equal(flagHeaders[n] && noNull(flagHeaders[n]), m.user_id || m.device_id ? { user_id: m.user_id, device_id: m.device_id } : undefined, 'flags-user', () => ({ mine, prov, integ })); } }
      else await clock.advance(r.pick([10, 1000, 15000]));
      judge(op);
    }
    t.sample({ mine, prov, integ: hasInteg && integ, sent: sent.length }); page.close();
  } },
  { name: 'late-integration', quick: 300, thorough: 6000, async run(t) { // an integration that only knows its user once its setup has finished
    const r = t.rng; const sent = []; const { page, sut, clock } = sdkPage(t, { server: (k, q) => { if (k === 'vardata') sent.push({ at: clock.now, u: JSON.parse(b64(q.headers['X-Amp-Exp-User'])) }); return { status: 200, body: k === 'flags' ? '[]' : '{}' }; } });
    const client = new sut.ExperimentClient(API, { ...page.json({ pollOnStart: false }), loggerProvider: recLogger() }); const late = anyUser(r); late.user_id ||= 'u1'; let cur = {}; const wait = r.pick([1, 500, 3000]); const how = r.pick(['resolve', 'reject']); const t0 = clock.now;
    client.addPlugin({ type: 'integration', setup: () => new page.g.Promise((ok, no) => { page.g.setTimeout(() => { cur = page.json(late); how === 'resolve' ? ok() : no(new page.g.Error('setup failed')); }, wait); }), getUser: () => cur, track: () => true });
    const u = anyUser(r); const s = settled(r.bool() ? client.fetch(page.json(u)) : client.start(page.json(u))); await clock.advance(wait - 1); t.check(!s.done, 'settled-before-setup'); t.check(sent.length === 0, 'sent-before-setup', () => sent); await clock.advance(5); t.count('late-integration');
    if (t.check(sent.length === 1 && s.done, 'not-sent-after-setup', () => ({ how, wait, sent }))) { const c = { ...mergeUser(u, null, late) }; delete c.cookie; const g = Object.fromEntries(Object.entries(sent[0].u).filter(([k, v]) => k !== 'library' && v !== null)); t.equal(g, c, 'sent-user-late', () => ({ u, late })); }
    t.evaluated(canon([u, late, wait, how])); page.close();
  } }],
};
