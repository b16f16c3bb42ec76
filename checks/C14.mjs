import { BROWSER_ENTRY, API, sdkPage, settled, recLogger, b64, kind } from '../lib/client.mjs';
import { canon } from '../lib/util.mjs';
const DELAYS = [500, 750, 1125, 1687.5, 2531.25, 3796.875, 5695.3125, 8542.96875];
const bad = (r) => r.pick([{ error: 'down' }, { status: 500 }, { status: 503 }, { status: 429 }, { status: 502 }, { status: 200, body: 'garbage' }, { status: 302 }, { status: 204 }]);
const fatal = (r) => ({ status: r.pick([400, 401, 403, 404, 413, 418]) });
export default {
  property: 'C14', bundles: { browser: BROWSER_ENTRY }, onUnhandled: (t, e) => { t.violation('unhandled-rejection', String(e?.stack || e).slice(0, 400)); },
  rule: 'Workload "single": one fetch meets a random sequence of retryable and fatal failures, latencies and timeouts; the exact request times are compared with the specified backoff. Workload "overlap": several fetches with distinct users overlap with failing, slow and retrying ones on random schedules; once a newer fetch has been issued and settled no older retry may send or apply. Non-trivial = distinct schedule with at least one retry.',
  requires: ['retry-success', 'exhausted', 'fatal-stops', 'disabled', 'timeout', 'superseded-pending', 'superseded-inflight', 'late-failure', 'user-changed-meanwhile', 'no-timeout'],
  workloads: [
    { name: 'single', quick: 1200, thorough: 40000, async run(t) {
      const r = t.rng; const timeout = r.weighted([[4, 2000], [4, 10000], [1, 0]]); const retry = r.bool(0.85); const throwOnError = r.bool(0.3); const nFail = r.pick([0, 1, 1, 2, 3, 5, 8, 9, 12]); const plan = [];
      const stopAt = r.bool(0.2) ? r.int(0, Math.max(0, Math.min(nFail, 8))) : -1;
      for (let i = 0; i < 14; i++) { const lat = r.pick([0, 0, 10, 300]); plan.push(i === stopAt ? { ...fatal(r), delay: lat, kind: 'fatal' } : i < nFail ? (r.bool(0.15) ? { hang: true, kind: 'timeout' } : { ...bad(r), delay: lat, kind: 'bad' }) : { status: 200, body: JSON.stringify({ f: { key: 'on', value: 'v' + i } }), delay: lat, kind: 'ok' }); }
      if (!timeout) { t.count('no-timeout'); plan[0] = plan[0].kind === 'timeout' ? { ...bad(r), delay: 30000, kind: 'bad' } : { ...plan[0], delay: r.pick([0, 10, 20000]) }; }
      const { page, sut, clock } = sdkPage(t, { server: (k, q) => plan[q.n] }); const client = new sut.ExperimentClient(API, { ...page.json({ fetchTimeoutMillis: timeout, retryFetchOnFailure: retry, throwOnError, pollOnStart: false }), loggerProvider: recLogger() });
      const exp = []; let at = clock.now; let outcome = 'none'; // expected request times
      for (let i = 0; i < 9; i++) { exp.push(at); const p = plan[i]; const dur = p.kind === 'timeout' ? (i === 0 ? timeout : 10000) : p.delay; at += dur; if (p.kind === 'timeout') t.count('timeout'); if (p.kind === 'ok') { outcome = i ? 'retry-success' : 'first'; break; } if (p.kind === 'fatal' && i === 0) { outcome = 'fatal-stops'; break; } if (!retry) { outcome = 'disabled'; break; } if (i === 8) { outcome = 'exhausted'; break; } at += DELAYS[i]; }
      const some = r.bool(0.3); const s = settled(client.fetch(page.json({ user_id: 'u1', user_properties: { a: 1 } }), some ? { flagKeys: page.json(['f']) } : undefined)); const other = r.bool(0.4); if (other) { await clock.advance(r.pick([0, 1, 450, 3000])); client.setUser(page.json({ user_id: 'u2' })); } await clock.advance(200000); if (other && page.requests.length > 1) t.count('user-changed-meanwhile');
      for (const q of page.requests) { const u = JSON.parse(b64(q.headers['X-Amp-Exp-User'])); const h = q.headers['X-Amp-Exp-Flag-Keys']; t.check(u.user_id === 'u1' && u.user_properties?.a === 1, 'retry-for-other-user', () => ({ u, n: q.n })); t.equal(h === undefined ? undefined : JSON.parse(b64(h)), some ? ['f'] : undefined, 'retry-for-other-flags', { n: q.n }); } t.count(outcome);
      const got = page.requests.map((q) => q.t); const detail = () => ({ plan: plan.slice(0, got.length + 1).map((p) => [p.kind, p.status, p.delay]), got: got.map((x) => x - exp[0]), exp: exp.map((x) => x - exp[0]), retry });
      // A retry that meets a fatal answer may stop or go on: only the first failure decides whether to retry.
      const fatalRetry = plan.findIndex((p, i) => i > 0 && i < exp.length && p.kind === 'fatal');
      const limit = fatalRetry > 0 ? fatalRetry + 1 : exp.length;
      t.check(fatalRetry > 0 ? got.length >= limit && got.length <= exp.length : got.length === exp.length, retry ? 'retry-count' : 'retried-though-disabled', detail); for (let i = 0; i < Math.min(got.length, exp.length); i++) if (Math.abs(got[i] - exp[i]) > 2) { t.violation('retry-time', detail()); break; }
      t.check(s.done && !!s.error === (throwOnError && plan[0].kind !== 'ok'), 'promise', detail); const last = plan[got.length - 1]; t.equal(client.all().f?.value, last && last.kind === 'ok' ? 'v' + (got.length - 1) : undefined, 'result', detail());
      t.evaluated(got.length > 1 ? canon(detail()) : null); t.sample(detail()); page.close();
    } },
    { name: 'overlap', quick: 1500, thorough: 60000, async run(t) {
      const r = t.rng; const users = []; const log = []; let uid = 0; const plans = new Map();
      const { page, sut, clock } = sdkPage(t, { server: (k, q) => { const u = JSON.parse(b64(q.headers['X-Amp-Exp-User'])).user_id; const st = plans.get(u); const n = st.n++; const lat = r.pick(st.lats); const ok = n >= st.fails; log.push({ t: clock.now, u, n, lat, ok }); return ok ? { status: 200, body: JSON.stringify({ f: { key: 'on', value: u } }), delay: lat } : { ...bad(r), delay: lat }; } });
      const client = new sut.ExperimentClient(API, { ...page.json({ fetchTimeoutMillis: 5000, pollOnStart: false }), loggerProvider: recLogger() }); const calls = [];
      const n = r.int(2, 4); for (let i = 0; i < n; i++) { const u = 'user' + ++uid; plans.set(u, { n: 0, fails: r.pick([0, 0, 1, 2, 3, 20]), lats: r.pick([[0], [0, 400], [900], [200, 2000], [3500]]) }); const c = { u, at: clock.now, first: log.length, s: null }; c.s = settled(client.fetch(page.json({ user_id: u }))); c.s2 = c.s; calls.push(c); Promise.resolve().then(() => {}); const settleWatch = (async () => { while (!c.s.done) await new Promise((q) => setImmediate(q)); c.settledAt = clock.now; })(); c.w = settleWatch; await clock.advance(r.pick([0, 10, 499, 501, 700, 1000, 1500, 4000, 9000])); }
      await clock.advance(120000); for (const c of calls) await c.w;
      const detail = () => ({ calls: calls.map((c) => [c.u, c.at - calls[0].at, (c.settledAt ?? 0) - calls[0].at, { ...plans.get(c.u) }]), log: log.map((l) => [l.u, l.t - calls[0].at, l.n, l.ok ? 'ok' : 'fail', l.lat]) });
      for (let i = 0; i < calls.length; i++) for (let j = i + 1; j < calls.length; j++) {
        const old = calls[i], neu = calls[j]; const retries = log.filter((l) => l.u === old.u && l.n > 0);
        const after = retries.filter((l) => l.t > neu.at); t.check(after.length === 0, 'retry-after-newer-fetch', detail);
        if (retries.some((l) => l.t <= neu.at && l.t + l.lat > neu.at)) t.count('superseded-inflight'); const f0 = log.find((l) => l.u === old.u && l.n === 0); if (f0 && !f0.ok && f0.t + f0.lat <= neu.at) t.count('superseded-pending'); if (f0 && !f0.ok && f0.t + f0.lat > neu.at) t.count('late-failure');
        // an older retry in flight must not overwrite the newer result
        const neuOk = log.find((l) => l.u === neu.u && l.ok); if (neuOk) for (const l of retries) if (l.ok && l.t + l.lat > neuOk.t + neuOk.lat && j === calls.length - 1) t.check(client.all().f?.value !== old.u, 'older-retry-overwrote', detail);
      }
      // the newest fetch still gets its retries and its result
      const last = calls[calls.length - 1]; const p = plans.get(last.u); const lg = log.filter((l) => l.u === last.u); t.check(lg.length === Math.min(9, p.fails + 1), 'newest-retries', detail);
      if (p.fails <= 8) { const olderFirst = calls.slice(0, -1).some((c) => { const f = log.find((l) => l.u === c.u && l.n === 0); const ok = lg.find((l) => l.ok); return f && f.ok && ok && f.t + f.lat >= ok.t + ok.lat; }); if (!olderFirst) t.check(client.all().f?.value === last.u, 'newest-result', detail); }
      t.evaluated(log.length > calls.length ? canon(detail()) : null); t.sample(detail()); page.close();
    } },
  ],
};
