import { BROWSER_ENTRY, API, sdkPage, settled, recLogger } from '../lib/client.mjs';
import { canon } from '../lib/util.mjs';
const NAMES = ['f1', 'f2', 'f3', 'f4'];
const flag = (key, value) => ({ key, variants: { on: { key: 'on', value } }, segments: [{ variant: 'on' }], metadata: { evaluationMode: 'local' } });
export default {
  property: 'C15', bundles: { browser: BROWSER_ENTRY }, onUnhandled: (t, e) => { t.violation('unhandled-rejection', String(e?.stack || e).slice(0, 400)); },
  rule: 'Random schedules of start, repeated start, stop (at rest, while start() waits, and while a refresh is in flight) and time, against a network that answers flags and variants requests late, never or with failures, over all polling options. A monitor over the recorded requests checks: one load per start, the promise settling exactly when the requests do, refreshes on the clamped interval, silence after stop(), and the flag set after every answer. Non-trivial = distinct schedule with at least one stop or refresh.',
  requires: ['load', 'refresh', 'refresh-failed', 'stop-while-starting', 'stop-while-polling', 'restart', 'repeated-start', 'clamped', 'default-interval', 'poll-off', 'fetch-off', 'load-failed', 'timeout', 'initial-flag-kept', 'start-rejects', 'waits-for-fetch', 'waits-for-flags', 'web'],
  workloads: [{ name: 'schedules', quick: 2500, thorough: 60000, async run(t) {
    const r = t.rng; const web = r.bool(0.15); if (web) t.count('web');
    const conf = { flagConfigPollingIntervalMillis: r.pick([undefined, 1, 59999, 60000, 90000, 300000, 0, -5]), pollOnStart: r.pick([undefined, true, true, true, false]), fetchOnStart: r.pick([undefined, true, false]), throwOnError: r.bool(0.2), fetchTimeoutMillis: r.pick([2000, 10000]), retryFetchOnFailure: false, automaticExposureTracking: false, ...(web ? { internalInstanceNameSuffix: 'web' } : {}) };
    const ms = conf.flagConfigPollingIntervalMillis === undefined ? 300000 : Math.max(60000, conf.flagConfigPollingIntervalMillis); const polls = conf.pollOnStart !== false; const fetches = conf.fetchOnStart !== false;
    if (conf.flagConfigPollingIntervalMillis < 60000) t.count('clamped'); if (conf.flagConfigPollingIntervalMillis === undefined) t.count('default-interval'); if (!polls) t.count('poll-off'); if (!fetches) t.count('fetch-off');
    const initial = r.bool(0.5) ? r.subset(NAMES, 0.5).map((k) => flag(k, 'initial')) : []; if (initial.length) conf.initialFlags = JSON.stringify(initial);
    let rev = 0; const log = []; const varLog = [];
    const plan = (k) => {
      const delay = r.pick([0, 0, 5, 700, 1900]); const bad = r.bool(k === 'flags' ? 0.3 : 0.2);
      if (bad) return r.pick([{ error: 'down', delay, fail: true }, { status: 500, delay, fail: true }, { status: 200, body: 'garbage', delay, fail: true }, { hang: true, delay: conf.fetchTimeoutMillis, fail: true, timeout: true }]);
      if (k !== 'flags') return { status: 200, body: '{}', delay }; const v = 'rev' + ++rev; const fl = r.subset(NAMES, 0.6).map((n) => flag(n, v)); return { status: 200, body: JSON.stringify(fl), delay, fl };
    };
    const { page, sut, clock } = sdkPage(t, { server: (k, q) => { const p = plan(k); (k === 'flags' ? log : varLog).push({ at: clock.now, end: clock.now + p.delay, p, run: runs.length ? runs[runs.length - 1] : null, n: ++seq }); return p; } });
    let seq = 0; const runs = []; let cur = null; const steps = [];
    const client = new sut.ExperimentClient(API, { ...page.json(conf), loggerProvider: recLogger() });
    // acceptable flag states: a list of {key: value}
    const withInitial = (fl) => Object.fromEntries([...initial, ...fl].map((f) => [f.key, f.variants.on.value]));
    let states = [withInitial([])]; let applied = 0;
    const detail = () => ({ conf, ms, steps, log: log.map((l) => [l.at - t0, l.end - t0, l.p.fail ? 'fail' : l.p.fl.map((f) => f.key + '=' + f.variants.on.value).join()]), varLog: varLog.map((l) => [l.at - t0, l.end - t0]), runs: runs.map((x) => [x.at - t0, x.settledAt - t0, x.stop - t0, x.s.error ? 'rejected' : x.s.done]) });
    const t0 = clock.now;
    const judge = () => {
      // answers that have arrived since the last look, in order of arrival
      const due = log.filter((l) => !l.seen && l.end <= clock.now).sort((a, b) => a.end - b.end || a.n - b.n);
      for (const l of due) {
        l.seen = true; if (l.p.fail) { t.count(l.p.timeout ? 'timeout' : 'refresh-failed'); continue; }
        const next = withInitial(l.p.fl); if (Object.values(next).includes('initial') && l.p.fl.length) t.count('initial-flag-kept');
        // whether an answer that arrives after stop(), or after a newer one, still counts is not specified
        const loose = !l.run || l.run.stop !== undefined || log.some((o) => o !== l && o.n > l.n && o.at < l.end); states = loose ? [...states, next] : [next]; if (due.filter((o) => !o.p.fail).length > 1 && loose) states.push(next);
      }
      const got = Object.fromEntries(Object.entries(client.all()).map(([k, v]) => [k, v.value])); if (!states.some((s) => canon(s) === canon(got))) t.violation('flags-state', { got, states, ...detail() });
      t.check(canon(Object.keys(client.getEvaluationTraces()).sort()) === canon(Object.keys(got).sort()), 'flag-set', detail);
      // silence after stop
      for (const x of runs) if (x.stop !== undefined) { const nextRun = runs[runs.indexOf(x) + 1]; const late = log.filter((l) => l.n > x.stopSeq && (!nextRun || l.n <= nextRun.startSeq)); const allowed = x.stopSync ? 1 : 0; t.check(late.length <= allowed, 'request-after-stop', detail); }
      // settling of start(): exactly when the load and the fetch have settled
      for (const x of runs) {
        if (x.judged) continue; const load = log.find((l) => l.n > x.startSeq); const f = fetches ? varLog.find((l) => l.n > x.startSeq) : null; if (!load) continue; if (fetches && !f) { t.check(x.stopSync || clock.now < load.end, 'no-fetch-on-start', detail); continue; } if (!fetches) t.check(!varLog.some((l) => l.n > x.startSeq), 'fetch-though-off', detail);
        x.due = Math.max(load.end, f ? f.end : 0);
        if (clock.now < x.due) t.check(!x.s.done, 'start-settles-early', detail); else { t.check(x.s.done, 'start-not-settled', detail); x.judged = true; x.failed = load.p.fail || (f && f.p.fail); t.count('load'); if (f && f.end > load.end) t.count('waits-for-fetch'); if (f && f.end < load.end) t.count('waits-for-flags'); if (load.p.fail) t.count('load-failed'); t.check(!!x.s.error === !!(conf.throwOnError && x.failed), 'start-outcome', detail); if (x.s.error) t.count('start-rejects'); }
      }
    };
    const pass = async (d) => { // in slices, so that the state is seen between answers
      const end = clock.now + d; while (clock.now < end) { if (log.length > 2000) { t.violation('request-flood', { conf, ms, steps, first: log.slice(0, 20).map((l) => l.at - t0) }); throw new Error('flood'); } const next = Math.min(end, ...[...log, ...varLog].filter((l) => l.end > clock.now).map((l) => l.end), ...clock.pending((k) => k.owner === page).map((k) => k.at).filter((a) => a > clock.now)); await clock.advance(next - clock.now); judge(); }
    };
    for (let i = r.int(3, 8); i > 0; i--) {
      const op = r.weighted([[3, 'start'], [2.2, 'stop'], [4, 'pass'], [1, 'startstop']]);
      if (op === 'start' || op === 'startstop') {
        if (cur) { t.count('repeated-start'); steps.push([clock.now - t0, 'again']); const n = log.length; const s = settled(client.start(page.json({ user_id: 'u' }))); await clock.advance(0); t.check(log.length === n, 'repeated-start-loads', detail); t.check(s.done, 'repeated-start-waits', detail); }
        else { if (runs.length) t.count('restart'); steps.push([clock.now - t0, 'start']); cur = { at: clock.now, startSeq: seq }; runs.push(cur); cur.s = settled(client.start(page.json({ user_id: 'u' }))); if (op === 'start') { await clock.advance(0); t.check(log.filter((l) => l.n > cur.startSeq).length === 1 || (log.filter((l) => l.n > cur.startSeq).length === 2 && cur.s.done), 'loads-once', detail); } }
        if (op === 'start' || !cur) { judge(); continue; }
      }
      if (op === 'stop' || op === 'startstop') {
        if (cur && !cur.s.done) t.count('stop-while-starting'); else if (cur) t.count('stop-while-polling'); steps.push([clock.now - t0, 'stop']); client.stop(); if (cur) { cur.stop = clock.now; cur.stopSeq = seq; cur.stopSync = op === 'startstop'; } cur = null; await clock.advance(0); judge();
      } else if (op === 'pass') { const d = r.pick([1, 10, 800, 3000, 12000, 59000, 61000, ms + 1, ms * 3 + 10]); steps.push([clock.now - t0, 'pass', d]); await pass(d); }
    }
    if (r.bool(0.7)) await pass(ms * 2 + 12000);
    // refresh schedule of every run that was not stopped while starting
    for (const x of runs) {
      if (!x.judged) continue; const T = x.due; const end = x.stop ?? clock.now; if (T > end || (x.stop !== undefined && T >= x.stop)) continue; const next = runs[runs.indexOf(x) + 1];
      const reqs = log.filter((l) => l.n > x.startSeq && l.at <= end && (x.stop === undefined || l.n <= x.stopSeq) && (!next || l.n <= next.startSeq)).slice(1);
      if (x.s.error) continue; if (!polls) { t.check(reqs.length === 0, 'polls-though-disabled', detail); continue; }
      // a start that was stopped while waiting may begin the schedule of the run that follows it
      const bases = [T, ...runs.filter((y) => y !== x && y.due > x.at && y.due < T && y.stop !== undefined).map((y) => y.due)];
      const fits = bases.some((B) => { const later = reqs.filter((l) => l.at > B).map((l) => l.at - B); const exp = []; for (let k = 1; B + k * ms <= end; k++) exp.push(k * ms); if (x.stop !== undefined && exp.length && exp[exp.length - 1] === x.stop - B && later.length === exp.length - 1) exp.pop(); return reqs.length - later.length <= 1 && canon(later) === canon(exp); });
      t.count('refresh', reqs.length); t.check(fits, 'refresh-schedule', detail);
    }
    t.evaluated(runs.some((x) => x.stop !== undefined) || log.length > runs.length ? canon(detail()) : null); t.sample({ conf, steps, requests: log.length }); client.stop(); page.close();
  } }],
};
