import { Device } from '../lib/env.mjs';
import { canon, clone } from '../lib/util.mjs';
import { TAG, tagPage, startTag, flag, page, url as urlIs } from '../lib/tag.mjs';
const HOST = 'https://www.example.com'; const PATHS = ['/', '/shop', '/cart']; const VS = ['A', 'B', 'off'];
export default {
  property: 'C54', bundles: { tag: TAG },
  rule: 'the whole tag with random graphs of local and remote flags depending on each other (also holdout-/mutex- parents), whose fetched variants differ from those the script or an earlier document would give, answers that come, are slow, fail, time out or never come, an integration that is ready late, and navigations, triggers and events before, while and after the answer is awaited, over several documents of a device. A model evaluates the graph per phase (script, remembered, fetched); live mutations and impressions are compared: independent local flags from the start, flags that depend on a remote one only after the wait is over, and then all of them by what was fetched. Non-trivial = distinct judged (phase, flags, active pages, changes)',
  requires: ['promoted', 'transitive', 'independent', 'before-answer', 'nav-while-waiting', 'trigger-while-waiting', 'event-while-waiting', 'apply-while-waiting', 'promoted-withheld', 'fetched-differs', 'answer-ok', 'answer-fail', 'answer-slow', 'answer-timeout', 'answer-malformed', 'remembered', 'remembered-differs', 'fallback-script', 'fallback-remembered', 'user-late', 'group', 'child-off', 'impression', 'after-nav'],
  workloads: [
    { name: 'graphs', quick: 900, thorough: 40000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const tab = d.tab(); const n = r.int(2, 6); const F = []; const group = r.bool(0.25); const past = [];
      for (let i = 0; i < n; i++) { const remote = i === 0 ? r.bool(0.8) : r.bool(0.25); const key = (group && (remote || r.bool(0.4)) ? r.pick(['holdout-', 'mutex-']) : 'f') + i; const deps = r.subset(F.map((f) => f.key), F.length ? Math.min(0.6, 1.4 / F.length) : 0); F.push({ key, remote, deps, on: deps.map((k) => [k, r.pick(VS)]), give: r.pick(['A', 'B']), rest: r.pick(VS), fresh: r.pick(VS) }); }
      const by = Object.fromEntries(F.map((f) => [f.key, f])); const promoted = new Set(); for (let c = true; c;) { c = false; for (const f of F) if (!f.remote && !promoted.has(f.key) && f.deps.some((k) => by[k].remote || promoted.has(k))) { promoted.add(f.key); c = true; if (!f.deps.some((k) => by[k].remote)) t.count('transitive'); } }
      const payloads = (k) => Object.fromEntries(['A', 'B'].map((v) => [v, [{ action: 'mutate', data: { mutations: [{ selector: '#o', action: 'set', attribute: 'html', value: k + ':' + v }] } }]]));
      const script = F.map((f) => { const x = flag(f.key, { mode: f.remote ? 'remote' : 'local', blocking: f.remote && r.bool(0.5), payloads: payloads(f.key), rest: f.rest, dependencies: f.deps.length ? f.deps : undefined }); x.segments = [...f.on.map(([k, v]) => ({ conditions: [[{ selector: ['result', k, 'key'], op: 'is', values: [v] }]], variant: f.give })), { variant: f.rest }]; return x; });
      const order = r.shuffle ? r.shuffle([...script]) : script; const fetched = script.filter((x) => by[x.key].remote).map((x) => ({ ...clone(x), dependencies: undefined, metadata: { ...x.metadata, evaluationMode: 'local' }, segments: [{ variant: by[x.key].fresh }] }));
      const evalAll = (over) => { const res = {}; for (const f of F) { if (over && f.remote) { res[f.key] = over[f.key]; continue; } res[f.key] = f.on.some(([k, v]) => res[k] === v) ? f.give : f.rest; } return res; };
      const fresh = () => Object.fromEntries(F.filter((f) => f.remote).map((f) => [f.key, f.fresh])); let remembered = null; const remotes = F.filter((f) => f.remote);
      const docs = r.int(1, 3);
      for (let i = 0; i < docs; i++) {
        if (i && r.bool(0.6)) for (const f of remotes) if (r.bool()) { f.fresh = r.pick(VS); const x = fetched.find((q) => q.key === f.key); x.segments = [{ variant: f.fresh }]; }
        const pages = {}; const cond = {}; for (const f of F) { cond[f.key] = r.pick([null, null, '/shop', '/cart']); const c = cond[f.key] ? [[urlIs('contains', cond[f.key])]] : undefined; const kind = r.weighted([[4, 'url'], [1, 'manual'], [1, 'event']]); const pg = page('p' + f.key, { conditions: c, ...(kind === 'manual' ? { type: 'manual', value: { name: 'go' } } : kind === 'event' ? { type: 'analytics_event', value: [[{ selector: ['context', 'data', 'event'], op: 'is', values: ['Buy'] }]] } : {}) }); pages[f.key] = { [pg.id]: pg }; }
        const outcome = r.weighted([[5, 'ok'], [2, 'slow'], [1.5, 'fail'], [0.5, 'error'], [1, 'timeout'], [0.7, 'malformed']]); const delay = outcome === 'slow' ? r.pick([600, 900]) : outcome === 'timeout' ? 1e6 : r.pick([1, 60, 300]); let asked = 0; let answered = null;
        const p = tagPage(d, { url: HOST + r.pick(PATHS), tab, seed: t.index + ':' + i, html: '<!DOCTYPE html><html><head></head><body><p id="o"></p></body></html>', fetch: (q) => { if (!/flags/.test(q.url)) return { status: 200, body: '{}' }; asked++; answered = p.clock.now + delay; if (outcome === 'error') return { error: 'offline' }; if (outcome === 'fail') return { status: r.pick([500, 404]), body: 'no', delay }; if (outcome === 'malformed') return { status: 200, body: '{', delay }; return { status: 200, body: clone(fetched), delay }; } });
        p.g.__domMutator = p.eval('({ live: new Map(), events: [], fail: null })'); p.g.__domMutator.fail = () => false; const track = []; const late = r.bool(0.3) ? r.pick([100, 400]) : 0; const plug = Object.assign(p.g.Object.create(null), { type: 'integration', name: 'rec', setup: () => new p.g.Promise((res) => { if (late) p.g.setTimeout(res, late); else res(); }), track: (e) => { track.push({ t: p.clock.now, flag: e.eventProperties?.flag_key, variant: e.eventProperties?.variant ?? 'off', type: e.eventType }); return true; }, getUser: () => p.json({ user_id: 'u', device_id: 'd' }) }); p.g.experimentIntegration = plug;
        const { client } = await startTag(t, p, { flags: order, pages, wait: 0 }); const ops = []; const start = p.clock.now;
        const waits = remotes.length > 0 || promoted.size > 0; const old = evalAll(remembered); const atFirst = evalAll(remembered ?? undefined); const done = () => client.isRunning;
        const det = (x) => ({ doc: i, F: F.map((f) => [f.key, f.remote ? 'remote' : 'local', f.on, f.give, f.rest, f.fresh]), outcome, delay, past, remembered, at: p.url.href, t: p.clock.now - start, asked, ops, ...x });
        const ok = outcome === 'ok' || outcome === 'slow'; const final = evalAll(ok && waits ? fresh() : remembered ?? undefined);
        let seen = 0; let counted = false;
        const judge = (why) => {
          const act = client.getActivePages(); const live = [...p.g.__domMutator.live.values()].map((s) => s.value); const on = (k) => live.filter((x) => x.startsWith(k + ':')).map((x) => x.split(':')[1]); const over = done();
          if (F.some((f) => /^(holdout|mutex)-/.test(f.key)) && late && p.clock.now - start < late) { t.count('group'); t.check(live.length === 0 && track.length === seen, 'applied-before-user', det({ why, live })); }
          const began = asked > 0 || over; if (began && !over) t.count('before-answer');
          for (const f of F) {
            const active = Object.keys(act[f.key] ?? {}).length > 0; const cur = on(f.key); const kind = promoted.has(f.key) ? 'promoted' : f.remote ? 'remote' : 'independent'; t.count(kind);
            if (!over && kind === 'promoted') { t.check(!cur.length, 'promoted-too-early', det({ why, f: f.key, cur })); if (active && began) t.count('promoted-withheld'); continue; }
            if (kind === 'remote' && !(over && ok)) { const was = remembered?.[f.key]; if (!was) { if (!over) t.check(!cur.length, 'remote-before-answer', det({ why, f: f.key, cur })); else t.check(canon(cur) === canon(active && final[f.key] !== 'off' ? [final[f.key]] : []), 'remote-without-answer', det({ why, f: f.key, cur, want: final[f.key], active })); continue; } if (began) t.check(canon(cur) === canon(active && was !== 'off' ? [was] : []), 'remembered-not-shown', det({ why, f: f.key, cur, was, active })); continue; }
            if (!began) { t.check(cur.every((v) => v === old[f.key]), 'wrong-before-start', det({ why, f: f.key, cur })); continue; }
            const v = over ? final[f.key] : old[f.key]; if (over && v === 'off') t.count('child-off'); if (over && ok && kind !== 'independent' && v !== old[f.key]) t.count('fetched-differs');
            t.check(canon(cur) === canon(active && v !== 'off' ? [v] : []), over ? 'wrong-' + kind : 'independent-not-shown', det({ why, f: f.key, cur, v, active }));
          }
          for (; seen < track.length; seen++) { const e = track[seen]; if (e.type !== '$impression' || !by[e.flag]) continue; t.count('impression'); const f = by[e.flag]; const may = new Set(); if (promoted.has(e.flag)) { if (over) may.add(final[e.flag]); } else if (f.remote) { if (remembered?.[e.flag]) may.add(remembered[e.flag]); if (over) may.add(final[e.flag]); } else may.add(final[e.flag]); t.check(may.has(e.variant), 'impression-wrong', det({ why, e, may: [...may] })); }
          if (over && !counted) { counted = true; t.count('answer-' + (ok ? (outcome === 'slow' ? 'slow' : 'ok') : outcome === 'error' ? 'fail' : outcome)); if (!ok && waits) t.count(remembered ? 'fallback-remembered' : 'fallback-script'); if (remembered) { t.count('remembered'); if (ok && remotes.some((f) => remembered[f.key] !== f.fresh)) t.count('remembered-differs'); } if (late) t.count('user-late'); }
          t.evaluated(canon([over, F, Object.keys(act), live]));
        };
        const doOp = (phase) => { const k = r.weighted([[3, 'nav'], [1.5, 'toggle'], [1.5, 'event'], [1, 'wait'], [1, 'apply']]); let arg; if (k === 'nav') { arg = r.pick(PATHS) + r.pick(['', '?x=' + ops.length]); if (new URL(arg, HOST).href !== p.url.href) { p.g.history.pushState({}, '', arg); t.count(phase ? 'after-nav' : 'nav-while-waiting'); } } else if (k === 'toggle') { arg = r.bool(0.7); client.toggleManualPageObject('go', arg); if (!phase) t.count('trigger-while-waiting'); } else if (k === 'event') { client.trackEvent(r.pick(['Buy', 'x']), p.json({})); if (!phase) t.count('event-while-waiting'); } else if (k === 'apply') { if (r.bool()) client.revertVariants(); client.applyVariants(); if (!phase) t.count('apply-while-waiting'); } ops.push([k, arg, p.clock.now - start]); return k; };
        // until the answer: short steps
        for (let s = 0; s < 400 && !done(); s++) { await p.settle(r.pick([5, 20, 50])); if (done()) break; judge('waiting'); if (r.bool(0.25) && ops.length < 12) { const k = doOp(0); await p.settle(10); if (!done()) judge('waiting-' + k); } }
        if (!t.check(done(), 'never-started', det({ console: p.consoleLog.slice(0, 3) }))) { p.close(); return; }
        await p.settle(30); judge('started'); t.check(asked <= (waits ? 2 : 0) && (asked > 0) === waits, 'requests', det({ waits })); for (let s = r.int(0, 4); s-- > 0;) { const k = doOp(1); await p.settle(80); judge(k); }
        past.push(outcome); if (ok && waits && remotes.length) remembered = fresh(); p.close();
      }
    } },
  ],
};
