import { Device } from '../lib/env.mjs';
import { canon, clone, turn } from '../lib/util.mjs';
import { TAG, tagPage, startTag, recorder, flag, page, url } from '../lib/tag.mjs';
import * as M from '../models/evaluation.mjs';
import { pagesRun, urlOk, TYPES } from './C40.mjs';
const plain = (x) => JSON.parse(JSON.stringify(x));
/** Same run, whose own judgements belong to C40 and are not repeated here. */
const mute = (t) => Object.assign(Object.create(t), { check: (c) => !!c, violation: () => {}, equal: () => true, evaluated: () => {}, count: (k, n) => { if (!/^(in)?active:/.test(k)) t.count('run:' + k, n); } });
const variantInfo = (v) => (v && v.key ? { key: v.key, ...(v.value !== undefined ? { value: v.value } : {}), ...(v.metadata ? { metadata: v.metadata } : {}) } : null);
export default {
  property: 'C51', bundles: { tag: TAG },
  rule: 'pages: the page-trigger driver of C40 runs with debugging on (by window.__AMP_DEBUG, by the local storage switch) or off while subscribers (some throwing, some leaving) listen; after every operation each snapshot is compared with the flags, the active pages, the address and the configured page objects, and the recorded events and subscriber calls with the changes that really happened. flags: random local flags with holdout, mutex and prerequisite parents are evaluated by an independent model; the snapshot has to give each its variant, dependencies, blame and reason, and reading it must change nothing. consent: the consent part follows a gated start. Non-trivial = distinct snapshot',
  requires: ['debug-on', 'elapsed', 'debug-off', 'debug-storage', 'told', 'quiet', 'threw', 'left', 'fired-event', 'status:pass', 'status:fail', ...TYPES.map((x) => 'type:' + x), 'passed-other-url', 'reason:held', 'reason:mutex', 'reason:prerequisite', 'reason:audience', 'reason:none', 'on', 'blocking', 'dep-not-blocking', 'unresolved-dep', 'remote-flag', 'read-only', 'consent-held', 'consent-granted', 'consent-off'],
  workloads: [
    { name: 'pages', quick: 420, thorough: 15000, async run(t) {
      const mode = t.rng.pick(['window', 'window', 'storage', 'off', 'odd']); const on = mode === 'window' || mode === 'storage'; t.count(on ? 'debug-on' : 'debug-off'); if (mode === 'storage') t.count('debug-storage');
      await pagesRun(mute(t), { calm: 320,
        setup(p, r) { if (mode === 'window') p.g.__AMP_DEBUG = true; else if (mode === 'storage') p.g.localStorage.setItem('amp-ve-debug', 'true'); else if (mode === 'odd') { p.g.__AMP_DEBUG = 'true'; p.g.localStorage.setItem('amp-ve-debug', '1'); } },
        async started({ client, p, r, all, pages, flags, now, time, since }) {
          const born = since();
          await time(400); const calls = []; const threw = { n: 0 }; const thrower = r.bool(0.4); if (thrower) client.addDebugStateSubscriber(() => { threw.n++; throw new p.g.Error('debug subscriber failed'); });
          const left = []; const off = client.addDebugStateSubscriber((s) => left.push(s)); let gone = false; let leftAt = 0; client.addDebugStateSubscriber((s) => calls.push({ t: now(), s: plain(s) }));
          let prevUrl = p.url.href; let prev = null; let changes = 0; let navs = 0; let at = -Infinity; client.addPageChangeSubscriber(() => { changes++; at = now(); }); let evAt = null; let last = -Infinity;
          return (why, got, ops) => {
            const s = plain(client.getDebugState()); const u = p.url.href; const W = (x) => ({ why, u, ...x, ops: ops.slice(-8) });
            t.equal(Object.keys(s.flags).sort(), flags.map((f) => f.key).sort(), 'flags-listed', W({}));
            t.check(s.currentUrl === u, 'current-url', W({ got: s.currentUrl })); t.check(s.timestamp === now(), 'timestamp', W({ got: s.timestamp }));
            t.equal(s.visualEditor.isActive, false, 'editor-active', W({}));
            const vs = client.getVariants();
            for (const f of flags) {
              const x = s.flags[f.key]; if (!x) continue; t.check(x.flagKey === f.key, 'flag-key', W({ x })); t.equal(x.variant, variantInfo(vs[f.key] && plain(vs[f.key])), 'variant', W({ f: f.key }));
              const act = got.filter((i) => i.startsWith(f.key + '/')); t.check(x.isActive === act.length > 0, 'is-active', W({ f: f.key, x: x.isActive, act })); t.equal(x.flagMetadata, plain(f.metadata), 'flag-metadata', W({}));
              t.equal(x.pageObjects.map((o) => o.id).sort(), Object.keys(pages[f.key]).sort(), 'pages-listed', W({ f: f.key }));
              for (const o of x.pageObjects) {
                const pg = pages[f.key][o.id]; if (!pg) continue; const ty = pg.trigger_type; const v = pg.trigger_value; t.count('type:' + ty); t.check(o.name === pg.name, 'page-name', W({ o })); const ok = urlOk(pg, u); const is = act.includes(f.key + '/' + o.id);
                t.check(o.urlConditionsPassed === ok, 'url-conditions', W({ o, ok })); t.check(o.trigger.type === ty, 'trigger-type', W({ o, ty })); t.check(o.trigger.passed === o.triggerPassed, 'trigger-passed', W({ o }));
                t.check(o.overallStatus === (o.urlConditionsPassed && o.triggerPassed ? 'pass' : 'fail'), 'overall', W({ o })); t.count('status:' + o.overallStatus); if (o.triggerPassed && !ok) t.count('passed-other-url');
                t.check((o.overallStatus === 'pass') === is, 'status-not-of-page:' + ty, W({ o, is, pg }));
                const c = o.trigger.config; const want = { url_change: undefined, element_appeared: { selector: v.selector }, element_visible: { selector: v.selector, visibilityRatio: v.visibilityRatio ?? 0 }, manual: { name: v.name }, analytics_event: { conditions: v }, user_interaction: { selector: v.selector, interactionType: v.interactionType, minThresholdMs: v.minThresholdMs || 0 }, exit_intent: v.minTimeOnPageMs === undefined ? {} : { minTimeOnPageMs: v.minTimeOnPageMs }, time_on_page: { durationMs: v.durationMs }, scrolled_to: v.mode === 'percent' ? { mode: 'percent', percentage: v.percentage } : { mode: 'element', selector: v.selector, ...(v.offsetPx === undefined ? {} : { offsetPx: v.offsetPx }) } }[ty];
                if (ty === 'time_on_page') { const e = o.trigger.elapsedMs; const gone_ = now() - since(); t.count('elapsed'); t.check(since() === born ? e >= 0 && e <= gone_ : e === gone_, 'elapsed-time', W({ e, gone_ })); }
                if (ty === 'scrolled_to' && v.mode === 'percent') { const q = o.trigger.currentPercentage; t.check(Number.isInteger(q) && q >= 0 && q <= 100 && (o.triggerPassed ? q >= v.percentage - 0.5 : q <= v.percentage + 0.5), 'scrolled-percentage', W({ q, v })); }
                t.equal(c, want === undefined ? undefined : plain(want), 'trigger-config', W({ ty }));
              }
            }
            // events
            const ev = s.events; if (!on) t.check(ev.length === 0, 'events-while-off', W({ ev: ev.slice(0, 3) }));
            else { t.check(ev.every((e, i) => !i || e.timestamp >= ev[i - 1].timestamp), 'events-order', W({}));
              if (evAt !== null) { const add = ev.slice(evAt); const navd = u !== prevUrl; t.check(add.filter((e) => e.event === 'url_change').length >= (navd ? 1 : 0) && (navd || !add.some((e) => e.event === 'url_change')), 'url-event', W({ add, navd }));
                const fired = add.filter((e) => e.event === 'trigger_fired'); for (const i of got) if (!prev.includes(i)) { const [f, id] = i.split('/'); const pg = pages[f][id]; t.count('fired-event'); t.check(fired.some((e) => e.detail.includes(`flag=${f},`) && e.detail.includes(pg.name) && e.detail.includes(pg.trigger_type)), 'activation-not-recorded', W({ i, add })); }
                if (!navd) for (const e of fired) t.check(got.some((i) => e.detail.includes(`flag=${i.split('/')[0]},`)), 'fired-nothing-active', W({ e, got })); }
              evAt = ev.length; }
            // subscribers
            if (u !== prevUrl) navs++; const changed = prev !== null && (changes > 0 || navs > 0); const settled = now() - at >= 130; // a change just now is announced later
            if (why !== 'start' && settled) {
              if (!on || !changed) { t.count('quiet'); t.check(calls.length === 0, on ? 'told-without-change' : 'told-while-off', W({ n: calls.length })); }
              else { t.count('told'); t.check(calls.length > 0, threw.n ? 'not-told-after-throw' : 'not-told', W({ changes })); if (threw.n) t.count('threw'); const z = calls[calls.length - 1]; if (z) { const sum = (q) => [q.currentUrl, Object.values(q.flags).map((x) => [x.flagKey, x.isActive, x.pageObjects.map((o) => [o.id, o.overallStatus])])]; t.equal(sum(z.s), sum(s), 'told-old-state', W({})); }
                for (const c of calls) { t.check(c.t - last >= 100, 'told-too-often', W({ gap: c.t - last })); last = c.t; } }
              if (gone) t.check(left.length === leftAt, 'told-after-leaving', W({})); else if (on && changed) t.check(left.length === calls.length, 'subscribers-differ', W({ a: left.length, b: calls.length, threw: threw.n }));
            }
            if (settled || why === 'start') { left.length = 0; leftAt = 0; if (!gone && r.bool(0.1)) { off?.(); gone = true; t.count('left'); } calls.length = 0; changes = 0; navs = 0; } prev = got; prevUrl = u; t.evaluated(canon([u, Object.values(s.flags).map((x) => [x.isActive, x.pageObjects.map((o) => [o.trigger.type, o.urlConditionsPassed, o.triggerPassed])])]));
          };
        } });
    } },
    { name: 'flags', quick: 700, thorough: 40000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const p = tagPage(d, { url: 'https://www.example.com/', seed: t.index }); const user = { user_id: r.pick(['u1', 'u2']), user_properties: { plan: r.pick(['free', 'pro', '']), n: r.pick([1, 5]) } };
      const track = recorder(p, { user }); const deps = []; const keys = ['holdout-h', 'mutex-m', 'pre', 'holdout', 'mutexy', 'off'];
      const ucond = () => ({ selector: ['context', 'user', 'user_properties', r.pick(['plan', 'n', 'zz'])], op: r.pick(['is', 'is not']), values: [r.pick(['free', 'pro', '1', '(none)'])] });
      const opts = ['on', 'off', 'holdout', 'slot-1']; const mk = (key, conds, o = {}) => ({ key, ...(o.deps ? { dependencies: o.deps } : {}), metadata: { deployed: true, evaluationMode: 'local', flagType: 'experiment', deliveryMethod: 'web', tag: key }, variants: Object.fromEntries([...opts, 'treatment'].map((k) => [k, { key: k, ...(k === 'off' ? { metadata: { default: true } } : { value: k, payload: [] }) }])), segments: conds });
      const flags = []; for (const k of r.subset(keys, 0.6)) { const segs = r.list(0, 2, () => ({ conditions: [[ucond()]], variant: r.pick(opts), metadata: { segmentName: 'S' + r.int(1, 3) } })); if (r.bool(0.8)) segs.push({ variant: r.pick(opts) }); flags.push(mk(k, segs)); deps.push(k); }
      const rcond = () => { const k = r.pick([...deps, ...deps, 'missing']); return { selector: ['result', k, r.pick(['key', 'key', 'value'])], op: r.pick(['is', 'is not', 'is']), values: [r.pick([...opts, 'off'])] }; };
      for (const k of ['m1', 'm2', 'm3'].slice(0, r.int(1, 3))) { const segs = r.list(0, 3, () => ({ conditions: r.list(1, 2, () => r.list(1, 2, () => (r.bool(0.7) ? rcond() : ucond()))), variant: r.pick(['off', 'treatment', 'treatment', 'on']), metadata: { segmentName: 'T' + r.int(1, 3) } })); if (r.bool(0.6)) segs.push({ variant: r.pick(['off', 'treatment']), metadata: { segmentName: 'Rest' } });
        const used = [...new Set(segs.flatMap((s) => (s.conditions ?? []).flat()).filter((c) => c.selector[0] === 'result').map((c) => c.selector[1]))]; for (const x of deps) if (!used.includes(x) && r.bool(0.2)) used.push(x); flags.push(mk(k, segs, { deps: used.length || r.bool() ? used : undefined })); if (r.bool(0.3)) deps.push(k); }
      const remote = r.bool(0.4); if (remote) { const f = flag('rem', { mode: 'remote', blocking: false }); flags.push(f); }
      const pages = Object.fromEntries(flags.map((f) => [f.key, { P: page('P', { conditions: [[url('contains', 'example')]] }) }])); const send = r.int(0, 3); p.fetchHandler;
      const seg = r.bool() ? 'Remote users' : null; const { client } = await startTag(t, p, { flags, pages, config: r.bool(0.3) ? { httpClient: undefined } : {} }); for (let i = 0; i < 60 && !client.isRunning; i++) await p.settle(200);
      if (!t.check(client.isRunning, 'never-started', { console: p.consoleLog.slice(0, 3) })) return;
      if (r.bool(0.3)) { p.g.history.pushState({}, '', '/x'); await p.settle(300); }
      const before = canon([track.length, p.dom.window.document.documentElement.outerHTML, [...Array(p.g.localStorage.length).keys()].map((i) => p.g.localStorage.key(i)).sort().map((k) => [k, p.g.localStorage.getItem(k)]), p.log?.filter((e) => e.type === 'fetch').length]);
      const s = plain(client.getDebugState()); await p.settle(50); const s2 = plain(client.getDebugState());
      const after = canon([track.length, p.dom.window.document.documentElement.outerHTML, [...Array(p.g.localStorage.length).keys()].map((i) => p.g.localStorage.key(i)).sort().map((k) => [k, p.g.localStorage.getItem(k)]), p.log?.filter((e) => e.type === 'fetch').length]);
      t.count('read-only'); t.check(before === after, 'reading-changed-something', { before: before.slice(0, 400), after: after.slice(0, 400) }); t.equal(s2.flags, s.flags, 'reading-twice-differs', {});
      const vs = plain(client.getVariants()); const order = flags.filter((f) => f.key !== 'rem'); const ctx = { user }; const res = M.evaluate(ctx, order).results; const root = { context: ctx, result: {} };
      for (const f of order) {
        // judged: evaluate in order, remembering failed parents until the first segment that decides
        const failed = new Set(); let matched = false; for (const g of f.segments) { const ok = !g.conditions || g.conditions.some((grp) => grp.every((c) => { const y = M.condition(root, c); if (!y && c.selector[0] === 'result') failed.add(c.selector[1]); return y; })); if (ok) { matched = true; break; } if (ok) break; }
        // parents that fail inside the deciding segment do not count
        const blame = new Set(); for (const g of f.segments) { if (!g.conditions || M.conditions(root, g.conditions)) break; for (const grp of g.conditions) for (const c of grp) if (!M.condition(root, c)) { if (c.selector[0] === 'result') blame.add(c.selector[1]); break; } }
        if (res[f.key]) root.result[f.key] = res[f.key]; const x = s.flags[f.key]; if (!x) { t.check(f.segments.every((q) => q.conditions), 'flag-missing', { f: f.key }); t.count('unlisted'); continue; }
        const v = res[f.key]; const isOn = !!v && v.key !== 'off'; const D = { f, x: { ...x, pageObjects: 0 }, user, results: Object.fromEntries(Object.entries(res).map(([k, q]) => [k, q.key])) };
        t.equal(x.variant, variantInfo(vs[f.key]), 'variant', D); t.check((x.variant?.key ?? null) === (v?.key ?? null) || !v, 'variant-not-evaluated', D); t.equal(x.flagMetadata, plain(f.metadata), 'flag-metadata', D);
        t.check(x.audienceEvaluation?.matched === matched, 'audience', { ...D, matched }); t.check(x.audienceEvaluation?.steps.length === f.segments.length, 'steps', D);
        const dp = f.dependencies; if (!dp || !dp.length) t.check(x.dependencies === undefined, 'dependencies-of-none', D);
        else { t.equal((x.dependencies ?? []).map((q) => q.flagKey), dp, 'dependencies', D); for (const q of x.dependencies ?? []) { t.check(q.type === (/^holdout-/.test(q.flagKey) ? 'holdout' : /^mutex-/.test(q.flagKey) ? 'mutex' : 'prerequisite'), 'dependency-type', D); const rv = vs[q.flagKey]?.key ?? null; t.check((q.resolvedVariant ?? null) === rv, 'dependency-variant', { ...D, q, rv }); if (rv === null) t.count('unresolved-dep'); const b = !isOn && blame.has(q.flagKey); t.count(b ? 'blocking' : 'dep-not-blocking'); t.check(q.blocking === b, 'blocking', { ...D, q, b, blame: [...blame] }); } }
        const bd = (dp ?? []).find((k) => !isOn && blame.has(k)); const why = x.inactiveReason; const kind = isOn ? null : bd ? (/^holdout-/.test(bd) ? 'held' : /^mutex-/.test(bd) ? 'mutex' : 'prerequisite') : !matched ? 'audience' : 'none';
        if (kind === null) { t.count('on'); t.check(why === undefined, 'reason-while-on', D); } else { t.count('reason:' + kind); const want = { held: /^Held out/, mutex: /^Mutually excluded/, prerequisite: /^Prerequisite/, audience: /Audience not matched/, none: /No variant assigned/ }[kind]; t.check(typeof why === 'string' && want.test(why) && (!bd || why.includes(`"${bd}"`)), 'reason:' + kind, { ...D, bd }); if (kind === 'prerequisite' && why) t.check(why.endsWith(' = ' + (vs[bd]?.key ?? 'off')), 'prerequisite-variant', D); }
        t.evaluated(canon([f.segments, f.dependencies, D.results, why]));
      }
      if (remote) { t.count('remote-flag'); const x = s.flags.rem; t.check(!!x, 'flag-missing', { f: 'rem' }); if (x) { t.equal(x.variant, variantInfo(vs.rem), 'variant', { f: 'rem' }); const sn = vs.rem?.metadata?.segmentName; t.equal(x.audienceEvaluation, sn ? { matched: true, matchedSegment: sn, steps: [] } : undefined, 'remote-audience', {}); } }
      p.close();
    } },
    { name: 'consent', quick: 250, thorough: 8000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const p = tagPage(d, { url: 'https://www.example.com/', seed: t.index }); if (r.bool()) p.g.__AMP_DEBUG = true; const track = recorder(p);
      const gated = r.bool(0.8); const first = r.pick(['granted', 'pending', 'granted']); const flags = [flag('f1'), flag('f2')]; const pages = { f1: { P: page('P') }, f2: { Q: page('Q', { type: 'manual', value: { name: 'go' } }) } };
      const { sut } = await startTag(t, p, { flags, pages, config: gated ? { consentOptions: { consentRequired: true, consentStatus: first } } : {}, wait: 4 }); let status = gated ? first : 'pending';
      const read = () => (p.g.webExperiment?.getDebugState ? plain(p.g.webExperiment.getDebugState().consent) : null); const ops = [];
      for (let i = 0; i < r.int(1, 5); i++) {
        const c = read(); const launched = !gated || first === 'granted' || status === 'granted' || ops.some((o) => o === 'granted');
        if (launched) { if (!t.check(!!c, 'no-debug-state', { ops })) return; t.check(c.required === gated, 'consent-required', { c, gated }); t.check(c.started === true && c.startDeferred === false, 'consent-started', { c, ops }); if (gated) { t.check(c.status === status, 'consent-status', { c, status, ops }); t.count(status === 'granted' ? 'consent-granted' : 'consent-held'); t.check(c.impressionBuffers.length === 1, 'buffers', { c }); if (status === 'granted') t.check(c.impressionBuffers.every((b) => b.buffered === 0 && !b.flushArmed), 'buffer-after-grant', { c, ops }); } else { t.count('consent-off'); t.check(c.impressionBuffers.length === 0, 'buffers-ungated', { c }); } }
        else { t.check(!c, 'debug-before-consent', { ops }); t.count('consent-held'); }
        t.evaluated(canon([gated, first, ops, c]));
        const s = r.pick(['granted', 'denied', 'pending', 'granted']); ops.push(s); sut.setConsentStatus(s); if (s !== 'pending') status = s; await p.settle(400); for (let k = 0; k < 20 && p.g.webExperiment?.start && !p.g.webExperiment.isRunning; k++) await p.settle(100);
      }
      p.close();
    } },
  ],
};
