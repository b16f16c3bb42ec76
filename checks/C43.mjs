import { canon } from '../lib/util.mjs';
import { TAG, drive } from '../lib/tagdrive.mjs';
export default {
  property: 'C43', bundles: { tag: TAG },
  rule: 'the same lives as C41, with every event the tag sends recorded. After every step each flag whose last applied variant is shown on the page (an action of it in scope of an active page, or a control/off variant on an active page) must have been tracked in this visit of the URL (without query and fragment) with that variant; within a visit the same variant is never tracked again without another one in between; and every event names a flag active on the page with a variant it had, and its experiment key. Non-trivial = distinct judged event or expectation.',
  requires: ['feature-flag', 'preview-mode', 'while-starting', 'tracked', 'shown', 'not-shown', 'revisit', 'same-visit', 'variant-change', 'off-tracked', 'control-tracked', 'experiment-key', 'same-base'],
  workloads: [{ name: 'life', quick: 1300, thorough: 40000, async run(t) {
    let seen = 0; const hist = new Map(); const ok = new Map(); const bases = new Map(); let was = null; // hist: visit/flag -> variants tracked, in order; ok: what each flag may report
    await drive(t, { preview: false }, (c, why, x = {}) => {
      const act = c.active(); for (const f of Object.keys(c.defs)) { const s = ok.get(f) ?? ok.set(f, new Set()).get(f); if (c.pv[f]) { s.clear(); s.add(c.pv[f]); continue; } s.add(c.inEffect[f]); s.add(c.assigned[f]); if (x.preview?.[f]) s.add(x.preview[f]); }
      const b = c.p.url.href.split(/[?#]/)[0]; if (why !== 'start' && was && was !== b) { if (bases.has(b)) t.count('revisit'); } if (was === b) t.count('same-base'); was = b; bases.set(b, 1);
      for (; seen < c.events.length; seen++) { const e = c.events[seen]; e.props.variant ??= 'off'; t.count('tracked'); const f = e.props.flag_key; const k = e.visit + '/' + f; const l = hist.get(k) ?? hist.set(k, []).get(k); const det = () => ({ why, e, l, ops: c.ops.slice(-6), act }); t.check(e.type === '$impression', 'event-type', det()); if (!t.check(f in c.defs, 'unknown-flag', det())) continue; t.check(ok.get(f).has(e.props.variant), 'variant-never-assigned', det()); if (e.props.variant === 'off') t.count('off-tracked'); if (e.props.variant === 'control') t.count('control-tracked'); if (l.length) t.count('variant-change'); t.check(l[l.length - 1] !== e.props.variant, 'tracked-twice', det()); const ek = c.flags.find((g) => g.key === f).metadata.experimentKey; if (ek && !x.preview && !c.pv[f]) { t.count('experiment-key'); if (why !== 'preview') t.check(e.props.experiment_key === ek, 'experiment-key', det()); } l.push(e.props.variant); t.evaluated(canon(['event', f, e.props.variant, e.visit, why, t.index % 3000]));
        if (why !== 'burst' && why !== 'off-on' && !(why === 'start' && c.early)) t.check((act[f] ?? []).length > 0, 'tracked-on-inactive-page', det()); }
      for (const f of Object.keys(c.defs)) { if (x.reverted) continue; const v = x.preview && f in x.preview ? x.preview[f] : c.pv[f] ?? c.inEffect[f]; if (v === 'nope') continue; const s = c.shown(f, v); const on = c.pv[f] ? (Array.isArray(c.defs[f][v]) ? s.tried : s.any) : v === 'off' || v === 'control' && !Array.isArray(c.defs[f][v]) ? s.any : v === 'control' ? s.any : s.tried; const l = hist.get(c.visit + '/' + f) ?? []; if (on) { t.count('shown'); if (l.length) t.count('same-visit'); t.check(l[l.length - 1] === v, 'not-tracked', { why, f, v, l, visit: c.visit, act, ops: c.ops.slice(-6), url: c.p.url.href, payload: JSON.stringify(c.defs[f][v] ?? null).slice(0, 400) }); } else t.count('not-shown'); t.evaluated(canon(['state', f, v, on, why, t.index % 3000])); }
    });
  } }],
};
