import { canon } from '../lib/util.mjs';
import { TAG, drive } from '../lib/tagdrive.mjs';
export default {
  property: 'C41', bundles: { tag: TAG },
  rule: 'the whole tag runs random flags (mutations and injections, with and without page scopes, several actions per variant, some mutations and injections failing) in a page with a DOM through navigations, triggers, variant changes, re-applications, reverts, previews and unsettled bursts of them. After every step the multiset of live mutations (recorded by the DOM mutator stand-in) and of live injections (script element, adopted style sheet and the injection\'s own run/remove pair) must be exactly those of the variants last applied whose pages are active. Non-trivial = distinct judged non-empty state.',
  requires: ['feature-flag', 'preview-mode', 'while-starting', 'mutations', 'injections', 'nothing', 'scoped-out', 'reverted', 'previewed', 'switched', 'failing-mutation', 'failing-injection', 'several-actions', 'inactive-pages', 'op:nav', 'op:toggle', 'op:burst', 'op:partial', 'op:reapply', 'op:off-on', 'kept-others'],
  workloads: [{ name: 'life', quick: 1300, thorough: 40000, async run(t) {
    let prev = null;
    await drive(t, { failInject: true }, (c, why, x = {}) => {
      const mut = []; const inj = []; const state = {};
      for (const f of Object.keys(c.defs)) { let v = c.pv[f] ?? c.inEffect[f]; if (x.reverted?.includes(f)) { t.count('reverted'); state[f] = null; continue; } if (x.preview && f in x.preview) { v = x.preview[f]; t.count('previewed'); } state[f] = v; if (prev && prev[f] && prev[f] !== v) t.count('switched'); const s = c.shown(f, v); if (Array.isArray(c.defs[f][v])) { const n = c.defs[f][v].reduce((a, b) => a + (b.action === 'mutate' ? (b.data.mutations ?? []).filter((m) => !c.bad.has(m.value)).length : 1), 0); if (!s.any && n) t.count('inactive-pages'); else if (s.mut.length + s.inj.length < n) t.count('scoped-out'); if (c.defs[f][v].length > 1 && s.mut.length + s.inj.length > 1) t.count('several-actions'); } mut.push(...s.mut); inj.push(...s.inj); }
      if (x.reverted && mut.length + inj.length) t.count('kept-others'); prev = state; mut.sort(); inj.sort(); const det = () => ({ why, state, active: c.active(), ops: c.ops.slice(-6), defs: JSON.stringify(c.defs).slice(0, 900) });
      t.count(mut.length ? 'mutations' : inj.length ? 'injections' : 'nothing'); if (inj.length) t.count('injections');
      t.equal(c.mutations(), mut, 'mutations', det()); const on = []; for (const [id, n] of c.live) { for (let i = 0; i < n; i++) on.push(id); if (n < 0) t.violation('removed-twice', det()); }
      // an injection that fails may leave what it did, as long as nothing of it outlives its being active
      const part = new Set(inj.filter((i) => c.injects.get(i).fails)); const css = new Set([...part].map((i) => c.injects.get(i).css)); const whole = inj.filter((i) => !part.has(i));
      t.equal(on.filter((i) => !part.has(i)).sort(), whole, 'injections', det()); t.equal(c.scripts().filter((i) => !part.has(i)), whole, 'injected-scripts', det()); t.equal(c.sheets().filter((s) => /^\.i\d/.test(s) && !css.has(s)).sort(), whole.map((i) => c.injects.get(i).css).filter(Boolean).sort(), 'injected-styles', det());
      if (mut.length + inj.length) t.evaluated(canon([mut, inj, why]));
    });
  } }],
};
