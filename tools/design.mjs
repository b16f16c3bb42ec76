// Regenerates the per-property part of DESIGN.md (between the markers) from properties.jsonl, the checks, known-findings.txt, seeded/ and tools/design-notes.json
import fs from 'node:fs'; import path from 'node:path'; import url from 'node:url';
const root = path.join(path.dirname(url.fileURLToPath(import.meta.url)), '..');
const notes = JSON.parse(fs.readFileSync(path.join(root, 'tools/design-notes.json'), 'utf8'));
const props = fs.readFileSync(path.join(root, 'properties.jsonl'), 'utf8').trim().split('\n').map((l) => JSON.parse(l));
const known = fs.readFileSync(path.join(root, 'known-findings.txt'), 'utf8').trim().split('\n');
const seeds = fs.readdirSync(path.join(root, 'seeded')).filter((s) => fs.existsSync(path.join(root, 'seeded', s, 'meta.json'))).map((s) => ({ id: s, ...JSON.parse(fs.readFileSync(path.join(root, 'seeded', s, 'meta.json'), 'utf8')) }));
let out = '';
for (const p of props) {
  const f = path.join(root, 'checks', p.id + '.mjs'); out += `\n### ${p.id} ${p.title}\n\n`;
  if (fs.existsSync(f)) { const c = (await import(f)).default; const n = notes[p.id] ?? {};
    out += `* **Monitors and workloads.** ${c.rule}\n* **Bounds (cases quick / thorough).** ${c.workloads.map((w) => `${w.name} ${w.quick} / ${w.thorough}`).join('; ')}.\n`;
    if (c.requires?.length) out += `* **Must be observed** (else the run is not a verdict): ${c.requires.join(', ')}.\n`;
    if (n.oracle) out += `* **Oracle.** ${n.oracle}\n`; out += `* **Beyond the tests.** ${p.quantifier.text}. ${p.why_tests_cant}\n`;
    if (n.limits) out += `* **Not claimed.** ${n.limits}\n`; if (n.alarms) out += `* **False alarms corrected.** ${n.alarms}\n`;
  } else out += `* Not claimed.\n`;
  const mine = known.filter((l) => l.includes('property=' + p.id + ' ')); const fx = mine.filter((l) => l.startsWith('fixed')).map((l) => l.replace(/^fixed: property=C\d\d /, '').replace(/^((?:[0-9a-f]{7} ?)+)/, (m) => '`' + m.trim() + '` ')); const kf = mine.filter((l) => l.startsWith('KNOWN')).map((l) => l.replace(/^KNOWN-FINDING: property=C\d\d sig=/, ''));
  if (fx.length) out += `* **Defects repaired.** ${fx.join('; ')}.\n`; if (kf.length) out += `* **Known findings.** ${kf.join('; ')}.\n`;
  const sd = seeds.filter((s) => s.property === p.id); if (sd.length) out += `* **Planted bugs.** ${sd.map((s) => `\`${s.id}\` (${s.what_it_breaks.replace(/\.$/, '')}; needs: ${s.needs.replace(/\.$/, '')}) - ${notes.catches?.[s.id] ?? 'caught by ' + p.id + ' quick'}`).join('; ')}.\n`;
}
const d = path.join(root, 'DESIGN.md'); const s = fs.readFileSync(d, 'utf8'); const A = '<!-- per property: generated by tools/design.mjs -->', B = '<!-- end -->';
fs.writeFileSync(d, s.slice(0, s.indexOf(A) + A.length) + '\n' + out + '\n' + s.slice(s.indexOf(B)));
