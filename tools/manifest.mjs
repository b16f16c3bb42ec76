// Regenerates MANIFEST.json from the checks that exist (node tools/manifest.mjs).
import fs from 'node:fs'; import path from 'node:path';
const V = path.resolve(path.dirname(new URL(import.meta.url).pathname), '..');
const props = fs.readFileSync(path.join(V, 'properties.jsonl'), 'utf8').trim().split('\n').map((l) => JSON.parse(l));
const checks = []; const na = [];
for (const p of props) {
  const f = path.join(V, 'checks', p.id + '.mjs');
  if (!fs.existsSync(f)) { na.push({ property: p.id, reason: 'no check has been built for this property yet' }); continue; }
  const s = (await import(f)).default;
  checks.push({ property: p.id, quick_cmd: `node run.mjs ${p.id} quick`, thorough_cmd: `node run.mjs ${p.id} thorough`, evidence_file: `evidence/${p.id}.json`,
    technique: s.technique || 'runtime monitoring: independent oracle over randomized executions of the real code', level: s.level || 'exploration',
    level_note: s.note || 'Random and hostile workloads run the real sources in a simulated page; every observed execution is judged by an independent oracle. Nothing outside the explored executions is claimed.' });
}
const m = { version: 1, setup_cmd: 'node --version', checks, not_applicable: na };
fs.writeFileSync(path.join(V, 'MANIFEST.json'), JSON.stringify(m, null, 1) + '\n');
console.log(checks.length, 'checks;', na.length, 'not claimed');
