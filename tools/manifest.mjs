// Writes /verif/MANIFEST.json.
import fs from 'node:fs';
const REF = 'online comparison of every parse with a reference parse (patched acorn) under generated and enumerated workloads';
const T = {
  C01: ['crash, arithmetic-overflow (debug assertions), CPU-budget, memory-cap and serialisation monitors over enumerated short sources, deep nestings, mutants and noise', 'Every source tried ended in a tree that serialises or an error that prints, under an 8 MiB stack for nestings up to 60. Sampled beyond the enumerated lengths; trusts the driver\'s process supervision.'],
  C02: ['offline comparison of recorded parse results across fresh processes, reordered histories and concurrent threads', 'Each input\'s full record (tree, Debug text, error, allocation counts) was identical in a process of its own, after random histories and on contended threads. Interleavings are those the scheduler and injected yields produced.'],
  C03: ['basic-block, memory-primitive and allocation counters (sanitizer coverage callbacks) at growing sizes, judged by doubling ratios', 'Deterministic work counts at doubling sizes for every listed construct family; superlinear growth that starts beyond the sizes tried, or in families not generated, is not seen.'],
  C04: ['differential monitor of literal values against exact decimal conversion (V8) and an independent grammar', 'Every spelling tried had its exact value and raw text or was rejected as the grammar says.'],
  C05: ['differential monitor of literal values against an independent escape interpreter and the reference parser', 'Every escape form enumerated, all short escape sequences, sampled long ones. Lone surrogates are pinned known findings.'],
  C06: [REF, 'Templates enumerated by piece and nesting; sampled beyond.'],
  C07: [REF, 'Every listed position crossed with slash tails; pattern bodies enumerated to length 4; sampled beyond. Patterns and flags are not validated.'],
  C08: [REF, 'All of Unicode as identifier start and part, all keywords and contextual words in all listed positions. Characters newer than Unicode 9 are pinned known findings.'],
  C09: ['metamorphic monitor: tree equality of a program under changes of its trivia, plus an exhaustive scan of white space characters', 'Every program tried kept its tree under every trivia form.'],
  C10: [REF, 'Line terminators enumerated between the tokens of listed statements and sampled in generated programs.'],
  C11: [REF, 'All operator pairs and triples in all listed shapes, sampled longer expressions.'],
  C12: [REF, 'All listed statements in all listed contexts, pairs, short token sequences, sampled nestings.'],
  C13: [REF, 'All modifier/name/tail combinations (sampled in positions in the quick run), sampled nestings.'],
  C14: [REF + ', and a metamorphic monitor over cover grammar positions', 'All listed patterns in all listed positions, sampled nestings.'],
  C15: [REF + ', and script/module goal comparison', 'All short token sequences over the import/export alphabet, sampled modules.'],
  C16: ['differential acceptance monitor against a reference parser over mutants and enumerated token sequences', 'Every invalid source tried was rejected; early errors outside the grammar listed in lib/oracle.mjs are not judged.'],
  C17: [REF, 'All listed constructs in all listed contexts and pairs of contexts; state that leaks is looked for by suffixing fragments.'],
  C18: ['online checker of error positions: range, named token, reference position and metamorphic shifts', 'Range and shift rules for every error; the exact position for plain unexpected-token errors, up to the equivalences listed in DESIGN.md.'],
  C19: ['online checker of node spans: nesting, line/column/index agreement and extents against the reference parser', 'Every span giron keeps, in every tree tried; node kinds without spans are not judged.'],
  C20: ['online schema checker of the JSON text against ESTree 2019, with field values compared with a reference parse', 'Every document tried fitted the schema; all node types were seen.'],
  C21: ['online comparison of every value the wrapper hands to JavaScript with the library\'s own result, through a recording stand-in for wasm-bindgen', 'The wrapper source of /repo ran natively against /repo\'s library on every source tried; the real wasm-bindgen glue and the registry release of giron it is packaged with are not part of it.'],
  C22: ['online checker of error kinds, payloads and messages: sources made to break one rule, and the claims every error makes about the place it names', 'All 1400 templates of violations in sampled surroundings; where a source breaks several rules, only the claim of the error reported is checked.'],
};
const m = {
  version: 1, setup_cmd: 'node tools/setup.mjs',
  checks: Object.entries(T).map(([p, [technique, level_note]]) => ({ property: p, quick_cmd: `node checks/run.mjs ${p} quick`, thorough_cmd: `node checks/run.mjs ${p} thorough`, evidence_file: `evidence/${p}.json`, technique, level: 'exploration', level_note })),
  not_applicable: [],
  notes: 'No hooks: everything is observed through the public API (tree, Debug text, JSON, errors) and from outside (processes, allocator, basic blocks). See DESIGN.md.',
};
fs.writeFileSync(new URL('../MANIFEST.json', import.meta.url), JSON.stringify(m, null, 1) + '\n');
