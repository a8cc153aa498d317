#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORLD = ("Generated schemas ('worlds' of 1 to 3 protocols) are compiled by the real schema compiler, the generated Rust code is built with rustc and driven with generated values, buffers and histories; the oracle is an independent model of the format (harness/oracle). ")
TRUST = " Trusts: rustc, the model in harness/oracle/src/{resolve,model}.rs, the random exploration being representative; nothing is proved about schemas and values which were not generated."
T = {
 'S': 'property-based testing of generated code: random schemas, random buffers and write histories against an independent bit-level model, with shrinking',
 'M': 'property-based testing of generated code: random schemas, values and hostile bytes against an independent encoder/decoder, with shrinking',
 'U': 'property-based testing of generated code: random unions and discriminants against an independent model, with shrinking',
 'L': 'stateful property-based testing of generated lists and arrays (append/mutate histories, raw bytes) against a model, with shrinking',
}
L = {}
for p in 'S01 S02 S03 S04 S05 S06 S07 S08 M01 M02 M03 M04 M05 M06 M07 M08 M09 U01 U02 L01 L02'.split():
    L[p] = (T[p[0]], WORLD + 'Fixed work per tier, a pure function of VERIF_SEED and the code.' + TRUST)
L['M07'] = ('fault enumeration over generated messages: a sink failing at each byte position, short writes and interruptions, against the model encoding',
            WORLD + 'For each generated value every fault position of the sink is tried, and short-write and interruption patterns are generated.' + TRUST)
L['M04'] = ('property-based testing: every cut point of every generated encoding, and random trailing bytes, against the model', WORLD + 'For each generated value every strict prefix is tried.' + TRUST)
L['C04'] = ('metamorphic and model-based property testing: worlds of protocols connected by imports against an import-blind model, and against the same types declared in one protocol',
            WORLD + TRUST)
L['C01'] = ('property-based testing: random well-formed schemas through the schema compiler and rustc, with a use of every declared item',
            'Random worlds with unusual but legal names; the code must be accepted, generated without panic, and type-check with rustc together with glue which uses every accessor, type and trait implementation declared. Known limits (names which clash in Rust) are listed in DESIGN.md.')
L['C02'] = ('mutation-based property testing: fault classes injected in random valid schemas must be refused, the unmodified schema accepted',
            'Each case takes a random accepted world, injects one fault of a class listed in DESIGN.md at a random place, and requires an error (not a panic, not acceptance). Fault classes the generator does not know are not explored.')
L['C03'] = ('metamorphic property testing: repeated, reordered, reformatted and accompanied generation must give byte-identical files',
            'Random worlds; histories of generation into new and existing directories, permuted keys and variants, JSON5 spellings, other protocols loaded beside it, in this process and in fresh processes (hash seeds differ).')
L['C05'] = ('metamorphic property testing over all flag combinations of random schemas', 'All 64 combinations of the six output flags on each generated world are compared with the files of the single flags; the entry file is compared with the directory; the build-script entry point is run in a process of its own.')
L['C06'] = ('structured fuzzing of schema text: byte, token and tree mutations, under catch_unwind', 'Random and mutated schema texts are loaded, compiled and generated in-process; any panic is a violation.')
L['C07'] = ('fault injection with generated obstacles: each output path in turn cannot be created or written, against the files of an undisturbed run', 'Random worlds and flags; one obstacle of a kind listed in DESIGN.md at a random output path (directories and links in the way, /dev/full, a file size limit in a child process), success or error compared with what the obstacle must cause, then the same generation without it. Power loss is not simulated: generation makes no promise about it.')
L['C08'] = ('metamorphic property testing: the same protocols with other import paths, separators and solvers must give the same code with the paths replaced', 'Random worlds of 2 to 4 protocols, compiled with marked import paths and again with other paths, with recording solvers of our own (other type paths, other protocol names, protocols compiled before, missing paths) and with protocols or types missing; code compared byte by byte after replacing the marked paths.')
L['G01'] = ('model-based property testing of the compiled protocols: random protocols against the independent resolver', 'Tens of thousands of random worlds of 1 to 7 protocols, loaded in random subsets and orders, compiled in-process (no rustc) and collected by a generator of our own; every public member of the compiled protocols is compared with the independent model of the format. It is a program of its own (harness/inspect): it alone depends on the members of the compiled protocols.')
L['T01'] = ('model-based property testing of the template engine', 'Random template texts, variables and scope histories against an independent renderer written from the property.')
L['R01'] = ('property-based testing of the bit codecs against a bit-level model, all offsets, widths and carriers', 'All (carrier, offset, width) triples are instantiated; buffers and values are generated.')
L['R02'] = ('property-based testing of the byte and array codecs against a model', 'All carriers and lengths are instantiated; buffers and values are generated.')
L['R03'] = ('property-based testing of the runtime primitives: round trips and hostile bytes against a model', 'All scalar and prefix types are instantiated; values and bytes are generated.')
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
import sys
ready = open(os.path.join(ROOT, 'tools', 'claimed.txt')).read().split()
checks, na = [], []
for p in props:
    i = p['id']
    if i == 'W01':
        na.append(dict(property=i, reason='There is no Swift toolchain in the sandbox and the Swift generator is not public, so the Swift runtime cannot be executed; comparing its text with the Rust runtime would not be a check of behaviour.'))
        continue
    if i not in ready:
        na.append(dict(property=i, reason='the check is not built yet'))
        continue
    checks.append(dict(property=i, quick_cmd='./check.sh ' + i, thorough_cmd='VERIF_TIER=thorough ./check.sh ' + i,
        evidence_file='evidence/%s.json' % i, technique=L[i][0],
        level='fault_enumeration' if i in ('M07', 'C07') else 'exploration', level_note=L[i][1]))
m = dict(version=1, setup_cmd='./check.sh --build', checks=checks, not_applicable=na,
         hooks=dict(guard='none', enable='no hooks: the checks use the public interfaces only', source_commits=[]),
         notes='See DESIGN.md. Known findings and repaired defects: KNOWN_FINDINGS.txt.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), len(na))
