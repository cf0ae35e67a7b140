"""Writes MANIFEST.json from the list of implemented checks."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
NOTES = {
 'P01': 'Every line within the bounds was run through the real code and compared with an independent ATX model; outside the alphabets and lengths nothing is claimed.',
 'P02': 'Every sequence of fence-like lines within the bounds was run through the real document loop and compared with a fence automaton; multi-character run lengths to 90 and blocks to 20000 lines are swept separately.',
 'P03': 'All short documents x limits x skips; long documents and buffer boundaries are swept over all offsets, not all contents.',
 'P04': 'Every Unicode scalar value was tried between letters; strings are exhaustive over small alphabets. Trusts the Unicode tables of the running Python.',
 'P05': 'Every string over the alphabets was compared with an independent implementation of the CommonMark 0.30 delimiter algorithm. Links, images, autolinks and HTML tags are in; the model is cross-checked with markdown-it. Link reference definitions and entities are outside.',
 'P06': 'Every sequence of constructs and every inner text within the bounds against an independent HTML scanner. Code spans and backslash escapes are in.',
 'P07': 'Every string over the alphabets and every code point against a translation of the C routine of Redcarpet.',
 'P08': 'All short documents, all counts up to 130, all pairs and triples of small files in one call.',
 'P09': 'All coherent level sequences within the bounds, nesting judged by the list rules of CommonMark (own parser, cross-checked with markdown-it).',
 'P10': 'All level sequences within the bounds against a two-variable automaton.',
 'P11': 'All level sequences within the bounds and all counter values near the limits.',
 'P12': 'All label texts over the bracket alphabet within the bounds and all lengths around the limit; links re-parsed by markdown-it.',
 'P13': 'All files made of the listed lines within the bounds, real files rewritten by the real code and compared byte for byte with a marker model.',
 'P14': 'Breadth-first search over histories of edits and runs on real files; every state is checked for idempotence and independence of the past.',
 'P15': 'All pairs of tables and files within the bounds, in the library and on the command line.',
 'P16': 'Every mutating system call of every enumerated update was made a crash point (before, after, torn, with unsynced data lost) or failed with an error, on the real code, by a preloaded shim. Assumes the file system orders a rename after data that was fsynced.',
 'P17': 'All tuples of good and bad files within the bounds.',
 'P18': 'All documents x line-ending assignments x newline options within the bounds.',
 'P19': 'All documents x options within the bounds, standard input against file, real pipes for a part.',
 'P20': 'Every string within the bounds yields a string or a documented error within a CPU limit.',
 'P21': 'The full product of the command-line options over a set of documents against the library.',
 'P22': 'All call histories up to the depth against fresh-process results, and all schedules of two threads up to the preemption bound at line granularity.',
 'P23': 'For every document within the bounds the table under every enumerated option vector is predicted from tables built with one option at a time and compared.',
 'P24': 'Every edge of the tree of documents within the bounds, and every insertion of a neutral line, compared on the real code.',
 'P25': 'Every document within the bounds through a client of the line-level functions against build_toc; pairs of files for the write functions.',
 'P26': 'The product of all argument values within the bounds for every documented function.',
}
TECH = {
 'P14': 'explicit-state breadth-first search over edit/run histories on the real code',
 'P16': 'exhaustive crash-point, torn-write and fault enumeration on the real code (LD_PRELOAD shim)',
 'P17': 'exhaustive enumeration of file tuples on the real code against a product model',
 'P21': 'exhaustive enumeration of the option space, command line against library',
 'P23': 'bounded exhaustive enumeration of documents x option vectors on the real code, differential oracle',
 'P24': 'bounded exhaustive exploration of the tree of documents on the real code (edge invariant)',
 'P25': 'bounded exhaustive enumeration of executions of the real code, composition of its functions against the whole',
 'P22': 'exhaustive call-history and preemption-bounded schedule exploration of the real code',
}
have = sorted(p.stem.upper() for p in (V / 'mc').glob('p[0-9][0-9].py'))
props = [json.loads(l)['id'] for l in (V / 'properties.jsonl').read_text().splitlines() if l.strip()]
m = {'version': 1, 'setup_cmd': 'bash ./setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    if p in have:
        m['checks'].append({
            'property': p,
            'quick_cmd': './check %s quick' % p,
            'thorough_cmd': './check %s thorough' % p,
            'technique': TECH.get(p, 'bounded exhaustive enumeration of executions of the real code (stateless model checking) against a reference model'),
            'level': 'fault_enumeration' if p == 'P16' else 'model_checking',
            'level_note': NOTES[p]})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'check not built yet'})
m['notes'] = 'No hooks in /repo. Known findings: known_findings.jsonl. See DESIGN.md.'
(V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
