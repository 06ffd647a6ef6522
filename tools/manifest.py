#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties named on the command line (dev tool)."""
import json, sys
T = {
 'C01': ('exploration', 'seeded simulation of readers: delivery metamorphism against an independently generated expected tree'),
 'C02': ('fault_enumeration', 'simulated reader failures of every kind at drawn points'),
 'C03': ('fault_enumeration', 'simulated stream damage (truncation, flips, lost/repeated blocks) against the expected tree of the undamaged prefix'),
 'C04': ('exploration', 'simulated hostile streams under a step-counting scheduler (bounded progress) with well-formedness checks'),
 'C05': ('exploration', 'seeded simulation of deliveries; positions and errors checked against the delivered bytes and the generator\'s own positions'),
 'C06': ('fault_enumeration', 'simulated writer failures (error, short write, panic) at every point against an independent rendering'),
 'C07': ('exploration', 'seeded operation histories with faults over one tree, deep comparison before and after'),
 'C08': ('exploration', 'deterministic scheduler over concurrent parses with stalled/failing readers, under the race detector'),
 'C09': ('exploration', 'deterministic scheduler over concurrent readers of one tree with stalled/failing writers and visitors, under the race detector'),
 'C10': ('exploration', 'seeded call histories with faults in one process against each call alone in a fresh process'),
 'C11': ('exploration', 'seeded traversals with pruning and panicking visitors at drawn points against the expected visit sequence'),
 'C12': ('fault_enumeration', 'whole command on a simulated operating system: open/read/close faults per input'),
 'C13': ('fault_enumeration', 'whole command on a simulated operating system: output faults (ENOSPC, EIO, EPIPE/SIGPIPE, short writes) at every point'),
 'C14': ('exploration', 'whole command on a simulated operating system with descriptor limits and faults'),
 'C15': ('exploration', 'simulated recording reader: protocol of every Read call checked over the history'),
 'C17': ('exploration', 'seeded histories of faulty calls run on until nothing moves: goroutines left over counted, live heap measured'),
 'C18': ('exploration', 'seeded chains of calls made from within readers, destinations and visitors, and calls feeding one another through pipes under a drawn schedule, against each call alone'),
 'C16': ('fault_enumeration', 'histories of runs of the whole command on one simulated machine: kill at any system call, power loss, full disk, clock jumps, changed inputs, environment'),
}
NOTE = {
 'default': 'Seeded search, not exhaustive: assurance grows with the number of seeds. The library code is the real one (source-instrumented with a scheduling point before every statement through go build -overlay); caller, reader, writer, OS and scheduler are simulated. Trusts the generator/model in /verif/gen, validated against the parser without a difference.',
}
NA = {
 'N01': 'A pure function of the input text judged against an external grammar (Vim, vim-vimlparser): no schedule, time, I/O or fault enters, so simulation decides nothing here that plain differential testing would not.',
 'N02': 'A pure function of one expression (print, parse, compare): no schedule, fault or history is involved; the printer is documented as unfinished.',
 'N03': 'Agreement with the output format of another program is a pure function of the input; nothing nondeterministic to simulate. That output is complete, exact and fault-tolerant is C06.',
 'N04': 'Static tables compared with external editors (not available here); no behaviour over time or under faults.',
 'N05': 'A relation between two source texts, not a behaviour under schedules or faults.',
 'N06': 'Static tables (token spellings, precedences); no schedule, time, I/O or multi-party behaviour.',
}
claim = sys.argv[1:]
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
m['hooks'] = {'guard': 'none', 'enable': 'No hooks are committed in /repo. The checks build /repo\'s working tree through go build -overlay with files that /verif/cmd/instrument derives from it (scheduling points, simulated sync and os); a plain build of /repo is unchanged.', 'source_commits': []}
for i in ids:
    if i in claim:
        m['checks'].append({'property': i, 'quick_cmd': './run.sh ' + i, 'thorough_cmd': './run.sh ' + i, 'evidence_file': 'evidence/%s.json' % i, 'technique': 'deterministic simulation with fault injection: ' + T[i][1], 'level': T[i][0], 'level_note': NOTE.get(i, NOTE['default'])})
    elif i in NA:
        m['not_applicable'].append({'property': i, 'reason': NA[i]})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'Check under construction.'})
m['notes'] = 'Replay a violation: ./run.sh --replay FILE. See DESIGN.md.'
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
