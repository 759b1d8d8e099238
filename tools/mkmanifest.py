#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {
 'C01': 'runtime monitor: reported end poses against an independent quadrature of the described curve',
 'C02': 'runtime monitor: start and end queries compared as inverses of each other',
 'C03': 'history monitor: every answer of a query history compared with a fresh twin object',
 'C04': 'trace checker: the written geometry records checked online as one chain against independent integration',
 'C05': 'document monitor: every road link of the adjusted network audited for position and heading',
 'C06': 'differential monitor: documents of permuted insertion orders compared up to one rigid motion',
 'C07': 'runtime monitor with logical step limit: reachability model decides between placed and refused',
 'C08': 'runtime monitor: written lanes compared with a list model of the additions',
 'C09': 'runtime monitor: lane links of the document compared with a reference model of the declared network',
 'C10': 'runtime monitor: lane links of the document compared with a reference model of the declared network',
 'C11': 'document monitor: lane borders of linked lanes computed from the written geometry and compared',
 'C12': 'document monitor: junction table cross-checked against the lane links of the same document',
 'C13': 'history monitor: connections and ids compared with a list model',
 'C14': 'runtime monitor: generated junction roads audited for pairs, lanes and gaps',
 'C15': 'runtime monitor: files read back and compared with the tree, also in child processes with other locales',
 'C16': 'history monitor: repeated and interposed queries compared with an undisturbed twin',
 'C17': 'history monitor: id registry model over additions in one process',
 'C18': 'runtime monitor: placed roadside objects compared with a reference placement',
 'C19': 'runtime monitor: written attributes read back and compared with the given values',
 'C20': 'runtime monitor: written attributes read back and compared with the given values',
 'C21': 'runtime monitor: document compared with the declared roads, links and junctions',
 'C22': 'fault-injection monitor: refusals checked for exception and unchanged document',
 'C23': 'runtime monitor over all enumeration members at all places, against a literal table',
 'C24': 'runtime monitor: generated roads compared with their parameters and independent integration',
 'C25': 'interference monitor: interleaved constructions compared with documents of pristine processes',
 'C26': 'history monitor: documents after staged and repeated adjustments compared',
 'C27': 'history monitor: lane links compared with the set of declared pairs',
 'C28': 'document automaton: grammar and reference checker over whole documents',
 'C29': 'runtime monitor: a stand-in viewer records arguments and file, compared with the network given',
 'C30': 'differential monitor: documents after direct calls in random order compared with those of adjusting, lookups with list models',
 'C31': 'metamorphic monitor: document of the relabelled network compared with the relabelled document',
 'C32': 'metamorphic monitor: document of the moved or mirrored network compared with the moved or mirrored document',
 'C33': 'metamorphic monitor: documents built from different kinds of numbers compared',
 'C34': 'differential monitor: documents and process state of child processes and threads compared with a pristine process',
 'C35': 'fault-injection monitor: failures of the operating system while writing, checked for error, complete file, descriptors, neighbour files and model',
 'C36': 'document monitor: elements and attributes reported by every part compared with the document of the whole',
}
NOTE = {
 'C23': 'Every member at every place is run, so the finite space is covered completely; trusts the literal table typed in from the standard.',
}
DEFAULT = ('Held on every generated execution of the real code (seeded random and fixed corner cases; counts and distinct states in the evidence); '
           'no claim beyond the explored cases. Trusts the oracle in rv/p/%s.py and the reference models in rv/ref.py, rv/nets.py and rv/doc.py.')
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh',
     'checks': [{'property': p, 'quick_cmd': 'bash /verif/run.sh %s quick' % p, 'thorough_cmd': 'bash /verif/run.sh %s thorough' % p,
                 'evidence_file': 'evidence/%s.json' % p, 'technique': T[p], 'level': 'exploration', 'level_note': NOTE.get(p, DEFAULT % p.lower())}
                for p in sorted(T)],
     'not_applicable': [],
     'notes': 'No hooks: everything is observed at the public API, the returned objects and the written documents. Findings: known_findings.txt.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
