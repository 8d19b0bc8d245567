#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of implemented checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('ASan, UBSan, CPU limits and valgrind memcheck over hostile documents and call histories', 'Held on the explored documents and histories. Memory exhaustion is not injected.'),
 'C02': ('allocation hooks counting live blocks after deletion over success and failure histories, ASan', 'Held on the explored documents and histories.'),
 'C20': ('demo output parsed and compared with the model that generated its files, exit status monitor, ASan+UBSan', 'Held on the generated file sets apart from the listed known findings.'),
 'C21': ('ThreadSanitizer over parallel loaders, per-thread traces compared with sequential ones, ASan', 'Held on the explored schedules. libxml2 itself is not instrumented.'),
 'C22': ('log output monitored line by line against formatted text and against a caller\'s logger, ASan+UBSan', 'Held on the generated messages and histories.'),
 'C03': ('recorded delivery compared with the model that generated the files, ASan+UBSan', 'Held on the generated nodesets (all classes, attribute subsets, text lengths around the read chunks). Trusts the generator\'s model.'),
 'C04': ('online order monitor on the delivered sequence against the declared relations, ASan+UBSan', 'Held on the generated hierarchies and declaration orders.'),
 'C05': ('sort verdict and log compared with an independent cycle search, ASan+UBSan with CPU limits', 'Held on the generated graphs. Trusts the checker\'s cycle search.'),
 'C06': ('delivered reference multisets compared with the declared ones under both reference services, ASan+UBSan', 'Held on the generated references.'),
 'C07': ('callback log and every delivered index compared with the model, ASan+UBSan', 'Held on the generated namespace tables and mappings.'),
 'C08': ('delivered ids of alias renderings compared with those of plain renderings, ASan+UBSan', 'Held on the generated alias tables.'),
 'C09': ('delivered value trees compared with the declared values, ASan+UBSan', 'Held on the generated values.'),
 'C10': ('delivered definitions and encoding links compared with the model, ASan+UBSan', 'Held on the generated data types.'),
 'C11': ('extension callback traces checked against the declared inner elements, ASan+UBSan', 'Held on the generated extensions.'),
 'C12': ('import verdicts and log events checked against the construction of the file, ASan+UBSan', 'Held on the generated malformed and well-formed files, paths and arguments. Trusts expat for well-formedness.'),
 'C13': ('shadow-memory monitor over generated arena request sequences, ASan+UBSan', 'Held on the explored request sequences (all short ones over boundary sizes, random long ones). Trusts the driver\'s shadow copy.'),
 'C14': ('differential monitoring of equivalent renderings and histories, ASan+UBSan', 'Held on the generated renderings and histories.'),
 'C15': ('server state recorded after every load and compared node by node and edge by edge with the model that generated the files, ASan+UBSan', 'Held on the generated file sequences. Trusts the stand-in server (shim/) for open62541\'s behaviour.'),
 'C16': ('registered type descriptions compared with a natural layout model that a C compiler confirms, ASan+UBSan', 'Held on the generated type sets. LP64 only.'),
 'C17': ('variants read from the server compared with the generated values, ASan+UBSan', 'Held on the generated values. Trusts the stand-in server for storing them.'),
 'C18': ('state dumps along load histories compared with each other and with the model, ASan on every read', 'Held on the generated histories. Trusts the stand-in server.'),
 'C19': ('server state recorded before and after failing loads, log monitor, complete comparison after later loads, ASan+UBSan', 'Held on the generated failures and histories. Trusts the stand-in server.'),
 'C23': ('recorded event traces compared offline with expat\'s trace, ASan+UBSan', 'Held on the explored documents, chunk alignments and stream kinds. Trusts expat as reference.'),
 'C24': ('delivered parent links compared with the declared parents, ASan+UBSan', 'Held on the generated nodesets.'),
}
exec(open(os.path.join(V, 'tools', 'manifest_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'manifest_more.py')) else None
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in props:
    if p in T:
        m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                            'evidence_file': 'evidence/%s.json' % p, 'technique': T[p][0], 'level': 'exploration', 'level_note': T[p][1]})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'check under construction'})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
