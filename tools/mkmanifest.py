#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('crash, panic, hang and heap monitor over generated, damaged and CRC-repaired signals', 'every input tried decoded and rendered without panic, crash or hang; nothing is said about inputs not tried'),
 'C02': ('crash, panic, hang and heap monitor over generated and damaged documents', 'every document tried was handled without panic, crash or hang, and so was its result'),
 'C03': ('differential monitor against an independent bit-level reference writer', 'trusts the reference layout in mon/bits.go, written from the standard'),
 'C04': ('differential monitor: emitted bits against an independent reference encoding', 'trusts the reference layout in mon/bits.go, written from the standard'),
 'C05': ('round-trip monitor over reference-made sections and encodings', 'equality by all exported fields and by bytes; E_CRC_32 is outside'),
 'C06': ('monitor of accept/reject decisions under bit errors, against an independent CRC-32', 'trusts the bitwise CRC in mon/bits.go'),
 'C07': ('round-trip monitor through JSON, with re-encoding', 'equality by all exported fields'),
 'C08': ('round-trip monitor through XML, with re-encoding', 'equality by all exported fields'),
 'C09': ('differential monitor: documents against an independent writer and comparer of the published names', 'trusts the name table in mon/doc.go'),
 'C10': ('differential monitor against an independent strict reference parser, on truncated and damaged signals', 'where several errors apply any of their classes is accepted'),
 'C11': ('monitor of descriptor loops with unknown entries against the reference model', 'trusts mon/bits.go'),
 'C12': ('differential monitor: the legacy form against the modern form of the same section', 'private_command has no legacy form and is outside'),
 'C13': ('deep-snapshot monitor over random histories of operations, buffers overwritten afterwards', 'histories tried, single goroutine'),
 'C14': ('race detector over concurrent workloads, results compared with sequential ones', 'interleavings which happened; the race detector reports unsynchronised pairs in executed code'),
 'C15': ('monitor of conversions against exact integer arithmetic over swept ranges', 'ticks up to 2^48, all 32-bit GPS seconds in the thorough tier'),
 'C16': ('differential monitor: table rows against an independent rendering of the model', 'trusts mon/table.go'),
 'C17': ('monitor of both directions of the UPID conversion against an independent one', 'well-formed UPIDs of each type'),
 'C18': ('end-to-end monitor of the built tool against the library and the reference model', 'processes started with generated arguments and standard input'),
 'C19': ('monitor of refusals: sections beyond each limit, and what is emitted is decoded again', 'fields the syntax leaves out are outside'),
 'C20': ('runtime accounting: allocated bytes, executed basic blocks, weak references, live heap and goroutines', 'bounds with generous constants, growth compared at sizes 1:16'),
 'C21': ('monitor of accessors and constructors against the model and the bits of the encoding', 'all values up to 16 bits, a sample of wider ones'),
 'C22': ('differential monitor: the same section alone, nested and streamed; parts alone against parts in the section', 'marshalled by pointer or from addressable memory'),
 'C24': ('differential monitor across processes with different environment, clock, order and history; watch on output and process state', 'one machine and user; text of diagnostics not judged'),
 'C23': ('monitor of refusals: faults injected into documents, target compared before and after', 'null, missing and unknown members are outside'),
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks: the monitors use the exported API, the built tool, the race detector, the coverage counters and the runtime. Known findings and repaired defects are in known_findings.json.'}
for p in props:
    i = p['id']
    m['checks'].append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
        'evidence_file': f'evidence/{i}.json', 'technique': 'runtime monitoring: ' + T[i][0], 'level': 'exploration', 'level_note': T[i][1]})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
