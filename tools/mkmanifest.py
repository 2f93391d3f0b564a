"""Writes MANIFEST.json from properties.jsonl and the table below"""
import json
import re
from pathlib import Path

V = Path(__file__).resolve().parent.parent
TECH = {
    'C01': 'runtime monitoring: generated codecs and lines, round-trip oracle per call',
    'C02': 'runtime monitoring: label sets, bijection oracle, permuted and reloaded runs',
    'C03': 'runtime monitoring: recorded call histories over live codecs compared with fresh ones',
    'C04': 'runtime monitoring: reference longest-prefix matcher beside the real encoder',
    'C05': 'runtime monitoring: derivation checker, enumeration of permutations, 6.5-sigma frequency monitor',
    'C06': 'runtime monitoring: save/load histories, table and encoding comparison',
    'C07': 'runtime monitoring: exact recount (rationals) of every learned vocabulary',
    'C08': 'runtime monitoring: offline replay of each learned merge by naive recount',
    'C09': 'runtime monitoring: repeated and cross-process executions (hash seeds, heaps, gc) compared',
    'C10': 'runtime monitoring: listing round trips, learning from text and listing side by side',
    'C11': 'runtime monitoring: closure oracle over the shrunk model and its encodings',
    'C12': 'runtime monitoring: real process pools with injected delays and errors, order/exactly-once oracle, deadlock watch',
    'C13': 'runtime monitoring: non-commutative reducers on real pools against the ordered fold',
    'C14': 'runtime monitoring: stored records against a reference map, flush and type limits driven',
    'C15': 'runtime monitoring: write/read histories, exactly-once oracle, concurrent part writers',
    'C16': 'runtime monitoring with fault injection: audit-hook at every file operation (exception, exit), kills, disk-full; all-or-nothing oracle',
    'C17': 'runtime monitoring: rows traced by unique tokens, exactly-once and limit oracles per pass',
    'C18': 'runtime monitoring: reference padding oracle per row of every batch',
    'C19': 'runtime monitoring: real Spark runs with forced splits against exact counts',
    'C20': 'runtime monitoring: real Spark database builds, id-keyed record oracle',
    'C21': 'runtime monitoring: the command line (in process and as processes) beside the library',
    'C22': 'runtime monitoring: rational recount of estimates, definitional oracle of divergences',
    'C23': 'runtime monitoring: full recount after every merge beside the tracker',
    'C24': 'runtime monitoring: outputs of the tools recounted with rationals',
    'C25': 'runtime monitoring: random operation histories against executable models',
    'C26': 'runtime monitoring: reference expansion and inverse beside the tool',
    'C27': 'runtime monitoring: IO histories with errors and abandoned streams, byte and descriptor oracles',
    'C28': 'runtime monitoring: generated well-formed words, reference conversion and inverse beside the tool',
}
NOTE = ('Held on the executions observed (the numbers are in the evidence file); not a proof. Trusts the oracle in mon/, CPython and the '
        'installed libraries. Exits 3 (inconclusive) when the monitors saw too little.')
EXTRA = {
    'C16': ' Fault points: every file-system operation that CPython audits in the writing process, for each scenario; power loss (fsync order) is outside.',
    'C12': ' Process schedules are those of the real pool, with injected delays; not all schedules.',
    'C13': ' Process schedules are those of the real pool, with injected delays; not all schedules.',
    'C19': ' Local-mode Spark only.', 'C20': ' Local-mode Spark only.',
}
props = [json.loads(l) for l in (V / 'properties.jsonl').read_text().splitlines() if l.strip()]
checks = []
for p in props:
    pid = p['id']
    src = (V / 'mon' / 'checks' / f'{pid.lower()}.py').read_text()
    m = re.search(r"^LEVEL = '(\w+)'", src, re.M)
    checks.append({'property': pid, 'quick_cmd': f'./run.sh {pid} --tier quick', 'thorough_cmd': f'./run.sh {pid} --tier thorough',
                   'evidence_file': f'evidence/{pid}.json', 'technique': TECH[pid], 'level': m.group(1) if m else 'exploration',
                   'level_note': NOTE + EXTRA.get(pid, '')})
man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [],
       'notes': 'Pure Python; no hooks in /repo: the monitors work at its public API, the file system (audit hook) and processes. '
                'Nothing is built: each check imports /repo from its working tree with byte-code caches off. '
                'Findings: KNOWN_FINDINGS.txt. Design: DESIGN.md.'}
(V / 'MANIFEST.json').write_text(json.dumps(man, indent=1) + '\n')
