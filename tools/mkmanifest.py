#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = 'deterministic simulation, seeded search over '
CHECKS = {
    'C01': ('histories of additions, rejections and writes with storage faults; dictionary model',
            'Seeded histories on one grid writer over a simulated file system; every write that '
            'returns is read by an independent file reader and by the library and compared with a '
            'dictionary model. No claim beyond the histories explored; trusts the independent reader.'),
    'C02': ('histories of additions, rejections and writes with storage faults; dictionary model',
            'As C01 for soundings.'),
    'C03': ('histories of additions, rejections and writes with storage faults; dictionary model',
            'As C01 for surface reports.'),
    'C04': ('histories of element edits and writes with storage faults; record-list model',
            'Seeded histories on VGF writers over a simulated file system; written files are walked '
            'by an independent record reader and decoded by the library, compared with a list model. '
            'Trusts that reader and, for attribute values, the library decoder.'),
    'C05': ('storage faults placed in writes; twin-writer oracle',
            'Every fault kind at every placement the seeds reach; expected bytes from a twin writer '
            'that never met a fault. Assumes the simulated raw file reports faults as the OS does.'),
    'C06': ('crash points in writes and cuts of files; prefix oracle',
            'Images torn at seeded byte offsets (crash mid-write, cut, partially reordered blocks '
            'are not included) are opened and queried and compared with the complete file.'),
    'C07': ('read faults and later changes of the file; undisturbed twin oracle',
            'Open under short reads, errors at seeded byte offsets and close errors, then changes '
            'of the file after opening; results compared with an undisturbed twin.'),
    'C08': ('query histories; fresh-object and independent-reader oracle',
            'Seeded query histories on one opened file; each result compared with a fresh object '
            'and the selection with an independent reader.'),
    'C09': ('thread schedules of concurrent queries; sequential twin oracle',
            'Real threads under a seeded scheduler that switches at source-line granularity inside '
            'the package; not finer than a source line.'),
    'C10': ('thread schedules of independent readers and writers; solo-run oracle',
            'As C09, every thread with its own objects; results and bytes compared with a solo run.'),
    'C11': ('damage of stored images; bounded-work and isolation oracle',
            'Seeded damage (bit flips, overwrites, zeroed blocks, inconsistent counts) under step, '
            'CPU and memory budgets.'),
    'C12': ('environments (hash seed, time zone, locale, clock, flags); digest comparison',
            'The same seeded call sequences in separate interpreters under different environments; '
            'results and bytes compared.'),
    'C13': ('histories with caller-side mutation injected after every hand-over; snapshot oracle',
            'Seeded mutation of everything handed in or out; later results and bytes compared with '
            'the snapshot.'),
    'C14': ('interrupt points in calls; uninterrupted twin oracle',
            'KeyboardInterrupt/MemoryError raised at seeded source lines or byte-code instructions '
            'of the package; files and results compared with uninterrupted processes.'),
    'C20': ('sequences of records, deliveries, failed opens and thread schedules; record model',
            'Seeded files of records of all classes and versions, opened in turn or by threads at '
            'once, compared with a model. Trusts the record builder; one known finding.'),
    'C25': ('question histories, abandoned calls and thread schedules; record model',
            'Seeded question histories on one opened file compared with a model of its records '
            'and, for attributes of sample files, with a fresh object.'),
    'C23': ('layouts of the same contents and query orders over several open files; reference model',
            'The same seeded contents stored in two to four layouts, all open at once and asked in '
            'turn; answers compared with each other and with a model. Trusts the image builder.'),
    'C24': ('report streams from a simulated network of stations and clock; reference model',
            'Seeded report streams stored in surface images; texts, times and nearest reports '
            'compared with a model. Trusts the image builder; text is ASCII.'),
}
NA = {
    'C21': 'Pure computation on one sounding: nothing for a scheduler or a fault to decide.',
    'C22': 'Pure computation by pyproj on one header block: no schedule, fault or history.',
    'C26': 'Numerical formulas without state, time or I/O.',
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'dst/checks', i.lower() + '.py')):
            t, note = CHECKS[i]
            checks.append({'property': i, 'quick_cmd': f'./run.py check {i} --tier quick',
                           'thorough_cmd': f'./run.py check {i} --tier thorough',
                           'technique': DST + t, 'level': 'exploration', 'level_note': note})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'Check not built yet.')})
    m = {'version': 1,
         'setup_cmd': '/opt/venv/bin/python -m compileall -q dst run.py || true',
         'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: every seam (open/os, threads, clock, environment) is reached '
                  'from outside. run.py replay FILE re-executes a replay file; run.py selftest checks '
                  'the determinism of the simulator.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
