"""C24: raw report text stays with its station and time, wherever the clock stands.

A network of stations reports around the clock; the collector stores what has arrived for a station
under one of a few times: late, early, twice, out of order, with the time garbled or missing.
"""
from dst import dmimage, queries
from dst.checks import c08

ID = 'C24'
LEVEL = 'exploration'
BUDGET = {'quick': {'runs': 20000, 'seconds': 80}, 'thorough': {'runs': 300000, 'seconds': 600}}
SHRINK = ('qs', 'cells', 'us', 'ut', 'TEXT', 'SPCL')
# minutes since 2020-01-01 00Z: ends of months and years, leap day, and any time
EDGES = [0, 31 * 1440, 60 * 1440, 59 * 1440, 91 * 1440, 366 * 1440, 424 * 1440, 425 * 1440,
         -365 * 1440, 731 * 1440, 1461 * 1440, 1520 * 1440, 1521 * 1440, 121 * 1440]
WORDS = ['18005KT', '10SM', 'OVC010', 'M01/M03', 'A2992', '+TSRA', 'BR', 'RMK AO2', 'P0001', 'P0003',
         '29010G25KT', '1/2SM', 'FG', 'SLP123', 'NOSIG', '9999', '=', 'VV001']
BADTIMES = ['320000', '000000', '312460', '150099', '992359', '300230', '311200', '290001']


def gen_pieces(rng, many):
    out = []
    for _ in range(rng.weighted([(1, 4), (2, 2), (3, 1), (6, 0.3)]) if many else 1):
        c = rng.random()
        if c < 0.1:
            off = None
        elif c < 0.2:
            off = rng.pick(BADTIMES)
        elif c < 0.7:
            off = rng.randrange(-75, 76)        # around the stored time
        elif c < 0.9:
            off = rng.randrange(-1440, 1441)    # a day late or early
        else:
            off = rng.randrange(-12 * 1440, 12 * 1440)
        body = ' '.join(rng.pick(WORDS) for _ in range(rng.randrange(1, 7)))
        out.append([off, body])
        if many and rng.chance(0.15):
            out.append([off, body])             # delivered twice
    return out


def gen(rng, tier, i):
    src = dmimage.gen_surface(rng)
    base = rng.pick(EDGES) if rng.chance(0.8) else rng.randrange(0, 2000 * 1440)
    nt = rng.randrange(1, 5)
    step = rng.pick([20, 60, 180, 360])
    off = rng.pick([0, 0, -step, -10, 5, step])
    src.update(stype='standard', times=[base + off + (k - nt // 2) * step for k in range(nt)],
               text=rng.pick(['TEXT', 'SPCL', 'both', 'both']), cells=[], ut=[])
    src['params'] = src['params'] or dmimage.gen_pack(rng, ['TMPF'])
    for n, st in enumerate(src['stns']):
        st['icao'] = rng.pick([None, 'KMSN', 'KORD', 'CYYZ', 'K1V4', 'EGLL'])
    kinds = ['TEXT', 'SPCL'] if src['text'] == 'both' else [src['text']]
    for t in range(nt):
        for s, st in enumerate(src['stns']):
            if rng.chance(0.8):
                texts = {k: gen_pieces(rng, st['icao']) for k in kinds if rng.chance(0.75)}
                src['cells'].append([t, s, rng.randrange(2**31), texts])
    qs = []
    for _ in range(rng.weighted([(3, 2), (6, 3), (10, 1)])):
        c = rng.random()
        if c < 0.08:
            qs.append({'m': 'abandon', 'q': queries.gen(rng, 'surface'), 'frac': rng.random(),
                       'exc': rng.pick(['KeyboardInterrupt', 'MemoryError'])})
        elif c < 0.4:
            f = rng.pick(['station_id', 'station_number', 'state', 'country', 'bbox'])
            qs.append({'m': 'near', 'by': f, 'flt': queries.gen_filter(rng, f, near=True),
                       't': rng.randrange(1000), 'off': rng.pick(
                           [0, rng.randrange(-90, 90), rng.randrange(-3000, 3000)]),
                       'as': rng.pick(['dt', 'str']), 'sp': rng.chance(0.8)})
        else:
            q = queries.gen_more(rng, 'surface', qs)
            if q['m'] == 'get':
                q['sp'] = rng.chance(0.7)
            qs.append(q)
    qs.insert(rng.randrange(len(qs) + 1), {'m': 'get', 'f': {}, 'sp': True})
    return {'source': {'src': 'image', **src}, 'qs': qs}


def run(plan, ctx):
    for c in plan['source']['cells']:
        for v in c[3].values():
            for off, _ in v:
                ctx.fault('text:no-time' if off is None else 'text:bad-or-fixed-time'
                          if isinstance(off, str) else 'text:late-or-early' if abs(off) > 75
                          else 'text:on-time')
            if len({tuple(x) for x in v}) < len(v):
                ctx.fault('text:delivered-twice')
    c08.run(plan, ctx)


def nontrivial(plan, res):
    return any(v for c in plan['source']['cells'] for v in c[3].values())


RULE = ('A run is a network of up to five stations whose reports are stored under up to four times '
        'near the end of a month or year (or anywhere): on time, late, early, twice, out of order, '
        'with a garbled or missing time, with station names or not, as routine and special text; '
        'the file is then queried in a seeded history (selections, nearest times, abandoned calls) '
        'and every result compared with the reports put in. Non-trivial: some text was stored.')
MEASURE = 'distinct (method, filters used, outcome, number of results)'
REAL = ['gempakio surface reader (real code)', 'numpy']
STUB = ['file system calls (simulated files)', 'stations, clock and collector (image builder)']
SIMTIME = 'the stations report over up to 18 hours (12 days with late reports) per run, 2019-2025'
ASSUME = ['the month of a text without month is the one that puts it nearest to the stored time',
          'reports are told apart by the station name at their beginning, as in METAR bulletins']
