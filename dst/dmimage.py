"""Builder of GEMPAK data-management file images as other programs write them.

Covers what the library's own writers never produce: both byte orders, all readable packings,
packed and unmerged soundings with text, ship and climate surface files, unused headers, blocks in
any order with gaps between them.  A spec is JSON; `build(spec)` gives an `Image` with the bytes and
the entries that must be read back.  Shares no code with gempakio.
"""
import struct
from datetime import datetime, timedelta

import numpy as np

MAGIC = b'GEMPAK DATA MANAGEMENT FILE '
MISSING = -9999.0
GRID_TYPE = ['analysis', 'forecast', 'guess', 'initial']
COORD = ['none', 'pres', 'thta', 'hght', 'sgma', 'dpth', 'hybd', 'pvab', 'pvbl']
VARNAME = {'PRES': 'p', 'HGHT': 'z', 'THTA': 'theta'}
PARMS = ['TMPK', 'HGHT', 'UREL', 'VREL', 'PRES', 'THTA', 'PMSL', 'CAPE05', 'TMPKLONGNAME', 'X']
STIDS = ['MSN', 'OUN', 'LWC', 'KMSN', 'A', 'ABCDEFGH', '72357', '']
STATES = ['WI', 'OK', 'TX', '--', 'W']
COUNTRIES = ['US', 'CN', 'MX', '--']
BASES = {'grid': datetime(2020, 1, 1), 'sounding': datetime(2020, 1, 1)}


class Image:
    """Bytes of a file and the entries it stores, in file order."""

    def __init__(self, kind, data, entries, **more):
        self.kind, self.data, self.entries = kind, data, entries
        self.more = more


def pad4(s, n=1):
    return s.encode().ljust(4 * n)[:4 * n]


class Writer:
    """Assembles blocks: name -> list of 4-byte words (bytes)."""

    def __init__(self, endian, seed):
        self.e = endian
        self.g = np.random.Generator(np.random.PCG64(seed))

    def i(self, *v):
        return struct.pack(f'{self.e}{len(v)}i', *v)

    def f(self, *v):
        return struct.pack(f'{self.e}{len(v)}f', *v)

    def headers(self, desc):
        """Give the data of each part a header of another length."""
        parts = [dict(p) for p in desc['parts']]
        cells = {}
        for (i, j, k), body in desc['cells'].items():
            old, new = parts[k]['header'], desc['hdr'][k % len(desc['hdr'])]
            more = self.i(*[int(x) for x in self.g.integers(-9, 3000, max(new - old, 0))])
            cells[i, j, k] = body[:4 * min(old, new)] + more + body[4 * old:]
        for k, p in enumerate(parts):
            p['header'] = desc['hdr'][k % len(desc['hdr'])]
        desc.update(parts=parts, cells=cells)

    def assemble(self, desc, shuffle, gap):
        """desc: file/row/col keys, headers, parts, cells {(i,j,k): bytes after length word}."""
        nrow, ncol, nprt = len(desc['rows']), len(desc['cols']), len(desc['parts'])
        if desc['hdr']:
            self.headers(desc)
        blocks = {}
        fk = b''
        for n, _ in desc['fheaders']:
            fk += pad4(n)
        for _, b in desc['fheaders']:
            fk += self.i(len(b) // 4)
        for _ in desc['fheaders']:
            fk += self.i(1)
        for _, b in desc['fheaders']:
            fk += self.i(len(b) // 4) + b
        blocks['fk'] = fk
        blocks['rk'] = b''.join(pad4(k) for k in desc['rowkeys'])
        blocks['ck'] = b''.join(pad4(k) for k in desc['colkeys'])

        def heads(hs, nk):
            out = b''
            for h in hs:
                if h is None:
                    junk = [int(x) for x in self.g.integers(-2**31, 2**31, nk)]
                    out += self.i(-9999, *junk)
                else:
                    out += self.i(9999) + h
            return out
        blocks['rh'] = heads(desc['rows'], len(desc['rowkeys']))
        blocks['ch'] = heads(desc['cols'], len(desc['colkeys']))
        ps = desc['parts']
        allp = [q for p in ps for q in p['params']]
        blocks['pt'] = (b''.join(pad4(p['name']) for p in ps) + self.i(*[p['header'] for p in ps])
                        + self.i(*[p['type'] for p in ps])
                        + self.i(*[len(p['params']) for p in ps])
                        + b''.join(pad4(q[0]) for q in allp) + self.i(*[q[1] for q in allp])
                        + self.i(*[q[2] for q in allp]) + self.i(*[q[3] for q in allp]))
        blocks['dm'] = self.i(*([0] * 32))
        blocks['db'] = bytes(4 * nrow * ncol * nprt)
        for c in sorted(desc['cells']):
            body = desc['cells'][c]
            blocks[('cell', c)] = self.i(len(body) // 4) + body
        order = list(blocks)
        if shuffle:
            order = [order[k] for k in self.g.permutation(len(order))]
        pos, at = 33, {}
        chunks = []
        for name in order:
            if gap and self.g.random() < 0.3:
                n = int(self.g.integers(1, 6))
                chunks.append(self.g.integers(0, 256, 4 * n, dtype=np.uint8).tobytes())
                pos += n
            at[name] = pos
            chunks.append(blocks[name])
            pos += len(blocks[name]) // 4
        out = bytearray(128) + b''.join(chunks)
        for (i, j, k) in desc['cells']:
            w = at['db'] + (i * ncol + j) * nprt + k
            out[(w - 1) * 4:w * 4] = self.i(at[('cell', (i, j, k))])
        out[:28] = MAGIC
        lab = [1, len(desc['fheaders']), at['fk'], nrow, len(desc['rowkeys']), at['rk'], at['rh'],
               ncol, len(desc['colkeys']), at['ck'], at['ch'], nprt, at['pt'], at['dm'], 32,
               at['db'], desc['ftype'], desc['source'], 2 if self.e == '>' else 11, -9999]
        out[28:28 + 80] = self.i(*lab)
        out[120:124] = self.f(MISSING)
        if gap:
            out += bytes(4 * int(self.g.integers(0, 4)))
        return bytes(out)


def packbits(vals, bits, endian):
    """Values of `bits` bits each, packed most significant bit first into words."""
    v = np.asarray(vals, dtype=np.uint64)
    b = ((v[:, None] >> np.arange(bits - 1, -1, -1, dtype=np.uint64)) & 1).astype(np.uint8).ravel()
    b = np.concatenate([b, np.zeros((-len(b)) % 32, np.uint8)])
    return np.packbits(b).view('>u4').astype(endian + 'u4').tobytes()


# --------------------------------------------------------------------------------------------
# grids


def side(rng, hi):
    return rng.randrange(*rng.weighted([((2, hi), 90), ((1, 3), 7), ((20, 70), 3)]))


def gen_grid(rng, small=True):
    n = rng.weighted([(1, 1), (3, 3), (6, 3), (12, 1)])
    cols = []
    times = [rng.randrange(-400, 4000) * 30 for _ in range(rng.randrange(1, 4))]
    for _ in range(n):
        c = {'p': rng.pick(PARMS), 't1': rng.pick(times), 'ty': rng.weighted(
            [(0, 3), (1, 4), (2, 1), (3, 1)]), 'f1': rng.pick([0, 600, 1200, 12000, 615, 30]),
            'l1': rng.pick([850, 500, 0, 2, 1000]), 'l2': rng.weighted(
                [(-1, 5), (500, 1), (0, 1), (10, 1)]), 'vc': rng.pick(COORD[:4]),
            'pk': rng.pick(['none', 'grib', 'grib', 'dec', 'diff']), 'bits': rng.weighted(
                [(16, 2), (12, 1), (8, 1), (1, 1), (31, 0.5), (rng.randrange(2, 25), 3)]),
            'miss': rng.chance(0.5), 's': rng.randrange(2**31)}
        if rng.chance(0.1):
            c['vc'] = 'LAYR'
        if rng.chance(0.25):
            c['t2'] = rng.pick(times)
            c['f2'] = rng.pick([0, 600, 1200])
        cols.append(c)
    return {'kind': 'grid', 'e': rng.pick('<>'), 's': rng.randrange(2**31),
            'kx': side(rng, 9), 'ky': side(rng, 8), 'cols': cols,
            'unused': sorted(rng.randrange(n + 1) for _ in range(rng.weighted(
                [(0, 3), (1, 2), (3, 1)]))),
            'shuffle': rng.chance(0.3), 'gap': rng.chance(0.3), 'proj': rng.pick(
                ['CED', 'LCC', 'STR', 'MER', *NAVS]), 'anl': rng.pick([1, 2, 0])}


# projection, angles and corners (latitude and longitude)
NAVS = {
    'CED': ((0, 0, 0), (25, -110), (45, -80)), 'LCC': ((30, -100, 60), (25, -110), (45, -80)),
    'STR': ((90, -100, 0), (25, -110), (45, -80)), 'MER': ((0, 0, 0), (25, -110), (45, -80)),
    'CEDworld': ((0, 0, 0), (-90, 0), (90, 359)), 'CEDpac': ((0, 0, 0), (-30.5, 150), (20, 250)),
    'CEDrot': ((0, 0, 45), (-5, -10), (5, 30.25)), 'CEDnorth': ((0, -97, 0), (60, -110), (20, -80)),
    'MCD': ((0, -100, 0), (25, -120), (55, -80)), 'MCDk': ((1.5, -100, 0), (-25, -120), (55, -80)),
    'MERpac': ((0, 0, 0), (-40, 160), (60, 220)), 'NPS': ((90, -100, 0), (25, -110), (45, -80)),
    'SPS': ((-90, 0, 0), (-60, -45), (-70, 60)), 'NOR': ((90, -100, 0), (45, -135), (55, -60)),
    'SOR': ((-90, 0, 0), (-60, -45), (-70, 60)), 'ORT': ((60, -100, 0), (45, -120), (60, -80)),
    'AED': ((60, -100, 0), (35, -120), (60, -80)), 'LEA': ((40, -100, 0), (25, -120), (55, -80)),
    'GNO': ((60, -100, 0), (45, -120), (60, -80)), 'SCC': ((-30, -100, -60), (-45, -120), (-25, -80)),
    'LCCtan': ((25, -95, 25), (12.19, -133.459), (57.29, -49.385))}


def grid_values(c, kx, ky, w):
    """(packed bytes after the packing word, expected float32 array with nan = missing)."""
    g = np.random.Generator(np.random.PCG64(c['s']))
    n = kx * ky
    miss = g.random(n) < 0.2 if c['miss'] else np.zeros(n, bool)
    if c['pk'] == 'none':
        v = np.round(g.normal(0, 100, n), 2).astype('f4')
        stored = np.where(miss, np.float32(MISSING), v)
        return 0, stored.astype(w.e + 'f4').tobytes(), np.where(miss, np.nan, v).reshape(ky, kx)
    bits = c['bits']
    ref = float(g.integers(-2000, 2000)) / 4
    scale = 2.0 ** -int(g.integers(0, 6))
    top = 2**bits - 1
    raw = g.integers(0, top + (0 if c['miss'] else 1), n).astype(np.uint64)
    raw[miss] = top
    if c['pk'] in ('grib', 'dec'):
        body = (w.i(bits, int(c['miss']), n) + w.f(ref, scale) + packbits(raw, bits, w.e))
        v = (ref + raw.astype('f8') * scale).astype('f4')
        return (1 if c['pk'] == 'grib' else 4), body, np.where(miss, np.nan, v).reshape(ky, kx)
    # differences
    bits = min(bits, 8)
    top = 2**bits - 1
    raw = g.integers(0, top + (0 if c['miss'] else 1), n).astype(np.uint64)
    raw[miss] = top
    diffmin = -scale * float(top // 2)
    body = (w.i(bits, int(c['miss']), n, kx) + w.f(ref, scale, diffmin)
            + packbits(raw, bits, w.e))
    out = np.full((ky, kx), np.nan)
    first, plin = True, None
    k = 0
    for j in range(ky):
        prev = None
        for i in range(kx):
            if not miss[k]:
                if first:
                    val, first = ref, False
                else:
                    val = (plin if prev is None else prev) + diffmin + float(raw[k]) * scale
                if prev is None:
                    plin = val
                prev = val
                out[j, i] = val
            k += 1
    return 3, body, out.astype('f4')


def gdt(t, ty):
    if ty == 0:
        return int(t.strftime('%y%m%d')), int(t.strftime('%H%M'))
    return int(t.strftime('%m%d%y%H%M')), None


def build_grid(s):
    w = Writer(s['e'], s['s'])
    kx, ky = s['kx'], s['ky']
    angles, ll, ur = NAVS[s['proj']]
    nav = w.f(2.0) + pad4(s['proj'][:3]) + w.f(1, 1, kx, ky, *ll, *ur, *angles)
    area = {'corners': (*ll, *ur), 'even': s['proj'][:3] in ('CED', 'MCD')}
    nav = nav.ljust(1024, b'\0')
    anl = w.f(float(s['anl']), 1.0).ljust(512, b'\0')
    cols, cells, entries = [], {}, []
    c = list(s['cols'])
    for u in sorted(s['unused'], reverse=True):
        c.insert(min(u, len(c)), None)
    no = 0
    for j, x in enumerate(c):
        if x is None:
            cols.append(None)
            continue
        t1 = BASES['grid'] + timedelta(minutes=x['t1'])
        d1, hm = gdt(t1, x['ty'])
        if x['ty'] == 0:
            g1, v1 = hm, t1
        else:
            g1 = x['ty'] * 100000 + x['f1']
            v1 = t1 + timedelta(hours=x['f1'] // 100, minutes=x['f1'] % 100)
        d2 = g2 = 0
        v2 = None
        if 't2' in x:
            t2 = BASES['grid'] + timedelta(minutes=x['t2'])
            d2, hm = gdt(t2, x['ty'])
            if x['ty'] == 0:
                g2, v2 = hm, t2
            else:
                g2 = x['ty'] * 100000 + x['f2']
                v2 = t2 + timedelta(hours=x['f2'] // 100, minutes=x['f2'] % 100)
        vc = COORD.index(x['vc']) if x['vc'] in COORD else struct.unpack(
            w.e + 'i', pad4(x['vc']))[0]
        cols.append(w.i(d1, g1, d2, g2, x['l1'], x['l2'], vc) + pad4(x['p'], 3))
        if x['vc'] not in COORD and vc <= 8:
            raise AssertionError
        pk, body, val = grid_values(x, kx, ky, w)
        cells[(0, j, 0)] = w.i(kx, ky, pk) + body
        p = x['p'][:12]
        lev = [v if v >= 0 else None for v in (x['l1'], x['l2'])]
        # the eighth coordinate and beyond are stored as a name
        coord = x['vc'].upper()
        entries.append({'no': no, 'TYPE': GRID_TYPE[x['ty']], 'DATTIM1': v1, 'DATTIM2': v2,
                        'PARM': p, 'LEVEL1': lev[0], 'LEVEL2': lev[1], 'COORD': coord, 'area': area,
                        'value': val, 'var': VARNAME.get(p, p.lower())})
        no += 1
    desc = {'fheaders': [('NAVB', nav), ('ANLB', anl)], 'rowkeys': ['GRID'],
            'rows': [w.i(1)], 'cols': cols, 'cells': cells, 'ftype': 3, 'source': 4, 'hdr': s.get('hdr'),
            'colkeys': ['GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD', 'GPM1', 'GPM2',
                        'GPM3'],
            'parts': [{'name': 'GRID', 'header': 2, 'type': 5, 'params': [('GRID', 0, 0, 0)]}]}
    return Image('grid', w.assemble(desc, s['shuffle'], s['gap']), entries)


# --------------------------------------------------------------------------------------------
# stations


def gen_station(rng):
    return {'id': rng.pick(STIDS), 'n': rng.pick([72357, 0, 1, 72645, 99999]),
            'la': rng.randrange(-8999, 9000), 'lo': rng.randrange(-17999, 18000),
            'el': rng.randrange(-50, 4000), 'st': rng.pick(STATES), 'co': rng.pick(COUNTRIES)}


def gen_time(rng, few):
    return rng.pick(few) if few and rng.chance(0.7) else rng.randrange(0, 50 * 1440, 15)


STKEYS = ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2', 'SPRI']


def station_words(w, st):
    i = st['id'].ljust(8)
    return (pad4(i[:4]) + w.i(st['n'], st['la'], st['lo'], st['el']) + pad4(st['st'])
            + pad4(st['co']) + pad4(i[4:]) + w.i(0))


def station_info(st):
    # both halves are stripped on their own
    return {'ID': st['id'][:4].strip() + st['id'][4:].strip(), 'NUMBER': st['n'],
            'LAT': st['la'] / 100, 'LON': st['lo'] / 100, 'ELEV': st['el'], 'STATE': st['st'],
            'COUNTRY': st['co']}


def when(m):
    return BASES['sounding'] + timedelta(minutes=m)


def time_words(w, m):
    t = when(m)
    return w.i(int(t.strftime('%y%m%d')), int(t.strftime('%H%M')))


def place(s, key, items):
    """Items with unused slots inserted."""
    out = list(items)
    for u in sorted(s[key], reverse=True):
        out.insert(min(u, len(out)), None)
    return out


def gen_pack(rng, params):
    """[name, scale, offset, bits] for packed parameters."""
    return [[p, rng.pick([-2, -1, 0, 0, 1]), rng.pick([0, 0, -100, 50]), rng.pick(
        [8, 11, 14, 16, 20, 32])] for p in params]


def pack_words(w, acc, n):
    """Fields fill each word from its least significant bit."""
    return struct.pack(f'{w.e}{n}I', *[(acc >> (32 * q)) & 0xFFFFFFFF for q in range(n)])


def packed_reals(w, g, params, nlev, fixed=None):
    """Levels of packed reals: (words, expected[level][param])."""
    total = sum(p[3] for p in params)
    pw = (total - 1) // 32 + 1
    out, exp = b'', []
    for lev in range(nlev):
        acc = at = 0
        row = []
        for k, (_, sc, of, bits) in enumerate(params):
            if fixed is not None and k == 0:
                v = fixed[lev]
            else:
                v = int(g.integers(0, 2**bits - 1))
                if g.random() < 0.15:
                    v = 2**bits - 1
            acc |= v << at
            at += bits
            row.append(np.nan if v == 2**bits - 1 else (v + of) * 10.0**sc)
        out += pack_words(w, acc, pw)
        exp.append(row)
    return out, exp


def gen_sounding(rng, small=True):
    few = [0, 720, 1440]
    nr, nc = rng.randrange(1, 4), rng.randrange(1, 5)
    mode = rng.weighted([('real', 3), ('pack', 3), ('unmerged', 3)])
    s = {'kind': 'sounding', 'e': rng.pick('<>'), 's': rng.randrange(2**31), 'mode': mode,
         'rows': [gen_time(rng, few) for _ in range(nr)],
         'cols': [gen_station(rng) for _ in range(nc)],
         'ur': [rng.randrange(nr + 1)] if rng.chance(0.3) else [],
         'uc': [rng.randrange(nc + 1) for _ in range(rng.weighted([(0, 3), (1, 2), (2, 1)]))],
         'shuffle': rng.chance(0.3), 'gap': rng.chance(0.3), 'std2': rng.chance(0.7),
         'cells': []}
    params = ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT'][:rng.randrange(2, 7)]
    s['params'] = gen_pack(rng, params)
    s['params'][0] = ['PRES', 0, 0, 16]
    full = rng.pick([0.75, 0.75, 0.35, 1])
    for i in range(nr):
        for j in range(nc):
            if rng.chance(full):
                s['cells'].append([i, j, rng.weighted([(3, 2), (1, 1), (6, 2), (12, 1)]),
                                   rng.randrange(2**31)])
    if mode == 'unmerged':
        s['text'] = rng.chance(0.5)
        s['pack'] = rng.chance(0.6)
        s['have'] = [p for p in ('PPAA', 'TTBB', 'PPBB', 'TTCC', 'TTDD', 'PPDD', 'TRPA', 'MXWA')
                     if rng.chance(0.6)]
        if s['text'] and rng.chance(0.3):
            s['texts'] = rng.sample(['TXTA', 'TXTB', 'TXTC', 'TXPB'], rng.randrange(1, 5))
        if rng.chance(0.5):     # what else real reports hold
            s['odd'] = rng.pick([0.1, 0.3])
            s['have'] += [p for p in ('PPCC', 'TRPC', 'MXWC') if rng.chance(0.5)]
            s['man'] = not s['have'] or rng.chance(0.85)
            s['isobaric'] = [p for p in ('PPBB', 'PPDD') if rng.chance(0.4)]
    return s


UNMERGED = {
    'TTAA': ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT'], 'PPAA': ['PRES', 'DRCT', 'SPED'],
    'TRPA': ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED'], 'MXWA': ['PRES', 'DRCT', 'SPED'],
    'TTBB': ['PRES', 'TEMP', 'DWPT'], 'PPBB': ['HGHT', 'DRCT', 'SPED'],
    'TTCC': ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT'], 'TTDD': ['PRES', 'TEMP', 'DWPT'],
    'PPDD': ['HGHT', 'DRCT', 'SPED'], 'PPCC': ['PRES', 'DRCT', 'SPED'],
    'TRPC': ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED'], 'MXWC': ['PRES', 'DRCT', 'SPED']}
UPACK = {'PRES': (-1, 0, 14), 'TEMP': (-1, -1000, 11), 'DWPT': (-1, -1000, 11),
         'DRCT': (0, 0, 9), 'SPED': (0, 0, 8), 'HGHT': (0, -200, 16)}


def odd_levels(g, name, pres):
    """Levels of other reports: few, repeated or shared with other parts."""
    if name in ('TTCC', 'PPCC', 'TTDD', 'TRPC', 'MXWC'):
        pool = [70.0, 50.0, 30.0, 20.0, 62.5, 41.5, 10.0, 7.0, 5.0]
    else:
        pool = [985.0, 1000.0, 925.0, 850.0, 700.0, 500.0, 400.0, 300.0, 250.0, 200.0, 911.0, 226.0]
    c = g.random()
    if c < 0.25:
        return pres[:1]
    if name[:2] in ('TR', 'MX'):
        pres = [float(x) for x in g.choice(pool, int(g.integers(1, 4)), replace=False)]
        return sorted(pres, reverse=True) if c < 0.8 else pres
    if c < 0.5 and name != 'TTAA':
        return sorted({*pres, *(float(x) for x in g.choice(pool, 3))}, reverse=True)
    if c < 0.6:
        return pres + pres[-1:]
    if c < 0.7 and name == 'TTAA':
        return [1071.0, *pres[1:]]
    return pres


def unmerged_part(w, g, name, pack, odd=0, isobaric=False):
    """Plausible levels of one part: bytes and values."""
    pars = UNMERGED[name]
    if isobaric:
        pars = ['PRES', *pars[1:]] if pack else pars
    if name in ('TTAA', 'PPAA'):
        pres = [985.0, 1000.0, 925.0, 850.0, 700.0, 500.0, 400.0, 300.0, 250.0, 200.0]
        pres = pres[:int(g.integers(3, 11))]
    elif name == 'TTCC':
        pres = [70.0, 50.0, 30.0, 20.0][:int(g.integers(1, 5))]
    elif name == 'TTDD':
        pres = sorted((float(x) / 10 for x in g.integers(200, 990, 3)), reverse=True)
    elif name == 'TTBB':
        pres = [985.0] + sorted((float(x) for x in g.integers(110, 980, int(g.integers(1, 8)))),
                                reverse=True)
    elif name in ('TRPA', 'MXWA'):
        pres = [float(g.integers(110, 300))]
    elif name in ('PPCC', 'TRPC', 'MXWC'):
        pres = [70.0, 50.0, 30.0][:int(g.integers(1, 4))]
    elif isobaric:
        pres = sorted((float(x) for x in g.integers(*((110, 980) if name == 'PPBB' else (5, 99)),
                                                    int(g.integers(1, 7)))), reverse=True)
    else:
        pres = [0.0] + sorted(float(x) * 10 for x in g.integers(50, 1500, int(g.integers(1, 7))))
    if odd and (name not in ('PPBB', 'PPDD') or isobaric):
        pres = odd_levels(g, name, pres)
    elif odd and g.random() < 0.4:
        pres = pres[1:]
    rows = []
    for p in pres:
        v = {'PRES': p, 'HGHT': round(44330 * (1 - (p / 1013.25) ** 0.19)) if 'PRES' in pars else p,
             'TEMP': round(float(15 - 0.0065 * 44330 * (1 - (max(p, 1) / 1013.25) ** 0.19)
                                 if 'PRES' in pars else 0), 1),
             'DRCT': float(g.integers(0, 36) * 10), 'SPED': float(g.integers(0, 60))}
        v['DWPT'] = round(v['TEMP'] - float(g.integers(1, 20)), 1)
        for k in pars:
            if g.random() < 0.1 and rows and not (
                    k == 'PRES' or (k == 'HGHT' and 'PRES' not in pars)):
                v[k] = None
        if name == 'TTAA' and p > pres[0]:      # below ground: no temperature
            v['TEMP'] = v['DWPT'] = None
        for k in pars:
            if odd and g.random() < (odd if k != 'PRES' else odd / 3):
                v[k] = None
        if isobaric and not pack:       # a pressure in place of the height
            v['HGHT'] = None if v['HGHT'] is None else -p
        rows.append([v[k] for k in pars])
    rows = [[None if x is None else float(np.float32(x)) for x in r] for r in rows]
    out = b''
    if not pack:
        for r in rows:
            out += w.f(*[MISSING if x is None else x for x in r])
        return out, [dict(zip(pars, r, strict=True)) for r in rows]
    total = sum(UPACK[k][2] for k in pars)
    pw = (total - 1) // 32 + 1
    for r in rows:
        acc = at = 0
        for n, (k, x) in enumerate(zip(pars, r, strict=True)):
            sc, of, bits = UPACK[k]
            f = 2**bits - 1 if x is None else min(max(int(round(x / 10.0**sc)) - of, 0), 2**bits - 2)
            acc |= f << at
            at += bits
            r[n] = None if x is None else (f + of) * 10.0**sc
        out += pack_words(w, acc, pw)
    return out, [dict(zip(pars, r, strict=True)) for r in rows]


def mandatory_levels(parts):
    """Levels that every merged sounding has: complete mandatory ones above all before them."""
    out, low = [], [abs(r.get('PRES') or r.get('HGHT') or 2000)
                    for n in ('TTBB', 'PPBB') for r in parts.get(n, [])[:1]]
    for n, r in enumerate(parts.get('TTAA', [])):
        p = r['PRES']
        if p is None:
            continue
        if n and p < min(low, default=2000) and r['TEMP'] is not None and r['HGHT'] is not None:
            out.append(r)
        low.append(p)
    return out


def build_sounding(s):
    w = Writer(s['e'], s['s'])
    rows = place(s, 'ur', list(enumerate(s['rows'])))
    cols = place(s, 'uc', list(enumerate(s['cols'])))
    ri = {r[0]: n for n, r in enumerate(rows) if r is not None}
    ci = {c[0]: n for n, c in enumerate(cols) if c is not None}
    nk = 9 if s['std2'] else 7
    cells, entries = {}, []
    unm = s['mode'] == 'unmerged'
    if unm:
        pack = s['pack']
        names = (['TTAA'] if s.get('man', True) else []) + s['have']
        iso = s.get('isobaric', [])
        pars = {n: ['PRES', *UNMERGED[n][1:]] if n in iso and pack else UNMERGED[n] for n in names}
        parts = [{'name': n, 'header': 1, 'type': 4 if pack else 1, 'params': [
            (p, *UPACK[p]) if pack else (p, 0, 0, 0) for p in pars[n]]} for n in names]
        if s['text']:
            parts += [{'name': n, 'header': 1, 'type': 3, 'params': [('TEXT', 0, 0, 0)]}
                      for n in s.get('texts', ('TXTA', 'TXTB'))]
    else:
        parts = [{'name': 'SNDT', 'header': 1, 'type': 4 if s['mode'] == 'pack' else 1,
                  'params': [tuple(p) if s['mode'] == 'pack' else (p[0], 0, 0, 0)
                             for p in s['params']]}]
    have = set()
    for i, j, nlev, seed in s['cells']:
        if i >= len(s['rows']) or j >= len(s['cols']) or (i, j) in have:
            continue
        have.add((i, j))
        g = np.random.Generator(np.random.PCG64(seed))
        st = s['cols'][j]
        e = {'no': (i, j), 'DTNO': i, 'SNDNO': j, 'DATTIM': when(s['rows'][i]), **station_info(st)}
        if not s['std2']:
            e['ID'] = st['id'][:4].strip()
        if unm:
            raw = {}
            for k, p in enumerate(parts):
                if p['type'] == 3:
                    if g.random() < 0.7:
                        t = f'{p["name"]} {int(g.integers(10000, 99999))} {st["id"]}'
                        t = t.ljust(-(-len(t) // 4) * 4)
                        cells[(ri[i], ci[j], k)] = w.i(1200) + t.encode()
                        e.setdefault('text', {})[p['name'].lower()] = t.strip()
                elif k == 0 or g.random() < 0.8:
                    body, rows_ = unmerged_part(w, g, p['name'], s['pack'], s.get('odd', 0),
                                                p['name'] in iso)
                    cells[(ri[i], ci[j], k)] = w.i(1200) + body
                    raw[p['name']] = rows_
            e['levels'], e['mandatory'] = None, mandatory_levels(raw)
        else:
            pres = sorted((int(x) for x in g.choice(1000, nlev, replace=False) + 50), reverse=True)
            if g.random() < 0.3:
                pres = pres[1:] + pres[:1]
            if s['mode'] == 'pack':
                body, lev = packed_reals(w, g, s['params'], nlev, fixed=pres)
            else:
                v = np.round(g.normal(0, 30, (nlev, len(s['params']))), 1).astype('f4')
                v[:, 0] = pres
                m = g.random(v.shape) < 0.1
                m[:, 0] = False
                body = np.where(m, np.float32(MISSING), v).astype(w.e + 'f4').tobytes()
                lev = np.where(m, np.nan, v)
            cells[(ri[i], ci[j], 0)] = w.i(1200) + body
            lev = np.array(lev, dtype='f8')
            e['levels'] = lev[np.argsort(-lev[:, 0], kind='stable')]
            e['params'] = [p[0].lower() for p in s['params']]
        entries.append(e)
    entries.sort(key=lambda e: e['no'])
    desc = {'fheaders': [], 'rowkeys': ['DATE', 'TIME'], 'rows': [
        None if r is None else time_words(w, r[1]) for r in rows],
        'colkeys': STKEYS[:nk], 'cols': [None if c is None else station_words(w, c[1])[:nk * 4]
                                         for c in cols],
        'parts': parts, 'cells': cells, 'ftype': 2, 'source': 2, 'hdr': s.get('hdr')}
    return Image('sounding', w.assemble(desc, s['shuffle'], s['gap']), entries)


# --------------------------------------------------------------------------------------------
# surface


def gen_surface(rng, small=True):
    few = [0, 60, 120, 180]
    stype = rng.weighted([('standard', 4), ('ship', 2), ('climate', 2)])
    nt, ns = rng.randrange(1, 5), rng.randrange(1, 6)
    s = {'kind': 'surface', 'e': rng.pick('<>'), 's': rng.randrange(2**31), 'stype': stype,
         'times': [gen_time(rng, few) for _ in range(nt)],
         'stns': [gen_station(rng) for _ in range(ns)],
         'ut': [rng.randrange(nt + 1)] if rng.chance(0.3) else [],
         'us': [rng.randrange(ns + 1) for _ in range(rng.weighted([(0, 3), (1, 2), (2, 1)]))],
         'shuffle': rng.chance(0.3), 'gap': rng.chance(0.3), 'pack': rng.chance(0.4),
         'text': rng.pick(['', '', 'TEXT', 'SPCL', 'both']) if stype == 'standard' else
         rng.pick(['', '', 'WTHR']), 'cells': []}
    if stype == 'standard' and nt == 1:
        s['ut'] = []
    s['params'] = gen_pack(rng, ['TMPF', 'DWPF', 'SKNT', 'DRCT', 'PMSL'][:rng.randrange(1, 6)])
    if stype == 'ship':
        for i in range(rng.randrange(1, 9)):
            s['cells'].append([rng.randrange(nt), rng.randrange(ns), rng.randrange(2**31)])
    else:
        full = rng.pick([0.75, 0.75, 0.35, 1])
        for i in range(nt):
            for j in range(ns):
                if rng.chance(full):
                    s['cells'].append([i, j, rng.randrange(2**31)])
    return s


def report_text(w, g, stid, t, special):
    """Words of a raw report block and the reports [(datetime or None, text)] in it."""
    out = []
    full = stid if len(stid) == 4 and stid[0].isalpha() and stid.isupper() else None
    for _ in range(int(g.choice([1, 1, 1, 2, 3])) if full else 1):
        body = f'{int(g.integers(0, 36)):02d}0{int(g.integers(3, 30)):02d}KT 10SM'
        if g.random() < 0.75:
            hh, mm = int(g.integers(0, 24)), int(g.integers(0, 60))
            out.append((t.replace(hour=hh, minute=mm), f'{t.day:02d}{hh:02d}{mm:02d}Z {body}'))
        else:
            out.append((None, body.lower()))
    texts = [(a, (f'{full} {b}' if full else b)) for a, b in out]
    whole = ' '.join(b for _, b in texts)
    words = whole.ljust(-(-len(whole) // 4) * 4).encode()
    return words, [((a or t), b) for a, b in texts]


def nearest_month(t, day, hh, mm):
    """The time with this day, hour and minute that lies nearest to t (t if there is none)."""
    best = None
    for months in range(-1, 2):
        k = t.year * 12 + t.month - 1 + months
        try:
            c = datetime(k // 12, k % 12 + 1, day, hh, mm)
        except ValueError:
            continue
        if best is None or abs(c - t) < abs(best - t):
            best = c
    return best or t


def given_text(icao, pieces, t):
    """As report_text for a list of [offset in minutes, None or digits; body]."""
    out = []
    for off, body in pieces:
        a, stamp = t, ''
        if isinstance(off, str):
            a, stamp = nearest_month(t, int(off[:2]), int(off[2:4]), int(off[4:6])), off + 'Z '
        elif off is not None:
            a = t + timedelta(minutes=off)
            stamp = f'{a:%d%H%M}Z '
        out.append((a, f'{icao} {stamp}{body}' if icao else stamp + body))
    whole = ' '.join(b for _, b in out)
    return whole.ljust(-(-len(whole) // 4) * 4).encode(), out


def build_surface(s):
    w = Writer(s['e'], s['s'])
    params = s['params']
    parts = [{'name': 'SFDT', 'header': 1, 'type': 4 if s['pack'] else 1, 'params': [
        tuple(p) if s['pack'] else (p[0], 0, 0, 0) for p in params]}]
    tx = {'TEXT': ['TEXT'], 'SPCL': ['SPCL'], 'both': ['TEXT', 'SPCL'], 'WTHR': ['WTHR'],
          '': []}[s['text']]
    parts += [{'name': 'S' + t[:3], 'header': 1, 'type': 3, 'params': [(t, 0, 0, 0)]} for t in tx]
    ship = s['stype'] == 'ship'
    if ship:
        obs = [c for c in s['cells'] if c[0] < len(s['times']) and c[1] < len(s['stns'])]
        slots = place(s, 'us', list(enumerate(obs)))
        rows, cols = [w.i(1)], [
            None if c is None else time_words(w, s['times'][c[1][0]])
            + station_words(w, s['stns'][c[1][1]]) for c in slots]
        where = {c[0]: (0, n) for n, c in enumerate(slots) if c is not None}
        todo = [((0, k), k, o) for k, o in enumerate(obs)]
    else:
        ts = place(s, 'ut', list(enumerate(s['times'])))
        ss = place(s, 'us', list(enumerate(s['stns'])))
        th = [None if t is None else time_words(w, t[1]) for t in ts]
        sh = [None if c is None else station_words(w, c[1]) for c in ss]
        ti = {t[0]: n for n, t in enumerate(ts) if t is not None}
        si = {c[0]: n for n, c in enumerate(ss) if c is not None}
        std = s['stype'] == 'standard'
        rows, cols = (th, sh) if std else (sh, th)
        where, todo, seen = {}, [], set()
        for k, o in enumerate(s['cells']):
            if o[0] >= len(s['times']) or o[1] >= len(s['stns']) or (o[0], o[1]) in seen:
                continue
            seen.add((o[0], o[1]))
            where[k] = (ti[o[0]], si[o[1]]) if std else (si[o[1]], ti[o[0]])
            todo.append(((o[0], o[1]) if std else (o[1], o[0]), k, o))
    cells, entries = {}, []
    for no, k, (it, js, seed, *given) in todo:
        g = np.random.Generator(np.random.PCG64(seed))
        st, t = s['stns'][js], when(s['times'][it])
        e = {'no': no, 'ROW': no[0], 'COL': no[1], 'DATTIM': t, **station_info(st)}
        i, j = where[k]
        vals = {}
        if not tx or g.random() < 0.9 or given and not any(given[0].values()):
            if s['pack']:
                body, v = packed_reals(w, g, params, 1)
                v = v[0]
            else:
                v = np.round(g.normal(0, 30, len(params)), 1).astype('f4')
                m = g.random(len(params)) < 0.1
                body = np.where(m, np.float32(MISSING), v).astype(w.e + 'f4').tobytes()
                v = np.where(m, np.nan, v)
            cells[(i, j, 0)] = w.i(1200) + body
            vals = {p[0].lower(): float(x) for p, x in zip(params, v, strict=True)}
        reps = {}
        for k2, name in enumerate(tx):
            if given:
                if given[0].get(name):
                    words, reps[name] = given_text(s['stns'][js].get('icao'), given[0][name], t)
                    cells[(i, j, 1 + k2)] = w.i(1200) + words
                continue
            if g.random() < 0.7 or (not vals and k2 == len(tx) - 1 and not reps):
                if name == 'WTHR':
                    words = f'RA{int(g.integers(100))}'.ljust(8).encode()
                    vals['wthr'] = words.decode().strip()
                else:
                    words, reps[name] = report_text(w, g, st['id'][:4].strip() + st['id'][4:], t,
                                                    name == 'SPCL')
                cells[(i, j, 1 + k2)] = w.i(1200) + words
        out = []
        if reps:
            for name in ('TEXT', 'SPCL'):
                for a, b in reps.get(name, []):
                    v = dict(vals) if name == 'TEXT' or 'TEXT' not in reps else {}
                    v[name.lower()] = b
                    out.append({'dt': a if name == 'SPCL' else t, 'values': v,
                                'special': name == 'SPCL'})
        else:
            out.append({'dt': t, 'values': vals, 'special': False})
        e['reports'] = out
        entries.append(e)
    entries.sort(key=lambda e: e['no'])
    tk, sk = ['DATE', 'TIME'], STKEYS
    if ship:
        rk, ck = ['GRID'], tk + sk
    else:
        rk, ck = (tk, sk) if s['stype'] == 'standard' else (sk, tk)
    desc = {'fheaders': [], 'rowkeys': rk, 'rows': rows, 'colkeys': ck, 'cols': cols,
            'parts': parts, 'cells': cells, 'ftype': 1, 'source': 1, 'hdr': s.get('hdr')}
    return Image('surface', w.assemble(desc, s['shuffle'], s['gap']), entries, stype=s['stype'])


GEN = {'grid': gen_grid, 'sounding': gen_sounding, 'surface': gen_surface}
BUILD = {'grid': build_grid, 'sounding': build_sounding, 'surface': build_surface}


def headers(gen):
    def with_headers(rng, small=True):
        s = gen(rng, small)
        if rng.chance(0.15):
            s['hdr'] = [rng.randrange(4) for _ in range(3)]
        return s
    return with_headers


GEN = {k: headers(g) for k, g in GEN.items()}


def build(spec):
    return BUILD[spec['kind']](spec)
