"""Adapters around the three data-management writers: specs, calls, reference values, verification.

A spec is JSON.  `key(spec)` and `value(spec)` give what must be read back; they are computed from
the spec alone, never from the code under test.
"""
import math
from datetime import datetime, timedelta, timezone

import numpy as np

from dst.core import Violation, derive
from dst.dmread import DM, BadFile

EPOCH = datetime(1970, 1, 1)
VCOORD = {'none': 0, 'pres': 1, 'thta': 2, 'hght': 3, 'sgma': 4, 'dpth': 5, 'hybd': 6,
          'pvab': 7, 'pvbl': 8}
PROJ = {
    'ced': {'proj': 'eqc', 'lat_0': 0, 'lon_0': -90, 'R': 6371200.0},
    'lcc': {'proj': 'lcc', 'lat_1': 30, 'lat_2': 60, 'lat_0': 40, 'lon_0': -100,
            'R': 6371200.0},
    'str': {'proj': 'stere', 'lat_0': 90, 'lon_0': -100, 'R': 6371200.0},
    'mer': {'proj': 'merc', 'lat_ts': 0, 'lon_0': -90, 'R': 6371200.0},
    'gno': {'proj': 'gnom', 'lat_0': 60, 'lon_0': -100, 'R': 6371200.0},
    'aed': {'proj': 'aeqd', 'lat_0': 60, 'lon_0': -100, 'R': 6371200.0},
    'ort': {'proj': 'ortho', 'lat_0': 60, 'lon_0': -100, 'R': 6371200.0},
    'lea': {'proj': 'laea', 'lat_0': 60, 'lon_0': -100, 'R': 6371200.0},
    # other ways of giving the same kinds (the code of the file is the first three letters)
    'lcc1': {'proj': 'lcc', 'lat_1': 38.5, 'lat_0': 38.5, 'lon_0': -97, 'R': 6371200.0},
    'lccs': {'proj': 'lcc', 'lat_1': -30, 'lat_2': -30, 'lat_0': -30, 'lon_0': -100,
             'R': 6371200.0},
    'strt': {'proj': 'stere', 'lat_0': 90, 'lat_ts': 60, 'lon_0': -100, 'R': 6371200.0},
    'strs': {'proj': 'stere', 'lat_0': -90, 'lat_ts': -60, 'lon_0': -100, 'R': 6371200.0},
    'stro': {'proj': 'stere', 'lat_0': 40, 'lon_0': -97.5, 'R': 6371200.0},
    'mert': {'proj': 'merc', 'lat_ts': 20, 'lon_0': -90, 'R': 6371200.0},
    'cedt': {'proj': 'eqc', 'lat_ts': 30, 'lon_0': -97.25, 'R': 6371200.0},
    'leat': {'proj': 'laea', 'lat_0': 1e-5, 'lon_0': -100, 'R': 6371200.0},
    'leae': {'proj': 'laea', 'lat_0': 40.125, 'lon_0': -100, 'ellps': 'WGS84'},
    'gnon': {'proj': 'gnom', 'lat_0': 39.875, 'lon_0': -100.0625, 'R': 6371200.0},
}
TYPES = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}
TYPE_NAME = ['analysis', 'forecast', 'guess', 'initial']
STATES = ['WI', 'OK', 'TX', 'IL', '', 'MN']
COUNTRIES = ['US', 'CN', 'MX', '']


def f32(x):
    return float(np.float32(x))


def r_half(x):
    """Nearest hundredth as an integer; None when a tie makes both neighbours acceptable."""
    v = x * 100
    lo = math.floor(v)
    if abs(v - lo - 0.5) < 1e-6:
        return (lo, lo + 1)
    return (round(v),)


# --------------------------------------------------------------------------------------------
# grids


def gen_time(rng):
    """Minutes since 1970 with a bias to few distinct values and to range edges."""
    c = rng.random()
    if c < 0.6:
        t = datetime(2020, 1, 1) + timedelta(hours=6 * rng.randrange(6))
    elif c < 0.75:
        t = datetime(2019, 12, 31, 23, 30) + timedelta(minutes=30 * rng.randrange(4))
    elif c < 0.85:
        t = rng.pick([datetime(1999, 12, 31, 23, 59), datetime(2000, 1, 1), datetime(2068, 12, 31),
                      datetime(1969, 1, 1), datetime(2020, 2, 29, 12)])
    elif c < 0.92:
        # hours that clocks in some place skip or repeat
        t = rng.pick([datetime(2020, 3, 8, 2, 30), datetime(2020, 3, 29, 2, 30),
                      datetime(2020, 10, 4, 2, 15), datetime(2020, 11, 1, 1, 30),
                      datetime(2011, 12, 30, 6), datetime(2007, 3, 11, 2)])
    else:
        t = datetime(1971, 1, 1) + timedelta(minutes=rng.randrange(50 * 365 * 1440))
    return int((t - EPOCH).total_seconds() // 60)


def to_dt(minutes):
    return EPOCH + timedelta(minutes=minutes)


def gen_grid_time(rng, typ=None):
    """[minutes, form, suffix-type or None, hours or None, minutes or None]."""
    m = gen_time(rng)
    if typ is None:
        typ = rng.weighted([(None, 4), ('A', 1), ('F', 3), ('V', 1), ('G', 1), ('I', 1)])
    if typ == '-':
        typ = None
    if typ is None:
        return {'t': m, 'form': rng.weighted([('str', 5), ('dt', 5), ('aware', 1)])}
    d = {'t': m, 'form': 'str', 'type': typ}
    if typ == 'A':
        return d
    if rng.chance(0.85):
        d['h'] = rng.pick([0, 1, 6, 12, 24, 120, 999])
        if rng.chance(0.3):
            d['m'] = rng.pick([0, 15, 30, 59])
    return d


def grid_time_arg(d, lower=False):
    t = to_dt(d['t'])
    if d['form'] == 'dt':
        return t
    if d['form'] == 'aware':
        return t.replace(tzinfo=timezone.utc)
    s = t.strftime('%Y%m%d%H%M')
    if d.get('type'):
        s += d['type']
        if 'h' in d:
            s += f"{d['h']:03d}"
            if 'm' in d:
                s += f"{d['m']:02d}"
    return s.lower() if lower else s


def grid_time_key(d):
    """(GDT, GTM) integers."""
    t = to_dt(d['t'])
    ty = TYPES.get(d.get('type'), 0)
    if ty == 0:
        return int(t.strftime('%y%m%d')), int(t.strftime('%H%M'))
    return (int(t.strftime('%m%d%y%H%M')),
            ty * 100000 + d.get('h', 0) * 100 + d.get('m', 0))


def grid_time_valid(d):
    t = to_dt(d['t'])
    if TYPES.get(d.get('type'), 0) == 0:
        return t
    return t + timedelta(hours=d.get('h', 0), minutes=d.get('m', 0))


def grid_array(spec, ny, nx):
    """The array described by spec['arr']."""
    a = spec['arr']
    g = np.random.Generator(np.random.PCG64(a['seed']))
    kind = a['kind']
    if kind == 'smooth':
        y, x = np.mgrid[0:ny, 0:nx]
        v = 280 + 10 * np.sin(y / 3 + a['seed'] % 7) + 8 * np.cos(x / 4)
    elif kind == 'noise':
        v = g.normal(0, 50, (ny, nx))
    elif kind == 'const':
        v = np.full((ny, nx), float(g.integers(-500, 500)))
    elif kind == 'zero':
        v = np.zeros((ny, nx))
    elif kind == 'two':
        v = np.where(g.random((ny, nx)) < 0.5, 1.0, 2.0)
    elif kind == 'huge':
        v = g.normal(0, 1, (ny, nx)) * 1e8
    elif kind == 'tiny':
        v = g.random((ny, nx)) * 1e-9
    elif kind == 'ints':
        v = g.integers(-200, 200, (ny, nx)).astype(float)
    elif kind == 'outlier':
        v = g.random((ny, nx))
        v[g.integers(ny), g.integers(nx)] = 60000.0 + float(g.integers(10000))
    elif kind == 'pow2':
        k = int(g.integers(1, 31))
        v = g.random((ny, nx)) * (2**k - 1)
        v[0, 0], v[-1, -1] = 0, 2**k - (0.5 if k > 1 else 0)
    elif kind == 'near':        # close to the value that stands for missing, but not it
        v = -9999 + g.choice([-2, -0.5, -0.0625, 0.0625, 0.25, 1, 9], (ny, nx))
    elif kind == 'allnan':
        v = np.full((ny, nx), np.nan)
    else:
        raise ValueError(kind)
    nan = a.get('nan', 0)
    if nan and kind != 'allnan':
        m = g.random((ny, nx)) < nan
        if m.all():
            m[0, 0] = False
        v[m] = np.nan
    dt = a.get('dtype', 'f8')
    if kind == 'near' and dt[-2] != 'f':
        v = np.round(v)
        v[v == -9999] = 5
    if dt in ('i4', 'i2', 'u1'):
        v = np.where(np.isnan(v), 0, v)
        lim = {'i4': 2**31 - 1, 'i2': 30000, 'u1': 511}[dt]
        v = np.clip(v, 0 if dt == 'u1' else -lim // 2, lim // 2)
    v = v.astype(dt)
    if a.get('order') == 'F':
        v = np.asfortranarray(v)
    elif a.get('order') == 'view':
        big = np.zeros((ny * 2, nx * 2), dtype=v.dtype)
        big[::2, ::2] = v
        v = big[::2, ::2]
    elif a.get('order') == 'rev':
        v = np.ascontiguousarray(v[::-1, ::-1])[::-1, ::-1]
    if a.get('ro'):
        v.flags.writeable = False
    return v


def masked(v, under):
    """The same values as a masked array, with something else where they are missing."""
    if under is None or v.dtype.kind != 'f':
        return v
    hide = np.isnan(v)
    v = np.ma.array(np.where(hide, v.dtype.type(under), v), mask=hide)
    return v


CYL = ('ced', 'cedt', 'mer', 'mert')


def around(degrees):
    """Sizes of differences of longitudes."""
    return np.abs((degrees + 180) % 360 - 180)


class GridStore:
    """Grid files."""

    name = 'grid'
    suffix = '.grd'

    @staticmethod
    def gen_cfg(rng, small=False):
        return {'proj': rng.pick(sorted(PROJ)), 'xy': rng.chance(0.5),
                'flip': rng.weighted([('', 8), ('y', 2), ('x', 0.5)]), 'east': rng.chance(0.15),
                'nx': rng.randrange(3, 7 if small else 14), 'ny': rng.randrange(3, 7 if small else 12),
                'west': -120 + rng.randrange(5), 'south': 25 + rng.randrange(5),
                'wide': rng.pick([5, 20, 40]), 'tall': rng.pick([5, 15, 25]),
                'tiny': rng.chance(0.12)}

    @staticmethod
    def fix_cfg(rng, cfg):
        if cfg.get('tiny'):
            cfg['nx'], cfg['ny'] = rng.pick([(1, 1), (2, 2), (1, 4), (3, 1), (2, 5), (3, 2)])
        if cfg['proj'] in CYL and not cfg.get('tiny') and rng.chance(0.4):
            cfg['wide'] = rng.pick([5, 20, 40, 100, 200, 300, 359])
            if cfg['wide'] > 180 * (cfg['nx'] - 1):
                cfg['wide'] = 100
            cfg['cross'] = cfg['west'] + 180 + cfg['wide'] * rng.pick([0.25, 0.5, 0.9])
            if cfg['flip'] == 'x':
                cfg['flip'] = ''
        return cfg

    @staticmethod
    def gen_spec(rng, cfg, pool=None):
        if pool and rng.chance(0.3):    # same header again: a replacement
            spec = dict(rng.pick(pool))
        else:
            typ = rng.weighted([(None, 5), ('F', 3), ('A', 1), ('G', 1), ('V', 1), ('I', 1)])
            dt = gen_grid_time(rng, typ or '-')
            spec = {'param': rng.pick(['TMPC', 'tmpc', 'UREL', 'HGHT', 'RELHUMIDITY', 'P03I',
                                       'ABCDEFGHIJKL', 'x', 'TMPCA']),
                    'coord': rng.pick([None, 'PRES', 'pres', 'HGHT', 'THTA', 'SGMA', 'NONE',
                                       'DPTH', 'HYBD', 'PVAB', 'PVBL']),
                    'level': rng.pick([0, 0, 2, 500, 850, 1000, 500.0, 99999]),
                    'dt': dt, 'level2': None, 'dt2': None, 'lower': rng.chance(0.1)}
            if rng.chance(0.3):
                spec['level2'] = rng.pick([0, 10, 700, 5000.0])
            if rng.chance(0.35):
                ty = dt.get('type')
                if ty == 'V':
                    ty = rng.pick(['V', 'F'])
                elif ty == 'F':
                    ty = rng.pick(['F', 'V'])
                if rng.chance(0.15):
                    ty = None       # plain second time
                spec['dt2'] = gen_grid_time(rng, ty or '-')
        spec['arr'] = {'seed': rng.randrange(1 << 30),
                       'kind': rng.weighted([('smooth', 4), ('noise', 4), ('const', 1), ('zero', 1),
                                             ('two', 1), ('huge', 1), ('tiny', 1), ('ints', 2),
                                             ('outlier', 2), ('pow2', 2), ('allnan', 1),
                                             ('near', 1)]),
                       'nan': rng.pick([0, 0, 0, 0.1, 0.5, 0.95]),
                       'dtype': rng.weighted([('f8', 6), ('f4', 3), ('i4', 1), ('i2', 1),
                                              ('>f8', 0.5), ('>f4', 0.5), ('u1', 0.3)]),
                       'order': rng.weighted([('C', 6), ('F', 1), ('view', 1), ('rev', 1)]),
                       'ro': rng.chance(0.15)}
        if rng.chance(0.1):
            spec['arr']['mask'] = rng.pick([0, 1e20, -9999, -9999.5, 5])
        return spec

    @staticmethod
    def bulk(op, cfg):
        """Many small grids (the tables of the file then take up several blocks)."""
        base = {'param': 'TMPC', 'coord': 'PRES', 'level2': None, 'dt2': None, 'lower': False}
        for n in range(op['t'] * op['s']):
            yield dict(base, level=n % op['s'] + 1,
                       dt={'t': 26297280 + 60 * (n // op['s']), 'form': 'str'},
                       arr={'seed': op['seed'] + n, 'kind': 'ints', 'nan': 0, 'dtype': 'f8'})

    @staticmethod
    def gen_bad(rng):
        return rng.pick(['shape', 'notarray', 'longname', 'badcoord', 'shortdate', 'malformed',
                         'typemismatch', 'level', 'level2', 'dt2', 'dttype', 'nameint',
                         'longcoord', 'baddate2', 'shortdate2', 'malformed2', 'fneg', 'flong',
                         'fneg2', 'bytes', 'level32'])

    @staticmethod
    def coords(cfg):
        import pyproj
        par = PROJ[cfg['proj']]
        if cfg.get('cross'):            # the edge of the projection is inside the grid
            par = dict(par, lon_0=cfg['cross'])
        p = pyproj.Proj(par)
        x0, y0 = p(cfg['west'], cfg['south'])
        x1, y1 = p(cfg['west'] + cfg['wide'], cfg['south'] + cfg['tall'])
        if cfg.get('cross'):
            x1 = x0 + 2 * p(par['lon_0'] + 90, 0)[0] * cfg['wide'] / 180
        x = np.linspace(x0, x1, cfg['nx'])
        y = np.linspace(y0, y1, cfg['ny'])
        if cfg.get('flip') == 'y':      # from north to south
            y = y[::-1].copy()
        elif cfg.get('flip') == 'x':
            x = x[::-1].copy()
        lon, lat = p(*np.meshgrid(x, y), inverse=True)
        if cfg.get('east'):             # degrees east only
            lon = lon % 360
        return p, x, y, lon, lat

    @classmethod
    def make(cls, cfg):
        from gempakio import GridFile
        p, x, y, lon, lat = cls.coords(cfg)
        return GridFile(x, y, p, use_xy=True) if cfg['xy'] else GridFile(lon, lat, p)

    @staticmethod
    def tune(obj, tune):
        if 'precision' in tune:
            obj.precision = tune['precision']

    @staticmethod
    def gen_tune(rng):
        return {'precision': rng.pick([1, 2, 3, 7, 8, 12, 15, 16, 17, 20, 24, 30, 31])}

    @classmethod
    def args(cls, spec, cfg):
        arr = masked(grid_array(spec, cfg['ny'], cfg['nx']), spec['arr'].get('mask'))
        dt2 = spec['dt2']
        return [arr, spec['param'], spec['coord'], spec['level'],
                grid_time_arg(spec['dt'], spec.get('lower')),
                spec['level2'], grid_time_arg(dt2, spec.get('lower')) if dt2 else None]

    @classmethod
    def add(cls, obj, spec, cfg, bad=None, args=None):
        a = args if args is not None else cls.args(spec, cfg)
        a = list(a)
        if bad == 'shape':
            a[0] = np.zeros((cfg['ny'] + 1, cfg['nx']))
        elif bad == 'notarray':
            a[0] = a[0].tolist()
        elif bad == 'longname':
            a[1] = 'ABCDEFGHIJKLM'
        elif bad == 'nameint':
            a[1] = 5
        elif bad == 'badcoord':
            a[2] = 'ABCD'
        elif bad == 'longcoord':
            a[2] = 'PRESS'
        elif bad == 'level':
            a[3] = '500'
        elif bad == 'shortdate':
            a[4] = '2020010'
        elif bad == 'malformed':
            a[4] = '202001010000F006F003'
        elif bad == 'dttype':
            a[4] = 20200101
        elif bad == 'level2':
            a[5] = [500]
        elif bad == 'typemismatch':
            a[4], a[6] = '202001010000F006', '202001010000G006'
        elif bad == 'dt2':
            a[6] = 5.5
        elif bad == 'baddate2':
            a[6] = '202013010000'
        elif bad == 'shortdate2':
            a[6] = '2020010'
        elif bad == 'malformed2':
            a[4], a[6] = '202001010000F006', '202001010000F006F003'
        elif bad == 'fneg':
            a[4] = '202001010000F-01'
        elif bad == 'flong':
            a[4] = '202001010000F0123456'
        elif bad == 'fneg2':
            a[4], a[6] = '202001010000F006', '202001010000F-06'
        elif bad == 'bytes':
            a[1] = 'TEM\u00c9'
        elif bad == 'level32':
            a[3] = 2**31
        return obj.add_grid(*a)

    @staticmethod
    def key(spec):
        g1, t1 = grid_time_key(spec['dt'])
        g2, t2 = grid_time_key(spec['dt2']) if spec['dt2'] else (0, 0)
        l2 = -1 if spec['level2'] is None else int(spec['level2'])
        return (g1, t1, g2, t2, int(spec['level']), l2, VCOORD[(spec['coord'] or 'none').lower()],
                spec['param'].upper())

    @staticmethod
    def visible(spec):
        d2 = spec['dt2']
        coord = (spec['coord'] or 'none').upper()
        return (TYPE_NAME[TYPES.get(spec['dt'].get('type'), 0)], grid_time_valid(spec['dt']),
                grid_time_valid(d2) if d2 else None, spec['param'].upper(), int(spec['level']),
                None if spec['level2'] is None else int(spec['level2']), coord)

    @classmethod
    def value(cls, spec, cfg):
        return grid_array(spec, cfg['ny'], cfg['nx']).astype('f8')

    @staticmethod
    def tolerance(val, bits):
        ok = ~np.isnan(val)
        if not ok.any():
            return 0.0
        lo, hi = float(val[ok].min()), float(val[ok].max())
        eps = 2.0**-23
        return ((hi - lo) / (2**bits - 1.5) * (1 + 1e-5)
                + 2 * eps * (abs(lo) + abs(hi) + (hi - lo)) + 1e-37)

    @classmethod
    def compare(cls, got, val, bits, what):
        if got.shape != val.shape:
            raise Violation('wrong-shape', f'{what}: {got.shape} for {val.shape}')
        gm, vm = np.isnan(got), np.isnan(val)
        tol = cls.tolerance(val, bits)
        # packing may bring a value onto the one that stands for missing
        odd = (gm != vm) & ~(gm & (np.abs(val + 9999.0) <= tol))
        if odd.any():
            raise Violation('missing-mismatch', f'{what}: missing cells differ at '
                            f'{np.argwhere(odd)[:3].tolist()} (expected missing: '
                            f'{int(vm.sum())}, got {int(gm.sum())})')
        if gm.all():
            return
        err = np.nanmax(np.abs(got - val))
        if not err <= tol:
            raise Violation('wrong-value', f'{what}: max error {err} > {tol} at {bits} bits')

    @classmethod
    def check_bytes(cls, data, model, cfg, bits):
        """Independent reader against the model {key: spec}."""
        dm = DM(data)
        if dm.ftype != 3:
            raise BadFile('file type')
        seen = {}
        for j, c in enumerate(dm.cols):
            if c is None:
                continue
            k = (c['GDT1'], c['GTM1'], c['GDT2'], c['GTM2'], c['GLV1'], c['GLV2'], c['GVCD'],
                 (f"{c['GPM1']:4s}{c['GPM2']:4s}{c['GPM3']:4s}").strip())
            if k in seen:
                raise Violation('duplicate-entry', f'{k} appears twice')
            seen[k] = j
        if set(seen) != set(model):
            raise Violation('entry-set', f'missing {sorted(set(model) - set(seen))[:3]} '
                            f'unexpected {sorted(set(seen) - set(model))[:3]}')
        nav = dm.navigation()
        _, _, _, lon, lat = cls.coords(cfg)
        if (nav['kx'], nav['ky']) != (cfg['nx'], cfg['ny']):
            raise Violation('navigation', f'grid size {nav}')
        want = (lat[0, 0], lon[0, 0], lat[-1, -1], lon[-1, -1])
        gotc = (*nav['ll'], *nav['ur'])
        if around(np.array(want) - np.array(gotc)).max() > 1e-3:
            raise Violation('navigation', f'corners {gotc} for {want}')
        if nav['proj'] != cfg['proj'][:3].upper():
            raise Violation('navigation', f"projection {nav['proj']}")
        for k, j in seen.items():
            if (0, j, 0) not in dm.cells:
                raise Violation('entry-set', f'no data for {k}')
            nx, ny, b, v = dm.grid(j)
            if (nx, ny, b) != (cfg['nx'], cfg['ny'], bits):
                raise Violation('grid-header', f'{k}: nx,ny,bits {nx, ny, b}')
            cls.compare(v, cls.value(model[k], cfg), bits, f'stored grid {k}')

    @classmethod
    def check_decoded(cls, path, model, cfg, bits, ctx):
        from gempakio import GempakGrid
        with ctx.observing('decoding the written grid file'):
            g = GempakGrid(path)
            info = g.gdinfo()
            want = sorted(repr(cls.visible(s)) for s in model.values())
            got = sorted(repr((i.TYPE, i.DATTIM1, i.DATTIM2, i.PARM, i.LEVEL1, i.LEVEL2,
                               i.COORD)) for i in info)
            if want != got:
                raise Violation('index', f'index differs: expected {want[:4]} got {got[:4]}')
            if not model:
                return
            das = g.gdxarray()
            if len(das) != len(model):
                raise Violation('entry-count', f'{len(das)} grids read for {len(model)}')
            _, _, _, lon, lat = cls.coords(cfg)
            byvis = {}
            for s in model.values():
                byvis.setdefault(repr(cls.visible(s)), []).append(s)
            for i, da in zip(info, das, strict=True):
                vis = repr((i.TYPE, i.DATTIM1, i.DATTIM2, i.PARM, i.LEVEL1, i.LEVEL2, i.COORD))
                v = np.asarray(da.values[0, 0], dtype='f8')
                errs = []
                for s in byvis[vis]:
                    try:
                        cls.compare(v, cls.value(s, cfg), bits, f'decoded grid {vis}')
                    except Violation as e:
                        errs.append(e)
                    else:
                        errs = []
                        byvis[vis].remove(s)
                        break
                if errs:
                    raise errs[0]
                if da.attrs['grid_type'] != i.TYPE:
                    raise Violation('grid-type', f"{da.attrs['grid_type']} for {i.TYPE}")
                tv = np.asarray(da['time'].values, dtype='datetime64[m]')[0]
                if tv != np.datetime64(i.DATTIM1, 'm'):
                    raise Violation('time', f'{tv} for {i.DATTIM1}')
                if float(da[i.COORD.lower()].values[0]) != i.LEVEL1:
                    raise Violation('level', f'{vis}')
            da = das[0]
            close = 0.05 if 'ellps' in PROJ[cfg['proj']] else 5e-3
            if (np.abs(da['lat'].values - lat).max() > close
                    or around(da['lon'].values - lon).max() > close):
                raise Violation('navigation', 'decoded coordinates differ from the input')

    @staticmethod
    def write(obj, path):
        return obj.to_gempak(path)


# --------------------------------------------------------------------------------------------
# soundings and surface


def gen_station(rng, few):
    sid = rng.pick(['KMSN', 'OUN', 'KLWC', 'ABCDEFGH', 'KXYZ1', 'msn', '', 'K1', 'KXYZ2', 'KXYZ',
                    'ABCDEFGZ'])
    st = {'slat': rng.pick([40.29, 43.14, -33.95, 0.0, 35.18, 19.99, 45, -0.07]),
          'slon': rng.pick([-89.34, -97.44, 151.18, 0, -179.99, 8.57, 179.99, -0.29])}
    if rng.chance(0.9):
        st['info'] = {}
        for k, v in (('station_id', sid),
                     ('station_number', rng.pick([72641, 72357, 0, 99999, 72641.0, '72357', -1])),
                     ('elevation', rng.pick([0, 262, 345, -3, 262.7])),
                     ('state', rng.pick(STATES + ['wi'])), ('country', rng.pick(COUNTRIES))):
            if rng.chance(0.85):
                st['info'][k] = v
    return st


# values at the edges of 32-bit floats and next to the one that stands for missing
WILD = [-9998.9, -9999.1, -9999.0625, -9998.999, 9999.0, 9998.9, -99999.0, 3.4e38, -3.4e38, 1e-40,
        -0.0, 0.0, 16777217.0, 1e-7, 0.1]
SND_PARAMS = ['TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT', 'OMEG', 'CLCT', 'SKNT']
SFC_PARAMS = ['TMPC', 'DWPC', 'PMSL', 'SKNT', 'DRCT', 'ALTI', 'VSBY', 'WNUM', 'CHC1', 'P03D']


class _Obs:
    """Shared by soundings and surface reports."""

    @staticmethod
    def station_pool(rng):
        return [gen_station(rng, True) for _ in range(rng.randrange(1, 6))]

    @staticmethod
    def gen_dt(rng):
        return {'t': gen_time(rng), 'form': rng.weighted([('str', 5), ('dt', 5), ('aware', 1)])}

    @classmethod
    def bulk(cls, op, cfg):
        """Many small entries (the tables of the file then take up several blocks)."""
        keep = np.random.Generator(np.random.PCG64(op['seed']))
        for n in range(op['t'] * op['s']):
            if keep.random() < op['skip']:
                continue
            k = n % op['s']
            yield {'st': {'slat': 10 + k * 0.25, 'slon': -100.5 + k,
                          'info': {'station_id': f'B{k:03d}', 'station_number': 1000 + k}},
                   'dt': {'t': 26297280 + 60 * (n // op['s']), 'form': 'str'},
                   'lev': dict(cls.BULK_LEV, seed=op['seed'] + n, nan=0.2, order=False, case=False,
                               **({'n': op['n']} if 'n' in op else {}))}

    @staticmethod
    def station_key(st, priority=False):
        i = st.get('info') or {}
        sid = str(i.get('station_id', '')).upper()[:8]
        lat, lon = st['slat'], st['slon']
        return (sid, int(i.get('station_number', -9999)), float(lat), float(lon),
                int(i.get('elevation', -9999)), str(i.get('state', '')).upper()[:4],
                str(i.get('country', '')).upper()[:4], int(i.get('priority', 0)) if priority else None)

    @staticmethod
    def refuse(kind, params):
        """Parameters that no file can hold are refused from the start."""
        for wrong in ([*params, 'TOOLONG'], [*params, 'TEM\u00c9'], params[0], None,
                      [f'P{n:03d}' for n in range(100)]):
            try:
                kind(wrong)
            except (ValueError, TypeError):
                continue
            raise Violation('invalid-entry-accepted', f'parameters {wrong}')

    @staticmethod
    def bad_station(bad, a):
        if bad == 'idbytes':
            a[4] = dict(a[4] or {}, station_id='ABC\u00c9')
        elif bad == 'statebytes':
            a[4] = dict(a[4] or {}, state='QU\u00c9\u00c9')
        elif bad == 'number32':
            a[4] = dict(a[4] or {}, station_number=2**31)
        elif bad == 'latnan':
            a[1] = math.nan
        elif bad == 'latbig':
            a[1] = 2.0**30
        elif bad == 'huge':             # more than 32-bit numbers hold
            k = sorted(a[0])[-1]
            a[0] = dict(a[0], **{k: np.append(a[0][k][:-1], -1e39) if np.ndim(a[0][k]) else 1e39})

    @staticmethod
    def tune(obj, tune):
        pass

    @staticmethod
    def gen_tune(rng):
        return {}

    @staticmethod
    def write(obj, path):
        return obj.to_gempak(path)

    @classmethod
    def header_of(cls, row, col):
        """Comparable header tuple from the independent reader."""
        return (f"{row['DATE']:06d}", f"{row['TIME']:04d}",
                f"{col['STID']:4s}{col['STD2']:4s}".strip(), col['STNM'], col['SLAT'], col['SLON'],
                col['SELV'], col['STAT'], col['COUN'], col.get('SPRI'))

    @classmethod
    def match(cls, model, gots, what):
        """Assign each expected key to exactly one actual header; position ties are allowed."""
        left = dict(gots)
        out = {}
        for k in model:
            t, st = k
            t = to_dt(t)
            lat, lon = r_half(st[2]), r_half(st[3])
            cands = [(t.strftime('%y%m%d'), t.strftime('%H%M'), st[0], st[1], a, b, st[4], st[5],
                      st[6], st[7]) for a in lat for b in lon]
            hit = [c for c in cands if c in left]
            if not hit:
                raise Violation('entry-set', f'{what}: {cands[0]} is absent; present '
                                f'{sorted(map(str, left))[:4]}')
            out[k] = left.pop(hit[0])
        if left:
            raise Violation('entry-set', f'{what}: unexpected {sorted(map(str, left))[:4]}')
        return out


class SoundingStore(_Obs):
    """Sounding files."""

    name = 'sounding'
    suffix = '.snd'
    BULK_LEV = {'n': 2, 'as': 'f8', 'shuffle': False}

    @classmethod
    def gen_cfg(cls, rng, small=False):
        n = rng.randrange(1, 5)
        vert = rng.pick(['PRES', 'PRES', 'HGHT'])
        others = [p for p in SND_PARAMS if p != vert]
        rng.shuffle(others)
        params = [vert] + others[:n]
        if vert == 'HGHT':
            params = [p for p in params if p != 'PRES']
        if rng.chance(0.5):
            rng.shuffle(params)
        return {'params': params, 'vert': vert, 'lower': rng.chance(0.2),
                'stations': cls.station_pool(rng)}

    @staticmethod
    def fix_cfg(rng, cfg):
        return cfg

    @classmethod
    def gen_spec(cls, rng, cfg, pool=None):
        if pool and rng.chance(0.35):
            spec = dict(rng.pick(pool))
        else:
            spec = {'st': rng.pick(cfg['stations']), 'dt': cls.gen_dt(rng)}
            if rng.chance(0.2):
                spec['dt'] = dict(spec['dt'], form='str', f=rng.pick([0, 6, 12, 240]))
        spec['lev'] = {'seed': rng.randrange(1 << 30),
                       'n': rng.weighted([(1, 1), (2, 1), (5, 4), (12, 3), (60, 1), (499, 0.1),
                                          (0, 0.3)]),
                       'nan': rng.pick([0, 0, 0.2, 0.9]), 'as': rng.weighted(
                           [('f8', 5), ('f4', 2), ('list', 2), ('i8', 1), ('ro', 1), ('ma', 1),
                            ('series', 0.5)]),
                       'shuffle': rng.chance(0.3), 'order': rng.chance(0.4),
                       'case': rng.chance(0.2)}
        if rng.chance(0.15) and spec['lev']['as'] != 'i8':
            spec['lev']['wild'] = True
        return spec

    @staticmethod
    def gen_bad(rng):
        return rng.pick(['notdict', 'missingparam', 'extraparam', 'ragged', 'latstr', 'lonnone',
                         'baddate', 'dttype', 'toolong', 'elev', 'badfhr',
                         'idbytes', 'statebytes', 'number32', 'latnan', 'latbig', 'huge'])

    @classmethod
    def make(cls, cfg):
        from gempakio import SoundingFile
        p = cfg['params']
        cls.refuse(SoundingFile, p)
        return SoundingFile([x.lower() for x in p] if cfg.get('lower') else list(p))

    @staticmethod
    def levels(spec, cfg):
        """Parameter -> float64 array (NaN for missing), in added order."""
        lv = spec['lev']
        g = np.random.Generator(np.random.PCG64(lv['seed']))
        n = lv['n']
        out = {}
        for p in sorted(cfg['params']):
            if p == cfg['vert']:
                step = g.integers(1, 3, n) * 0.5
                v = 1050 - np.cumsum(step) if p == 'PRES' else np.cumsum(step) * 50
                if lv['shuffle']:
                    v = v[g.permutation(n)]
            elif p == 'HGHT':
                v = np.arange(n) * 100.0 + 7
            else:
                v = np.round(g.normal(0, 40, n), 3)
                if lv.get('wild'):
                    v = np.where(g.random(n) < 0.4, g.choice(WILD, n), v)
            out[p] = v.astype('f8')
            if p != cfg['vert'] and lv['nan'] and lv['as'] != 'i8':
                out[p][g.random(n) < lv['nan']] = np.nan
            if lv['as'] == 'i8' and p != cfg['vert']:
                out[p] = np.trunc(out[p])
            if lv['as'] == 'f4':
                out[p] = out[p].astype('f4').astype('f8')
        return out

    @classmethod
    def args(cls, spec, cfg):
        lv = cls.levels(spec, cfg)
        names = list(lv)
        if spec['lev']['order']:
            names.reverse()
        else:
            names = list(cfg['params'])
        data = {}
        for p in names:
            v = lv[p]
            a = spec['lev']['as']
            if a == 'list':
                v = v.tolist()
            elif a == 'i8' and p != cfg['vert']:
                v = v.astype('i8')
            elif a == 'f4':
                v = v.astype('f4')
            elif a == 'ro':
                v.flags.writeable = False
            elif a == 'ma':
                v = masked(v, [0, 1e20, -9999.0][spec['lev']['seed'] % 3])
            elif a == 'series':
                import pandas as pd
                v = pd.Series(v, index=np.arange(len(v))[::-1])
            data[p.lower() if spec['lev']['case'] else p] = v
        st = spec['st']
        return [data, st['slat'], st['slon'], cls.dt_arg(spec['dt']),
                dict(st['info']) if st.get('info') is not None else None]

    @staticmethod
    def dt_arg(d):
        t = to_dt(d['t'])
        if d['form'] == 'dt':
            return t
        if d['form'] == 'aware':
            return t.replace(tzinfo=timezone.utc)
        s = t.strftime('%Y%m%d%H%M')
        if 'f' in d:
            s += f"F{d['f']:03d}"
        return s

    @classmethod
    def add(cls, obj, spec, cfg, bad=None, args=None):
        a = list(args if args is not None else cls.args(spec, cfg))
        if bad:
            a[0] = dict(a[0])
        names = list(a[0])
        if bad == 'notdict':
            a[0] = list(a[0].items())
        elif bad == 'missingparam':
            del a[0][names[-1]]
        elif bad == 'extraparam':
            a[0]['ZZZZ'] = a[0][names[0]]
        elif bad == 'ragged':
            a[0][names[-1]] = np.zeros(spec['lev']['n'] + 1)
        elif bad == 'toolong':
            a[0] = {n: np.zeros(900) for n in names}
        elif bad == 'latstr':
            a[1] = '40.0'
        elif bad == 'lonnone':
            a[2] = None
        elif bad == 'baddate':
            a[3] = '2020-01-01'
        elif bad == 'badfhr':
            a[3] = '202001010000FXX'
        elif bad == 'dttype':
            a[3] = 20200101
        elif bad == 'elev':
            a[4] = dict(a[4] or {}, elevation='high')
        cls.bad_station(bad, a)
        return obj.add_sounding(*a)

    @staticmethod
    def when(spec):
        return spec['dt']['t'] + 60 * spec['dt'].get('f', 0)

    @classmethod
    def key(cls, spec):
        return (cls.when(spec), cls.station_key(spec['st']))

    @classmethod
    def value(cls, spec, cfg):
        lv = cls.levels(spec, cfg)
        return [[f32(-9999.0) if np.isnan(lv[p][i]) else f32(lv[p][i]) for p in cfg['params']]
                for i in range(spec['lev']['n'])]

    @classmethod
    def check_bytes(cls, data, model, cfg, bits):
        dm = DM(data)
        if dm.ftype != 2:
            raise BadFile('file type')
        if len(dm.parts) != 1 or dm.parts[0]['params'] != [p.upper() for p in cfg['params']]:
            raise Violation('parameters', f"{dm.parts} for {cfg['params']}")
        gots = {}
        for (i, j, _), _v in dm.cells.items():
            h = cls.header_of(dm.rows[i], dm.cols[j])
            if h in gots:
                raise Violation('duplicate-entry', str(h))
            gots[h] = (i, j)
        where = cls.match(model, gots, 'stored file')
        for k, (i, j) in where.items():
            got = dm.real(i, j)
            want = cls.value(model[k], cfg)
            if got != want:
                raise Violation('wrong-value', f'stored {k}: {got[:2]} for {want[:2]}')
            hm = int(to_dt(k[0]).strftime('%H%M'))
            if dm.part_header(i, j)[0] != hm:
                raise Violation('wrong-value', f'stored time of {k}')

    @classmethod
    def check_decoded(cls, path, model, cfg, bits, ctx):
        from gempakio import GempakSounding
        with ctx.observing('decoding the written sounding file'):
            s = GempakSounding(path)
            info = s.sninfo()
            if len(info) != len(model):
                raise Violation('entry-count', f'{len(info)} in the index for {len(model)}')
            if not model:
                return
            out = s.snxarray()
            if len(out) != len(model):
                raise Violation('entry-count', f'{len(out)} read for {len(model)}')
            gots = {}
            for ds in out:
                a = ds.attrs
                t = ds['time'].values.astype('datetime64[m]')[0].astype(object)
                h = (t.strftime('%y%m%d'), t.strftime('%H%M'), a['station_id'],
                     a['station_number'], round(a['lat'] * 100), round(a['lon'] * 100),
                     a['elevation'], a['state'], a['country'], None)
                if h in gots:
                    raise Violation('duplicate-entry', str(h))
                gots[h] = ds
            for i in info:
                t = i.DATTIM
                h = (t.strftime('%y%m%d'), t.strftime('%H%M'), i.ID, i.NUMBER,
                     round(i.LAT * 100), round(i.LON * 100), i.ELEV, i.STATE, i.COUNTRY, None)
                if h not in gots:
                    raise Violation('index', f'{h} in the index but not in the results')
            where = cls.match(model, gots, 'decoded file')
            vert = cfg['vert']
            for k, ds in where.items():
                lv = cls.levels(model[k], cfg)
                order = np.argsort(lv[vert], kind='stable')
                if vert == 'PRES':
                    order = order[::-1]
                for p in cfg['params']:
                    want = lv[p][order].astype('f4')
                    got = ds[p.lower()].values.astype('f4').ravel()
                    if got.shape != want.shape or not np.array_equal(got, want, equal_nan=True):
                        raise Violation('wrong-value', f'{p} of {k}: {got[:4]} for {want[:4]}')
                if set(ds.data_vars) | {vert.lower()} != {p.lower() for p in cfg['params']}:
                    raise Violation('parameters', f'{list(ds.data_vars)}')


class SurfaceStore(_Obs):
    """Surface files."""

    name = 'surface'
    suffix = '.sfc'
    BULK_LEV = {'as': 'float'}

    @classmethod
    def gen_cfg(cls, rng, small=False):
        params = list(SFC_PARAMS)
        rng.shuffle(params)
        sts = cls.station_pool(rng)
        for s in sts:
            if 'info' in s and rng.chance(0.5):
                s['info']['priority'] = rng.pick([0, 1, 4, '1', 4.0])
        return {'params': params[:rng.randrange(1, 7)], 'lower': rng.chance(0.2), 'stations': sts}

    @staticmethod
    def fix_cfg(rng, cfg):
        return cfg

    @classmethod
    def gen_spec(cls, rng, cfg, pool=None):
        if pool and rng.chance(0.35):
            spec = dict(rng.pick(pool))
        else:
            spec = {'st': rng.pick(cfg['stations']), 'dt': cls.gen_dt(rng)}
        spec['lev'] = {'seed': rng.randrange(1 << 30), 'nan': rng.pick([0, 0, 0.2, 0.9]),
                       'as': rng.weighted([('float', 5), ('f4', 2), ('f8', 2), ('int', 1), ('ma', 1)]),
                       'order': rng.chance(0.4), 'case': rng.chance(0.2)}
        if rng.chance(0.15) and spec['lev']['as'] != 'int':
            spec['lev']['wild'] = True
        return spec

    @staticmethod
    def gen_bad(rng):
        return rng.pick(['notdict', 'missingparam', 'extraparam', 'array', 'latstr', 'lonnone',
                         'baddate', 'dttype', 'elev', 'strval', 'prio',
                         'idbytes', 'statebytes', 'number32', 'latnan', 'latbig', 'huge'])

    @classmethod
    def make(cls, cfg):
        from gempakio import SurfaceFile
        p = cfg['params']
        cls.refuse(SurfaceFile, p)
        return SurfaceFile([x.lower() for x in p] if cfg.get('lower') else list(p))

    @staticmethod
    def values(spec, cfg):
        lv = spec['lev']
        g = np.random.Generator(np.random.PCG64(lv['seed']))
        out = {}
        for p in sorted(cfg['params']):
            v = float(np.round(g.normal(0, 400), 2))
            if lv.get('wild') and g.random() < 0.4:
                v = float(g.choice(WILD))
            if lv['as'] == 'int':
                v = float(int(v))
            elif g.random() < lv['nan']:
                v = math.nan
            if lv['as'] == 'f4' and not math.isnan(v):
                v = f32(v)
            out[p] = v
        return out

    @classmethod
    def args(cls, spec, cfg):
        vals = cls.values(spec, cfg)
        names = list(vals) if spec['lev']['order'] else list(cfg['params'])
        data = {}
        for p in names:
            v = vals[p]
            a = spec['lev']['as']
            if a == 'int':
                v = int(v)
            elif a == 'f4':
                v = np.float32(v)
            elif a == 'f8':
                v = np.float64(v)
            elif a == 'ma':
                v = np.ma.array([v], mask=[math.isnan(v)])[0]
            data[p.lower() if spec['lev']['case'] else p] = v
        st = spec['st']
        return [data, st['slat'], st['slon'], SoundingStore.dt_arg(spec['dt']),
                dict(st['info']) if st.get('info') is not None else None]

    @classmethod
    def add(cls, obj, spec, cfg, bad=None, args=None):
        a = list(args if args is not None else cls.args(spec, cfg))
        if bad:
            a[0] = dict(a[0])
        names = list(a[0])
        if bad == 'notdict':
            a[0] = list(a[0].items())
        elif bad == 'missingparam':
            del a[0][names[-1]]
        elif bad == 'extraparam':
            a[0]['ZZZZ'] = 1.0
        elif bad == 'array':
            a[0][names[0]] = [1.0, 2.0]
        elif bad == 'strval':
            a[0][names[0]] = 'warm'
        elif bad == 'latstr':
            a[1] = '40.0'
        elif bad == 'lonnone':
            a[2] = None
        elif bad == 'baddate':
            a[3] = '2020-01-01'
        elif bad == 'dttype':
            a[3] = 20200101
        elif bad == 'elev':
            a[4] = dict(a[4] or {}, elevation='high')
        elif bad == 'prio':
            a[4] = dict(a[4] or {}, priority='high')
        cls.bad_station(bad, a)
        return obj.add_station(*a)

    @classmethod
    def key(cls, spec):
        return (spec['dt']['t'], cls.station_key(spec['st'], True))

    @classmethod
    def value(cls, spec, cfg):
        v = cls.values(spec, cfg)
        return [f32(-9999.0) if math.isnan(v[p]) else f32(v[p]) for p in cfg['params']]

    @classmethod
    def check_bytes(cls, data, model, cfg, bits):
        dm = DM(data)
        if dm.ftype != 1:
            raise BadFile('file type')
        if len(dm.parts) != 1 or dm.parts[0]['params'] != [p.upper() for p in cfg['params']]:
            raise Violation('parameters', f"{dm.parts} for {cfg['params']}")
        gots = {}
        for (i, j, _), _v in dm.cells.items():
            h = cls.header_of(dm.rows[i], dm.cols[j])
            if h in gots:
                raise Violation('duplicate-entry', str(h))
            gots[h] = (i, j)
        where = cls.match(model, gots, 'stored file')
        for k, (i, j) in where.items():
            got = dm.real(i, j)
            want = [cls.value(model[k], cfg)]
            if got != want:
                raise Violation('wrong-value', f'stored {k}: {got} for {want}')
            hm = int(to_dt(k[0]).strftime('%H%M'))
            if dm.part_header(i, j)[0] != hm:
                raise Violation('wrong-value', f'stored time of {k}')

    @classmethod
    def check_decoded(cls, path, model, cfg, bits, ctx):
        from gempakio import GempakSurface
        with ctx.observing('decoding the written surface file'):
            s = GempakSurface(path)
            info = s.sfinfo()
            if len(info) != len(model):
                raise Violation('entry-count', f'{len(info)} in the index for {len(model)}')
            if not model:
                return
            out = s.sfjson()
            if len(out) != len(model):
                raise Violation('entry-count', f'{len(out)} read for {len(model)}')
            gots = {}
            for d in out:
                a = d['properties']
                t = a['date_time']
                h = (t.strftime('%y%m%d'), t.strftime('%H%M'), a['station_id'],
                     a['station_number'], round(a['latitude'] * 100),
                     round(a['longitude'] * 100), a['elevation'], a['state'], a['country'],
                     a['priority'])
                if h in gots:
                    raise Violation('duplicate-entry', str(h))
                gots[h] = d['values']
            where = cls.match(model, gots, 'decoded file')
            for k, vals in where.items():
                want = cls.value(model[k], cfg)
                got = [float(vals[p.lower()]) for p in cfg['params']]
                if got != want or len(vals) != len(want):
                    raise Violation('wrong-value', f'decoded {k}: {got} for {want}')


STORES = {'grid': GridStore, 'sounding': SoundingStore, 'surface': SurfaceStore}


def small_header_limit(n):
    """Turn the file-size limit into a tuning knob (only where the code has that name)."""
    import gempakio.encode.gempak as eg
    if n and hasattr(eg, 'MMHDRS'):
        eg.MMHDRS = n


__all__ = ['STORES', 'GridStore', 'SoundingStore', 'SurfaceStore', 'derive',
           'small_header_limit']
