"""Queries: generation, arguments in every accepted form, reference selection, canonical results."""
import copy
import hashlib
import re
from datetime import date, datetime, time, timedelta

import numpy as np

FIELD = {
    'grid': {'parameter': 'PARM', 'date_time': 'DATTIM1', 'coordinate': 'COORD',
             'level': 'LEVEL1', 'date_time2': 'DATTIM2', 'level2': 'LEVEL2'},
    'station': {'station_id': 'ID', 'station_number': 'NUMBER', 'date_time': 'DATTIM',
                'state': 'STATE', 'country': 'COUNTRY', 'bbox': None},
}
TEXTUAL = {'parameter', 'coordinate', 'station_id', 'state', 'country'}
BOGUS = {'parameter': 'NOPE', 'coordinate': 'ZZZZ', 'station_id': 'NOPE', 'state': 'QQ',
         'country': 'QQ', 'station_number': -77, 'level': 12345, 'level2': 12345,
         'date_time': datetime(1973, 3, 3, 3, 3), 'date_time2': datetime(1973, 3, 3, 3, 3)}
INFO = {'grid': 'gdinfo', 'sounding': 'sninfo', 'surface': 'sfinfo'}
GET = {'grid': 'gdxarray', 'sounding': 'snxarray', 'surface': 'sfjson'}


def fields(kind):
    return FIELD['grid' if kind == 'grid' else 'station']


def gen_filter(rng, f, near=False):
    if f == 'bbox':
        return {'c': rng.randrange(1000), 'w': rng.pick([0, 1, 20, 400]),
                'h': rng.pick([0, 1, 20, 200]), 'form': rng.pick(['tuple', 'list', 'array'])}
    if f.startswith('date_time') and rng.chance(0.25):
        return {'w': rng.pick(['first', 'FIRST', 'last', 'LAST'])}
    n = rng.weighted([(1, 5), (2, 3), (3, 1), (0, 0.2)])
    v = [rng.randrange(1000) if rng.chance(0.9) else 'x' for _ in range(n)]
    form = rng.pick(['list', 'tuple', 'array', 'dict'] + ([] if near else ['set']))
    if n == 1 and rng.chance(0.6):
        form = 'one'
    d = {'v': v, 'form': form}
    if f in TEXTUAL:
        d['case'] = rng.pick(['u', 'l', 'm'])
    elif f.startswith('date_time'):
        d['as'] = rng.pick(['dt', 'str'])
    elif f == 'station_number':
        d['as'] = rng.pick(['int', 'str', 'np'])
    else:
        d['as'] = rng.pick(['int', 'float', 'np'])
    return d


def gen(rng, kind):
    """One query as JSON."""
    if kind == 'vgf':
        c = rng.random()
        if c < 0.3:
            return {'m': 'elements'}
        if c < 0.5:
            return {'m': 'json'}
        if c < 0.6:
            return {'m': 'props'}
        if c < 0.8:
            return {'m': 'filter', 'cls': rng.pick([None, 0, 1, 2]), 'typ': rng.pick([None, 0, 1]),
                    'k': rng.randrange(1000), 'op': rng.pick(['and', 'or'])}
        return {'m': 'getters'}
    c = rng.random()
    if c < 0.2:
        return {'m': 'info'}
    names = sorted(fields(kind))
    if kind == 'grid' and c < 0.27:
        return {'m': 'project', 'n': rng.randrange(0, 4), 'v': rng.randrange(1000),
                'form': rng.pick(['list', 'tuple', 'array', 'f4', 'one'])}
    if kind == 'surface' and c < 0.45:
        f = rng.pick([n for n in names if n != 'date_time'])
        flt = gen_filter(rng, f, near=True)
        return {'m': 'near', 'by': f, 'flt': flt, 't': rng.randrange(1000),
                'off': rng.pick([0, 0, -7, 30, -31, 600, -100000, 100000]),
                'as': rng.pick(['dt', 'str']), 'sp': rng.chance(0.4)}
    k = rng.weighted([(0, 1), (1, 5), (2, 3), (3, 1), (4, 0.5)])
    q = {'m': 'get', 'f': {n: gen_filter(rng, n) for n in rng.sample(names, min(k, len(names)))}}
    if rng.chance(0.22):
        # the words mean the first and last of the whole file, whatever else is asked for
        q['f'] = {n: gen_filter(rng, n) for n in rng.sample(names, rng.pick([1, 1, 2]))}
        dt = rng.pick([n for n in names if n.startswith('date_time')])
        q['f'][dt] = {'w': rng.pick(['first', 'last', 'FIRST', 'LAST'])}
    if kind == 'surface':
        q['sp'] = rng.chance(0.5)
    return q


def vary(rng, q, kind):
    """The same question with one thing changed (what is remembered for one must not serve the other)."""
    q = copy.deepcopy(q)
    if q['m'] in ('get', 'near') and 'sp' in q and rng.chance(0.3):
        q['sp'] = not q['sp']
    elif q['m'] == 'near':
        if rng.chance(0.5):
            q['off'] = rng.pick([0, -7, 30, -31, 600, -100000, 100000])
        else:
            q['flt'] = gen_filter(rng, q['by'], near=True)
    elif q['m'] == 'project':
        q['v'] += 1
    elif q['m'] == 'get':
        c = rng.random()
        if q['f'] and c < 0.25:
            del q['f'][rng.pick(sorted(q['f']))]
        elif q['f'] and c < 0.75:
            n = rng.pick(sorted(q['f']))
            f = q['f'][n]
            if 'w' in f and n != 'bbox':
                f['w'] = rng.pick([w for w in ('first', 'last') if w != f['w'].lower()])
            elif f.get('v') and rng.chance(0.6):
                # another value in the same place
                f['v'][rng.randrange(len(f['v']))] = rng.randrange(1000)
            else:
                q['f'][n] = gen_filter(rng, n)
        else:
            n = rng.pick(sorted(fields(kind)))
            q['f'][n] = gen_filter(rng, n)
    return q


def gen_more(rng, kind, qs):
    """A new question or a variation of an earlier one."""
    old = [q for q in qs if q['m'] in ('get', 'near', 'project')]
    if old and rng.chance(0.25):
        return vary(rng, rng.pick(old), kind)
    return gen(rng, kind)


def case(s, how):
    if how == 'l':
        return s.lower()
    if how == 'm':
        return ''.join(ch.lower() if k % 2 else ch for k, ch in enumerate(s))
    return s


def entry_get(e, key):
    return e[key] if isinstance(e, dict) else getattr(e, key)


def vals(f, spec, entries, key):
    """The values a filter asks for (None when the filter has nothing usable)."""
    out = []
    for v in spec['v']:
        x = BOGUS[f] if v == 'x' or not entries else entry_get(entries[v % len(entries)], key)
        if x is not None:
            out.append(x)
    return out


def shape(xs, form):
    if form == 'one':
        return xs[0]
    if form == 'list':
        return list(xs)
    if form == 'tuple':
        return tuple(xs)
    if form == 'set':
        return set(xs)
    if form == 'dict':
        return dict.fromkeys(xs)
    a = np.empty(len(xs), dtype=object)
    a[:] = xs
    if xs and all(isinstance(x, str) for x in xs):
        return np.array(xs)
    if xs and all(isinstance(x, int | float | np.number) for x in xs):
        return np.array(xs)
    return a


def bbox(spec, entries):
    if not entries:
        return (-1.0, 1.0, -1.0, 1.0)
    e = entries[spec['c'] % len(entries)]
    la, lo = entry_get(e, 'LAT'), entry_get(e, 'LON')
    return (lo - spec['w'], lo + spec['w'], la - spec['h'], la + spec['h'])


def argument(f, spec, entries, key):
    """(present, argument) fresh on every call."""
    if f == 'bbox':
        return True, shape(bbox(spec, entries), spec['form'])
    if 'w' in spec:
        return True, spec['w']
    xs = vals(f, spec, entries, key)
    if spec['form'] == 'one' and not xs:
        return False, None
    if f in TEXTUAL:
        xs = [case(x, spec.get('case')) for x in xs]
    elif f.startswith('date_time'):
        if spec.get('as') == 'str':
            xs = [x.strftime('%Y%m%d%H%M') for x in xs]
    else:
        conv = {'str': str, 'np': np.int64, 'float': float}.get(spec.get('as'), int)
        xs = [conv(x) for x in xs]
    return True, shape(xs, spec['form'])


def arguments(q, kind, entries):
    """Keyword arguments of the query."""
    fs = fields(kind)
    kw = {}
    if q['m'] == 'project':
        for name, off, step in (('lon', -120, 7.25), ('lat', 20, 3.5)):
            xs = [off + step * ((q['v'] + i * i) % 8) for i in range(q['n'] or 1)]
            kw[name] = {'list': list, 'tuple': tuple, 'one': lambda x: x[0], 'array': np.array,
                        'f4': lambda x: np.array(x, dtype='f4')}[q['form']](xs)
    elif q['m'] == 'near':
        ok, a = argument(q['by'], q['flt'], entries, fs[q['by']])
        if ok:
            kw[q['by']] = a
        t = near_time(q, entries)
        kw['date_time'] = t.strftime('%Y%m%d%H%M') if q['as'] == 'str' else t
    elif q['m'] == 'get':
        for f in q['f']:
            ok, a = argument(f, q['f'][f], entries, fs[f])
            if ok:
                kw[f] = a
    if 'sp' in q:
        kw['include_special'] = q['sp']
    return kw


def near_time(q, entries):
    t = entry_get(entries[q['t'] % len(entries)], 'DATTIM') if entries else datetime(2020, 1, 1)
    return t + timedelta(minutes=q['off'])


def call(obj, q, kind, kw):
    """Run the query on an opened file."""
    if kind == 'vgf':
        return vgf_call(obj, q)
    if q['m'] == 'info':
        return getattr(obj, INFO[kind])()
    if q['m'] == 'project':
        return obj.project_point(kw['lon'], kw['lat'])
    if q['m'] == 'near':
        kw = dict(kw)
        return obj.nearest_time(kw.pop('date_time'), **kw)
    return getattr(obj, GET[kind])(**kw)


def vgf_call(obj, q):
    if q['m'] == 'elements':
        return list(obj.elements)
    if q['m'] == 'json':
        return obj.to_json()
    if q['m'] == 'props':
        return {n: getattr(obj, n) for n in (
            'groups', 'header', 'bounds', 'has_fronts', 'has_text', 'has_special_text',
            'has_symbols', 'has_special_symbols', 'has_markers', 'has_special_lines', 'has_lines',
            'has_winds', 'has_tracks', 'has_watch_box', 'has_sigmet', 'has_met')}
    if q['m'] == 'filter':
        els = list(obj.elements)
        e = els[q['k'] % len(els)] if els else None
        c = None if q['cls'] is None or e is None else int(e.vg_class)
        t = None if q['typ'] is None or e is None else int(e.vg_type)
        return obj.filter_elements(vg_class=c, vg_type=t, operation=q['op'])
    return [getattr(obj, 'get_' + n)() for n in (
        'fronts', 'text', 'special_text', 'symbols', 'special_symbols', 'markers',
        'special_lines', 'lines', 'tracks', 'winds', 'watch_box', 'sigmet')] + [
        [obj.get_group(g) for g in obj.groups]]


# ---- reference selection -------------------------------------------------------------------


def matches(f, spec, entries, key, e):
    if f == 'bbox':
        a, b, c, d = bbox(spec, entries)
        return a <= entry_get(e, 'LON') <= b and c <= entry_get(e, 'LAT') <= d
    if 'w' in spec:
        have = [entry_get(x, key) for x in entries]
        have = [x for x in have if x is not None]
        if not have:
            return False
        return entry_get(e, key) == (max if spec['w'].lower() == 'last' else min)(have)
    xs = vals(f, spec, entries, key)
    if spec['form'] == 'one' and not xs:
        return True
    return entry_get(e, key) in xs


def select(q, kind, entries):
    """Entries a `get` must return, in order."""
    fs = fields(kind)
    return [e for e in entries if all(
        matches(f, s, entries, fs[f], e) for f, s in q['f'].items())]


# ---- canonical results ---------------------------------------------------------------------


def canon(x):
    """Plain nested tuples that capture type, order and exact value."""
    import pandas as pd
    import xarray as xr
    if x is None or isinstance(x, str | bytes | bool):
        return x
    if type(x) is int:
        return x
    if isinstance(x, float) and not isinstance(x, np.floating):
        return ('f', repr(float(x)))
    if isinstance(x, xr.DataArray):
        return ('da', x.name, x.dims, arr(x), tuple(
            (str(k), x.coords[k].dims, arr(x.coords[k])) for k in sorted(x.coords, key=str)),
            canon(dict(x.attrs)))
    if isinstance(x, xr.Dataset):
        return ('ds', tuple((str(k), x[k].dims, arr(x[k])) for k in x.data_vars), tuple(
            (str(k), x.coords[k].dims, arr(x.coords[k])) for k in sorted(x.coords, key=str)),
            canon(dict(x.attrs)))
    if isinstance(x, np.ma.MaskedArray):
        return ('ma', str(x.dtype), x.shape, canon(np.asarray(x.filled(0))),
                np.ma.getmaskarray(x).tobytes())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('oa', x.shape, tuple(canon(v) for v in x.ravel().tolist()))
        return ('a', str(x.dtype), x.shape, digest(np.ascontiguousarray(x).tobytes()))
    if isinstance(x, pd.Series):        # not its attributes: there are caches among them
        return ('s', canon(x.name), canon(x.index.to_numpy()), canon(x.to_numpy()))
    if isinstance(x, np.generic):
        return ('g', str(x.dtype), x.tobytes())
    if isinstance(x, datetime | date | time | timedelta):
        return ('t', type(x).__name__, repr(x))
    if isinstance(x, dict):
        return ('d', tuple((canon(k), canon(v)) for k, v in x.items()))
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return ('n', type(x).__name__, x._fields, tuple(canon(v) for v in x))
    if isinstance(x, list | tuple):
        return (type(x).__name__, tuple(canon(v) for v in x))
    if hasattr(x, 'value') and hasattr(x, 'name'):
        return ('e', type(x).__name__, str(x.name))
    if hasattr(x, '__dict__'):
        return ('o', type(x).__name__, tuple((k, canon(v)) for k, v in sorted(
            vars(x).items())))
    return ('r', type(x).__name__, re.sub(' at 0x[0-9a-f]+', '', str(x)))


def arr(v):
    a = v.values
    if a.dtype == object:
        return ('oa', a.shape, tuple(canon(t) for t in a.ravel().tolist()))
    if a.dtype.kind == 'f':
        a = np.where(np.isnan(a), a.dtype.type(np.nan), a)     # one bit pattern for missing
    return (str(a.dtype), a.shape, digest(np.ascontiguousarray(a).tobytes()))


def digest(b):
    return b if len(b) <= 16 else hashlib.sha256(b).hexdigest()[:20]


def short(c):
    return hashlib.sha256(repr(c).encode()).hexdigest()[:12]


def outcome(out):
    """Canonical outcome of a ctx.call."""
    if out.exc is not None:
        return ('exc', type(out.exc).__name__)
    return ('ok', canon(out.value))


# ---- comparison with the model of an image --------------------------------------------------


def bad(ctx, what, detail):
    from dst.core import Violation
    raise Violation(what, detail)


def check_info(ctx, got, image):
    ents = image.entries
    if len(got) != len(ents):
        bad(ctx, 'wrong-listing', f'{len(got)} entries listed for {len(ents)}')
    for g, e in zip(got, ents, strict=True):
        for k, v in e.items():
            if k.isupper() and getattr(g, k) != v:
                bad(ctx, 'wrong-listing', f'{k} is {getattr(g, k)!r} for {v!r} in {g}')


def check_get(ctx, q, got, image):
    """The result of a `get` holds exactly the selected entries with their stored values."""
    sel = select(q, image.kind, image.entries)
    if image.kind == 'grid':
        sel = [e for e in sel if e['value'] is not None]
        _count(ctx, got, sel)
        for g, e in zip(got, sel, strict=True):
            check_grid(ctx, g, e)
    elif image.kind == 'sounding':
        _count(ctx, got, sel)
        for g, e in zip(got, sel, strict=True):
            check_sounding(ctx, g, e)
    else:
        flat = [(e, r) for e in sel for r in e['reports'] if q.get('sp') or not r['special']]
        _count(ctx, got, flat)
        for g, (e, r) in zip(got, flat, strict=True):
            check_report(ctx, g, e, r)


def _count(ctx, got, sel):
    if len(got) != len(sel):
        bad(ctx, 'wrong-selection', f'{len(got)} results for {len(sel)} matching entries')


def check_grid(ctx, g, e):
    t = g.coords['time'].values
    dim = g.dims[1]
    lev = g.coords[dim].values[0]
    have = (g.name, g.dims[0], dim, t.shape, t[0], lev, g.attrs.get('grid_type'))
    want = (e['var'], 'time', e['COORD'].lower(), (1,), np.datetime64(e['DATTIM1']), e['LEVEL1'],
            e['TYPE'])
    if have != want:
        bad(ctx, 'wrong-entry', f'{have} for {want}')
    a = np.asarray(g.values, dtype='f4')[0, 0]
    if a.shape != e['value'].shape or not np.array_equal(a, e['value'], equal_nan=True):
        bad(ctx, 'wrong-values', f"grid {e['no']} ({e['PARM']}): {a.ravel()[:6]} for "
            f"{e['value'].ravel()[:6]}")
    ky, kx = a.shape
    lat, lon = g.coords['lat'].values, g.coords['lon'].values
    la0, lo0, la1, lo1 = e['area']['corners']
    off = [lat[0, 0] - la0, lon[0, 0] - lo0 if abs(la0) != 90 else 0]
    if kx > 1 and ky > 1:
        off += [lat[-1, -1] - la1, lon[-1, -1] - lo1 if abs(la1) != 90 else 0]
    if e['area']['even']:
        off += list(lat[:, 0] - np.linspace(la0, la1, ky))
        off += list(lon[-1 if abs(la0) == 90 and ky > 1 else 0] - np.linspace(lo0, lo1, kx))
    off = np.abs((np.array(off) + 180) % 360 - 180)
    if off.max() > 0.01:
        bad(ctx, 'wrong-area', f"corners {e['area']['corners']}: latitudes {lat.ravel()[:5]} and "
            f'longitudes {lon.ravel()[:5]}')


def check_sounding(ctx, g, e):
    for k, f in (('station_id', 'ID'), ('station_number', 'NUMBER'), ('lat', 'LAT'),
                 ('lon', 'LON'), ('elevation', 'ELEV'), ('state', 'STATE'),
                 ('country', 'COUNTRY')):
        if g.attrs[k] != e[f]:
            bad(ctx, 'wrong-entry', f'{k} {g.attrs[k]!r} for {e[f]!r}')
    if g.coords['time'].values[0] != np.datetime64(e['DATTIM']):
        bad(ctx, 'wrong-entry', f"time {g.coords['time'].values[0]} for {e['DATTIM']}")
    if e.get('text', {}) != g.attrs.get('wmo_codes', {}):
        bad(ctx, 'wrong-values', f"text {g.attrs.get('wmo_codes')} for {e.get('text')}")
    if e['levels'] is None:
        pres = g.coords['pres'].values
        for r in e['mandatory']:
            at = np.flatnonzero(np.isclose(pres, r['PRES'], rtol=1e-6))
            if not any(all(r[k] is None or close(g[k.lower()].values[0][i], r[k])
                           for k in ('TEMP', 'DWPT')) for i in at):
                bad(ctx, 'wrong-values', f'the level {r} is not in the merged sounding: {pres[:9]}')
        return
    lev = e['levels']
    if not close(g.coords['pres'].values, lev[:, 0]):
        bad(ctx, 'wrong-values', f"levels {g.coords['pres'].values[:5]} for {lev[:5, 0]}")
    if list(g.data_vars) != e['params'][1:]:
        bad(ctx, 'wrong-values', f"variables {list(g.data_vars)} for {e['params'][1:]}")
    for k, p in enumerate(e['params'][1:], 1):
        if not close(g[p].values[0], lev[:, k]):
            bad(ctx, 'wrong-values', f'{p}: {g[p].values[0][:5]} for {lev[:5, k]}')


def check_report(ctx, g, e, r):
    p = g['properties']
    have = tuple(p[k] for k in ('date_time', 'station_id', 'station_number', 'longitude',
                                'latitude', 'elevation', 'state', 'country'))
    want = (r['dt'], e['ID'], e['NUMBER'], e['LON'], e['LAT'], e['ELEV'], e['STATE'],
            e['COUNTRY'])
    if have != want:
        bad(ctx, 'wrong-entry', f'{have} for {want}')
    v = g['values']
    if set(v) != set(r['values']):
        bad(ctx, 'wrong-values', f"{sorted(v)} for {sorted(r['values'])}")
    for k, x in r['values'].items():
        ok = v[k] == x if isinstance(x, str) else close(
            np.where(np.float32(v[k]) == np.float32(-9999), np.nan, np.float32(v[k])), x)
        if not ok:
            bad(ctx, 'wrong-values', f'{k}: {v[k]!r} for {x!r}')


def close(a, b):
    a, b = np.asarray(a, dtype='f8'), np.asarray(b, dtype='f8')
    return a.shape == b.shape and np.allclose(a, b, rtol=2e-6, atol=1e-6, equal_nan=True)


def near_groups(q, image):
    """Entries of each station asked for."""
    ents, spec = image.entries, q['flt']
    key = fields('surface')[q['by']]
    if q['by'] in ('station_id', 'station_number'):
        asked = vals(q['by'], spec, ents, key)
        if spec['form'] == 'dict':
            asked = list(dict.fromkeys(asked))
        return [[e for e in ents if e[key] == a] for a in asked]
    inside = [e for e in ents if matches(q['by'], spec, ents, key, e)]
    ids = list(dict.fromkeys(e['ID'] for e in inside))
    return [[e for e in inside if e['ID'] == i] for i in ids]


def near_missing(q, image):
    """(stations asked for, how many of them have no report to choose from)."""
    groups = near_groups(q, image)
    miss = sum(not any(q['sp'] or not r['special'] for e in g for r in e['reports'])
               for g in groups)
    return len(groups), miss


def check_near(ctx, q, got, image):
    """Every result is a nearest report of its station; exactly the asked stations appear."""
    t = near_time(q, image.entries)

    def group(es):
        return [(e, r) for e in es for r in e['reports'] if q['sp'] or not r['special']]
    groups = [group(g) for g in near_groups(q, image)]
    groups = [g for g in groups if g]
    if len(got) != len(groups):
        bad(ctx, 'wrong-selection', f'{len(got)} nearest reports for {len(groups)} stations')
    for g, cands in zip(got, groups, strict=True):
        best = min(abs(r['dt'] - t) for _, r in cands)
        errs = []
        for e, r in cands:
            if abs(r['dt'] - t) != best:
                continue
            try:
                check_report(ctx, g, e, r)
                break
            except Exception as exc:
                errs.append(str(exc))
        else:
            bad(ctx, 'not-nearest', f'{g} is not one of {len(errs)} nearest to {t}: {errs[:2]}')
