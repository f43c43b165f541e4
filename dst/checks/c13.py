"""C13: nothing handed in or out is shared with later operations."""
import copy

import numpy as np
import pandas as pd

from dst import queries, sources
from dst.core import Rng, Violation, derive
from dst.simfs import SimFS
from dst.stores import STORES, GridStore
from dst.vgfstore import VgfStore

ID = 'C13'
LEVEL = 'exploration'
BUDGET = {'quick': {'runs': 20000, 'seconds': 80}, 'thorough': {'runs': 400000, 'seconds': 800}}
SHRINK = ('ops', 'qs', 'cols', 'cells', 'specs', 'stations')


# ---- scrambling -----------------------------------------------------------------------------

def leaf(x, rng):
    if isinstance(x, bool) or x is None:
        return not x
    if isinstance(x, int):
        return x + 1 + rng.randrange(1000)
    if isinstance(x, float):
        return -x + 17.25
    if isinstance(x, str):
        return x + '!' if rng.chance(0.5) else ''
    return x


def scramble_array(a, rng, count):
    if not a.flags.writeable or a.size == 0:
        return
    count('array')
    if a.dtype.kind == 'f':
        a[...] = rng.pick([np.nan, -9999.0, 0.0, 1e30, 12.5])
    elif a.dtype.kind in 'iu':
        a[...] = rng.pick([0, 1, -1 if a.dtype.kind == 'i' else 2, 77])
    elif a.dtype.kind == 'M':
        a[...] = np.datetime64('1975-05-05T05:05')
    elif a.dtype.kind == 'b':
        a[...] = ~a
    elif a.dtype.kind == 'O':
        for i in range(a.size):
            a.flat[i] = 'changed'
    elif a.dtype.kind in 'US':
        a[...] = 'zz'


def scramble(x, rng, count, depth=0):
    """Change everything reachable from x in place, as far as it can be changed."""
    import xarray as xr
    if depth > 8:
        return
    if isinstance(x, np.ma.MaskedArray):
        if x.size and x.flags.writeable:
            count('array')
            x.mask = np.ma.nomask
            scramble_array(x.data, rng, count)
    elif isinstance(x, np.ndarray):
        scramble_array(x, rng, count)
    elif isinstance(x, pd.Series):
        scramble_array(x.values, rng, count)
    elif isinstance(x, xr.DataArray | xr.Dataset):
        for c in list(x.coords):
            scramble_array(x.coords[c].values, rng, count)
            scramble_array(np.asarray(x.coords[c].variable.to_base_variable().data), rng, count)
        if isinstance(x, xr.Dataset):
            for v in list(x.data_vars):
                scramble_array(x[v].values, rng, count)
                scramble(x[v].attrs, rng, count, depth + 1)
            if rng.chance(0.5):
                for v in list(x.data_vars)[:1]:
                    del x[v]
        else:
            scramble_array(x.values, rng, count)
        scramble(x.attrs, rng, count, depth + 1)
    elif isinstance(x, dict):
        for v in list(x.values()):
            scramble(v, rng, count, depth + 1)
        count('dict')
        how = rng.randrange(3)
        if how == 0:
            x.clear()
        elif how == 1:
            for k in list(x):
                x[k] = leaf(x[k], rng)
        else:
            for k in list(x)[:1]:
                del x[k]
            x['added'] = 1
    elif isinstance(x, list):
        for v in x:
            scramble(v, rng, count, depth + 1)
        count('list')
        how = rng.randrange(4)
        if how == 0:
            x.clear()
        elif how == 1:
            x[:] = [leaf(v, rng) for v in x]
        elif how == 2:
            x.reverse()
            x.append(x[0] if x else 5)
        else:
            x[:1] = []
    elif isinstance(x, set):
        count('set')
        x.clear()
    elif isinstance(x, tuple):
        for v in x:
            scramble(v, rng, count, depth + 1)


def refill(old, new):
    """Put the new data into the caller's old containers where they fit (buffer reuse)."""
    if isinstance(old, np.ndarray) and type(old) is type(new) and old.shape == new.shape \
            and old.dtype == new.dtype and old.flags.writeable:
        old[...] = new
        return old
    if type(old) is dict and type(new) is dict:
        vals = {k: refill(old.get(k), v) for k, v in new.items()}
        old.clear()
        old.update(vals)
        return old
    if type(old) is list and type(new) is list:
        old[:] = new
        return old
    return new


# ---- writers ----------------------------------------------------------------------------------

def gen(rng, tier, i):
    if rng.chance(0.06):
        from dst.checks import c25
        plan = c25.gen(rng, tier, i)
        return {'side': 'vgf-reader', 'vgf': {k: plan[k] for k in ('recs', 'source') if k in plan},
                'qs': [{k: v for k, v in q.items() if k not in ('at', 'exc', 'gone')}
                       for q in plan['qs']]}
    if rng.chance(0.5):
        return gen_reader(rng, tier)
    kind = rng.weighted([('grid', 4), ('sounding', 3), ('surface', 3), ('vgf', 2)])
    st = VgfStore if kind == 'vgf' else STORES[kind]
    cfg = st.fix_cfg(rng, st.gen_cfg(rng, small=rng.chance(0.7)))
    pool, ops = [], []
    for _ in range(rng.weighted([(2, 2), (5, 4), (10, 2)])):
        if rng.chance(0.8) or not pool:
            s = st.gen_spec(rng, cfg, pool)
            pool.append(s)
            op = {'op': 'add', 'spec': s, 'seed': rng.randrange(1 << 30)}
            if kind != 'vgf' and rng.chance(0.12):
                op['bad'] = st.gen_bad(rng)
            op['reuse'] = rng.chance(0.4)
            op['after'] = rng.pick(['now', 'now', 'later', 'never'])
            ops.append(op)
        else:
            ops.append({'op': 'write'})
    return {'side': 'writer', 'kind': kind, 'cfg': cfg, 'ops': ops, 'seed': rng.randrange(1 << 30),
            'list': rng.chance(0.5)}


def gen_reader(rng, tier):
    src = sources.gen(rng)
    ops = []
    for _ in range(rng.weighted([(3, 3), (6, 3), (12, 1)])):
        ops.append({'q': queries.gen(rng, src['kind']) if rng.chance(0.6) else rng.pick([
            {'m': 'get', 'f': {}}, {'m': 'info'}]), 'scramble': rng.chance(0.6),
            'args': rng.chance(0.5), 'seed': rng.randrange(1 << 30)})
    return {'side': 'reader', 'source': src, 'qs': ops}


def make(st, cfg):
    """A writer and the containers its constructor was given."""
    if st is GridStore:
        from gempakio import GridFile
        p, x, y, lon, lat = st.coords(cfg)
        if cfg['xy']:
            return GridFile(x, y, p, use_xy=True), [x, y]
        return GridFile(lon, lat, p), [lon, lat]
    if st is VgfStore:
        return st.make(cfg), []
    from gempakio import SoundingFile, SurfaceFile
    params = [x.lower() for x in cfg['params']] if cfg.get('lower') else list(cfg['params'])
    return (SoundingFile if st.name == 'sounding' else SurfaceFile)(params), [params]


def snapshot(x):
    return queries.canon(x)


def run_writer(plan, ctx):
    st = VgfStore if plan['kind'] == 'vgf' else STORES[plan['kind']]
    cfg = plan['cfg']
    fs = SimFS(ctx.scratch, ctx)

    def count(what):
        ctx.fault('caller-changes:' + what)
    obj, given = make(st, cfg)
    twin, _ = make(st, cfg)
    scramble(given, Rng(derive(plan['seed'], 'new')), count)
    mine, last, elements = [], None, []
    for n, op in enumerate(plan['ops'] + [{'op': 'write'}]):
        ctx.steps += 1
        if op['op'] == 'add':
            rng = Rng(derive(op['seed']))
            args = st.args(op['spec'], cfg)
            if op['reuse'] and last is not None:
                if not isinstance(args, tuple) and len(args) == len(last):
                    args = [refill(o, a) for o, a in zip(last, args, strict=True)]
                ctx.fault('caller-changes:reused-buffer')
            private = st.args(op['spec'], cfg)
            before = snapshot(args)
            out = ctx.call('add', st.add, obj, op['spec'], cfg, op.get('bad'), args)
            with ctx.observing('the arguments'):
                if snapshot(args) != before:
                    raise Violation('caller-data-changed', f'op {n}: {op["spec"]}')
            ref = ctx.call('add-twin', st.add, twin, op['spec'], cfg, op.get('bad'), private)
            if out.ok != ref.ok:
                raise Violation('shared-data', f'op {n}: {out.exc!r} but {ref.exc!r} for private '
                                'data')
            if out.ok and plan['kind'] == 'vgf':
                elements.append(out.value)
            last = args
            if op['after'] == 'now':
                scramble(args, rng, count)
            elif op['after'] == 'later':
                mine.append((args, rng))
            ctx.mark(plan['kind'], 'add', out.ok, op['after'], op['reuse'],
                     str(op['spec'].get('arr', op['spec'].get('lev', op['spec'].get('form'))))[:60])
            continue
        for args, rng in mine:
            scramble(args, rng, count)
        mine = []
        writer = obj
        if plan['kind'] == 'vgf' and plan['list'] and hasattr(type(obj), 'from_elements'):
            lst = list(elements)
            writer = type(obj).from_elements(*lst)
            if len(lst) != len(elements) or any(a is not b for a, b in zip(lst, elements,
                                                                           strict=True)):
                raise Violation('caller-data-changed', f'op {n}: list of elements')
            lst.reverse()
            lst.clear()
        out = ctx.call('write', st.write, writer, fs.path('a'))
        ref = ctx.call('write-twin', st.write, twin, fs.path('b'))
        if out.ok != ref.ok:
            raise Violation('shared-data', f'op {n}: write {out.exc!r} but {ref.exc!r} for private '
                            'data')
        if out.ok:
            a, b = fs.get('a'), fs.get('b')
            if a != b:
                at = next((i for i, (x, y) in enumerate(zip(a, b, strict=False)) if x != y),
                          min(len(a), len(b)))
                raise Violation('shared-data', f'op {n}: the file differs from that of private data '
                                f'at byte {at} ({len(a)} and {len(b)} bytes)')
            ctx.probe('writes-compared')


# ---- readers ------------------------------------------------------------------------------------

def run_reader(plan, ctx):
    fs = SimFS(ctx.scratch, ctx)
    src = sources.build(plan['source'], ctx.scratch)
    kind = src.kind
    fs.put('f', src.data)
    obj = sources.open_(kind, fs.path('f'))
    ents = src.image.entries if src.image else getattr(
        sources.open_(kind, fs.path('f')), queries.INFO[kind])()

    def count(what):
        ctx.fault('caller-changes:' + what)
    kept = []
    for n, op in enumerate(plan['qs']):
        ctx.steps += 1
        q, rng = op['q'], Rng(derive(op['seed']))
        kw = queries.arguments(q, kind, ents)
        out = ctx.call(q['m'], queries.call, obj, q, kind, kw)
        fresh = sources.open_(kind, fs.path('f'))
        ref = ctx.call(q['m'], queries.call, fresh, q, kind, queries.arguments(q, kind, ents))
        with ctx.observing(f'result of {q}'):
            got, want = queries.outcome(out), queries.outcome(ref)
        if got != want:
            raise Violation('shared-result', f'query {n} {q}: {str(got)[:300]} instead of '
                            f'{str(want)[:300]} after changes to earlier results')
        ctx.probe('results-compared')
        ctx.mark(kind, q['m'], sorted(kw), got[0], op['scramble'], len(kept))
        if op['args']:
            scramble(kw, rng, count)
        if out.ok:
            if op['scramble']:
                scramble(out.value, rng, count)
            else:
                kept.append((n, q, out.value, got[1]))
        for m, q2, value, snap in kept:
            with ctx.observing(f'earlier result of {q2}'):
                if queries.canon(value) != snap:
                    raise Violation('result-changed', f'result of query {m} {q2} changed after '
                                    f'query {n} {q}')


def shape(v):
    """All a result of a vector graphic file says."""
    from dst.checks import c25
    if isinstance(v, (list, tuple)):
        return [shape(x) for x in v]
    if hasattr(v, '__dict__') and not isinstance(v, type):
        return type(v).__name__, repr(c25.plain(vars(v))), id(v)
    return repr(c25.plain(v))


def run_vgf(plan, ctx):
    """Earlier answers of a vector graphic file stay as they are while others are given."""
    from dst.checks import c25
    fs = SimFS(ctx.scratch, ctx)
    data, want, _ = c25.model(plan['vgf'], ctx.scratch)
    fs.put('f', data)
    obj = sources.open_('vgf', fs.path('f'))
    kept = []
    for n, q in enumerate(plan['qs']):
        ctx.steps += 1
        out = ctx.call(q['m'], c25.ask, obj, c25.resolve(q, want))
        for m, q2, value, snap in kept:
            with ctx.observing(f'earlier result of {q2}'):
                if shape(value) != snap:
                    raise Violation('result-changed', f'result of question {m} {q2} changed after '
                                    f'question {n} {q}')
        if out.ok and len(kept) < 6:
            with ctx.observing(f'result of {q}'):
                kept.append((n, q, out.value, shape(out.value)))
        ctx.probe('results-compared')
        ctx.mark('vgf', q['m'], out.ok, len(kept))


def run(plan, ctx):
    if plan['side'] == 'vgf-reader':
        run_vgf(plan, ctx)
    elif plan['side'] == 'writer':
        run_writer(plan, ctx)
    else:
        run_reader(plan, ctx)


def simplify(plan):
    for i, op in enumerate(plan.get('ops', [])):
        for k, v in (('reuse', False), ('after', 'never')):
            if op.get(k, v) != v:
                p = copy.deepcopy(plan)
                p['ops'][i][k] = v
                yield p
    for i, op in enumerate(plan.get('qs', [])):
        for k in ('scramble', 'args'):
            if op.get(k):
                p = copy.deepcopy(plan)
                p['qs'][i][k] = False
                yield p


def nontrivial(plan, res):
    return plan['side'] == 'vgf-reader' or any(k.startswith('caller-changes')
                                               for k in res['faults'])


RULE = ('A run is either a writer whose caller changes, clears or refills the arrays, lists and '
        'dictionaries it handed over (constructor arguments included) right after the call or before '
        'the next write, compared byte for byte with a twin given private copies; or a reader whose '
        'caller changes everything reachable from the results and arguments of some queries, with '
        'the results of the others and of fresh objects compared; or a vector graphic file whose '
        'earlier answers are looked at again after later questions. Non-trivial: something was '
        'changed, or it is such a file.')
MEASURE = 'distinct (kind, operation, outcome, moment of the change, form of the data or filters)'
REAL = ['gempakio writers and readers', 'numpy, xarray, pyproj, pandas']
STUB = ['none besides the builder of foreign files']
ASSUME = ['elements of vector graphic files are shared by design (C04); their coordinate arrays are '
          'not']
