"""C01-C03: refinement of the three data-management writers against a dictionary model.

One simulated run: a writer object, a history of additions (accepted, replacing, rejected), tuning
changes and writes, with storage faults inside some writes; after every write that returns
normally the image on the simulated disk is read by the independent reader and by the library and
compared with the model.  Every run ends with one fault-free write.
"""
from dst.core import Violation
from dst.dmread import BadFile
from dst.simfs import SimFS
from dst.stores import STORES, small_header_limit

FAULTS = [({'op': 'open', 'nth': 1, 'err': 'EACCES'}, 1), ({'op': 'open', 'nth': 1, 'err': 'EIO'}, 1),
          ({'op': 'write', 'err': 'ENOSPC'}, 3), ({'op': 'write', 'err': 'EIO'}, 3),
          ({'op': 'close', 'nth': 1, 'err': 'EIO'}, 1), ({'op': 'short_write'}, 2)]


def gen_faults(rng, size_hint=6000):
    """A fault script for one write call."""
    out = []
    for _ in range(rng.weighted([(1, 6), (2, 1)])):
        f = dict(rng.weighted(FAULTS))
        if f['op'] == 'write':
            f['at'] = rng.pick([0, 1, 28, 512, rng.randrange(size_hint)])
            f['times'] = rng.pick([1, 1, 0])
        if f['op'] == 'short_write':
            f['size'] = rng.pick([1, 7, 100, 512, 4096])
            f['times'] = 0
        out.append(f)
    return out


def gen(store, rng, tier, i):
    cfg = store.fix_cfg(rng, store.gen_cfg(rng))
    big = tier == 'thorough'
    n = rng.weighted([(2, 2), (6, 4), (14, 3), (40 if big else 25, 1)])
    huge = rng.chance(0.025)
    if huge:
        n = min(n, 6)
        if store.name == 'grid':
            cfg['nx'], cfg['ny'] = rng.pick([(120, 90), (300, 250), (257, 129), (1, 400), (500, 1),
                                             (181, 363)])
    faulty = rng.chance(0.6)
    limit = rng.pick([4, 6, 9]) if rng.chance(0.12) and not huge else 0
    pool, ops = [], []
    for _ in range(n):
        c = rng.random()
        if c < 0.6 or (not pool and not rng.chance(0.1)):
            s = store.gen_spec(rng, cfg, pool)
            pool.append(s)
            ops.append({'op': 'add', 'spec': s})
        elif c < 0.75:
            ops.append({'op': 'bad', 'spec': store.gen_spec(rng, cfg, pool or None),
                        'bad': store.gen_bad(rng)})
        elif c < 0.8:
            ops.append({'op': 'tune', 'tune': store.gen_tune(rng)})
        else:
            w = {'op': 'write', 'to': rng.randrange(3), 'as': rng.pick(['str', 'path'])}
            if faulty and rng.chance(0.6):
                w['faults'] = gen_faults(rng)
            if rng.chance(0.1):
                w['to'] = 'nodir/x'
            ops.append(w)
    if huge and store.name != 'grid':
        t, s = rng.pick([(40, 30), (5, 250), (250, 5), (1, 700), (700, 1)])
        ops.insert(rng.randrange(len(ops) + 1), {
            'op': 'bulk', 'seed': rng.randrange(1 << 30), 't': t, 's': s,
            'skip': rng.pick([0, 0.1, 0.9]), 'n': rng.pick([1, 12, 60])})
    elif not limit and not huge and rng.chance(0.05):
        ops.insert(rng.randrange(len(ops) + 1), gen_bulk(rng))
    return {'store': store.name, 'cfg': cfg, 'limit': limit, 'ops': ops,
            'existing': rng.chance(0.3)}


def gen_bulk(rng):
    """One operation that adds t x s small entries."""
    t, s = rng.pick([(1, 130), (2, 70), (3, 50), (12, 12), (5, 26), (130, 1), (2, 64), (1, 128)])
    if rng.chance(0.5):
        t, s = rng.pick([(t, s), (s, t), (rng.randrange(1, 14), rng.randrange(1, 20))])
    return {'op': 'bulk', 'seed': rng.randrange(1 << 30), 't': t, 's': s,
            'skip': rng.pick([0, 0.1, 0.5])}


def headers(store, keys):
    """Number of row and column headers a file with these entries needs."""
    if store.name == 'grid':
        return 1 + len(set(keys))
    return len({k[0] for k in keys}) + len({k[1] for k in keys})


def verify(store, fs, name, model, cfg, bits, ctx):
    data = fs.get(name)
    if data is None:
        raise Violation('lost-write', 'write returned normally but there is no file')
    try:
        store.check_bytes(data, model, cfg, bits)
    except BadFile as e:
        raise Violation('malformed-file', f'{e} ({len(data)} bytes, {len(model)} entries)') from e
    except Violation:
        raise
    store.check_decoded(fs.path(name), model, cfg, bits, ctx)
    ctx.probe('verified-writes')
    ctx.probe('verified-entries', len(model))


def run(plan, ctx):
    from pathlib import Path
    store = STORES[plan['store']]
    cfg = plan['cfg']
    small_header_limit(plan['limit'])
    fs = SimFS(ctx.scratch, ctx)
    if plan.get('existing'):
        for k in range(3):
            fs.put(f'f{k}{store.suffix}', b'old contents ' * 700)
    obj = store.make(cfg)
    model, bits = {}, 16
    failed_since = False
    ops = list(plan['ops']) + [{'op': 'write', 'to': 0, 'as': 'str', 'last': 1}]
    rejects = 0
    with fs.mounted():
        for n, op in enumerate(ops):
            ctx.steps += 1
            if op['op'] == 'bulk':
                for spec in store.bulk(op, cfg):
                    out = ctx.call('add', store.add, obj, spec, cfg)
                    if not out.ok:
                        raise Violation('valid-entry-rejected',
                                        f'op {n}: {type(out.exc).__name__}: {out.exc} for {spec}')
                    model[store.key(spec)] = spec
                ctx.probe('bulk')
            elif op['op'] == 'add':
                out = ctx.call('add', store.add, obj, op['spec'], cfg)
                k = store.key(op['spec'])
                if out.ok:
                    ctx.probe('replaced' if k in model else 'added')
                    model[k] = op['spec']
                elif (plan['limit'] and isinstance(out.exc, ValueError)
                      and headers(store, list(model) + [k]) > plan['limit']):
                    ctx.probe('limit-rejected')
                    rejects += 1
                    small_header_limit(plan['limit'])
                else:
                    raise Violation('valid-entry-rejected',
                                    f'op {n}: {type(out.exc).__name__}: {out.exc} for {op["spec"]}')
            elif op['op'] == 'bad':
                out = ctx.call('bad-' + op['bad'], store.add, obj, op['spec'], cfg, op['bad'])
                if out.ok:
                    raise Violation('invalid-entry-accepted', f'op {n}: {op["bad"]}')
                ctx.probe('rejected')
                rejects += 1
            elif op['op'] == 'tune':
                store.tune(obj, op['tune'])
                bits = op['tune'].get('precision', bits)
            elif op['op'] == 'write':
                name = f"f{op['to']}{store.suffix}"
                if isinstance(op['to'], str):
                    name = op['to']
                p = fs.path(name)
                fs.arm(op.get('faults', []))
                out = ctx.call('write', store.write, obj,
                               Path(p) if op.get('as') == 'path' else p)
                fired = fs.disarm()
                err = [f for f in fired if 'err' in f]
                ctx.mark(store.name, len(model), rejects > 0, failed_since,
                         tuple(sorted((f['op'], f.get('err', '')) for f in fired)), out.ok,
                         plan.get('existing'), bits if store.name == 'grid' else 0)
                if out.ok:
                    if isinstance(op['to'], str):
                        raise Violation('lost-write', 'write into a missing directory returned')
                    if err:
                        raise Violation('swallowed-error', f'{fired}')
                    verify(store, fs, name, model, cfg, bits, ctx)
                    if failed_since:
                        ctx.probe('good-write-after-failed')
                    failed_since = False
                else:
                    if isinstance(op['to'], str):
                        ctx.fault('open:ENOENT')
                    elif not err:
                        raise Violation('write-failed', f'op {n}: fault-free write of {len(model)} '
                                        f'entries raised {type(out.exc).__name__}: {out.exc}')
                    failed_since = True
                    ctx.probe('failed-writes')
            ctx.log('state', len(model), rejects)


def simplify(plan):
    """Candidate simplifications of a failing plan."""
    import copy
    if plan.get('existing'):
        yield dict(plan, existing=False)
    if plan.get('limit'):
        yield dict(plan, limit=0)
    for i, op in enumerate(plan['ops']):
        if op['op'] == 'bulk':
            for k in ('t', 's'):
                for v in (1, op[k] // 2, op[k] - 1):
                    if 0 < v < op[k]:
                        yield dict(plan, ops=plan['ops'][:i] + [dict(op, **{k: v})]
                                   + plan['ops'][i + 1:])
        s = op.get('spec')
        if not s:
            continue
        for path, val in (('nan', 0), ('order', 'C'), ('dtype', 'f8'), ('ro', False),
                          ('as', 'f8'), ('shuffle', False), ('case', False)):
            for sub in ('arr', 'lev'):
                if s.get(sub) and path in s[sub] and s[sub][path] not in (val, False):
                    if path == 'order' and sub == 'lev':
                        val = False
                    if path == 'as' and plan['store'] == 'surface':
                        val = 'float'
                    p = copy.deepcopy(plan)
                    p['ops'][i]['spec'][sub][path] = val
                    yield p
        if s.get('dt2'):
            p = copy.deepcopy(plan)
            p['ops'][i]['spec']['dt2'] = None
            yield p
        if s.get('level2') is not None:
            p = copy.deepcopy(plan)
            p['ops'][i]['spec']['level2'] = None
            yield p


def nontrivial(plan, res):
    return res['probes'].get('verified-entries', 0) > 0


RULE = ('A run is a seeded history of additions (new, replacing, invalid), precision changes, writes '
        'to three destinations and storage faults placed inside the writes (open refused, no space or '
        'I/O error at a byte offset, error on close, short writes, missing directory), on one writer '
        'object, ending with a fault-free write; non-trivial: at least one write was verified with '
        'at least one entry.')
MEASURE = ('distinct tuples (entries in the model, rejections seen, previous write failed, faults '
           'fired in the write, outcome, destination existed, packing width) at writes')
REAL = ['gempakio encoders and decoders (real code)', 'Python buffered I/O stack',
        'numpy, pandas, xarray, pyproj']
STUB = ['operating-system file layer (simulated raw files over a scratch directory)',
        'file-size limit lowered in some runs (tuning knob)']
ASSUME = ['inputs stay inside the documented domain: ASCII names of at most 4 (parameter, state, '
          'country) or 8/12 characters, levels not below zero, times 1969-2068 at '
          'minute resolution, value range below 2^31 for packed grids']
