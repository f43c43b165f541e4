"""C23: the same contents read the same, whichever machine and program laid them out.

One logical content is stored several times, as machines of either byte order and programs with
other habits would (order and spacing of blocks, unused headers, packing); all files are open at
once and asked in turn, some over a transport that delivers small pieces.
"""
import copy

from dst import dmimage, queries, sources
from dst.checks.c08 import against_model
from dst.core import Violation
from dst.interrupt import Counter
from dst.simfs import SimFS

ID = 'C23'
LEVEL = 'exploration'
BUDGET = {'quick': {'runs': 20000, 'seconds': 80}, 'thorough': {'runs': 300000, 'seconds': 600}}
SHRINK = ('layouts', 'qs', 'cols', 'cells', 'us', 'ut', 'ur', 'uc', 'unused')
UNUSED = {'grid': ['unused'], 'sounding': ['ur', 'uc'], 'surface': ['us', 'ut']}


def gen(rng, tier, i):
    kind = rng.pick(['grid', 'sounding', 'surface'])
    base = dmimage.GEN[kind](rng)
    layouts = []
    for k in range(rng.weighted([(2, 3), (3, 2), (4, 1)])):
        v = {'e': '<>'[k % 2] if rng.chance(0.8) else rng.pick('<>'), 's': rng.randrange(2**31),
             'shuffle': rng.chance(0.4), 'gap': rng.chance(0.4)}
        for u in UNUSED[kind]:
            many = 1 if u in ('ur', 'ut') else 3
            v[u] = sorted(rng.randrange(6) for _ in range(rng.randrange(many + 1)))
        if kind == 'grid' and rng.chance(0.3):
            v['swap'] = True            # the other of the two equivalent packings
        if rng.chance(0.3):
            v['hdr'] = [rng.randrange(4) for _ in range(3)]
        if rng.chance(0.3):
            v['short'] = [rng.pick([1, 3, 4, 28, 127, 512]) for _ in range(rng.randrange(1, 4))]
        layouts.append(v)
    qs = []
    for _ in range(rng.weighted([(2, 2), (4, 3), (8, 1)])):
        q = {'q': queries.gen_more(rng, kind, [x['q'] for x in qs]), 'order': rng.randrange(24)}
        if rng.chance(0.15):
            q['cut'] = [rng.randrange(4), rng.random()]
        qs.append(q)
    qs.append({'q': {'m': 'get', 'f': {}, **({'sp': True} if kind == 'surface' else {})}, 'order': 0})
    return {'base': base, 'layouts': layouts, 'qs': qs}


def variant(base, v):
    s = copy.deepcopy(base)
    s.update({k: x for k, x in v.items() if k not in ('swap', 'short')})
    if s['kind'] == 'surface' and s['stype'] == 'standard' and len(s['times']) == 1:
        s['ut'] = []
    if v.get('swap'):
        for c in s['cols']:
            c['pk'] = {'grib': 'dec', 'dec': 'grib'}.get(c['pk'], c['pk'])
    return dmimage.build(s)


def run(plan, ctx):
    kind = plan['base']['kind']
    fs = SimFS(ctx.scratch, ctx)
    images, objs = [], []
    for k, v in enumerate(plan['layouts']):
        images.append(variant(plan['base'], v))
        fs.put(f'f{k}', images[k].data)
        if v.get('short'):
            fs.arm([{'op': 'short_read', 'times': 0, 'sizes': v['short']}])
        with fs.mounted():
            out = ctx.call('open', sources.open_, kind, fs.path(f'f{k}'))
        fs.disarm()
        if not out.ok:
            raise Violation('open-failed', f'layout {k} {v}: {out.exc!r}')
        objs.append(out.value)
    entries = images[0].entries if images else []
    for n, item in enumerate(plan['qs']):
        q = item['q']
        if 'cut' in item and objs:
            k, frac = item['cut'][0] % len(objs), item['cut'][1]
            kw = queries.arguments(q, kind, entries)
            c = Counter()
            ctx.call('dry', c.run, queries.call, objs[k], q, kind, kw)
            c = Counter(1 + int(frac * max(1, c.n)))
            ctx.call('abandoned', c.run, queries.call, objs[k], q, kind, kw)
            if c.fired:
                ctx.fault('interrupt:KeyboardInterrupt')
        order = list(range(len(objs)))
        r, x = item['order'], []
        while order:
            x.append(order.pop(r % len(order)))
            r //= max(1, len(order))
        seen = {}
        for k in x:
            ctx.steps += 1
            out = ctx.call(q['m'], queries.call, objs[k], q, kind, queries.arguments(q, kind, entries))
            with ctx.observing(f'result of query {n} {q} of layout {k}'):
                got = queries.outcome(out)
                against_model(ctx, q, out, images[k], queries.arguments(q, kind, entries), n)
            seen[k] = got
            ctx.mark(kind, q['m'], tuple(sorted(q.get('f', ()))), got[0],
                     tuple(plan['layouts'][k][y] for y in ('e', 'shuffle', 'gap')))
        plain = [k for k in seen if not plan['layouts'][k].get('swap')]
        for k in plain[1:]:
            if seen[k] != seen[plain[0]]:
                raise Violation('layouts-differ', f'query {n} {q}: layout {k} gives another result '
                                f'than layout {plain[0]}: {str(seen[k])[:300]} for '
                                f'{str(seen[plain[0]])[:300]}')
            ctx.probe('same-result')


def nontrivial(plan, res):
    return res['probes'].get('same-result', 0) > 0


RULE = ('A run is one logical content (grids, merged or unmerged soundings, standard, ship or climate '
        'surface reports) laid out two to four times: byte order, order of blocks, gaps with junk, '
        'unused headers, equivalent packing; all files are open together and asked the same seeded '
        'queries in changing order, some read in small pieces, some after an abandoned call. '
        'Non-trivial: at least one result was compared between two layouts.')
MEASURE = 'distinct (file kind, method, filters, outcome, byte order, shuffled, gaps)'
REAL = ['gempakio readers (real code)', 'numpy, xarray, pyproj']
STUB = ['file system calls (simulated files)', 'writing programs and machines (image builder)']
ASSUME = ['the layouts are those of the format documentation as the image builder renders it']
