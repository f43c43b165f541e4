"""C11: damaged files are finished with in bounded work, and nothing else suffers."""
import resource

from dst import damage, queries, sources, vgfimage
from dst.core import SimHang, Violation
from dst.meter import Meter, StepLimit
from dst.simfs import SimFS
from dst.stores import STORES

ID = 'C11'
LEVEL = 'exploration'
BUDGET = {'quick': {'runs': 60000, 'seconds': 80}, 'thorough': {'runs': 2000000, 'seconds': 800}}
SHRINK = ('damaged', 'damage', 'qs', 'cols', 'cells', 'specs', 'parts', 'pick')
STEPS = (20000, 200)            # events: fixed part, per byte of the file
MEMORY = (400 << 20, 4000)      # bytes: fixed part, per byte of the file
ASSUME = ['work is counted in branches, jumps and calls executed inside the package plus a limit of '
          '40 CPU seconds for the whole run; memory as address space beyond that at the start']


def gen(rng, tier, i):
    kind = rng.weighted([('grid', 3), ('sounding', 3), ('surface', 3), ('vgf', 3)])
    src = sources.gen(rng, kind)
    text = kind == 'vgf' and rng.chance(0.15)
    counts = kind == 'vgf' and not text and rng.chance(0.4)
    if counts:      # few elements, each kind as often as the others, with large counts
        src = {'src': 'vgf', 'kind': 'vgf', 'head': rng.chance(0.3), 'parts': [{'recs': [
            dict(vgfimage.gen(rng), k=rng.pick(sorted(vgfimage.KINDS)))
            for _ in range(rng.randrange(1, 6))]}]}
    if text:        # elements stored as text, with counts in it
        src = {'src': 'vgf', 'kind': 'vgf', 'head': rng.chance(0.5), 'parts': [{'recs': [
            dict(vgfimage.gen(rng), k='tca') for _ in range(rng.randrange(1, 4))]}]}
    ds = []
    for _ in range(rng.weighted([(1, 1), (4, 3), (10, 3)])):
        if text and rng.chance(0.8):
            dm = [damage.gen_digits(rng)]
        elif counts and rng.chance(0.9):
            dm = [damage.gen_count(rng) for _ in range(rng.randrange(1, 3))]
        else:
            dm = damage.gen(rng, kind)
        ds.append({'damage': dm,
                   'qs': [queries.gen(rng, kind) for _ in range(rng.randrange(0, 3))]})
    other = rng.pick(['grid', 'sounding', 'surface', 'vgf', kind])
    w = rng.pick(['grid', 'sounding', 'surface'])
    st = STORES[w]
    cfg = st.fix_cfg(rng, st.gen_cfg(rng, small=True))
    return {'source': src, 'damaged': ds, 'bystanders': rng.chance(0.4), 'other': sources.gen(rng, other),
            'writer': {'kind': w, 'cfg': cfg, 'specs': [st.gen_spec(rng, cfg)]}}


def vm():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[0]) * resource.getpagesize()


class Limited:
    """Calls within the step and memory bounds."""

    def __init__(self, ctx):
        self.ctx, self.base = ctx, vm()
        self.old = resource.getrlimit(resource.RLIMIT_AS)

    def call(self, what, size, fn, *a, **k):
        m = Meter(STEPS[0] + STEPS[1] * size)
        resource.setrlimit(resource.RLIMIT_AS,
                           (max(self.base, vm()) + MEMORY[0] + MEMORY[1] * size, self.old[1]))
        try:
            value, exc = m.run(fn, *a, **k), None
        except StepLimit as e:
            raise Violation('unbounded-work', f'{what}: more than {m.limit} steps for {size} '
                            f'bytes') from e
        except MemoryError as e:
            raise Violation('unbounded-memory', f'{what}: {e} for {size} bytes') from e
        except SimHang:
            raise
        except Exception as e:
            value, exc = None, e
        except BaseException as e:
            raise Violation('escaped', f'{what}: {type(e).__name__}: {e}') from e
        finally:
            resource.setrlimit(resource.RLIMIT_AS, self.old)
        self.ctx.steps += m.n
        self.ctx.log(what, type(exc).__name__ if exc else 'ok', m.n)
        return value, exc


def run(plan, ctx):
    kind = plan['source']['kind']
    fs = SimFS(ctx.scratch, ctx)
    src = sources.build(plan['source'], ctx.scratch)
    other = sources.build(plan['other'], ctx.scratch)
    fs.put('good', other.data)
    fs.put('whole', src.data)
    base = [{'m': 'info'}, {'m': 'get', 'f': {}}]
    vbase = [{'m': 'elements'}, {'m': 'props'}, {'m': 'json'}, {'m': 'getters'}]

    def answers(obj, k):
        out = []
        for q in vbase if k == 'vgf' else base:
            o = ctx.call('good', queries.call, obj, q, k, {})
            with ctx.observing('result of an intact file'):
                out.append(queries.outcome(o))
        return out

    def written():
        w = plan['writer']
        sources.write_store(w['kind'], w['cfg'], w['specs'], fs.path('w'))
        return fs.get('w')
    k2 = other.kind
    whole = sources.open_(kind, fs.path('whole'))
    watch = plan['bystanders']
    if watch:
        good = sources.open_(k2, fs.path('good'))
        want = answers(good, k2)
        want_whole = answers(whole, kind)
        want_bytes = written()
    ents = [] if kind == 'vgf' else getattr(whole, queries.INFO[kind])()
    lim = Limited(ctx)
    for n, d in enumerate(plan['damaged']):
        data = damage.apply(src.data, d['damage'], kind)
        if data != src.data:
            for x in d['damage']:
                ctx.fault('damage:' + x['d'])
        fs.put('f', data)
        with fs.mounted():
            obj, exc = lim.call(f'open {n}', len(data), sources.open_, kind, fs.path('f'))
        ctx.probe('opened' if obj is not None else 'rejected')
        if fs.open_handles():
            raise Violation('open-handle', f'file {n}: {fs.open_handles()}')
        results = [type(exc).__name__ if exc else 'ok']
        if obj is not None:
            for q in (vbase if kind == 'vgf' else base) + d['qs']:
                value, exc = lim.call(f"{n} {q['m']}", len(data), queries.call, obj, q, kind,
                                      queries.arguments(q, kind, ents) if kind != 'vgf' else {})
                ctx.probe('queried' if exc is None else 'query-failed')
                results.append(type(exc).__name__ if exc else 'ok')
        ctx.mark(kind, tuple(x['d'] for x in d['damage']), tuple(results))
    if not watch:
        return
    for obj, k, w, what in ((good, k2, want, 'another open file'),
                            (whole, kind, want_whole, 'the undamaged file')):
        if answers(obj, k) != w:
            raise Violation('disturbed-object', f'{what} changed its answers after damaged files')
    for name, k, w in (('good', k2, want), ('whole', kind, want_whole)):
        if answers(sources.open_(k, fs.path(name)), k) != w:
            raise Violation('disturbed-object', f'{name} reads differently after damaged files')
    if written() != want_bytes:
        raise Violation('disturbed-object', 'a writer gives other bytes after damaged files')


def nontrivial(plan, res):
    return any(k.startswith('damage:') for k in res['faults'])


RULE = ('A run is one stored image (foreign program, library writer or sample) damaged in several '
        'seeded ways (bits, bytes, counts, pointers, sizes, stretches zeroed, duplicated, dropped, '
        'swapped or cut); each damaged image is opened and queried under a step budget of '
        f'{STEPS[0]} + {STEPS[1]} per byte and a memory budget of {MEMORY[0] >> 20} MB + '
        f'{MEMORY[1]} bytes per byte, then intact objects and a writer are asked again.')
MEASURE = 'distinct tuples (file kind, kinds of damage, outcomes of open and queries)'
REAL = ['gempakio readers and writers (real code)', 'numpy, pandas, xarray, pyproj']
STUB = ['operating-system file layer (simulated raw files over a scratch directory)']
SIMTIME = 'counted in branches, jumps and calls executed inside the package'
