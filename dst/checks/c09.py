"""C09: one opened file, several threads."""
from dst import queries, sources
from dst.core import Violation
from dst.sched import Scheduler, gen_switches
from dst.simfs import SimFS

ID = 'C09'
LEVEL = 'exploration'
BUDGET = {'quick': {'runs': 20000, 'seconds': 80}, 'thorough': {'runs': 300000, 'seconds': 800}}
SHRINK = ('threads', 'switches', 'cols', 'cells', 'specs')
ASSUME = ['Threads are pre-empted at source lines or byte-code instructions of the package; calls '
          'into numpy, xarray and pyproj are atomic']


def gen(rng, tier, i):
    src = sources.gen(rng, weights=(6, 3, 1))
    kind = src['kind']
    nt = rng.weighted([(2, 5), (3, 3), (4, 1)])
    shared = [queries.gen(rng, kind) for _ in range(2)]
    threads = []
    for _ in range(nt):
        qs = []
        for _ in range(rng.weighted([(1, 4), (2, 3), (4, 1)])):
            c = rng.random()
            if c < 0.25:
                qs.append(dict(rng.pick(shared)))
            elif c < 0.5:
                qs.append({'m': 'get', 'f': {}, 'sp': True} if kind == 'surface' else
                          {'m': 'get', 'f': {}})
            else:
                qs.append(queries.gen_more(rng, kind, shared + qs))
        threads.append(qs)
    return {'source': src, 'threads': threads, 'switches': gen_switches(rng, nt, tier),
            'opcodes': rng.chance(0.3), 'first': rng.randrange(nt)}


def run(plan, ctx):
    fs = SimFS(ctx.scratch, ctx)
    src = sources.build(plan['source'], ctx.scratch)
    fs.put('f', src.data)
    kind = src.kind
    obj = sources.open_(kind, fs.path('f'))
    ents = src.image.entries if src.image else getattr(
        sources.open_(kind, fs.path('f')), queries.INFO[kind])()
    want = []
    for qs in plan['threads']:
        want.append([])
        for q in qs:
            alone = sources.open_(kind, fs.path('f'))
            out = ctx.call('alone', queries.call, alone, q, kind,
                           queries.arguments(q, kind, ents))
            with ctx.observing(f'result of {q}'):
                want[-1].append(queries.outcome(out))
    got = [[] for _ in plan['threads']]

    def body(k):
        def f():
            for q in plan['threads'][k]:
                kw = queries.arguments(q, kind, ents)
                out = ctx.call(f't{k}', queries.call, obj, q, kind, kw)
                with ctx.observing(f'result of {q}'):
                    got[k].append((queries.outcome(out), str(out.exc or '')))
        return f
    if not plan['threads']:
        return
    s = Scheduler(ctx, plan['switches'], plan['opcodes'])
    tasks = s.run([body(k) for k in range(len(plan['threads']))], plan['first'])
    ctx.probe('preemptions', s.preempted)
    ctx.probe('calls-compared', sum(map(len, want)))
    for t in tasks:
        for n, (w, (g, msg)) in enumerate(zip(want[t.k], got[t.k], strict=True)):
            if g != w:
                raise Violation('wrong-result', f'thread {t.k} call {n} '
                                f"{plan['threads'][t.k][n]}: {str(g)[:400]} {msg[:100]} instead of "
                                f'{str(w)[:400]}')
    # the object still answers alone
    for qs, ws in zip(plan['threads'], want, strict=True):
        for q, w in zip(qs, ws, strict=True):
            out = ctx.call('after', queries.call, obj, q, kind, queries.arguments(q, kind, ents))
            with ctx.observing(f'result of {q}'):
                if queries.outcome(out) != w:
                    raise Violation('disturbed-object', f'{q} after the threads finished')


def nontrivial(plan, res):
    return res['probes'].get('preemptions', 0) > 0


RULE = ('A run is one opened file, two to four threads with seeded query lists (equal and different '
        'queries, failing ones included) and a seeded switch list: after the listed number of source '
        'lines or byte-code instructions inside the package the running thread is pre-empted, some '
        'times stalled until all others finished. Non-trivial: at least one pre-emption inside a call.')
MEASURE = 'distinct interleavings: sequences of (thread, function it was pre-empted in, next thread)'
REAL = ['gempakio queries in real threads', 'numpy, xarray, pyproj']
STUB = ['thread scheduling: one thread at a time, hand-over decided by the plan',
        'locks the package creates (none today)']
SIMTIME = 'counted in scheduler steps (lines or instructions executed inside the package)'
