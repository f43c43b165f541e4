"""C08: query results depend only on the file and the arguments."""
from dst import queries, sources
from dst.core import Violation
from dst.interrupt import Counter
from dst.simfs import SimFS

ID = 'C08'
LEVEL = 'exploration'
BUDGET = {'quick': {'runs': 20000, 'seconds': 80}, 'thorough': {'runs': 300000, 'seconds': 800}}
SHRINK = ('qs', 'cols', 'cells', 'specs')
BADARGS = [{'date_time': 'garbage'}, {'date_time': ['202001010000', 7]}, {'date_time': 7},
           {'station_number': 'abc'}, {'bbox': (1, 2)}, {'level': 'x'}, {'nonsense': 1},
           {'station_id': 7}, {'parameter': [1]}, {'state': [None]}, {'date_time2': 'x'}]


def gen(rng, tier, i):
    src = sources.gen(rng, weights=(8, 2, 1))
    n = rng.weighted([(3, 2), (6, 4), (12, 2), (25 if tier == 'thorough' else 16, 0.4)])
    qs = []
    for _ in range(n):
        c = rng.random()
        if c < 0.08:
            qs.append({'m': 'bad', 'kw': rng.randrange(len(BADARGS)), 'near': rng.chance(0.3)})
        elif c < 0.22:
            qs.append({'m': 'abandon', 'q': queries.gen(rng, src['kind']), 'frac': rng.random(),
                       'exc': rng.pick(['KeyboardInterrupt', 'MemoryError'])})
        elif c < 0.32 and qs:
            qs.append(dict(rng.pick(qs)))
        else:
            qs.append(queries.gen_more(rng, src['kind'], qs))
    return {'source': src, 'qs': qs}


def run(plan, ctx):
    fs = SimFS(ctx.scratch, ctx)
    src = sources.build(plan['source'], ctx.scratch)
    fs.put('f', src.data)
    p = fs.path('f')
    kind = src.kind

    def fresh():
        out = ctx.call('open', sources.open_, kind, p)
        if not out.ok:
            raise Violation('open-failed', repr(out.exc))
        return out.value
    obj = fresh()
    if src.image:
        entries = src.image.entries
    else:
        entries = getattr(fresh(), queries.INFO[kind])()
    for n, q in enumerate(plan['qs']):
        ctx.steps += 1
        if q['m'] == 'bad':
            name = queries.GET[kind] if not (q['near'] and kind == 'surface') else 'nearest_time'
            kw = dict(BADARGS[q['kw']])
            out = ctx.call('bad', lambda name=name, kw=kw: getattr(obj, name)(**kw))
            ctx.probe('failing-call' if not out.ok else 'odd-call-accepted')
            continue
        if q['m'] == 'abandon':
            kw = queries.arguments(q['q'], kind, entries)
            c = Counter()
            ctx.call('dry', c.run, queries.call, fresh(), q['q'], kind, kw)
            at = 1 + int(q['frac'] * max(1, c.n))
            exc = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[q['exc']]
            c = Counter(at, exc)
            kw = queries.arguments(q['q'], kind, entries)
            ctx.call('abandoned', c.run, queries.call, obj, q['q'], kind, kw)
            if c.fired:
                ctx.fault('interrupt:' + q['exc'])
            continue
        kw = queries.arguments(q, kind, entries)
        before = queries.canon(kw)
        out = ctx.call(q['m'], queries.call, obj, q, kind, kw)
        if queries.canon(kw) != before:
            raise Violation('arguments-changed', f'query {n}: {q}: {kw}')
        with ctx.observing(f'result of query {n} {q}'):
            got = queries.outcome(out)
        ref = ctx.call(q['m'], queries.call, fresh(), q, kind,
                       queries.arguments(q, kind, entries))
        with ctx.observing(f'result of query {n} {q} on a fresh object'):
            want = queries.outcome(ref)
        ctx.log('result', queries.short(got))
        if got != want:
            raise Violation('depends-on-history', f'query {n} {q} ({show(kw)}): {brief(out)} but '
                            f'{brief(ref)} on a freshly opened file')
        ctx.mark(kind, q['m'], sorted(kw), got[0], len(got[1]))
        if src.image:
            with ctx.observing(f'result of query {n} {q}'):
                against_model(ctx, q, out, src.image, kw, n)


def show(kw):
    return {k: repr(v)[:80] for k, v in kw.items()}


def brief(out):
    if not out.ok:
        return f'{type(out.exc).__name__}({str(out.exc)[:80]})'
    return repr(out.value)[:300]


def against_model(ctx, q, out, image, kw, n):
    if q['m'] == 'info':
        if not out.ok:
            raise Violation('query-failed', f'query {n}: {brief(out)}')
        queries.check_info(ctx, out.value, image)
        return
    if q['m'] == 'project':
        if not out.ok:
            raise Violation('query-failed', f'query {n} {q}: {brief(out)}')
        return
    if q['m'] == 'near':
        if not kw.keys() - {'date_time', 'include_special'}:
            return
        if out.ok:
            queries.check_near(ctx, q, out.value, image)
        else:
            asked, missing = queries.near_missing(q, image)
            if asked and not missing:
                raise Violation('query-failed', f'query {n} {q} ({show(kw)}): {brief(out)} though '
                                'every station asked for has reports')
        ctx.probe('nearest-ok' if out.ok else 'nearest-error')
        return
    sel = queries.select(q, image.kind, image.entries)
    if not sel:
        ctx.probe('nothing-matches')
        if out.ok and out.value:
            raise Violation('wrong-selection', f'query {n} {q} ({show(kw)}): nothing matches but '
                            f'{brief(out)} was returned')
        return
    if not out.ok:
        raise Violation('query-failed', f'query {n} {q} ({show(kw)}): {brief(out)} though '
                        f'{len(sel)} entries match')
    ctx.probe('matched-some' if len(sel) < len(image.entries) else 'matched-all')
    try:
        queries.check_get(ctx, q, out.value, image)
    except Violation as v:
        raise Violation(v.kind, f'query {n} {q} ({show(kw)}): {v.detail}') from v


def nontrivial(plan, res):
    p = res['probes']
    return res['status'] == 'ok' and (p.get('matched-some', 0) + p.get('nearest-ok', 0) +
                                      p.get('nothing-matches', 0) > 0 or
                                      plan['source']['src'] != 'image')


RULE = ('A run is one file and a seeded history of queries on one opened object: information, '
        'selections by any combination of filters in every accepted form (single value, list, '
        'tuple, array, set, dictionary; upper, lower and mixed case; datetimes or strings; '
        'first/last; values not in the file), nearest times, repeated calls, calls with wrong '
        'arguments and calls abandoned by an exception at a random line. Non-trivial: a query '
        'selected a proper part of the file, a nearest time or nothing, or the file is real.')
MEASURE = 'distinct (file kind, method, filters used, outcome, number of results)'
REAL = ['gempakio readers and queries', 'numpy, xarray, pyproj, pandas']
STUB = ['file system calls (simulated files)', 'files of other programs come from an image builder']
ASSUME = ['For unmerged soundings the merged values are compared with a fresh object only']
