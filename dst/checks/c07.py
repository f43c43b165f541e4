"""C07: reading under storage faults; results do not depend on the file once it is open."""
import os
from pathlib import Path

from dst import queries, sources
from dst.core import Violation
from dst.simfs import SimFS

ID = 'C07'
LEVEL = 'exploration'
BUDGET = {'quick': {'runs': 20000, 'seconds': 80}, 'thorough': {'runs': 400000, 'seconds': 800}}
SHRINK = ('ops', 'faults', 'cols', 'cells', 'specs', 'parts', 'qs', 'pick', 'sizes')


def gen_fault(rng):
    op = rng.weighted([('read', 5), ('short', 5), ('open', 2), ('close', 1)])
    if op == 'read':
        f = {'op': 'read', 'where': rng.weighted([('frac', 4), ('start', 2), ('end', 2)]),
             'n': rng.pick([0, 1, 27, 28, 31, 127, 128, 4096, 8192]), 'err': rng.pick(
                 ['EIO', 'EIO', 'ESTALE', 'EISDIR', 'ENOMEM']), 'times': rng.pick([1, 0])}
        if f['where'] == 'frac':
            f['n'] = rng.randrange(1001)
        return f
    if op == 'short':
        return {'op': 'short_read', 'times': 0, 'sizes': [
            rng.pick([1, 2, 3, 4, 7, 27, 28, 100, 511, 512, 4096]) for _ in
            range(rng.randrange(1, 5))]}
    if op == 'open':
        return {'op': 'open', 'nth': 1, 'err': rng.pick(['EACCES', 'EIO', 'EMFILE', 'ENFILE',
                                                        'ENOMEM'])}
    return {'op': 'close', 'nth': 1, 'err': 'EIO'}


def gen(rng, tier, i):
    kind = rng.weighted([('grid', 3), ('sounding', 3), ('surface', 3), ('vgf', 3)])
    srcs = [sources.gen(rng, kind) for _ in range(2)]
    qs = [queries.gen(rng, kind) for _ in range(rng.randrange(1, 4))]
    ops = []
    for _ in range(rng.weighted([(4, 3), (8, 3), (16, 1)])):
        c = rng.random()
        if c < 0.55:
            op = {'op': 'open', 'as': rng.pick(['str', 'path'])}
            if rng.chance(0.8):
                op['faults'] = [gen_fault(rng) for _ in range(rng.weighted([(1, 5), (2, 1)]))]
            ops.append(op)
            if rng.chance(0.4):
                ops.append({'op': 'open', 'as': 'str'})
        elif c < 0.8:
            ops.append({'op': 'change', 'how': rng.pick(['other', 'zero', 'junk', 'truncate',
                                                         'delete', 'restore', 'empty']),
                        'n': rng.randrange(1001)})
        else:
            ops.append({'op': 'ask', 'k': rng.randrange(8), 'broken': rng.chance(0.6)})
    return {'sources': srcs, 'qs': qs, 'ops': ops}


def resolve(faults, size):
    out = []
    for f in faults:
        f = dict(f)
        w = f.pop('where', None)
        if w:
            n = f.pop('n')
            f['at'] = {'frac': size * n // 1000, 'start': min(n, size),
                       'end': max(0, size - n)}[w]
        out.append(f)
    return out


def run(plan, ctx):
    fs = SimFS(ctx.scratch, ctx)
    kind = plan['sources'][0]['kind']
    srcs = [sources.build(s, ctx.scratch) for s in plan['sources']]
    refs = []
    base = [{'m': 'info'}, {'m': 'get', 'f': {}}] if kind != 'vgf' else [
        {'m': 'elements'}, {'m': 'props'}, {'m': 'json'}]
    qs = base + plan['qs']
    for s in srcs:
        fs.put('r', s.data)
        obj = sources.open_(kind, fs.path('r'))
        ents = [] if kind == 'vgf' else s.image.entries if s.image else getattr(
            obj, queries.INFO[kind])()
        refs.append((ents, [ask(ctx, obj, q, kind, ents) for q in qs]))
    os.unlink(fs.path('r'))
    cur = 0                      # which source the file holds (None: damaged or gone)
    p = fs.path('f')
    fs.put('f', srcs[0].data)
    objs = []
    failed = False

    def verify(n, k, broken):
        obj, which = objs[k % len(objs)]
        ents, want = refs[which]
        for q, w in zip(qs, want, strict=True):
            if broken:
                fs.arm([{'op': 'open', 'err': 'EIO', 'times': 0},
                        {'op': 'read', 'at': 0, 'err': 'EIO', 'times': 0}])
            got = ask(ctx, obj, q, kind, ents)
            fs.disarm()
            if got != w:
                raise Violation('wrong-result', f'op {n}: {q} gives {str(got)[:400]} instead of '
                                f'{str(w)[:400]} (storage broken: {broken})')
            if fs.open_handles():
                raise Violation('open-handle', f'op {n}: {fs.open_handles()} after a query')

    with fs.mounted():
        for n, op in enumerate(plan['ops'] + [{'op': 'change', 'how': 'restore', 'n': 0},
                                              {'op': 'open', 'as': 'str'}]):
            ctx.steps += 1
            if op['op'] == 'open':
                size = len(srcs[cur].data) if cur is not None else 100
                fs.arm(resolve(op.get('faults', []), size))
                out = ctx.call('open', sources.open_, kind, Path(p) if op['as'] == 'path' else p)
                err = [f for f in fs.fired if 'err' in f]
                handles = fs.open_handles()
                fs.disarm()
                ctx.mark(kind, out.ok, tuple(sorted((f['op'], f.get('err')) for f in fs.fired)),
                         cur is None, failed)
                if handles:
                    raise Violation('open-handle', f'op {n}: {handles} after opening '
                                    f'({"returned" if out.ok else repr(out.exc)})')
                if cur is None:
                    continue
                if not out.ok:
                    failed = True
                    if not err:
                        raise Violation('open-failed', f'op {n}: {out.exc!r} without an error '
                                        f'of the storage ({op.get("faults")})')
                    ctx.probe('open-raised')
                    continue
                if [f for f in err if f['op'] != 'close']:
                    raise Violation('swallowed-error', f'op {n}: opening returned although {err} '
                                    'happened')
                ctx.probe('opened-after-failure' if failed else 'opened')
                objs.append((out.value, cur))
                verify(n, len(objs) - 1, False)
            elif op['op'] == 'change':
                cur = change(fs, op, srcs, cur, ctx)
                if objs:
                    verify(n, op['n'], False)
            elif objs:
                verify(n, op['k'], op['broken'])
        for k in range(len(objs)):
            verify('end', k, True)


def change(fs, op, srcs, cur, ctx):
    how = op['how']
    ctx.fault('file-' + how)
    data = srcs[cur or 0].data
    if how == 'delete':
        if os.path.exists(fs.path('f')):
            os.unlink(fs.path('f'))
        return None
    if how in ('restore', 'other'):
        k = 0 if how == 'restore' else 1
        fs.put('f', srcs[k].data)
        return k
    if how == 'truncate':       # in place, as a mapped file would notice
        fs.put('f', data)
        os.truncate(fs.path('f'), len(data) * op['n'] // 1001)
        return None
    fs.put('f', {'zero': bytes(len(data)), 'junk': bytes([op['n'] % 256]) * len(data),
                 'empty': b''}[how])
    return None


def ask(ctx, obj, q, kind, ents):
    kw = {} if kind == 'vgf' else queries.arguments(q, kind, ents)
    out = ctx.call(q['m'], queries.call, obj, q, kind, kw)
    with ctx.observing(f'result of {q}'):
        got = queries.outcome(out)
    ctx.log('result', queries.short(got))
    return got


def nontrivial(plan, res):
    p = res['probes']
    return p.get('open-raised', 0) > 0 or 'short_read' in res['faults']


RULE = ('A run is two files and a seeded history of opens (with short reads of seeded sizes, errors '
        'at byte positions drawn over the whole file, refused opens, failing closes), changes of the '
        'file (overwritten by another valid file, zeros or junk, truncated in place, emptied, '
        'deleted, restored) and queries on every object opened so far, with the storage healthy or '
        'refusing every access. Non-trivial: an open failed or was served in pieces.')
MEASURE = 'distinct (kind, outcome, faults that fired, state of the file, earlier failure)'
REAL = ['gempakio readers and queries', 'Python buffered I/O', 'numpy, xarray, pyproj']
STUB = ['raw file layer: simulated']
ASSUME = ['Python retries interrupted system calls below the simulated layer']
