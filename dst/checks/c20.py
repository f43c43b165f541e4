"""C20: a record is decoded to what it holds, whatever surrounds it and however the file arrives.

Files of records of every class and version, drawn from the published structures, are opened one
after another or by several threads at once, in small pieces, after and between opens that are cut
off, fail or are abandoned.
"""
from dst import sources, vgfimage
from dst.core import Violation
from dst.interrupt import Counter
from dst.sched import Scheduler, gen_switches
from dst.simfs import SimFS

ID = 'C20'
LEVEL = 'exploration'
BUDGET = {'quick': {'runs': 20000, 'seconds': 80}, 'thorough': {'runs': 300000, 'seconds': 600}}
SHRINK = ('files', 'recs', 'switches')


def gen(rng, tier, i):
    pool = [vgfimage.gen(rng) for _ in range(rng.weighted([(2, 1), (4, 2), (8, 1)]))]
    files = []
    for _ in range(rng.weighted([(1, 5), (2, 3), (3, 1)])):
        recs = []
        for _ in range(rng.weighted([(1, 1), (3, 3), (7, 2)])):
            recs.append(dict(rng.pick(pool)) if rng.chance(0.5) else vgfimage.gen(rng))
        f = {'recs': recs, 'head': rng.chance(0.8)}
        if rng.chance(0.15):
            f['end'] = rng.pick(['zeros', 'color', 'class', 'size'])
        if rng.chance(0.3):
            f['short'] = [rng.pick([1, 3, 40, 127, 1024]) for _ in range(rng.randrange(1, 4))]
        c = rng.random()
        if c < 0.12:
            f['before'] = {'cut': rng.random()}
        elif c < 0.24:
            f['before'] = {'at': rng.random(), 'exc': rng.pick(['KeyboardInterrupt', 'MemoryError'])}
        elif c < 0.32:
            f['before'] = {'err': rng.random()}
        files.append(f)
    plan = {'files': files}
    if len(files) > 1 and rng.chance(0.5):
        plan['switches'] = gen_switches(rng, len(files), tier)
        plan['first'] = rng.randrange(len(files))
    return plan


def image(f):
    """Bytes, wanted elements and groups of a file."""
    data, want, groups = b'', [], []
    if f['head']:
        data += vgfimage.header()
    for r in f['recs']:
        b, at = vgfimage.build(r)
        data += b
        if at is not None:
            want.append(at)
        if r['g'][0] and r['g'][0] not in groups and (b[2] != 0):
            groups.append(r['g'][0])
    if f.get('end'):
        # what programs that were stopped, or files with room for more, leave behind
        b = bytearray(vgfimage.build({'k': 'line', 's': 5, 'g': [99, 1]})[0])
        if f['end'] == 'zeros':
            b = bytearray(len(b))
        elif f['end'] == 'color':
            b[12:16] = b'\0\0\0\x21'
        elif f['end'] == 'class':
            b[2] = 17
        else:
            b[20:24] = b'\x7f\0\0\0'
        data += bytes(b) + bytes(16)
    return data, want, groups


def check(ctx, obj, want, groups, f, what):
    got = list(obj.elements)
    if f['head']:
        h = obj.header
        if (h.gempak_version, h.notes) != ('Version 5.9', 'drawn'):
            raise Violation('wrong-header', f'{what}: {h.gempak_version!r} {h.notes!r}')
    if len(got) != len(want):
        raise Violation('wrong-count', f'{what}: {len(got)} elements {got} for '
                        f'{[w[""] for w in want]}')
    soft = None
    for n, (e, w) in enumerate(zip(got, want, strict=True)):
        skip = ('status',) if w[''] == 'SigmetElement' else ()
        d = vgfimage.differs(e, w, skip)
        if d:
            raise Violation('wrong-attribute', f'{what}, element {n} ({w[""]}): {d}')
        if skip and e.status != w['status']:
            if e.status != w['area']:
                raise Violation('wrong-attribute', f'{what}, element {n}: status is {e.status!r}')
            soft = f'{what}, element {n}: SIGMET status is the area code'
        ctx.mark(w[''], w['version'], n and got[n - 1].vg_type)
    if list(obj.groups) != groups:
        raise Violation('wrong-groups', f'{what}: {obj.groups} not {groups}')
    ctx.probe('elements-compared', len(want))
    return soft


def run(plan, ctx):
    fs = SimFS(ctx.scratch, ctx)
    soft = None
    images = [image(f) for f in plan['files']]
    for k, (data, _, _) in enumerate(images):
        fs.put(f'f{k}', data)
    opened = {}
    if 'switches' in plan and len(images) > 1:
        def body(k):
            def f():
                opened[k] = ctx.call(f't{k}', sources.open_, 'vgf', fs.path(f'f{k}'))
            return f
        s = Scheduler(ctx, plan['switches'])
        s.run([body(k) for k in range(len(images))], plan['first'] % len(images))
        ctx.probe('preemptions', s.preempted)
        for k, out in opened.items():
            if not out.ok:
                raise Violation('open-failed', f'thread {k}: {out.exc!r}')
    for k, f in enumerate(plan['files']):
        data, want, groups = images[k]
        if k in opened:
            soft = check(ctx, opened[k].value, want, groups, f, f'file {k} in a thread') or soft
        b = f.get('before')
        if b and 'cut' in b:
            fs.put('cut', data[:int(b['cut'] * len(data))])
            with fs.mounted():
                out = ctx.call('cut', sources.open_, 'vgf', fs.path('cut'))
            ctx.fault('cut')
        elif b and 'err' in b:
            fs.arm([{'op': 'read', 'at': int(b['err'] * len(data)), 'err': 'EIO'}])
            with fs.mounted():
                out = ctx.call('eio', sources.open_, 'vgf', fs.path(f'f{k}'))
            fs.disarm()
        elif b:
            c = Counter()
            ctx.call('dry', c.run, sources.open_, 'vgf', fs.path(f'f{k}'))
            c = Counter(1 + int(b['at'] * max(1, c.n)),
                        {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[b['exc']])
            ctx.call('abandoned', c.run, sources.open_, 'vgf', fs.path(f'f{k}'))
            if c.fired:
                ctx.fault('interrupt:' + b['exc'])
        if f.get('short'):
            fs.arm([{'op': 'short_read', 'times': 0, 'sizes': f['short']}])
        with fs.mounted():
            out = ctx.call('open', sources.open_, 'vgf', fs.path(f'f{k}'))
        fs.disarm()
        if not out.ok:
            raise Violation('open-failed', f'file {k} with {[r["k"] for r in f["recs"]]}: {out.exc!r}')
        with ctx.observing(f'elements of file {k}'):
            soft = check(ctx, out.value, want, groups, f, f'file {k}') or soft
        opened[k] = out
    for k, out in opened.items():       # nothing opened later changed them
        if k < len(plan['files']):
            check(ctx, out.value, images[k][1], images[k][2], plan['files'][k], f'file {k} later')
    if soft:
        raise Violation('finding', soft)


def nontrivial(plan, res):
    return res['probes'].get('elements-compared', 0) > 1


RULE = ('A run is one to three files of drawn records: all classes, types and versions, unknown ones, '
        'deleted ones, text with left-overs behind the terminator, with and without room for more '
        'points, file headers or an unusable header at the end; opened in turn or by threads under a '
        'seeded switch list, in small pieces, after cut, failing or abandoned opens. Non-trivial: at '
        'least two elements compared.')
MEASURE = 'distinct (element class, version, type of the element before)'
REAL = ['gempakio VectorGraphicFile (real code)', 'numpy']
STUB = ['file system calls (simulated files)', 'writing programs (record builder)',
        'thread scheduling where several files are opened at once']
ASSUME = ['the record builder follows vgstruct.h and cvgswap.c, as far as the sample files confirm it']
