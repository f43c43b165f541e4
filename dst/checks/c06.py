"""C06: a torn file is rejected or read exactly."""
import os

from dst import queries, sources
from dst.core import SimCrash, Violation
from dst.simfs import SimFS
from dst.stores import STORES
from dst.vgfstore import VgfStore

ID = 'C06'
LEVEL = 'exploration'
BUDGET = {'quick': {'runs': 20000, 'seconds': 80}, 'thorough': {'runs': 400000, 'seconds': 800}}
SHRINK = ('cuts', 'cols', 'cells', 'specs', 'parts', 'qs', 'pick')


def gen(rng, tier, i):
    kind = rng.weighted([('grid', 3), ('sounding', 3), ('surface', 3), ('vgf', 4)])
    if kind != 'vgf' and rng.chance(0.04):
        src = {'src': 'sample', 'kind': kind, 'name': rng.pick(sources.DATA[kind])}
    else:
        src = sources.gen(rng, kind, weights=(5, 5, 0))
    n = rng.weighted([(4, 2), (10, 3), (30, 1)])
    cuts = [{'at': rng.weighted([('frac', 4), ('end', 2), ('edge', 4)]), 'n': rng.randrange(1001),
             'd': rng.pick([-5, -4, -3, -2, -1, 0, 0, 1, 2, 3, 4, 7])} for _ in range(n)]
    plan = {'source': src, 'cuts': cuts, 'qs': []}
    if kind != 'vgf':
        plan['qs'] = [queries.gen(rng, kind) for _ in range(rng.randrange(3))]
    if src['src'] == 'writer' or (kind == 'vgf' and any('specs' in p for p in src['parts'])):
        plan['crash'] = rng.chance(0.5)
    return plan


def edges(kind, data):
    """Interesting byte offsets: borders of blocks (word pointers found in the file) or records."""
    if kind == 'vgf':
        out = [0]
        for a, b in sources.records(data):
            out += [a + 40, a + 20, b]
        return out
    from dst.dmread import DM
    dm = DM(data)
    return [4 * (x - 1) for r in dm.regions for x in r[:2]]


def offset(cut, data, eds):
    n = len(data)
    if cut['at'] == 'frac':
        x = n * cut['n'] // 1000
    elif cut['at'] == 'end':
        x = n - 1 - cut['n'] % 200
    else:
        x = eds[cut['n'] % len(eds)] + cut['d']
    return min(max(x, 0), n)


def crash_image(plan, cut, fs, ctx, size):
    """The file a crash in the middle of writing leaves."""
    kind = plan['source']['kind']
    store = VgfStore if kind == 'vgf' else STORES[kind]
    cfg = plan['source'].get('cfg', {})
    obj = store.make(cfg)
    for s in plan['source']['specs']:
        store.add(obj, s, cfg)
    fs.put('t', b'older contents ' * 9)
    with fs.mounted():
        fs.arm([{'op': 'write', 'at': size, 'err': 'CRASH'}])
        try:
            ctx.call('write', store.write, obj, fs.path('t'))
        except SimCrash:
            pass
        fs.reboot()
    return fs.get('t')


def run(plan, ctx):
    fs = SimFS(ctx.scratch, ctx)
    src = sources.build(plan['source'], ctx.scratch)
    data = src.data
    try:
        eds = edges(src.kind, data)
    except Exception as e:
        raise AssertionError(f'source not well formed: {e}') from e
    if src.kind == 'vgf':
        ref = vgf_reference(fs, ctx, data)
    else:
        ref = Reference(fs, ctx, src, plan['qs'])
    seen = set()
    for cut in [{'at': 'end', 'n': -1}] + plan['cuts']:
        n = len(data) if cut['n'] == -1 else offset(cut, data, eds)
        if n in seen:
            continue
        seen.add(n)
        ctx.steps += 1
        torn = data[:n]
        how = 'cut'
        if plan.get('crash') and plan['source']['src'] == 'writer' and n < len(data):
            torn = crash_image(plan, cut, fs, ctx, n)
            how = 'crash'
            # a crash may leave a shorter prefix (data not yet handed to the disk)
            if not torn == data[:len(torn)]:
                ctx.probe('crash-left-other-bytes')
        fs.put('t', torn)
        ctx.fault(how if n < len(data) else 'none')
        if src.kind == 'vgf':
            check_vgf(ctx, fs, torn, ref, n)
        else:
            ref.check(ctx, fs, torn, n, len(data))
    os.unlink(fs.path('t'))


def vgf_reference(fs, ctx, data):
    """[(end offset of the record, its elements decoded on their own)]."""
    rs = sources.records(data)
    ref = []
    for a, b in rs:
        fs.put('r', data[a:b])
        out = ctx.call('alone', sources.open_, 'vgf', fs.path('r'))
        if not out.ok:
            raise Violation('record-rejected', f'record at {a}: {out.exc!r}')
        with ctx.observing('elements of a record'):
            ref.append((b, queries.canon(list(out.value.elements))[1]))
    return ref


def check_vgf(ctx, fs, torn, ref, n):
    out = ctx.call('open', sources.open_, 'vgf', fs.path('t'))
    ctx.mark('vgf', sum(b <= n for b, _ in ref), out.ok)
    if not out.ok:
        if any(b == len(torn) for b, _ in ref):
            raise Violation('intact-file-rejected', f'cut at record border {n}: {out.exc!r}')
        ctx.probe('rejected')
        return
    with ctx.observing('elements of a torn file'):
        got = queries.canon(list(out.value.elements))[1]
        want = tuple(e for b, es in ref if b <= len(torn) for e in es)
        if got != want:
            k = next((j for j, (x, y) in enumerate(zip(got, want, strict=False)) if x != y),
                     min(len(got), len(want)))
            raise Violation('changed-data', f'cut at {n} of {ref[-1][0] if ref else 0}: '
                            f'{len(got)} elements for {len(want)} wholly present; first difference '
                            f'at element {k}: {str(got[k:k + 1])[:300]} for '
                            f'{str(want[k:k + 1])[:300]}')
    ctx.probe('read-exactly')


class Reference:
    """Answers of the complete file."""

    def __init__(self, fs, ctx, src, qs):
        self.kind = src.kind
        fs.put('c', src.data)
        obj = sources.open_(src.kind, fs.path('c'))
        self.entries = src.image.entries if src.image else getattr(obj, queries.INFO[src.kind])()
        self.qs = [{'m': 'info'}, {'m': 'get', 'f': {}, **({'sp': True} if src.kind == 'surface'
                                                          else {})}] + qs
        # every entry on its own as far as filters can separate them
        for k in range(min(len(self.entries), 6)):
            f = {'parameter': {'v': [k], 'form': 'one'}, 'level': {'v': [k], 'form': 'one',
                 'as': 'int'}} if src.kind == 'grid' else {
                'station_id': {'v': [k], 'form': 'one'},
                'date_time': {'v': [k], 'form': 'one', 'as': 'dt'}}
            if self.kind == 'grid' and self.entries and queries.entry_get(
                    self.entries[k], 'LEVEL1') is None:
                f.pop('level')
            self.qs.append({'m': 'get', 'f': f, **({'sp': True} if src.kind == 'surface' else {})})
        self.want = [self.ask(ctx, obj, q) for q in self.qs]

    def ask(self, ctx, obj, q):
        kw = queries.arguments(q, self.kind, self.entries)
        out = ctx.call(q['m'], queries.call, obj, q, self.kind, kw)
        with ctx.observing(f'result of {q}'):
            return queries.outcome(out)

    def check(self, ctx, fs, torn, n, full):
        out = ctx.call('open', sources.open_, self.kind, fs.path('t'))
        if not out.ok:
            ctx.probe('rejected')
            ctx.mark(self.kind, 'open', type(out.exc).__name__)
            if len(torn) == full:
                raise Violation('intact-file-rejected', repr(out.exc))
            return
        ok = 0
        for q, want in zip(self.qs, self.want, strict=True):
            got = self.ask(ctx, out.value, q)
            if got == want:
                ok += got[0] == 'ok'
                continue
            if got[0] == 'exc':
                if len(torn) == full:
                    raise Violation('intact-file-rejected', f'{q}: {got}')
                continue
            raise Violation('changed-data', f'{n} of {full} bytes: {q} gives {str(got)[:500]} '
                            f'instead of {str(want)[:500]} or an exception')
        ctx.mark(self.kind, 'queries', ok, len(self.qs))
        ctx.probe('opened-answers' if ok > 1 else 'opened')


def nontrivial(plan, res):
    p = res['probes']
    return p.get('rejected', 0) > 0 and p.get('opened-answers', 0) + p.get('read-exactly', 0) > 1


RULE = ('A run is one file and seeded cut points: anywhere, near the end, and within a few bytes of '
        'every block, header, pointer and record border; half of the files of the library\'s writers '
        'are torn by crashing the writer at that byte on the simulated disk. Each remainder is opened '
        'and asked for the listing, everything, single entries and seeded selections. Non-trivial: '
        'some remainders were rejected and some opened and answered.')
MEASURE = 'distinct (kind, records or answers left, outcome)'
REAL = ['gempakio readers, queries and (for crashes) writers', 'numpy, xarray, pyproj']
STUB = ['disk: simulated, keeps what reached it before the crash']
ASSUME = ['A crash leaves a prefix of the file (data reaches the disk in order)']
