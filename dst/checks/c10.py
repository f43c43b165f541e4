"""C10: several objects, each used by one thread or all by one thread in some order."""
import copy
import os
import pickle
import random
import resource
import select
import signal
import time

from dst import queries, sources
from dst.core import Ctx, Violation
from dst.sched import Scheduler, gen_switches
from dst.simfs import SimFS
from dst.stores import STORES
from dst.vgfstore import VgfStore

ID = 'C10'
LEVEL = 'exploration'
BUDGET = {'quick': {'runs': 20000, 'seconds': 80}, 'thorough': {'runs': 300000, 'seconds': 800}}
SHRINK = ('scripts', 'ops', 'switches', 'order', 'cols', 'cells', 'specs', 'parts', 'stations',
          'flips', 'edits')
KINDS = ['grid', 'sounding', 'surface', 'vgf']
ASSUME = ['Threads are pre-empted at source lines or byte-code instructions of the package; calls '
          'into numpy, xarray and pyproj are atomic']


def store_of(kind):
    return VgfStore if kind == 'vgf' else STORES[kind]


def leaves(x, path=()):
    """Paths of the numeric and text leaves of a JSON document."""
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,))
    else:
        yield path


def edited(doc, edits):
    """The document with some leaves replaced by values found at other leaves of the same type."""
    doc = copy.deepcopy(doc)
    ls = list(leaves(doc))
    for a, b in edits:
        if not ls:
            break
        pa, pb = ls[a % len(ls)], ls[b % len(ls)]
        try:
            va, vb = doc, doc
            for k in pa:
                va = va[k]
            for k in pb:
                vb = vb[k]
            if isinstance(va, bool) or pa[0] in ('src', 'kind'):
                continue
            if isinstance(va, int) and isinstance(vb, int):
                new = vb if a % 3 else va + 1
                if abs(new) > 4096 and abs(va) <= 4096:     # a count, not a seed
                    continue
            elif type(va) is type(vb):
                new = vb
            else:
                continue
            t = doc
            for k in pa[:-1]:
                t = t[k]
            t[pa[-1]] = new
        except (KeyError, IndexError, TypeError):
            continue
    return doc


def vary_cfg(rng, kind, cfg):
    """A configuration close to another one (same class, different parameters)."""
    cfg = copy.deepcopy(cfg)
    fresh = store_of(kind).fix_cfg(rng, store_of(kind).gen_cfg(rng, small=True))
    keys = [k for k in cfg if k in fresh]
    if kind == 'sounding':
        keys = [k for k in keys if k not in ('vert', 'params')]
        if rng.chance(0.5):
            for k in ('vert', 'params', 'lower'):
                cfg[k] = fresh[k]
        elif cfg['params']:
            head, tail = cfg['params'][:1], cfg['params'][1:]
            rng.shuffle(tail)
            cfg['params'] = head + tail
    for k in rng.sample(keys, min(len(keys), rng.randrange(1, 3))):
        cfg[k] = fresh[k]
    return cfg


def gen_script(rng, kind, shared):
    """Operations on one writer and on readers of its files and of foreign files."""
    ops = []
    if rng.chance(0.72):
        st = store_of(kind)
        base = shared.get(('cfg', kind))
        if base is not None and rng.chance(0.7):
            cfg = copy.deepcopy(base) if rng.chance(0.3) else vary_cfg(rng, kind, base)
        else:
            cfg = st.fix_cfg(rng, st.gen_cfg(rng, small=True))
        shared.setdefault(('cfg', kind), cfg)
        ops.append({'op': 'new', 'kind': kind, 'cfg': cfg})
        pool = []
        common = shared.setdefault(('pool', kind), [])
        for _ in range(rng.weighted([(2, 3), (5, 4), (9, 2)])):
            c = rng.random()
            if c < 0.65:
                if common and rng.chance(0.5):
                    s = copy.deepcopy(rng.pick(common))
                    if kind != 'vgf' and rng.chance(0.6):
                        s2 = st.gen_spec(rng, cfg, [s])
                        s = s2
                else:
                    s = st.gen_spec(rng, cfg, pool)
                pool.append(s)
                common.append(s)
                op = {'op': 'add', 'spec': s}
                if kind != 'vgf' and rng.chance(0.15):
                    op['bad'] = st.gen_bad(rng)
                ops.append(op)
            elif c < 0.85:
                op = {'op': 'write'}
                if rng.chance(0.3):
                    op['fault'] = rng.pick([
                        {'op': 'open', 'err': 'EACCES'}, {'op': 'write', 'at': 0, 'err': 'ENOSPC'},
                        {'op': 'write', 'at': rng.randrange(3000), 'err': 'EIO', 'times': 0},
                        {'op': 'close', 'err': 'EIO'}, {'op': 'short_write', 'size': 100,
                                                        'times': 0}])
                ops.append(op)
            elif c < 0.9 and kind == 'grid':
                ops.append({'op': 'tune', 'tune': st.gen_tune(rng)})
            else:
                ops += [{'op': 'write'}, {'op': 'reopen'}, {'op': 'ask', 'q': queries.gen(rng, kind)}]
        ops.append({'op': 'write'})
    if not ops or rng.chance(0.4):
        base = shared.get(('src', kind))
        op = {'op': 'open', 'kind': kind}
        if base is not None and rng.chance(0.7):
            op['source'] = copy.deepcopy(base)
            op['edits'] = [[rng.randrange(100000), rng.randrange(100000)]
                           for _ in range(rng.weighted([(0, 1), (1, 3), (4, 2)]))]
        else:
            op['source'] = shared[('src', kind)] = sources.gen(rng, kind)
        if rng.chance(0.15):
            op['flips'] = [[rng.random(), rng.randrange(8)] for _ in range(rng.randrange(1, 4))]
        if rng.chance(0.12):
            op['fault'] = {'op': 'read', 'at': rng.randrange(3000), 'err': 'EIO', 'times': 0}
        at = rng.randrange(len(ops) + 1) if rng.chance(0.3) else len(ops)
        new = [op]
        for _ in range(rng.randrange(1, 4)):
            new.append({'op': 'ask', 'q': queries.gen(rng, kind)})
        ops[at:at] = new
    return ops


def gen(rng, tier, i):
    n = rng.weighted([(2, 5), (3, 3), (4, 1)])
    shared = {}
    if rng.chance(0.7):
        kinds = [rng.pick(KINDS)] * n
    else:
        kinds = [rng.pick(KINDS) for _ in range(n)]
    scripts = [gen_script(rng, k, shared) for k in kinds]
    plan = {'scripts': scripts, 'mode': rng.pick(['threads', 'single'])}
    if plan['mode'] == 'threads':
        plan.update(switches=gen_switches(rng, n, tier), opcodes=rng.chance(0.2),
                    first=rng.randrange(n))
    else:
        total = sum(map(len, scripts))
        style = rng.pick(['mixed', 'mixed', 'turns', 'serial'])
        if style == 'mixed':
            plan['order'] = [rng.randrange(n) for _ in range(3 * total)]
        elif style == 'turns':
            plan['order'] = [k % n for k in range(n * total)]
        else:
            plan['order'] = []
    return plan


class Actor:
    """Executes one script; `results` holds what its user sees."""

    def __init__(self, k, ops, fs, ctx):
        self.k, self.ops, self.fs, self.ctx = k, ops, fs, ctx
        self.pos = 0
        self.results = []
        self.writer = self.reader = None
        self.kind = self.store = self.cfg = None
        self.rkind, self.ents = None, []
        self.own = f'a{k}-own'

    @property
    def done(self):
        return self.pos >= len(self.ops)

    def step(self):
        op = self.ops[self.pos]
        self.pos += 1
        r = getattr(self, 'do_' + op['op'])(op)
        self.results.append((op['op'], r))

    def result(self, out, value=True):
        if out.exc is not None:
            return ('exc', type(out.exc).__name__)
        if not value:
            return ('ok',)
        with self.ctx.observing('a result'):
            return queries.outcome(out)

    def with_fault(self, op, fn):
        f = op.get('fault')
        if not f:
            return fn()
        e = self.fs.add_faults([dict(f, path=f'a{self.k}-')])
        try:
            return fn()
        finally:
            self.fs.drop_faults(e)

    def do_new(self, op):
        self.kind, self.store, self.cfg = op['kind'], store_of(op['kind']), op['cfg']
        out = self.ctx.call(f'new{self.k}', self.store.make, op['cfg'])
        self.writer = out.value
        return self.result(out, False)

    def do_add(self, op):
        if self.writer is None:
            return None
        return self.result(self.ctx.call(f'add{self.k}', self.store.add, self.writer, op['spec'],
                                         self.cfg, op.get('bad')), False)

    def do_tune(self, op):
        if self.writer is None:
            return None
        return self.result(self.ctx.call(f'tune{self.k}', self.store.tune, self.writer, op['tune']),
                           False)

    def do_write(self, op):
        if self.writer is None:
            return None
        out = self.with_fault(op, lambda: self.ctx.call(
            f'write{self.k}', self.store.write, self.writer, self.fs.path(self.own)))
        r = self.result(out, False)
        if out.ok:
            data = self.fs.get(self.own)
            r += (None if data is None else (len(data), queries.digest(data)),)
        return r

    def do_open(self, op):
        name = f'a{self.k}-in'
        self.fs.put(name, op['data'])
        self.rkind = op['kind']
        return self.opening(op, name)

    def do_reopen(self, op):
        if self.writer is None or self.fs.get(self.own) is None:
            return None
        self.rkind = self.kind
        return self.opening(op, self.own)

    def opening(self, op, name):
        out = self.with_fault(op, lambda: self.ctx.call(
            f'open{self.k}', sources.open_, self.rkind, self.fs.path(name)))
        self.reader, self.ents = out.value, []
        r = self.result(out, False)
        if self.reader is not None and self.rkind != 'vgf':
            out = self.ctx.call(f'info{self.k}', getattr(self.reader, queries.INFO[self.rkind]))
            r += (self.result(out),)
            self.ents = out.value or []
        return r

    def do_ask(self, op):
        if self.reader is None:
            return None
        try:
            kw = queries.arguments(op['q'], self.rkind, self.ents)
        except Exception:       # listing of a damaged file that no argument can be made from
            return None
        return self.result(self.ctx.call(f'ask{self.k}', queries.call, self.reader, op['q'],
                                         self.rkind, kw))


def solo(k, ops, scratch, seconds=20):
    """Results of a script executed alone in a process of its own (None: no answer in time)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, seconds)
            d = os.path.join(scratch, f'solo{k}')
            os.mkdir(d)
            ctx = Ctx({}, d)
            fs = SimFS(d, ctx)
            a = Actor(k, ops, fs, ctx)
            with fs.mounted():
                while not a.done:
                    a.step()
            data = pickle.dumps(a.results)
        except Violation as v:
            data = pickle.dumps(('violation', v.kind, v.detail))
        except BaseException:   # noqa: B036
            data = b''
        try:
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    end = time.monotonic() + 4 * seconds
    while time.monotonic() < end:
        if select.select([r], [], [], 1)[0]:
            c = os.read(r, 1 << 16)
            if not c:
                break
            buf += c
    else:
        os.kill(pid, signal.SIGKILL)
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(buf) if buf else None


def prepare_ops(ops, scratch):
    """Builds the bytes of the files to be opened."""
    out = []
    for op in ops:
        if op['op'] == 'open':
            op = dict(op)
            spec = op['source']
            try:
                data = sources.build(edited(spec, op.get('edits', [])), scratch).data
            except Exception:   # the edit made no sense for the builder
                data = sources.build(spec, scratch).data
            b = bytearray(data)
            for x, bit in op.get('flips', []):
                if b:
                    b[int(x * len(b))] ^= 1 << bit
            op['data'] = bytes(b)
        out.append(op)
    return out


def built(scripts, scratch):
    """prepare_ops in a process of its own: building may call the library's writers."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            soft = 6 << 30
            resource.setrlimit(resource.RLIMIT_AS, (soft, soft))
            with os.fdopen(w, 'wb') as f:
                pickle.dump([prepare_ops(s, scratch) for s in scripts], f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def run(plan, ctx):
    random.seed(1)
    scripts = built(plan['scripts'], ctx.scratch)
    if not scripts:
        return
    want = [solo(k, ops, ctx.scratch) for k, ops in enumerate(scripts)]
    for w in want:
        if isinstance(w, tuple):
            raise Violation(*w[1:])
    for k, w in enumerate(want):
        if w is None:
            ctx.probe('solo-without-answer')
            scripts[k] = []
            want[k] = []
    fs = SimFS(ctx.scratch, ctx)
    actors = [Actor(k, ops, fs, ctx) for k, ops in enumerate(scripts)]

    def body(a):
        def f():
            while not a.done:
                a.step()
        return f
    with fs.mounted():
        if plan['mode'] == 'threads':
            s = Scheduler(ctx, plan['switches'], plan['opcodes'])
            s.run([body(a) for a in actors], plan['first'])
            ctx.probe('preemptions', s.preempted)
        else:
            last, turns = None, []
            for k in plan['order']:
                a = actors[k % len(actors)]
                if not a.done:
                    if last not in (None, a.k):
                        ctx.probe('turn-changes')
                    turns.append((a.k, a.ops[a.pos]['op']))
                    last = a.k
                    a.step()
                    ctx.steps += 1
            for a in actors:
                while not a.done:
                    turns.append((a.k, a.ops[a.pos]['op']))
                    a.step()
                    ctx.steps += 1
            ctx.mark('single', tuple(turns))
    for a in actors:
        for n, (w, g) in enumerate(zip(want[a.k], a.results, strict=True)):
            if g != w:
                op = {k: v for k, v in a.ops[n].items() if k != 'data'}
                raise Violation('influenced', f'object {a.k} step {n} {str(op)[:300]}: '
                                f'{str(g)[:300]} instead of {str(w)[:300]} when alone '
                                f"({plan['mode']})")
            ctx.probe('steps-compared')
            if w[1] and w[1][0] == 'exc':
                ctx.probe('failing-steps')
    if fs.open_handles():
        raise Violation('open-handle', f'{fs.open_handles()}')


def nontrivial(plan, res):
    p = res['probes']
    return p.get('preemptions', 0) > 0 or p.get('turn-changes', 0) > 0


RULE = ('A run is two to four scripts, each with a writer and readers of its own (files of its own, '
        'most of the time the same class with slightly different parameters, equal headers and '
        'different data; failing additions, damaged inputs and storage faults that hit one of them '
        'only), executed as threads under a seeded switch list or interleaved call by call in one '
        'thread; every result and every written file is compared with the same script executed '
        'alone in a fresh process. Non-trivial: at least one change of object in mid-script.')
MEASURE = 'distinct interleavings: preemption traces (threads) or call sequences (single thread)'
REAL = ['gempakio writers and readers in real threads', 'numpy, xarray, pyproj',
        'Python buffered I/O stack']
STUB = ['thread scheduling: one thread at a time, hand-over decided by the plan',
        'operating-system file layer (simulated raw files over a scratch directory)']
SIMTIME = 'counted in scheduler steps (lines or instructions executed inside the package) and calls'


def simplify(plan):
    if plan['mode'] == 'threads':
        yield {**{k: v for k, v in plan.items() if k not in ('switches', 'first', 'opcodes')},
               'mode': 'single', 'order': []}
    for i, s in enumerate(plan['scripts']):
        for j, op in enumerate(s):
            for drop in ('fault', 'flips', 'edits', 'bad'):
                if op.get(drop):
                    p = copy.deepcopy(plan)
                    del p['scripts'][i][j][drop]
                    yield p


