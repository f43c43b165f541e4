"""C14: interrupted calls leave objects usable and other entries intact."""
import copy
import gc
import os
import pickle
import random
import signal

from dst import queries, sources
from dst.core import Rng, Violation, derive
from dst.interrupt import Counter
from dst.simfs import SimFS
from dst.stores import STORES
from dst.vgfgen import apply, gen_change, model
from dst.vgfstore import VgfStore

ID = 'C14'
LEVEL = 'exploration'
BUDGET = {'quick': {'runs': 20000, 'seconds': 80}, 'thorough': {'runs': 400000, 'seconds': 800}}
SHRINK = ('ops', 'qs', 'cols', 'cells', 'specs', 'stations', 'parts')
EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}


# ---- plans ----------------------------------------------------------------------------------


def gen_hit(rng, io=None):
    c = rng.random()
    if io and c < 0.15:
        return {'how': 'io', 'op': io, 'at': rng.pick([0, 1, 28, 512, rng.randrange(4000)])}
    return {'how': 'opcode' if rng.chance(0.35) else 'line', 'frac': rng.weighted(
        [(rng.random(), 5), (1 - rng.random() ** 3 * 0.2, 2), (rng.random() ** 3 * 0.1, 1)]),
        'exc': rng.pick(sorted(EXC)), 'back': rng.weighted([(0, 4), (rng.randrange(30), 2)])}


def gen(rng, tier, i):
    if rng.chance(0.4):
        return gen_reader(rng)
    kind = rng.weighted([('grid', 4), ('sounding', 3), ('surface', 3), ('vgf', 2)])
    st = VgfStore if kind == 'vgf' else STORES[kind]
    cfg = st.fix_cfg(rng, st.gen_cfg(rng, small=rng.chance(0.8)))
    pool, ops = [], []
    for _ in range(rng.weighted([(2, 2), (5, 4), (9, 2)])):
        c = rng.random()
        if c < 0.65 or not pool:
            s = st.gen_spec(rng, cfg, pool)
            pool.append(s)
            op = {'op': 'add', 'spec': s}
            if kind != 'vgf' and rng.chance(0.08):
                op['bad'] = st.gen_bad(rng)
        elif c < 0.75 and kind == 'vgf':
            k = rng.randrange(len(pool))
            attr, val, ok = gen_change(rng, model(pool[k]))
            if not ok or attr in ('turbulence_symbol', 'font'):
                continue
            op = {'op': 'set', 'el': k, 'attr': attr, 'val': val}
        else:
            op = {'op': 'write'}
        if rng.chance(0.5):
            op['hit'] = gen_hit(rng, 'write' if op['op'] == 'write' else None)
            op['retry'] = rng.chance(0.6)
        ops.append(op)
    plan = {'side': 'writer', 'kind': kind, 'cfg': cfg, 'ops': ops}
    if rng.chance(0.15):
        plan['new_hit'] = gen_hit(rng)
    return plan


def gen_reader(rng):
    src = sources.gen(rng, 'vgf' if rng.chance(0.15) else None)
    qs = []
    for _ in range(rng.weighted([(2, 3), (4, 3), (8, 1)])):
        op = {'q': queries.gen(rng, src['kind'])}
        if rng.chance(0.6):
            op['hit'] = gen_hit(rng)
        if rng.chance(0.2):
            op['open'] = gen_hit(rng, io='read') if rng.chance(0.7) else {}
        qs.append(op)
    return {'side': 'reader', 'source': src, 'qs': qs,
            'first': gen_hit(rng, io='read') if rng.chance(0.5) else None}


# ---- hitting ----------------------------------------------------------------------------------


def forked(fn, seconds=60):
    """(value, signal) of fn in a forked copy of the process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, seconds)
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(fn()))
        except BaseException:   # noqa: B036
            pass
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    return (pickle.loads(data) if data else None), os.WIFSIGNALED(status)


def hit_call(ctx, fs, hit, label, fn):
    """Make the call with the interruption; returns (outcome, interrupted)."""
    if hit['how'] == 'io':
        e = fs.add_faults([{'op': hit['op'], 'at': hit['at'], 'err': 'KBD'}])
        out = ctx.call(label, fn)
        fs.drop_faults(e)
        return out, isinstance(out.exc, KeyboardInterrupt)
    op = hit['how'] == 'opcode'

    def count():
        c = Counter(opcodes=op)
        try:
            c.run(fn)
        except BaseException:   # noqa: B036
            pass
        return c.n
    n, _ = forked(count)
    if not n:
        return ctx.call(label, fn), False
    at = max(1, min(n, 1 + int(hit['frac'] * n) - hit['back']))
    c = Counter(at, EXC[hit['exc']], op)
    out = ctx.call(label, c.run, fn)
    if c.fired:
        ctx.fault(f"{hit['exc']}:{hit['how']}")
        ctx.mark(c.fired, hit['how'], at if n < 400 else int(400 * at / n))
        ctx.log('hit', c.fired, at, n)
    return out, bool(c.fired) and not out.ok


def no_handles(fs, what):
    gc.collect()
    if fs.open_handles():
        raise Violation('open-handle', f'{what}: {fs.open_handles()}')


# ---- writers -----------------------------------------------------------------------------------


class Oracle:
    """A process forked before the first interruption that writes what a history must give."""

    def __init__(self, st, cfg, scratch):
        self.ask_r, self.ask_w = os.pipe()
        self.rep_r, self.rep_w = os.pipe()
        self.cache = {}
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.ask_w)
                os.close(self.rep_r)
                f = os.fdopen(self.ask_r, 'rb')
                g = os.fdopen(self.rep_w, 'wb')
                path = os.path.join(scratch, 'oracle')
                while True:
                    hist = pickle.load(f)
                    pickle.dump(self.bytes_of(st, cfg, hist, path), g)
                    g.flush()
            except EOFError:
                pass
            finally:
                os._exit(0)
        os.close(self.ask_r)
        os.close(self.rep_w)
        self.f = os.fdopen(self.ask_w, 'wb')
        self.g = os.fdopen(self.rep_r, 'rb')

    @staticmethod
    def bytes_of(st, cfg, hist, path):
        obj = st.make(cfg)
        els = []
        for op in hist:
            try:
                do(st, cfg, obj, els, op)
            except Exception:
                pass
        try:
            st.write(obj, path)
        except Exception as e:
            return type(e).__name__
        with open(path, 'rb') as f:
            return f.read()

    def __call__(self, hist):
        key = repr(hist)
        if key not in self.cache:
            pickle.dump(hist, self.f)
            self.f.flush()
            self.cache[key] = pickle.load(self.g)
        return self.cache[key]

    def close(self):
        self.f.close()
        self.g.close()
        os.waitpid(self.pid, 0)


def do(st, cfg, obj, els, op):
    if op['op'] == 'add':
        e = st.add(obj, op['spec'], cfg, op.get('bad'))
        els.append(e)
    elif op['op'] == 'skip':
        els.append(None)
    elif op['op'] == 'set' and op['el'] < len(els) and els[op['el']] is not None:
        setattr(els[op['el']], op['attr'], op['val'])


def run_writer(plan, ctx):
    st = VgfStore if plan['kind'] == 'vgf' else STORES[plan['kind']]
    cfg = plan['cfg']
    fs = SimFS(ctx.scratch, ctx)
    oracle = Oracle(st, cfg, ctx.scratch)
    try:
        with fs.mounted():
            writer(plan, ctx, st, cfg, fs, oracle)
    finally:
        oracle.close()


def writer(plan, ctx, st, cfg, fs, oracle):
    if plan.get('new_hit'):
        hit_call(ctx, fs, plan['new_hit'], 'new', lambda: st.make(cfg))
    obj = st.make(cfg)
    vgf = plan['kind'] == 'vgf'
    els = []
    hists = [[]]            # what may have been accepted

    def write(n, name):
        out = ctx.call('write', st.write, obj, fs.path(name))
        return check(n, name, out)

    def check(n, name, out):
        nonlocal hists
        want = [oracle(h) for h in hists]
        if out.ok:
            got = fs.get(name)
        else:
            got = type(out.exc).__name__
        keep = [h for h, w in zip(hists, want, strict=True) if w == got]
        if not keep:
            show = got if isinstance(got, str) else f'{len(got)} bytes'
            other = [w if isinstance(w, str) else f'{len(w)} bytes' for w in want]
            at = ''
            if not isinstance(got, str):
                for w in want:
                    if not isinstance(w, str):
                        d = [i for i, (a, b) in enumerate(zip(got, w, strict=False)) if a != b]
                        at += f' first difference at {d[:1]}'
            raise Violation('interrupted-history', f'op {n}: write gave {show}, an uninterrupted '
                            f'history gives {other}{at} {out.exc!r}')
        hists = keep
        ctx.probe('writes-compared')

    for n, op in enumerate(plan['ops']):
        ctx.steps += 1
        hit = op.get('hit')
        if op['op'] == 'write':
            if not hit:
                write(n, 'f')
                continue
            out, cut = hit_call(ctx, fs, hit, 'write', lambda: st.write(obj, fs.path('f')))
            if cut:
                out = None
                no_handles(fs, f'op {n}: interrupted write')
                if op['retry']:
                    write(n, 'f')
            else:
                check(n, 'f', out)
            continue
        before = len(els)

        def fn(op=op):
            return do(st, cfg, obj, els, op)
        if op['op'] == 'set' and (op['el'] >= len(els) or els[op['el']] is None):
            continue
        if not hit:
            out, cut = ctx.call(op['op'], fn), False
        else:
            out, cut = hit_call(ctx, fs, hit, op['op'], fn)
        if out.ok or not cut:
            hists = [h + [plain(op)] for h in hists]
            if vgf and op['op'] == 'add' and len(els) == before:
                raise Violation('valid-entry-rejected', f'op {n}: {out.exc!r}')
            continue
        out = None
        no_handles(fs, f'op {n}: interrupted {op["op"]}')
        if vgf and op['op'] == 'add':
            # Lists grow with every call: repeat it only when the element is not there
            if len(obj.elements) - 1 > sum(e is not None for e in els):
                els.append(obj.elements[-1])
                hists = [h + [plain(op)] for h in hists]
                continue
            if op['retry']:
                fn()
                hists = [h + [plain(op)] for h in hists]
                continue
            els.append(None)    # keeps the numbering of the elements
            hists = [h + [{'op': 'skip'}] for h in hists]
            continue
        if op['retry']:
            again = ctx.call('again', fn)
            if not again.ok and not op.get('bad'):
                raise Violation('retry-failed', f'op {n}: {again.exc!r}')
            hists = [h + [plain(op)] for h in hists]
        elif not op.get('bad'):
            hists = hists + [h + [plain(op)] for h in hists]
            ctx.probe('left-uncertain')
        if len(hists) > 8:
            write(n, 'f')
    write('last', 'last')
    no_handles(fs, 'end')


def plain(op):
    return {k: v for k, v in op.items() if k not in ('hit', 'retry')}


# ---- readers -----------------------------------------------------------------------------------


def run_reader(plan, ctx):
    src = sources.build(plan['source'], ctx.scratch)
    kind = src.kind
    fs = SimFS(ctx.scratch, ctx)
    fs.put('f', src.data)
    p = fs.path('f')

    def expected():
        out = []
        try:
            ents = src.image.entries if src.image else [] if kind == 'vgf' else getattr(
                sources.open_(kind, p), queries.INFO[kind])()
            for op in plan['qs']:
                o = ctx.call('q', queries.call, sources.open_(kind, p), op['q'], kind,
                             queries.arguments(op['q'], kind, ents))
                out.append(queries.outcome(o))
        except Exception as e:
            return repr(e)
        return ents, out
    res, _ = forked(expected)
    if res is None or isinstance(res, str):
        raise Violation('open-failed', str(res))
    ents, want = res
    if src.image:
        ents = src.image.entries

    def opened(hit):
        if hit:
            out, cut = hit_call(ctx, fs, hit, 'open', lambda: sources.open_(kind, p))
            if cut:
                out = None
                no_handles(fs, 'interrupted open')
            elif out.ok:
                return out.value
        out = ctx.call('open', sources.open_, kind, p)
        if not out.ok:
            raise Violation('open-failed', repr(out.exc))
        return out.value

    def compare(obj, n, op, why):
        out = ctx.call(op['q']['m'], queries.call, obj, op['q'], kind,
                       queries.arguments(op['q'], kind, ents))
        with ctx.observing(f'result of query {n} {op["q"]}'):
            got = queries.outcome(out)
        if got != want[n]:
            raise Violation('wrong-after-interruption', f'query {n} {op["q"]} {why}: '
                            f'{str(got)[:300]} instead of {str(want[n])[:300]}')
        ctx.probe('results-compared')
    with fs.mounted():
        obj = opened(plan['first'])
        no_handles(fs, 'opened')
        for n, op in enumerate(plan['qs']):
            ctx.steps += 1
            if op.get('open') is not None:
                obj = opened(op['open'])
            if op.get('hit'):
                kw = queries.arguments(op['q'], kind, ents)
                out, cut = hit_call(ctx, fs, op['hit'], op['q']['m'],
                                    lambda kw=kw, op=op: queries.call(obj, op['q'], kind, kw))
                if not cut:
                    with ctx.observing(f'result of query {n} {op["q"]}'):
                        got = queries.outcome(out)
                    if got != want[n]:
                        raise Violation('wrong-after-interruption', f'query {n} {op["q"]} swallowed '
                                        f'an interruption: {str(got)[:300]}')
                out = None
                no_handles(fs, 'interrupted query')
                k = derive(plan['run'], n) % len(plan['qs'])
                compare(obj, k, plan['qs'][k], f'after interrupting query {n}')
            compare(obj, n, op, 'in turn')
        new = opened(None)
        for n, op in enumerate(plan['qs']):
            compare(new, n, op, 'on a new object')
            compare(obj, n, op, 'at the end')
        no_handles(fs, 'end')


def run(plan, ctx):
    random.seed(1)
    (run_writer if plan['side'] == 'writer' else run_reader)(plan, ctx)


def nontrivial(plan, res):
    return bool(res['faults'])


def simplify(plan):
    for key in ('ops', 'qs'):
        for i, op in enumerate(plan.get(key, [])):
            for drop in ('hit', 'bad', 'open'):
                if op.get(drop):
                    p = copy.deepcopy(plan)
                    del p[key][i][drop]
                    yield p
            if op.get('hit', {}).get('how') == 'opcode':
                p = copy.deepcopy(plan)
                p[key][i]['hit']['how'] = 'line'
                yield p
    for k in ('first', 'new_hit'):
        if plan.get(k):
            p = copy.deepcopy(plan)
            p[k] = None
            yield p


RULE = ('A run is a history on one writer, or opens and queries of one file, in which calls are '
        'interrupted (KeyboardInterrupt or MemoryError at a drawn source line or byte-code '
        'instruction of the package, or an interrupt in the middle of a read or write), then repeated or left; every file written is compared byte '
        'for byte with those of uninterrupted histories with and without the entries left '
        'uncertain, every result with that of an undisturbed process, and no file may stay open. '
        'Non-trivial: at least one interruption took place.')
MEASURE = 'distinct (function interrupted, granularity, position in the call)'
REAL = ['gempakio writers and readers', 'numpy, xarray, pyproj, pandas', 'Python buffered I/O']
STUB = ['asynchronous exceptions raised by a trace function', 'operating-system file layer (simulated raw files over a scratch directory)']
ASSUME = ['the interpreter does not deliver signals between the instructions that leave a `with` '
          'block', 'lists of vector graphic elements grow with every call, so the repeated addition '
          'is only made when the element is not in the list']


__all__ = ['Rng', 'apply']
