"""C05: write honesty, for all four writers.

The object under test and a twin receive the same additions; only the object under test meets
faults.  A write that returns must have produced exactly the bytes the twin writes at that moment
(and the independent reader must accept them); a write during which the disk refused anything must
raise; contents that cannot be encoded must leave the destination alone; after a failure no handle
is open, and retrying, or starting again after a crash, gives the twin's bytes.
"""
import os

import numpy as np

from dst.core import SimCrash, Violation
from dst.dmread import BadFile
from dst.simfs import SimFS
from dst.storecheck import gen_bulk
from dst.stores import STORES
from dst.vgfgen import apply, gen_change, model
from dst.vgfstore import VgfStore, check_bytes

ID = 'C05'
LEVEL = 'exploration'
BUDGET = {'quick': {'runs': 20000, 'seconds': 80}, 'thorough': {'runs': 400000, 'seconds': 800}}
SHRINK = ('ops', 'faults')
ALL = dict(STORES, vgf=VgfStore)
ERRS = ['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG']


def gen_fault(rng):
    """Byte positions are fractions of the complete file (or counts from either end)."""
    op = rng.weighted([('write', 6), ('open', 2), ('close', 2), ('short', 2), ('crash', 2),
                       ('fsync', 0.5), ('rename', 0.5)])
    if op == 'open':
        return {'op': 'open', 'nth': rng.weighted([(1, 5), (2, 1)]),
                'err': rng.pick(['EACCES', 'EIO', 'ENOSPC', 'EMFILE', 'EROFS'])}
    if op == 'close':
        return {'op': 'close', 'nth': rng.weighted([(1, 5), (2, 1)]), 'err': rng.pick(['EIO', 'ENOSPC'])}
    if op in ('fsync', 'rename'):
        return {'op': op, 'err': 'EIO'}
    if op == 'short':
        return {'op': 'short_write', 'size': rng.pick([1, 3, 100, 511, 512, 4096]), 'times': 0}
    f = {'op': 'write', 'where': rng.weighted([
        ('frac', 4), ('start', 1), ('end', 1.5)]), 'n': rng.pick([0, 1, 2, 3, 4, 17, 512, 4096])}
    if f['where'] == 'frac':
        f['n'] = rng.randrange(1001)
    if op == 'crash':
        f['err'] = 'CRASH'
    else:
        f['err'] = rng.pick(ERRS)
        f['times'] = rng.pick([1, 1, 2, 0])
    return f


def gen_unenc(rng, name):
    if name == 'grid':
        return rng.pick(['range', 'level', 'inf', 'precision'])
    if name == 'vgf':
        return rng.pick(['group', 'notelement', 'str', 'offset', 'big'])
    return rng.pick(['number', 'elevation', 'big'])


def gen(rng, tier, i):
    name = rng.pick(sorted(ALL))
    store = ALL[name]
    cfg = store.fix_cfg(rng, store.gen_cfg(rng))
    ops, pool = [], []
    nw = 0
    for _ in range(rng.weighted([(4, 2), (8, 4), (16, 2), (40 if tier == 'thorough' else 24, 0.5)])):
        c = rng.random()
        if c < 0.4 or (not pool and c < 0.8):
            s = store.gen_spec(rng, cfg, pool)
            pool.append(s)
            ops.append({'op': 'add', 'spec': s})
        elif c < 0.46:
            ops.append({'op': 'unenc', 'kind': gen_unenc(rng, name), 'spec':
                        store.gen_spec(rng, cfg, None), 'undo': rng.chance(0.6),
                        'bits': rng.pick([0, -1, 32, 33, 64])})
        elif c < 0.5 and name == 'grid':
            ops.append({'op': 'tune', 'tune': store.gen_tune(rng)})
        elif c < 0.55 and name == 'vgf' and pool:
            k = rng.randrange(len(pool))
            attr, val, ok = gen_change(rng, model(pool[k]))
            if ok and attr not in ('turbulence_symbol', 'font'):
                ops.append({'op': 'set', 'el': k, 'attr': attr, 'val': val})
        else:
            w = {'op': 'write', 'to': rng.randrange(3), 'as': rng.pick(['str', 'path'])}
            if rng.chance(0.75):
                w['faults'] = [gen_fault(rng) for _ in range(rng.weighted([(1, 6), (2, 1)]))]
            if rng.chance(0.06):
                w['to'] = rng.pick(['missing/x', 'adir'])
            ops.append(w)
            nw += 1
            if rng.chance(0.5):
                ops.append({'op': 'write', 'to': w['to'] if rng.chance(0.7) else rng.randrange(3),
                            'as': 'str'})
    if rng.chance(0.12):
        # enough for the writer's own buffer to fill before the file is complete
        ops.insert(rng.randrange(max(1, len(ops) // 2)), gen_bulk(rng))
    return {'store': name, 'cfg': cfg, 'ops': ops, 'existing': rng.chance(0.5),
            'blk': rng.weighted([(8192, 4), (4096, 3), (512, 3), (65536, 1)]),
            'shorter': rng.chance(0.3)}


class World:
    """The object under test, its twin and the history needed to rebuild them after a crash."""

    def __init__(self, store, cfg):
        self.store, self.cfg = store, cfg
        self.history = []
        self.fresh()

    def fresh(self):
        self.obj = self.store.make(self.cfg)
        self.twin = self.store.make(self.cfg)
        self.els = ([], [])

    def do(self, f):
        """Apply f(target, elements) to both; returns the exceptions."""
        self.history.append(f)
        return self._do(f)

    def _do(self, f):
        exc = []
        for t, els in zip((self.obj, self.twin), self.els, strict=True):
            try:
                f(t, els)
                exc.append(None)
            except Exception as e:
                exc.append(e)
        return exc

    def rebuild(self):
        self.fresh()
        for f in self.history:
            self._do(f)


def unencodable(store, cfg, op):
    """Function adding contents that cannot be encoded; a second one that takes them back."""
    kind, spec = op['kind'], op['spec']
    undo = None
    if store.name == 'grid':
        if kind == 'precision':
            return (lambda t, els: setattr(t, 'precision', op['bits']),
                    lambda t, els: setattr(t, 'precision', op['was']))
        a = store.args(spec, cfg)

        def put(t, els, a=a):
            b = list(a)
            if kind == 'range':
                b[0] = np.linspace(-3e9, 3e9, cfg['nx'] * cfg['ny']).reshape(cfg['ny'], cfg['nx'])
            elif kind == 'inf':
                b[0] = np.array(b[0], dtype='f8')
                b[0][0, 0] = np.inf
            else:
                b[3] = 2**40
            t.add_grid(*b)

        if kind != 'level':
            def undo(t, els):
                t.add_grid(*store.args(spec, cfg))
        return put, undo
    if store.name == 'vgf':
        def put(t, els):
            if kind == 'notelement':
                t.add_element('not an element')
                els.append(None)
                return
            e = store.add(t, spec, cfg)
            els.append(e)
            if kind == 'group':
                e.group_type = 300
            elif kind == 'offset' and hasattr(e, 'offset_x'):
                e.offset_x = 2**40
            elif kind == 'str' and hasattr(e, 'offset_x'):
                e.offset_y = 'wide'
            else:
                e.group_number = 2**40
        if kind == 'notelement':
            return put, None

        def undo(t, els):
            e = els[op['at']]
            e.group_type = 0
            e.group_number = 0
            if hasattr(e, 'offset_x'):
                e.offset_x = spec['kw'].get('offset_x', 0)
                e.offset_y = spec['kw'].get('offset_y', 0)
        return put, undo

    def put(t, els):
        a = store.args(spec, cfg)
        info = dict(a[4] or {})
        if kind == 'number':
            info['station_number'] = 2**40
        elif kind == 'elevation':
            info['elevation'] = 2.0**60
        else:
            p = list(a[0])[0]
            v = a[0][p]
            a[0][p] = 1e300 if np.ndim(v) == 0 else np.full(len(v), 1e300)
        a[4] = info
        (t.add_sounding if store.name == 'sounding' else t.add_station)(*a)

    if kind == 'big':
        def undo(t, els):
            store.add(t, spec, cfg)
    return put, undo


def resolve(faults, size):
    out = []
    for f in faults:
        f = dict(f)
        w = f.pop('where', None)
        if w:
            n = f.pop('n')
            f['at'] = {'frac': size * n // 1000, 'start': n, 'end': max(0, size - n)}[w]
        out.append(f)
    return out


def run(plan, ctx):
    store = ALL[plan['store']]
    cfg = plan['cfg']
    fs = SimFS(ctx.scratch, ctx)
    os.mkdir(fs.path('adir'))
    fs.blksize = plan.get('blk', 8192)
    if plan['existing']:
        for k in range(3):
            fs.put(f'f{k}', b'old ' * (3 if plan.get('shorter') else 9000))
    w = World(store, cfg)
    valid = {}                      # model of accepted entries (or list of models for VGF)
    vmodels, adds = [], []
    bits = 16
    poison = None                   # kind of unencodable contents now inside
    poisons = 0
    failed = False
    ops = [dict(o) for o in plan['ops']]
    with fs.mounted():
        for n, op in enumerate(ops + [{'op': 'write', 'to': 0, 'as': 'str'}]):
            ctx.steps += 1
            if op['op'] == 'add':
                spec = op['spec']

                def f(t, els, spec=spec):
                    els.append(store.add(t, spec, cfg))
                exc = w.do(f)
                if exc[0] is not None:
                    raise Violation('valid-entry-rejected', f'op {n}: {exc[0]!r}')
                if store.name == 'vgf':
                    adds.append(len(vmodels))
                    vmodels.append(model(spec))
                else:
                    valid[store.key(spec)] = spec
            elif op['op'] == 'bulk':
                for spec in store.bulk(op, cfg):
                    def f(t, els, spec=spec):
                        els.append(store.add(t, spec, cfg))
                    exc = w.do(f)
                    if exc[0] is not None:
                        raise Violation('valid-entry-rejected', f'op {n}: {exc[0]!r}')
                    if store.name == 'vgf':
                        vmodels.append(model(spec))
                    else:
                        valid[store.key(spec)] = spec
                ctx.probe('bulk')
            elif op['op'] == 'set':
                if op['el'] >= len(adds):
                    continue
                el = adds[op['el']]

                def f(t, els, op=op, el=el):
                    setattr(els[el], op['attr'], op['val'])
                if w.do(f)[0] is None:
                    apply(vmodels[el], op['attr'], op['val'])
            elif op['op'] == 'tune':
                if poison and poison['kind'] == 'precision':
                    continue

                def f(t, els, op=op):
                    store.tune(t, op['tune'])
                w.do(f)
                bits = op['tune'].get('precision', bits)
            elif op['op'] == 'unenc':
                if poison:
                    continue
                op['at'], op['was'] = len(vmodels), bits
                put, undo = unencodable(store, cfg, op)
                exc = w.do(put)
                if store.name == 'vgf' and len(w.els[0]) > len(vmodels):
                    vmodels.append(model(op['spec']))
                if exc[0] is not None:
                    ctx.probe('unencodable-refused-at-add')
                    continue
                poison = op
                poisons += 1
                ctx.probe('unencodable-' + op['kind'])
            elif op['op'] == 'write':
                _write(n, op, plan, store, cfg, fs, w, ctx, valid, vmodels, bits, poison, failed)
                failed = ctx.last_failed
                if poison and poison['undo']:
                    put, undo = unencodable(store, cfg, poison)
                    if undo:
                        w.do(undo)
                        if store.name != 'vgf' and poison['kind'] != 'precision':
                            valid[store.key(poison['spec'])] = poison['spec']
                        poison = None
                        ctx.probe('unencodable-undone')


def _write(n, op, plan, store, cfg, fs, w, ctx, valid, vmodels, bits, poison, failed):
    from pathlib import Path
    name = op['to'] if isinstance(op['to'], str) else f"f{op['to']}"
    p = fs.path(name)
    g = fs.path('golden')
    golden = None
    try:
        store.write(w.twin, g)
        golden = fs.get('golden')
    except Exception as e:
        if not poison:
            raise Violation('write-failed', f'op {n}: fault-free write raised '
                            f'{type(e).__name__}: {e}') from e
    finally:
        if os.path.exists(g):
            os.unlink(g)
    before = fs.get(name)
    others = {k: fs.get(f'f{k}') for k in range(3) if f'f{k}' != name}
    fs.arm(resolve(op.get('faults', []), len(golden) if golden else 3000))
    crashed = False
    try:
        out = ctx.call('write', store.write, w.obj, Path(p) if op['as'] == 'path' else p)
    except SimCrash:
        crashed = True
    fired = list(fs.fired)
    err = [f for f in fired if 'err' in f]
    ctx.mark(store.name, len(valid) + len(vmodels), bool(poison), failed, crashed,
             tuple(sorted((f['op'], f.get('err', '')) for f in fired)),
             before is not None, isinstance(op['to'], str))
    if crashed:
        fs.reboot()
        ctx.probe('crashes')
        w.rebuild()
        ctx.last_failed = True
    elif out.ok:
        fs.disarm()
        if err:
            raise Violation('swallowed-error', f'op {n}: write returned although {err} happened')
        if isinstance(op['to'], str):
            raise Violation('lost-write', f'op {n}: write to {name} returned normally')
        if poison and poison['kind'] not in ('big', 'inf') and golden is None:
            raise Violation('unencodable-accepted', f"op {n}: {poison['kind']}")
        data = fs.get(name)
        if golden is not None and data != golden:
            k = 0 if data is None else next((j for j, (a, b) in enumerate(
                zip(data, golden, strict=False)) if a != b), min(len(data), len(golden)))
            raise Violation('incomplete-file', f'op {n}: write returned but the file has '
                            f'{len(data) if data is not None else None} bytes, expected '
                            f'{len(golden)}; first difference at {k}')
        if fs.open_handles():
            raise Violation('open-handle', f'op {n}: after a good write: {fs.open_handles()}')
        odd = poison is not None and poison['kind'] == 'precision'
        if not poison or odd:
            try:
                if store.name == 'vgf':
                    check_bytes(data, vmodels)
                else:
                    store.check_bytes(data, valid, cfg, poison['bits'] if odd else bits)
            except BadFile as e:
                raise Violation('malformed-file', f'op {n}: {e}') from e
        ctx.probe('good-writes')
        if failed:
            ctx.probe('good-write-after-failed')
        ctx.last_failed = False
    else:
        # handles are looked at while the exception (and its frames) is still alive
        handles = fs.open_handles()
        fs.disarm()
        if handles:
            raise Violation('open-handle', f'op {n}: after {type(out.exc).__name__}: {handles}')
        if not err and not poison and not isinstance(op['to'], str):
            raise Violation('write-failed', f'op {n}: fault-free write raised {out.exc!r}')
        if poison and not err and not isinstance(op['to'], str):
            after = fs.get(name)
            if after != before:
                raise Violation('destination-touched', f"op {n}: contents ({poison['kind']}) cannot "
                                f'be encoded ({out.exc!r}) but the destination changed from '
                                f'{None if before is None else len(before)} to '
                                f'{None if after is None else len(after)} bytes')
            ctx.probe('unencodable-reported')
        if isinstance(op['to'], str):
            ctx.fault('open:' + ('EISDIR' if op['to'] == 'adir' else 'ENOENT'))
        ctx.probe('failed-writes')
        ctx.last_failed = True
    for k, v in others.items():
        if fs.get(f'f{k}') != v:
            raise Violation('other-file-changed', f'op {n}: writing {name} changed f{k}')


def nontrivial(plan, res):
    p = res['probes']
    return p.get('good-writes', 0) > 0 and (p.get('failed-writes', 0) > 0 or p.get('crashes', 0) > 0)


RULE = ('A run is a seeded history of additions (and contents that cannot be encoded) on one of the '
        'four writers and writes over new or existing (longer or shorter) destinations, most of them '
        'with faults: open refused, no space/quota/I/O error at a byte position drawn over the whole '
        'file and its ends, error on close, short writes, crash at a byte, missing directory; ends '
        'with a fault-free write. Non-trivial: at least one write failed or crashed and at least one '
        'later or earlier one was verified against the twin.')
MEASURE = ('distinct tuples (writer, entries, unencodable contents inside, previous write failed, '
           'crashed, faults fired, destination existed, bad path) at writes')
REAL = ['the four gempakio writers (real code)', 'Python buffered I/O stack', 'numpy']
STUB = ['operating-system file layer (simulated raw files over a scratch directory)']
ASSUME = ['a write is one call of to_gempak/to_vgf; durability beyond a successful close (fsync) is '
          'not claimed by the library']
