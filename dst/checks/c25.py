"""C25: selections, groups, bounds and JSON export of a vector graphic file reflect its elements.

Histories of questions to one opened file - in any order, abandoned, failing, while other files are
open and the file itself changes - are answered from a model of the records.
"""
import enum
import json

from dst import sources, vgfimage, vgfread
from dst.core import Violation
from dst.interrupt import Counter
from dst.sched import Scheduler, gen_switches
from dst.simfs import SimFS

ID = 'C25'
LEVEL = 'exploration'
BUDGET = {'quick': {'runs': 20000, 'seconds': 80}, 'thorough': {'runs': 300000, 'seconds': 600}}
SHRINK = ('recs', 'qs', 'switches', 'parts')
# vg_class, vg_type
HAS = {'fronts': (1, None), 'text': (5, 17), 'special_text': (5, 21), 'symbols': (4, None),
       'special_symbols': (4, 15), 'markers': (4, 19), 'special_lines': (3, 20), 'lines': (3, 1),
       'winds': (6, None), 'tracks': (10, None), 'watch_box': (2, None), 'sigmet': (11, None),
       'met': (15, None)}
GET = dict(HAS, text=(5, None))


def gen_query(rng, qs):
    c = rng.random()
    old = [q for q in qs if q['m'] in ('filter', 'group', 'json')]
    if old and c < 0.2:
        q = {k: x for k, x in rng.pick(old).items() if k not in ('at', 'exc', 'gone')}
        if rng.chance(0.7):
            # the same question with one thing changed
            new = gen_query(rng, [])
            if q['m'] == 'filter':
                k = rng.pick(['c', 't', 'op', 'op'])
                q.pop(k, None)
                if k == 'op':
                    q['op'] = rng.pick(['and', 'or'])
                elif rng.chance(0.7):
                    q[k] = ['rec', rng.randrange(20)]
            elif new['m'] == q['m']:
                q = new
        return q
    if c < 0.4:
        q = {'m': 'filter'}
        if rng.chance(0.8):
            q['c'] = rng.pick([*range(17), 99]) if rng.chance(0.3) else ['rec', rng.randrange(20)]
        if rng.chance(0.6):
            q['t'] = rng.pick([*range(1, 44), 1, 20, 21, 2, 5, 15, 19, 99]) if rng.chance(0.3) \
                else ['rec', rng.randrange(20)]
        if rng.chance(0.6):
            q['op'] = rng.pick(['and', 'or', 'and', 'or', 'xor', None])
        q['enum'] = rng.chance(0.3)
        return q
    if c < 0.5:
        return {'m': 'has', 'k': rng.pick(sorted(HAS))}
    if c < 0.6:
        return {'m': 'get', 'k': rng.pick(sorted(GET))}
    if c < 0.72:
        return {'m': 'group', 'g': rng.pick([0, 1, 8, 20, 255, 3, None])}
    if c < 0.82:
        return {'m': 'json', 'kw': rng.pick([{}, {}, {'indent': 2}, {'sort_keys': True}, {'cls': True},
                                             {'bad': 1}])}
    return {'m': rng.pick(['bounds', 'groups', 'elements', 'header', 'repr'])}


def gen(rng, tier, i):
    if rng.chance(0.75):
        pool = [vgfimage.gen(rng) for _ in range(rng.randrange(1, 5))]
        recs = []
        for _ in range(rng.weighted([(1, 1), (3, 3), (8, 2), (0, 0.3)])):
            r = dict(rng.pick(pool)) if rng.chance(0.6) else vgfimage.gen(rng)
            if rng.chance(0.4):
                r['g'] = [rng.pick([1, 8]), rng.pick([1, 2, 3])]
            recs.append(r)
        plan = {'recs': recs}
    else:
        plan = {'source': sources.gen_vgf(rng)}
        plan['source']['head'] = True
    qs = []
    for _ in range(rng.weighted([(2, 2), (5, 3), (12, 2)])):
        q = gen_query(rng, qs)
        c = rng.random()
        if c < 0.1:
            q['at'] = rng.random()
            q['exc'] = rng.pick(['KeyboardInterrupt', 'MemoryError'])
        elif c < 0.15:
            q['gone'] = rng.pick(['delete', 'other'])
        qs.append(q)
    plan['qs'] = [*qs, {'m': 'json', 'kw': {}}, {'m': 'elements'}]
    if rng.chance(0.2):
        nt = rng.randrange(2, 4)
        plan['switches'] = gen_switches(rng, nt, tier)
        plan['threads'] = nt
    return plan


def model(plan, scratch):
    """Bytes and what each decodable record says: header fields, and all attributes if drawn."""
    if 'recs' in plan:
        data, want = vgfimage.header(), []
        groups = []
        for r in plan['recs']:
            b, at = vgfimage.build(r)
            data += b
            if at is not None:
                want.append(at)
            if r['g'][0] and r['g'][0] not in groups and b[2] != 0:
                groups.append(r['g'][0])
        return data, want, groups
    data = sources.build(plan['source'], scratch).data
    want, groups = [], []
    for _, h, _ in vgfread.records(data):
        if h['vg_class'] != 0:
            want.append(h)
            if h['group_type'] and h['group_type'] not in groups:
                groups.append(h['group_type'])
    return data, want, groups


def resolve(q, want):
    """Fill in the class or type of a record of the file."""
    q = dict(q)
    for k, a in (('c', 'vg_class'), ('t', 'vg_type')):
        if isinstance(q.get(k), list):
            q[k] = want[q[k][1] % len(want)][a] if want else 1
    return q


def ask(obj, q):
    import gempakio.decode.vgf as mod
    m = q['m']
    if m == 'filter':
        kw = {}
        if 'c' in q:
            kw['vg_class'] = mod.VGClass(q['c']) if q.get('enum') and q['c'] < 17 else q['c']
        if 't' in q:
            kw['vg_type'] = mod.VGType(q['t']) if q.get('enum') and q['t'] in \
                [int(x) for x in mod.VGType] else q['t']
        if 'op' in q:
            kw['operation'] = q['op']
        return obj.filter_elements(**kw)
    if m == 'has':
        return getattr(obj, f'has_{q["k"]}')
    if m == 'get':
        return getattr(obj, f'get_{q["k"]}')()
    if m == 'group':
        g = obj.get_group(q['g'])
        return g and [(x.group_type, x.group_number, x.group_size, list(x), list(x.elements))
                      for x in g]
    if m == 'json':
        kw = {k: v for k, v in q['kw'].items() if k in ('indent', 'sort_keys')}
        if 'cls' in q['kw']:
            class Mine(mod.NumpyEncoder):
                pass
            kw['cls'] = Mine
        if 'bad' in q['kw']:
            kw['nonsense'] = 1
        return obj.to_json(**kw)
    if m == 'repr':
        return [repr(e) for e in obj.elements]
    return getattr(obj, m)


def index(els, some, what):
    """Positions in the file of returned elements."""
    pos = {id(e): k for k, e in enumerate(els)}
    out = []
    for e in some:
        if id(e) not in pos:
            # an equal copy would do as well
            k = [n for n, x in enumerate(els) if type(x) is type(e) and
                 str(vars(x)) == str(vars(e)) and n not in out]
            if not k:
                raise Violation('foreign-element', f'{what}: {e!r} is not an element of the file')
            out.append(k[0])
        else:
            out.append(pos[id(e)])
    return out


def plain(v, exact=True):
    """JSON form of a modelled or decoded value."""
    import datetime

    import numpy as np
    if isinstance(v, np.ndarray):
        return [round(float(x), 2) for x in v]
    if isinstance(v, enum.Enum):
        return int(v)
    if isinstance(v, datetime.datetime):
        return v.isoformat()
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    if hasattr(v, '__dict__'):
        return plain(vars(v))
    return v


def same(a, b, tol=1e-6):
    """Equal JSON values; numbers in lists may be rounded to two decimals."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, 0.0051) for x, y in zip(a, b, strict=True))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= tol * max(1, abs(b) * (tol < 1e-3)) \
            if isinstance(a, float) or isinstance(b, float) else a == b
    return a == b


def identical(a, b):
    """Same types and exactly the same values all through."""
    import numpy as np
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(identical(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b, strict=True))
    if hasattr(a, '__dict__') and not isinstance(a, enum.Enum):
        return identical(vars(a), vars(b))
    return a == b or a != a and b != b


def judge(ctx, plan, q, out, els, want, groups, n, fresh):
    """The answer against the model."""
    m = q['m']
    what = f'question {n} {q}'
    sel = None
    if m == 'filter':
        if q.get('op', 'and') not in ('and', 'or'):
            if out.ok or not isinstance(out.exc, ValueError):
                raise Violation('illegal-accepted', f'{what}: {out.value!r} {out.exc!r}')
            return
        c, t = q.get('c'), q.get('t')
        if c is None and t is None:
            sel = []
        elif c is None or t is None:
            sel = [k for k, w in enumerate(want) if (c is None or w['vg_class'] == c) and
                   (t is None or w['vg_type'] == t)]
        elif q.get('op') == 'or':
            sel = [k for k, w in enumerate(want) if w['vg_class'] == c or w['vg_type'] == t]
        else:
            sel = [k for k, w in enumerate(want) if w['vg_class'] == c and w['vg_type'] == t]
    elif m in ('has', 'get'):
        c, t = (HAS if m == 'has' else GET)[q['k']]
        sel = [k for k, w in enumerate(want) if w['vg_class'] == c and t in (None, w['vg_type'])]
        if m == 'get' and q['k'] == 'text' and not any(
                w['vg_class'] == 5 and w['vg_type'] == 17 for w in want):
            sel = None if out.ok and not out.value else sel     # text of other types only: as documented
            if sel is None:
                return
    elif m == 'json' and 'bad' in q['kw']:
        if out.ok:
            raise Violation('illegal-accepted', f'{what} was accepted')
        return
    if not out.ok:
        raise Violation('question-failed', f'{what}: {out.exc!r}')
    v = out.value
    if m == 'has':
        if v is not bool(sel):
            raise Violation('wrong-answer', f'{what}: {v!r}, {len(sel)} such elements')
    elif sel is not None:
        if not sel:
            if v:
                raise Violation('wrong-selection', f'{what}: {v} though nothing matches')
            return
        got = index(els, v or [], what)
        if got != sel:
            raise Violation('wrong-selection', f'{what}: elements {got}, not {sel}')
        ctx.probe('selected-some' if len(sel) < len(want) else 'selected-all')
    elif m == 'group':
        nums = sorted({w['group_number'] for w in want if w['group_type'] == q['g']})
        if not nums:
            if v:
                raise Violation('wrong-group', f'{what}: {v}')
            return
        exp = [[k for k, w in enumerate(want) if (w['group_type'], w['group_number']) == (q['g'], x)]
               for x in nums]
        got = [(a, b, s, index(els, l1, what), index(els, l2, what)) for a, b, s, l1, l2 in v or []]
        if got != [(q['g'], x, len(l), l, l) for x, l in zip(nums, exp, strict=True)]:
            raise Violation('wrong-group', f'{what}: {got}, not {exp}')
        ctx.probe('grouped')
    elif m == 'json':
        try:
            js = json.loads(v)
        except ValueError as e:
            raise Violation('bad-json', f'{what}: {e}') from e
        if len(js) != len(want):
            raise Violation('bad-json', f'{what}: {len(js)} elements, not {len(want)}')
        for k, (j, w, e) in enumerate(zip(js, want, fresh, strict=True)):
            x = plain(vars(e))
            if not same(j, x):
                bad = [y for y in x if not same(j.get(y), x[y])] + [y for y in j if y not in x]
                raise Violation('bad-json', f'{what}, element {k} ({type(e).__name__}): '
                                f'{[(y, j.get(y), x.get(y)) for y in bad][:3]}')
            w = plain({a: b for a, b in w.items() if a and not (
                a == 'status' and w.get('') == 'SigmetElement')})
            for y in w:
                if 'recs' not in plan and isinstance(w[y], float):
                    w[y] = round(w[y], 2)
                if y not in j or not same(j[y], w[y]):
                    raise Violation('bad-json', f'{what}, element {k}: {y} is {j.get(y)!r}, not '
                                    f'{w[y]!r}')
        ctx.probe('json-compared')
    elif m == 'bounds':
        use = []
        for w in want:
            b = [round(w[y], 2) for y in ('min_lat', 'min_lon', 'max_lat', 'max_lon')]
            if 0 in b:
                if any(b):
                    return      # a bound of zero reads as not set: not claimed
                continue
            use.append(b)
        exp = [f(b[y] for b in use) for y, f in enumerate((min, min, max, max))] if use else \
            [9999, 9999, -9999, -9999]
        if not same([float(y) for y in v], [float(y) for y in exp]):
            raise Violation('wrong-bounds', f'{what}: {v}, not {exp}')
    elif m == 'groups':
        if list(v) != groups:
            raise Violation('wrong-groups', f'{what}: {v}, not {groups}')
    elif m == 'elements':
        if len(v) != len(want):
            raise Violation('wrong-count', f'{what}: {len(v)}, not {len(want)}')
        for k, (e, w) in enumerate(zip(v, want, strict=True)):
            if '' in w:
                d = vgfimage.differs(e, w, ('status',) if w[''] == 'SigmetElement' else ())
            else:
                d = vgfimage.attrs_differ({a: round(b, 2) if isinstance(b, float) else b
                                           for a, b in vars(e).items()}, {
                    a: round(b, 2) if isinstance(b, float) else b for a, b in w.items()})
            if d:
                raise Violation('wrong-element', f'{what}: element {k}: {d}')
            if not identical(e, fresh[k]):
                raise Violation('changed-element', f'{what}: element {k} differs from a fresh one')
    ctx.mark(m, q.get('k'), bool(v), len(want), q.get('op'), 'c' in q, 't' in q)


def run(plan, ctx):
    fs = SimFS(ctx.scratch, ctx)
    data, want, groups = model(plan, ctx.scratch)
    fs.put('f', data)
    fs.put('again', data)
    out = ctx.call('open', sources.open_, 'vgf', fs.path('f'))
    if not out.ok:
        raise Violation('open-failed', repr(out.exc))
    obj = out.value
    spare = sources.open_('vgf', fs.path('again'))
    fresh = list(sources.open_('vgf', fs.path('again')).elements)
    # records that say nothing (lines without points) or stand for nothing are left out
    if 'recs' not in plan:
        heads = [(e.vg_type, e.vg_class, e.record_size) for e in fresh]
        keep = []
        for w in want:
            if len(keep) < len(heads) and heads[len(keep)] == (
                    w['vg_type'], w['vg_class'], w['record_size']):
                keep.append(w)
        want = keep
    els = list(obj.elements)
    if len(els) != len(want) or len(fresh) != len(want):
        raise Violation('wrong-count', f'{len(els)} and {len(fresh)} elements, not {len(want)}')
    others = []
    qs = [resolve(q, want) for q in plan['qs']]
    for n, q in enumerate(qs):
        ctx.steps += 1
        if q.get('gone') == 'delete':
            fs.put('f', b'')
            ctx.fault('file-truncated')
        elif q.get('gone') == 'other':
            fs.put('g', vgfimage.header() + vgfimage.build({'k': 'line', 's': n, 'g': [8, 1]})[0])
            others.append(ctx.call('other', sources.open_, 'vgf', fs.path('g')))
        if 'at' in q:
            c = Counter()
            ctx.call('dry', c.run, ask, spare, q)
            c = Counter(1 + int(q['at'] * max(1, c.n)),
                        {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[q['exc']])
            ctx.call('abandoned', c.run, ask, obj, q)
            if c.fired:
                ctx.fault('interrupt:' + q['exc'])
        out = ctx.call(q['m'], ask, obj, q)
        with ctx.observing(f'answer to question {n} {q}'):
            judge(ctx, plan, q, out, els, want, groups, n, fresh)
    if plan.get('threads') and plan['qs']:
        got = {}

        def body(k):
            def f():
                got[k] = [(n, q, ctx.call(f't{k}', ask, obj, q))
                          for n, q in enumerate(qs) if n % plan['threads'] == k or n < 2]
            return f
        s = Scheduler(ctx, plan['switches'])
        s.run([body(k) for k in range(plan['threads'])], 0)
        ctx.probe('preemptions', s.preempted)
        for k in sorted(got):
            for n, q, out in got[k]:
                with ctx.observing(f'answer to question {n} {q} in thread {k}'):
                    judge(ctx, plan, q, out, els, want, groups, n, fresh)


def nontrivial(plan, res):
    p = res['probes']
    return p.get('selected-some', 0) + p.get('grouped', 0) + p.get('json-compared', 0) > 0


RULE = ('A run is one opened vector graphic file (drawn records of all classes, or a mixture of '
        'records of real files and of the library\'s writer) and a seeded history of questions: '
        'selections by class and type, has/get methods, groups, bounds, JSON export, in one or '
        'several threads, some abandoned at a random line, some illegal, with the file changed or '
        'other files opened in between. Non-trivial: a proper selection, a group or a JSON export '
        'was compared.')
MEASURE = 'distinct (question, kind asked for, answered, number of elements, operation, filters)'
REAL = ['gempakio VectorGraphicFile (real code)', 'numpy, json']
STUB = ['file system calls (simulated files)', 'writing programs (record builder)',
        'thread scheduling where several threads ask']
ASSUME = ['an element with a bounding value of exactly zero counts as one without bounds',
          'get_text answers None if a file has only special or justified text']
