"""C04: refinement of the VGF writer against a list of attribute models.

Several elements and two file objects share a history: elements are created (or rejected), changed
(or the change is rejected), flipped, encoded on their own, added to either file (possibly several
times) and written, with storage faults inside some writes.
"""
import copy

from dst import vgfgen as vg
from dst import vgfread
from dst.core import Violation
from dst.dmread import BadFile
from dst.simfs import SimFS
from dst.storecheck import gen_faults
from dst.vgfstore import check_bytes, check_decoded, diff_record

ID = 'C04'
LEVEL = 'exploration'
BUDGET = {'quick': {'runs': 20000, 'seconds': 80}, 'thorough': {'runs': 400000, 'seconds': 800}}
SHRINK = ('ops', 'faults')
NFILES = 2


def gen(rng, tier, i):
    n = rng.weighted([(4, 1), (10, 3), (25, 3), (80 if tier == 'thorough' else 45, 1)])
    faulty = rng.chance(0.5)
    ops, models = [], []
    for _ in range(n):
        c = rng.random()
        if c < 0.28 or not models:
            e = vg.gen_element(rng)
            models.append(vg.model(e))
            ops.append({'op': 'new', 'id': len(models) - 1, 'spec': e})
            if rng.chance(0.8):
                ops.append({'op': 'add', 'f': rng.randrange(NFILES), 'el': len(models) - 1})
        elif c < 0.35:
            e = vg.gen_element(rng)
            k = vg.gen_bad(rng, e)
            ops.append({'op': 'bad', 'spec': e, 'bad': k})
        elif c < 0.65:
            el = rng.randrange(len(models))
            attr, val, ok = vg.gen_change(rng, models[el])
            if ok:
                vg.apply(models[el], attr, val)
            ops.append({'op': 'set', 'el': el, 'attr': attr, 'val': val, 'ok': ok})
        elif c < 0.7:
            el = rng.randrange(len(models))
            if models[el]['cls'] in ('Front', 'SpecialLine'):
                vg.flip(models[el])
                ops.append({'op': 'flip', 'el': el})
        elif c < 0.75:
            ops.append({'op': 'encode', 'el': rng.randrange(len(models))})
        elif c < 0.85:
            ops.append({'op': 'add', 'f': rng.randrange(NFILES), 'el': rng.randrange(len(models))})
        elif c < 0.88:
            ops.append({'op': 'from', 'f': rng.randrange(NFILES),
                        'els': [rng.randrange(len(models)) for _ in range(rng.randrange(6))]})
        else:
            w = {'op': 'write', 'f': rng.randrange(NFILES), 'to': rng.randrange(3),
                 'as': rng.pick(['str', 'path'])}
            if faulty and rng.chance(0.6):
                w['faults'] = gen_faults(rng, 2000)
            ops.append(w)
    return {'ops': ops, 'existing': rng.chance(0.3)}


def run(plan, ctx):
    from pathlib import Path

    from gempakio.encode.vgf import VGFile
    fs = SimFS(ctx.scratch, ctx)
    if plan.get('existing'):
        for k in range(3):
            fs.put(f'f{k}.vgf', b'old contents ' * 700)
    files = [VGFile() for _ in range(NFILES)]
    lists = [[] for _ in range(NFILES)]      # model: ids of elements, in order
    els, models = {}, {}
    changed = rejected = False
    ops = list(plan['ops'])
    for f in range(NFILES):
        ops.append({'op': 'write', 'f': f, 'to': f, 'as': 'str'})
    failed = [False] * NFILES
    with fs.mounted():
        for n, op in enumerate(ops):
            ctx.steps += 1
            k = op['op']
            if k in ('set', 'flip', 'encode', 'add') and op['el'] not in els:
                continue
            if k == 'new':
                out = ctx.call('new', vg.build, op['spec'])
                if not out.ok:
                    raise Violation('valid-element-rejected', f'op {n}: {type(out.exc).__name__}: '
                                    f'{out.exc} for {op["spec"]}')
                els[op['id']] = out.value
                models[op['id']] = vg.model(op['spec'])
                ctx.probe('elements')
            elif k == 'bad':
                out = ctx.call('bad', vg.build, op['spec'])
                if out.ok:
                    raise Violation('invalid-element-accepted', f'op {n}: {op["bad"]}')
                ctx.probe('rejected-elements')
            elif k == 'set':
                e, m = els[op['el']], models[op['el']]
                out = ctx.call('set-' + op['attr'], setattr, e, op['attr'], op['val'])
                # The plan may have been shortened: decide validity from the state now.
                if op['ok']:
                    if not out.ok:
                        if op['attr'] == 'turbulence_symbol' or op['attr'] == 'font':
                            continue
                        raise Violation('valid-change-rejected', f'op {n}: {m["cls"]}.{op["attr"]} '
                                        f'= {op["val"]!r}: {out.exc}')
                    vg.apply(m, op['attr'], op['val'])
                    changed = True
                    ctx.probe('changes')
                elif out.ok:
                    good = (op['attr'] == 'font' and m['text_flag'] != 2
                            or op['attr'] == 'turbulence_symbol' and m['text_type'] not in (7, 9, 12))
                    if not good:
                        raise Violation('invalid-change-accepted',
                                        f'op {n}: {m["cls"]}.{op["attr"]} = {op["val"]!r}')
                    vg.apply(m, op['attr'], op['val'])
                else:
                    rejected = True
                    ctx.probe('rejected-changes')
                want = m[op['attr']]
                have = getattr(e, op['attr'])
                if have != want:
                    raise Violation('attribute-state', f'op {n}: {m["cls"]}.{op["attr"]} is {have!r} '
                                    f'after {"a" if out.ok else "a rejected"} change, expected {want!r}')
            elif k == 'flip':
                out = ctx.call('flip', els[op['el']].flip)
                if not out.ok:
                    raise Violation('flip-failed', repr(out.exc))
                vg.flip(models[op['el']])
            elif k == 'encode':
                m = models[op['el']]
                out = ctx.call('encode', els[op['el']].encode)
                if not out.ok:
                    raise Violation('encode-failed', f'op {n}: {out.exc!r}')
                try:
                    recs = vgfread.walk(HEADER + out.value)
                except BadFile as e:
                    raise Violation('malformed-record', str(e)) from e
                d = diff_record(recs[0], m)
                if len(recs) != 1 or d:
                    raise Violation('wrong-attribute', f'op {n}: encoded {m["cls"]}: {d[:4]}')
            elif k == 'add':
                out = ctx.call('add', files[op['f']].add_element, els[op['el']])
                if not out.ok:
                    raise Violation('add-failed', repr(out.exc))
                lists[op['f']].append(op['el'])
            elif k == 'from':
                ids = [x for x in op['els'] if x in els]
                out = ctx.call('from', VGFile.from_elements, *[els[x] for x in ids])
                if not out.ok:
                    raise Violation('from-failed', repr(out.exc))
                files[op['f']], lists[op['f']] = out.value, ids
            elif k == 'write':
                f = op['f']
                name = f"f{op['to']}.vgf"
                p = fs.path(name)
                fs.arm(op.get('faults', []))
                out = ctx.call('write', files[f].to_vgf, Path(p) if op['as'] == 'path' else p)
                fired = fs.disarm()
                err = [x for x in fired if 'err' in x]
                ms = [models[x] for x in lists[f]]
                ctx.mark(len(ms), changed, rejected, failed[f], out.ok, plan.get('existing'),
                         tuple(sorted((x['op'], x.get('err', '')) for x in fired)),
                         tuple(sorted({m['cls'] for m in ms})))
                if out.ok:
                    if err:
                        raise Violation('swallowed-error', f'{fired}')
                    data = fs.get(name)
                    if data is None:
                        raise Violation('lost-write', 'write returned but there is no file')
                    check_bytes(data, ms)
                    check_decoded(p, ms, ctx)
                    ctx.probe('verified-writes')
                    ctx.probe('verified-elements', len(ms))
                    if failed[f]:
                        ctx.probe('good-write-after-failed')
                    failed[f] = False
                else:
                    if not err:
                        raise Violation('write-failed', f'op {n}: fault-free write of {len(ms)} '
                                        f'elements raised {type(out.exc).__name__}: {out.exc}')
                    failed[f] = True
                    ctx.probe('failed-writes')
            ctx.log('state', [len(x) for x in lists])


HEADER = (bytes([0, 22, 0]) + bytes(17) + (424).to_bytes(4, 'big') + bytes(16)
          + b'Version'.ljust(384, b'\0'))


def simplify(plan):
    if plan.get('existing'):
        yield dict(plan, existing=False)
    for i, op in enumerate(plan['ops']):
        s = op.get('spec')
        if not s or op['op'] == 'bad':
            continue
        if isinstance(s['lon'], list) and len(s['lon']) > 2:
            p = copy.deepcopy(plan)
            p['ops'][i]['spec']['lon'] = s['lon'][:2]
            p['ops'][i]['spec']['lat'] = s['lat'][:2]
            yield p
        if s['form'] != 'list':
            p = copy.deepcopy(plan)
            p['ops'][i]['spec']['form'] = 'list'
            yield p


def nontrivial(plan, res):
    return res['probes'].get('verified-elements', 0) > 0


RULE = ('A run is a seeded history over up to dozens of elements of all six classes and two file '
        'objects: construction (valid and invalid), attribute changes (valid and invalid), flips, '
        'stand-alone encoding, repeated additions of the same element, from_elements, and writes to '
        'three destinations with storage faults inside them; it ends with a fault-free write of each '
        'file. Non-trivial: at least one write with at least one element was verified.')
MEASURE = ('distinct tuples (list length, changes seen, rejections seen, previous write failed, faults '
           'fired, outcome, destination existed, element classes) at writes')
REAL = ['gempakio VGF encoder and decoder (real code)', 'Python buffered I/O stack', 'numpy']
STUB = ['operating-system file layer (simulated raw files over a scratch directory)']
ASSUME = ['coordinates finite and within float32; text without embedded NUL; group type below 256']
