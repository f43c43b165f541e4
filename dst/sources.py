"""Files to read: images of foreign programs, files of the library's writers, repository samples."""
import functools
import os

from dst import dmimage, sut, vgfgen, vgfimage
from dst.core import Rng, derive
from dst.stores import STORES

DATA = {
    'grid': ['big_endian.grd', 'little_endian.grd', 'dec.grd', 'diff.grd', 'grib.grd', 'none.grd',
             'multi_date.grd', 'multi_time.grd', 'multilevel_multidate.grd', 'stereographic.grd',
             'mercator.grd', 'aed.grd'],
    'sounding': ['merged_nopack.snd', 'msn_hrrr_mrg.snd', 'dl10548_sigw_pres_unmrg_man_bgl.snd',
                 'nzwp_no_ttcc.snd', 'top_sigw_hght_unmrg.snd', 'waml_sigw_pres_unmrg.snd'],
    'surface': ['climate.sfc', 'lwc_std_sfc.sfc', 'oun_sfc.gem'],
    'vgf': ['fills', 'fronts', 'jet', 'lines', 'misc', 'sig_airmet', 'sig_ccf', 'sig_intnl',
            'sig_nonconv', 'symbols', 'tca', 'text', 'tracks', 'tracks_v0', 'tracks_v1', 'volcano',
            'watch', 'watch_v0', 'watch_v1', 'watch_v2', 'watch_v3', 'watch_v4', 'watch_v5'],
}


@functools.cache
def sample(name):
    with open(os.path.join(sut.REPO, 'tests', 'data', name), 'rb') as f:
        return f.read()


def records(data):
    """Byte ranges of the records of a VGF image (record size at offset 20, big endian)."""
    out, pos = [], 0
    while pos + 40 <= len(data):
        n = int.from_bytes(data[pos + 20:pos + 24], 'big')
        if n < 40 or pos + n > len(data):
            break
        out.append((pos, pos + n))
        pos += n
    return out


def gen(rng, kind=None, weights=(6, 3, 1)):
    """JSON spec of a source."""
    kind = kind or rng.pick(['grid', 'sounding', 'surface'])
    if kind == 'vgf':
        return gen_vgf(rng)
    how = rng.weighted([('image', weights[0]), ('writer', weights[1]), ('sample', weights[2])])
    if how == 'image':
        return {'src': 'image', **dmimage.GEN[kind](rng)}
    if how == 'sample':
        return {'src': 'sample', 'kind': kind, 'name': rng.pick(DATA[kind])}
    store = STORES[kind]
    cfg = store.fix_cfg(rng, store.gen_cfg(rng, small=True))
    pool = []
    for _ in range(rng.weighted([(1, 1), (3, 3), (6, 3), (12, 1)])):
        pool.append(store.gen_spec(rng, cfg, pool))
    return {'src': 'writer', 'kind': kind, 'cfg': cfg, 'specs': pool}


def gen_vgf(rng):
    """A mixture of records of the sample files, of the library's writer and of other programs."""
    parts = []
    for _ in range(rng.weighted([(1, 2), (3, 4), (6, 2)])):
        if rng.chance(0.35):
            parts.append({'recs': [vgfimage.gen(rng) for _ in range(rng.randrange(1, 5))]})
        elif rng.chance(0.3):
            parts.append({'specs': [vgfgen.gen_element(rng) for _ in range(rng.randrange(1, 4))]})
        else:
            n = rng.randrange(1, 5)
            parts.append({'name': rng.pick(DATA['vgf']) + '.vgf', 'pick': [
                rng.randrange(1000) for _ in range(n)]})
    return {'src': 'vgf', 'kind': 'vgf', 'parts': parts, 'head': rng.chance(0.8)}


class Source:
    def __init__(self, kind, data, image=None):
        self.kind, self.data, self.image = kind, data, image


def write_store(kind, cfg, specs, path):
    """A file made by the library's writer."""
    from dst.vgfstore import VgfStore
    store = VgfStore if kind == 'vgf' else STORES[kind]
    obj = store.make(cfg)
    for s in specs:
        store.add(obj, s, cfg)
    store.write(obj, path)


def build(spec, scratch):
    """Source of a spec; files are made through `scratch`, outside any simulated disk."""
    kind = spec['kind']
    if spec['src'] == 'image':
        im = dmimage.build(spec)
        return Source(kind, im.data, im)
    if spec['src'] == 'sample':
        return Source(kind, sample(spec['name']))
    p = os.path.join(scratch, 'build')
    if spec['src'] == 'writer':
        write_store(kind, spec['cfg'], spec['specs'], p)
        with open(p, 'rb') as f:
            data = f.read()
        os.unlink(p)
        return Source(kind, data)
    chunks = []
    head = None
    for part in spec['parts']:
        if 'specs' in part:
            write_store('vgf', {}, part['specs'], p)
            with open(p, 'rb') as f:
                data = f.read()
            os.unlink(p)
            rs = records(data)
            head = data[:rs[0][1]]
            chunks += [data[a:b] for a, b in rs[1:]]
        elif 'recs' in part:
            if head is None:
                head = vgfimage.header()
            chunks += [vgfimage.build(r)[0] for r in part['recs']]
        else:
            data = sample(part['name'])
            rs = records(data)
            if head is None:
                head = data[:rs[0][1]]
            rs = rs[1:] or rs
            chunks += [data[slice(*rs[k % len(rs)])] for k in part['pick']]
    if spec['head'] and head is not None:
        chunks.insert(0, head)
    return Source(kind, b''.join(chunks))


def open_(kind, path):
    import gempakio
    return {'grid': gempakio.GempakGrid, 'sounding': gempakio.GempakSounding,
            'surface': gempakio.GempakSurface, 'vgf': gempakio.VectorGraphicFile}[kind](path)


def rng_of(*parts):
    return Rng(derive(*parts))
