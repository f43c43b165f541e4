"""VGF verification: stored bytes and decoded elements against the reference models."""
import math

import numpy as np

from dst import vgfgen, vgfread
from dst.core import Violation
from dst.dmread import BadFile

F32 = {'min_lat', 'max_lat', 'min_lon', 'max_lon', 'rotation', 'symbol_code'}


def same(a, b):
    return np.float32(a) == np.float32(b)


def diff_record(got, m):
    """Differences between an independently read record and a model."""
    out = []
    for k, want in m.items():
        have = got.get(k)
        if m['cls'] == 'SpecialText' and k == 'size':
            want = want / 14
        if k in ('lat', 'lon') and isinstance(want, list):
            ok = len(have) == len(want) and all(map(same, have, want))
        elif isinstance(want, str):
            ok = have == want
        else:
            ok = have is not None and same(have, want)
        if not ok:
            out.append((k, have, want))
    if got['record_size'] != vgfgen.record_size(m):
        out.append(('record_size', got['record_size'], vgfgen.record_size(m)))
    return out


def check_bytes(data, models):
    """The file is the header followed by exactly the models, in order."""
    try:
        got = vgfread.walk(data)
    except BadFile as e:
        raise Violation('malformed-file', f'{e} ({len(data)} bytes, {len(models)} elements)') from e
    if len(got) != len(models):
        raise Violation('element-count', f'{len(got)} in the file for {len(models)}')
    for i, (g, m) in enumerate(zip(got, models, strict=True)):
        if g['cls'] != m['cls']:
            raise Violation('element-order', f"element {i} is {g['cls']}, expected {m['cls']}")
        d = diff_record(g, m)
        if d:
            raise Violation('wrong-attribute', f"element {i} ({m['cls']}): {d[:4]}")
    want = 424 + sum(vgfgen.record_size(m) for m in models)
    if len(data) != want:
        raise Violation('file-length', f'{len(data)} for {want}')


NAMES = {'Line': 'LineElement', 'Front': 'FrontElement', 'SpecialLine': 'SpecialLineElement',
         'SpecialText': 'SpecialTextElement', 'SpecialSymbol': 'SymbolElement',
         'Marker': 'SymbolElement'}
HEAD = ['delete', 'filled', 'closed', 'smooth', 'version', 'group_type', 'group_number',
        'major_color', 'minor_color']
PLAIN = {'Line': ['line_type', 'width', 'line_type_hardware', 'line_width_hardware'],
         'Front': ['front_code', 'pip_size', 'pip_stroke', 'pip_direction', 'width'],
         'SpecialLine': ['line_type', 'stroke', 'direction', 'width'],
         'SpecialText': ['text_type', 'turbulence_symbol', 'font', 'text_flag', 'width',
                         'text_color', 'align', 'offset_x', 'offset_y'],
         'SpecialSymbol': ['number_symbols', 'symbol_type', 'symbol_code', 'width', 'offset_x',
                           'offset_y'],
         'Marker': ['number_symbols', 'symbol_type', 'symbol_code', 'width', 'offset_x',
                    'offset_y']}


def near(a, b):
    return abs(float(a) - float(b)) <= 0.0051 + 2e-5 * 10


def check_decoded(path, models, ctx):
    from gempakio import VectorGraphicFile
    with ctx.observing('decoding the written VGF'):
        vg = VectorGraphicFile(path)
        els = vg.elements
        if len(els) != len(models):
            raise Violation('element-count', f'{len(els)} decoded for {len(models)}')
        groups = []
        for i, (e, m) in enumerate(zip(els, models, strict=True)):
            what = f"decoded element {i} ({m['cls']})"
            if type(e).__name__ != NAMES[m['cls']]:
                raise Violation('element-order', f'{what} is {type(e).__name__}')
            if int(e.vg_type) != m['vg_type'] or int(e.vg_class) != m['vg_class']:
                raise Violation('element-order', f'{what}: {e.vg_type}/{e.vg_class}')
            for k in HEAD + PLAIN[m['cls']]:
                if getattr(e, k) != m[k]:
                    raise Violation('wrong-attribute', f'{what}: {k} {getattr(e, k)!r} for {m[k]!r}')
            for k in ('min_lat', 'max_lat', 'min_lon', 'max_lon'):
                if not near(getattr(e, k), m[k]):
                    raise Violation('wrong-attribute', f'{what}: {k} {getattr(e, k)} for {m[k]}')
            lat, lon = m['lat'], m['lon']
            if isinstance(lat, list):
                lat, lon = list(lat), list(lon)
                if e.number_points != len(lat):
                    raise Violation('wrong-attribute', f'{what}: {e.number_points} points')
                if m['closed'] and len(lat) > 2 and m['cls'] != 'Front':
                    lat.append(lat[0])
                    lon.append(lon[0])
                if m.get('direction') == -1:
                    lat.reverse()
                    lon.reverse()
                if len(e.lat) != len(lat) or len(e.lon) != len(lon):
                    raise Violation('wrong-attribute', f'{what}: {len(e.lat)} coordinates for '
                                    f'{len(lat)}')
                if not (all(map(near, e.lat, lat)) and all(map(near, e.lon, lon))):
                    raise Violation('wrong-attribute', f'{what}: coordinates differ')
            elif not (near(e.lat, lat) and near(e.lon, lon)):
                raise Violation('wrong-attribute', f'{what}: position {e.lat, e.lon} for {lat, lon}')
            if m['cls'] == 'SpecialLine' and abs(e.size - m['size']) > 0.051:
                raise Violation('wrong-attribute', f"{what}: size {e.size} for {m['size']}")
            if m['cls'] in ('SpecialSymbol', 'Marker') and abs(e.size - m['size']) > 0.051:
                raise Violation('wrong-attribute', f"{what}: size {e.size} for {m['size']}")
            if m['cls'] == 'SpecialText':
                if abs(e.size - m['size'] / 14) > 6e-4:
                    raise Violation('wrong-attribute', f"{what}: size {e.size}")
                if abs(e.rotation - m['rotation']) > 0.051:
                    raise Violation('wrong-attribute', f"{what}: rotation {e.rotation}")
                if (e.line_color, e.fill_color) != (m['edgecolor'], m['facecolor']):
                    raise Violation('wrong-attribute', f'{what}: colours')
                if e.text != m['text'].replace('$$', '\n').strip():
                    raise Violation('wrong-attribute', f"{what}: text {e.text!r} for {m['text']!r}")
            if m['cls'] == 'Front' and e.label not in ('SPC', ):
                raise Violation('wrong-attribute', f'{what}: label {e.label!r}')
            if m['group_type'] and m['group_type'] not in groups:
                groups.append(m['group_type'])
        if list(vg.groups) != groups:
            raise Violation('groups', f'{vg.groups} for {groups}')


class VgfStore:
    """VGF writer behind the interface of the other stores (elements instead of entries)."""

    name = 'vgf'
    suffix = '.vgf'

    @staticmethod
    def gen_cfg(rng, small=False):
        return {}

    @staticmethod
    def fix_cfg(rng, cfg):
        return cfg

    @staticmethod
    def gen_spec(rng, cfg, pool=None):
        return vgfgen.gen_element(rng)

    @staticmethod
    def bulk(op, cfg):
        from dst.core import Rng
        rng = Rng(op['seed'])
        for _ in range(op['t'] * op['s']):
            yield vgfgen.gen_element(rng)

    @staticmethod
    def make(cfg):
        from gempakio.encode.vgf import VGFile
        return VGFile()

    @staticmethod
    def add(obj, spec, cfg, bad=None, args=None):
        e = vgfgen.build(spec, args)
        obj.add_element(e)
        return e

    @staticmethod
    def args(spec, cfg):
        return vgfgen.build_args(spec)

    @staticmethod
    def tune(obj, tune):
        pass

    @staticmethod
    def gen_tune(rng):
        return {}

    @staticmethod
    def write(obj, path):
        return obj.to_vgf(path)


__all__ = ['VgfStore', 'check_bytes', 'check_decoded', 'math']
