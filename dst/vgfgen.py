"""VGF elements: specs, construction through the encoder, and a reference model of each record.

A spec is JSON: {'cls', 'lon', 'lat', 'text'?, 'kw': {...}, 'form'}.  `model(spec)` is the dictionary
of attribute values the record must carry; `apply(m, attr, value)` is a successful attribute change.
`vgfread.walk` gives the same dictionaries from the bytes.
"""
import numpy as np

COLORS = [0, 1, 2, 7, 31, 32]
CLASSES = ['Line', 'Front', 'SpecialLine', 'SpecialText', 'SpecialSymbol', 'Marker']
TEXTS = ['H', 'LOW 998', 'line one\nline two', 'x' * 254, 'a b', '24$$SKC', 'Fz Lvl 080', '']
UNI = ['caf\u00e9', '5\u00b0C \u2603', '\u00e9' * 127]
SIZES = [10, 12, 14, 18, 24, 34]
FONTS = [1, 2, 3, 11, 12, 13, 21, 22, 23, 31, 32, 33]

# attribute -> (valid values, invalid values); None = anything the format can hold
HEADER_ATTRS = {'closed': ([0, 1], [2, -1]), 'filled': (list(range(9)), [9, -1]),
                'smooth': ([0, 1, 2], [3, -1]), 'group_type': ([0, 1, 5, 99], [-1]),
                'group_number': ([0, 1, 7, 100000], [-1]),
                'major_color': (COLORS, [33, -1]), 'minor_color': (COLORS, [33, -1])}
ATTRS = {
    'Line': {'width': (list(range(1, 11)), [0, 11]), 'line_type': ([0, 1, 5, 12, 37, 99], [-1, 100])},
    'SpecialLine': {'width': (list(range(1, 11)), [0, 11]), 'line_type': ([1, 3, 17, 26], [0, 27]),
                    'direction': ([1, -1], [0, 2]), 'size': ([0.1, 0.5, 1, 2.5, 10], [0, 10.1])},
    'Front': {'width': (list(range(1, 9)), [0, 10]),
              'front_code': ([20, 25, 28, 0, 5, 220, 425, 628, 720, 829, 940, 999], [-1, 1000]),
              'pip_size': ([40, 100, 500], [39, 501]), 'pip_stroke': ([1, 2, 9], [0, -1]),
              'pip_direction': ([1, -1], [0, 2])},
    'SpecialText': {'size': (SIZES, [11, 0]), 'text_color': (COLORS, [33, -1]),
                    'font': (FONTS, [4, 99]), 'width': ([1, 2, 5], None),
                    'align': ([-1, 0, 1], [2, -2]), 'rotation': ([0, 45, 90.5, 360], None),
                    'offset_x': ([0, 3, -2], None), 'offset_y': ([0, 3, -2], None),
                    'text_flag': ([1, 2], [0, 3]), 'text_type': (list(range(17)), [17, -1]),
                    'edgecolor': (COLORS, [33, -1]), 'facecolor': (COLORS, [33, -1]),
                    'turbulence_symbol': (list(range(9)), 'turb')},
    'SpecialSymbol': {'width': (list(range(1, 11)), [0, 11]), 'size': ([0.1, 1, 2.5, 10], [0, 10.1]),
                      'symbol_code': ([1, 12, 41], [0, 42, 'x']), 'offset_x': ([0, 3, -2], None),
                      'offset_y': ([0, 3, -2], None)},
    'Marker': {'width': (list(range(1, 11)), [0, 11]), 'size': ([0.1, 1, 2.5, 10], [0, 10.1]),
               'symbol_code': ([1, 12, 24], [0, 25, 'x']), 'offset_x': ([0, 3, -2], None),
               'offset_y': ([0, 3, -2], None)},
}
HEADER_SIZE = 40
SIZE = {'Line': 20, 'Front': 28, 'SpecialLine': 24, 'SpecialText': 60, 'SpecialSymbol': 36,
        'Marker': 36}


def gen_points(rng, n=None):
    n = n or rng.weighted([(2, 3), (3, 3), (5, 3), (12, 2), (60, 0.5), (500, 0.1)])
    if n > 40:
        s = rng.randrange(1000)
        return ([round(-100 + ((i * 37 + s) % 991) / 25, 2) for i in range(n)],
                [round(25 + ((i * 53 + s) % 997) / 40, 2) for i in range(n)])
    lon = [round(rng.uniform(-130, -60), 2) for _ in range(n)]
    lat = [round(rng.uniform(20, 60), 2) for _ in range(n)]
    return lon, lat


def gen_element(rng, ascii_only=False):
    """A valid element spec."""
    cls = rng.pick(CLASSES)
    e = {'cls': cls, 'form': rng.pick(['list', 'array', 'f4']), 'kw': {}}
    kw = e['kw']

    def opt(name, values, p=0.5):
        if rng.chance(p):
            kw[name] = rng.pick(values)
    if cls in ('Line', 'Front', 'SpecialLine'):
        e['lon'], e['lat'] = gen_points(rng)
    else:
        e['lon'], e['lat'] = round(rng.uniform(-130, -60), 2), round(rng.uniform(20, 60), 2)
    if cls in ('Line', 'SpecialLine'):
        kw['color'] = rng.pick(COLORS)
        kw['line_type'] = rng.pick(ATTRS[cls]['line_type'][0])
        kw['closed'] = rng.pick([0, 1])
        opt('filled', list(range(9)))
        opt('smooth', [0, 1, 2])
        opt('width', list(range(1, 11)))
    if cls == 'SpecialLine':
        opt('size', [0.1, 0.5, 1, 2.5, 10])
        opt('direction', [1, -1])
        if rng.chance(0.2):
            kw['line_type'], kw['stroke'] = rng.pick([24, 25]), rng.pick([25, 50, 75])
        elif kw['line_type'] not in (24, 25):
            opt('stroke', [1, 2, 60], 0.2)
    if cls == 'Front':
        kw['front_code'] = rng.pick(ATTRS['Front']['front_code'][0])
        kw['major_color'] = rng.pick(COLORS)
        opt('minor_color', COLORS)
        opt('smooth', [0, 1, 2])
        opt('pip_size', [40, 100, 500])
        opt('pip_stroke', [1, 2])
        opt('pip_direction', [1, -1])
    if cls == 'SpecialText':
        e['text'] = rng.pick(TEXTS if ascii_only or rng.chance(0.8) else UNI)
        kw['text_color'] = rng.pick(COLORS)
        opt('size', SIZES)
        opt('text_type', list(range(17)))
        opt('font', FONTS)
        opt('align', [-1, 0, 1])
        opt('edgecolor', COLORS)
        opt('facecolor', COLORS)
        opt('rotation', [0, 45, 90.5, 360])
        opt('offset_x', [0, 3, -2])
        opt('offset_y', [0, 3, -2])
        opt('turbulence_symbol', list(range(9)))
    if cls in ('SpecialSymbol', 'Marker'):
        kw['symbol_code'] = rng.pick(ATTRS[cls]['symbol_code'][0])
        kw['color'] = rng.pick(COLORS)
        opt('width', list(range(1, 11)))
        opt('size', [0.1, 1, 2.5, 10])
        opt('offset_x', [0, 3, -2])
        opt('offset_y', [0, 3, -2])
    return e


def gen_bad(rng, e):
    """Turn a valid spec into one the constructor must reject (returns the kind)."""
    kw = e['kw']
    opts = ['color']
    if isinstance(e['lon'], list):
        opts += ['ragged', 'short', 'many']
        if e['cls'] != 'Front':
            opts += ['width', 'closed', 'filled', 'line_type']
        else:
            opts += ['front_code', 'pip_size', 'pip_direction']
        opts += ['smooth']
    if e['cls'] == 'SpecialText':
        opts += ['longtext', 'notext', 'size', 'align', 'text_type']
    k = rng.pick(opts)
    if k == 'color':
        for n in ('color', 'major_color', 'text_color'):
            if n in kw:
                kw[n] = rng.pick([33, -1])
    elif k == 'ragged':
        e['lon'] = e['lon'] + [0.0]
    elif k == 'short':
        e['lon'], e['lat'] = e['lon'][:1], e['lat'][:1]
    elif k == 'many':
        e['lon'], e['lat'] = [1.0] * 501, [1.0] * 501
    elif k == 'longtext':
        e['text'] = 'y' * 255
    elif k == 'notext':
        e['text'] = 5
    elif k == 'line_type':
        kw[k] = rng.pick([-1, 100])
    else:
        kw[k] = rng.pick((ATTRS[e['cls']].get(k) or HEADER_ATTRS[k])[1])
    return k


def build_args(e):
    """(positional, keyword) arguments for the constructor; arrays are fresh."""
    lon, lat = e['lon'], e['lat']
    if isinstance(lon, list):
        if e['form'] == 'list':
            lon, lat = list(lon), list(lat)
        else:
            t = 'f4' if e['form'] == 'f4' else 'f8'
            lon, lat = np.array(lon, t), np.array(lat, t)
    pos = [lon, lat]
    if e['cls'] == 'SpecialText':
        pos.append(e['text'])
    return pos, dict(e['kw'])


def build(e, args=None):
    """Construct the element through the public API."""
    from gempakio.encode import vgf as v
    pos, kw = args or build_args(e)
    return getattr(v, e['cls'])(*pos, **kw)


DEFAULTS = {'Line': {'filled': 0, 'smooth': 0, 'width': 2},
            'SpecialLine': {'filled': 0, 'stroke': 1, 'width': 2, 'smooth': 0, 'size': 1,
                            'direction': 1},
            'Front': {'minor_color': None, 'smooth': 2, 'pip_size': 100, 'pip_stroke': 1,
                      'pip_direction': 1},
            'SpecialText': {'size': 12, 'text_type': 0, 'font': 22, 'align': 0, 'edgecolor': None,
                            'facecolor': None, 'rotation': 0, 'offset_x': 0, 'offset_y': 0,
                            'turbulence_symbol': 0},
            'SpecialSymbol': {'width': 1, 'size': 1, 'offset_x': 0, 'offset_y': 0},
            'Marker': {'width': 1, 'size': 1, 'offset_x': 0, 'offset_y': 0}}
TYPE = {'Line': (1, 3), 'Front': (2, 1), 'SpecialLine': (20, 3), 'SpecialText': (21, 5),
        'SpecialSymbol': (15, 4), 'Marker': (19, 4)}


def model(e):
    """Attribute values a freshly constructed element carries."""
    cls = e['cls']
    kw = {**DEFAULTS[cls], **e['kw']}
    lon, lat = e['lon'], e['lat']
    many = isinstance(lon, list)
    m = {'cls': cls, 'delete': 0, 'vg_type': TYPE[cls][0], 'vg_class': TYPE[cls][1], 'filled': 0,
         'closed': 0, 'smooth': 0, 'version': 0, 'group_type': 0, 'group_number': 0,
         'min_lat': min(lat) if many else lat, 'max_lat': max(lat) if many else lat,
         'min_lon': min(lon) if many else lon, 'max_lon': max(lon) if many else lon}
    m['lat'], m['lon'] = (list(lat), list(lon)) if many else (lat, lon)
    for k, v in kw.items():
        m[k] = v
    c = m.pop('color', None)
    if c is not None:
        m['major_color'] = m['minor_color'] = c
    if cls == 'Front':
        if m['minor_color'] is None:
            m['minor_color'] = m['major_color']
        m['width'] = int(f"{m['front_code']:03d}"[1])
        m['label'] = 'SPC'
    elif cls == 'Line':
        m['line_type_hardware'] = m['line_width_hardware'] = 0
    elif cls == 'SpecialLine':
        if m['line_type'] not in (24, 25):
            m['stroke'] = 1
    elif cls == 'SpecialText':
        m['major_color'] = m['minor_color'] = m['text_color']
        for k in ('edgecolor', 'facecolor'):
            if m[k] is None:
                m[k] = m['text_color']
        m['text'] = e['text']
        m['text_flag'], m['width'] = 2, 1
    else:
        m['number_symbols'] = 1
        m['symbol_type'] = 0
    return m


def settable(m):
    return {**HEADER_ATTRS, **ATTRS[m['cls']]}


def gen_change(rng, m):
    """(attribute, value, valid) for an element with this model."""
    table = settable(m)
    attr = rng.pick(sorted(table))
    good, bad = table[attr]
    if attr == 'turbulence_symbol':
        if m['text_type'] in (7, 9):
            bad = [9, -1]
        elif m['text_type'] == 12:
            good, bad = list(range(11)), [11, -1]
        else:
            bad = None
    if attr == 'font' and m['text_flag'] != 2:
        bad = None
    if attr == 'line_type' and m['cls'] == 'SpecialLine':
        good = [v for v in good]
    if bad and rng.chance(0.35):
        return attr, rng.pick(bad), False
    return attr, rng.pick(good), True


def apply(m, attr, value):
    """Effect of a successful assignment."""
    m[attr] = value
    if m['cls'] == 'Front':
        code = f"{m['front_code']:03d}"
        if attr == 'width':
            m['front_code'] = int(code[0] + str(value) + code[2])
        elif attr == 'front_code':
            m['width'] = int(code[1])
    if attr == 'text_type':
        m['turbulence_symbol'] = 0


def flip(m):
    k = 'pip_direction' if m['cls'] == 'Front' else 'direction'
    m[k] = -m[k]


def record_size(m):
    n = HEADER_SIZE + SIZE[m['cls']]
    if isinstance(m['lon'], list):
        n += 8 * len(m['lon'])
    if m['cls'] == 'SpecialText':
        n += len(m['text'].encode()) + 1
    return n
