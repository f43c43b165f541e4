"""Vector graphic records of every class and version, as the programs of N-AWIPS store them.

Built from the published structures (vgstruct.h) without any code of the library.  A record is drawn
from a seed; `build` gives its bytes and the attributes it stands for.
"""
import struct

from dst.core import Rng, derive

TEXT = 'ABCDEFGHKLMNPRSTUVWXYZ0123456789 .,-/|=+'
LINE_STYLES = ['dotted', 'solid', 'short_dashed', 'medium_dashed', 'long_dash_short_dash',
               'long_dash', 'long_dash_three_short_dash', 'long_dash_dot', 'long_dash_three_dot',
               'extra_long_dash_two_dot']
FRONT_TYPES = ['stationary', 'stationary_aloft', 'warm', 'warm_aloft', 'cold', 'cold_aloft',
               'occluded', 'dryline', 'intertropical', 'convergence']
FRONT_INT = ['unspecified', 'weak_decreasing', 'weak', 'weak_increasing', 'moderate_decreasing',
             'moderate', 'moderate_increasing', 'strong_decreasing', 'strong', 'strong_increasing']
FRONT_CHAR = ['unspecified', 'frontal_decreasing', 'little_change', 'area_increasing',
              'intertropical', 'forming_suspected', 'quasi_stationary', 'with_waves', 'diffuse',
              'position_doubtful']
SPECIAL_LINES = {1: 'ball_chain', 2: 'zigzag', 3: 'scallop', 4: 'pointed_arrow', 6: 'filled_arrow',
                 9: 'filled_circles', 12: 'line_x_line', 18: 'line_caret_line2', 19: 'sine_curve',
                 22: 'streamline', 23: 'double_line', 26: 'z_line'}
MARKERS = {1: 'plus_sign', 4: 'box', 6: 'diamond', 12: 'asterisk', 15: 'dot', 17: 'filled_octagon',
           21: 'filled_star', 24: 'hurricane'}
LISTS = {1: 'county', 2: 'zone', 3: 'wfo', 4: 'state', 5: 'marine_county'}


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


class Rec:
    """Bytes and attributes of one structure."""

    def __init__(self, rng):
        self.rng, self.out, self.at = rng, [], {}

    def i(self, name, lo=-30000, hi=30000, v=None, e='>'):
        v = self.rng.randrange(lo, hi) if v is None else v
        self.out.append(struct.pack(e + 'i', v))
        if name:
            self.at[name] = v
        return v

    def f(self, name, nd=2, lo=-180, hi=180, v=None, e='>'):
        v = self.rng.randrange(lo * 10 ** nd, hi * 10 ** nd) / 10 ** nd if v is None else v
        self.out.append(struct.pack(e + 'f', v))
        if name:
            self.at[name] = v
        return v

    def chars(self, n, v=None):
        """A C string in an array of n characters; what follows the terminator is left over."""
        r = self.rng
        if v is None:
            k = r.pick([0, 1, n - 1, r.randrange(n)])
            v = ''.join(r.pick(TEXT) for _ in range(min(k, 40)))
            if k > 40:
                v += '*' * (k - 40)
            v = v.strip()
        raw = v.encode() + b'\0'
        rest = n - len(raw)
        raw += bytes(r.randrange(256) for _ in range(min(rest, 6))) if r.chance(0.3) else b''
        self.out.append(raw + bytes(n - len(raw)))
        return v

    def s(self, name, n, v=None):
        self.at[name] = self.chars(n, v)

    def pad(self, n):
        self.out.append(bytes(n))

    def ints(self, names, lo=-30000, hi=30000):
        for n in names.split():
            self.i(n, lo, hi)

    def floats(self, names, nd=2):
        for n in names.split():
            self.f(n, nd)

    def array(self, n, code='f', nd=2, blank=0, lo=-180, hi=180):
        if code == 'f':
            v = [self.rng.randrange(lo * 10 ** nd, hi * 10 ** nd) / 10 ** nd for _ in range(n)]
        else:
            v = [self.rng.randrange(-30000, 99999) for _ in range(n)]
        self.out.append(struct.pack(f'>{n}{code}', *v) + bytes(4 * blank))
        return v

    def latlon(self, n, blank=0, names=('lat', 'lon')):
        """n latitudes, n longitudes and room for as many as `blank` further points."""
        self.at[names[0]], self.at[names[1]] = self.array(n, lo=-90, hi=90), self.array(n)
        self.pad(8 * blank)

    def points(self, hi=9, full=500):
        """How many points: usually a few, now and then up to the capacity of the record."""
        r = self.rng
        return r.weighted([(r.randrange(1, hi), 6), (1, 1), (2, 1), (3, 1),
                           (full, 0.05), (r.randrange(1, full), 0.05)])

    def count(self, hi, full):
        """How many items, perhaps none."""
        r = self.rng
        return r.weighted([(r.randrange(0, hi), 9), (full, 0.05), (r.randrange(full), 0.05)])


def spt(r, names, text=True):
    """The special text structure: names of its attributes, '-' for those not shown."""
    n = iter(names.split())
    nm = lambda: (lambda x: None if x == '-' else x)(next(n))  # noqa: E731
    r.f(nm(), 1)
    r.f(nm(), 3, 0, 9)
    for _ in range(9):
        r.i(nm())
    r.f(nm())
    r.f(nm())
    r.i(nm())
    r.i(nm())
    if text:
        r.s('text', 255)
        r.pad(1)


# each builder: (vg_class, vg_type, version) and fields; `h` is the header drawn so far
def line(r, h):
    n = r.points()
    r.at['number_points'] = r.i(None, v=n)
    code = r.i('line_type', v=r.rng.randrange(1, 100))
    r.at['line_modifier'], r.at['line_style'] = code // 10, LINE_STYLES[code % 10]
    r.ints('line_type_hardware width line_width_hardware')
    r.latlon(n)
    if h['closed'] and n > 2:
        close(r)
    return 3, 1, 0


def close(r):
    for k in ('lat', 'lon'):
        r.at[k] = r.at[k] + r.at[k][:1]


def special_line(r, h):
    n = r.points()
    r.i('number_points', v=n)
    code = r.i('line_type', v=r.rng.pick(sorted(SPECIAL_LINES)))
    r.at['line_style'] = SPECIAL_LINES[code]
    r.i('stroke')
    d = r.i('direction', v=r.rng.pick([-1, 1]))
    r.f('size', 1)
    r.i('width')
    r.latlon(n)
    if h['closed'] and n > 2:
        close(r)
    if d == -1:
        for k in ('lat', 'lon'):
            r.at[k] = r.at[k][::-1]
    return 3, 20, 0


def front(r, h):
    n = r.points()
    r.i('number_points', v=n)
    c = r.i('front_code', v=r.rng.randrange(0, 1000))
    r.at['front_type'] = FRONT_TYPES[c // 100]
    r.at['front_intensity'] = FRONT_INT[c // 10 % 10]
    r.at['front_character'] = FRONT_CHAR[c % 10]
    r.ints('pip_size pip_stroke pip_direction width')
    r.s('label', 4)
    r.latlon(n)
    return 1, 2, 0


def circle(r, h):
    r.i('number_points', v=2)
    code = r.i('line_type', v=r.rng.randrange(1, 100))
    r.at['line_modifier'], r.at['line_style'] = code // 10, LINE_STYLES[code % 10]
    r.ints('line_type_hardware width line_width_hardware')
    r.latlon(2)
    return 12, 4, 0


def symbol(r, h):
    r.i('number_symbols', v=1)
    r.i('width')
    r.f('size', 1)
    r.i('symbol_type')
    r.f('symbol_code', 0, 0, 200)
    r.f('lat')
    r.f('lon')
    r.ints('offset_x offset_y')
    return 4, r.rng.pick([5, 10, 11, 12, 13, 14, 15, 16, 19, 25]), 0


def wind(r, h):
    r.ints('number_wind width')
    r.f('size', 1)
    r.i('wind_type')
    r.f('head_size', 1)
    r.floats('speed direction lat lon')
    return 6, r.rng.pick([8, 9, 23, 24]), 0


def body_text(r):
    v = ''.join(r.rng.pick(TEXT) for _ in range(r.rng.randrange(0, 60))).strip()
    if r.rng.chance(0.4):
        v = '$$'.join([v, 'SECOND', ''.join(r.rng.pick(TEXT) for _ in range(5))])
    raw = v.encode() + b'\0'
    if r.rng.chance(0.3):
        raw += bytes(r.rng.randrange(256) for _ in range(r.rng.randrange(1, 8)))
    r.out.append(raw)
    r.at['text'] = v.replace('$$', '\n').strip()


def text(r, h):
    r.f('rotation', 1)
    r.f('size', 3, 0, 9)
    r.ints('font text_flag width align')
    r.f('lat')
    r.f('lon')
    r.ints('offset_x offset_y')
    body_text(r)
    return 5, r.rng.pick([17, 18]), 0


def special_text(r, h):
    spt(r, 'rotation size text_type turbulence_symbol font text_flag width text_color line_color '
           'fill_color align lat lon offset_x offset_y', text=False)
    body_text(r)
    return 5, 21, 0


def lists(r, h):
    n = r.count(6, 500)
    r.at['list_type_name'] = LISTS[r.i('list_type', v=r.rng.pick(sorted(LISTS)))]
    r.at['marker_name'] = MARKERS[r.i('marker_type', v=r.rng.pick(sorted(MARKERS)))]
    r.f('marker_size', 1)
    r.i('marker_width')
    r.i('number_items', v=n)
    r.at['list_items'] = [r.chars(9, ''.join(r.rng.pick(TEXT[:30]) for _ in range(
        r.rng.randrange(1, 9)))) for _ in range(n)]
    r.pad(9 * (500 - n))
    r.at['lat'] = r.array(n, blank=500 - n, lo=-90, hi=90)
    r.at['lon'] = r.array(n, blank=500 - n)
    return 14, 34, 0


def track(r, h):
    v = r.rng.randrange(3)      # there is no version in the record
    n = r.points(12, 50)
    r.i('track_type')
    r.i('total_points', v=n)
    r.ints('initial_points initial_line_type extrapolated_line_type initial_mark_type '
           'extrapolated_mark_type line_width')
    r.f('speed')
    r.f('direction')
    r.i('increment')
    if v > 0:
        r.i('skip', -3, 5)
    else:
        r.at['skip'] = 0
    if v > 1:
        r.i('font', 0, 34)
        r.i('font_flag')
        r.f('font_size', 1, 0, 20, e='<')
    else:
        r.at.update(font=1, font_flag=2, font_size=1.0)
    r.at['times'] = [r.chars(18, f'{r.rng.randrange(10**6):06}/{r.rng.randrange(10**4):04}')
                     for _ in range(n)]
    r.pad(18 * (50 - n))
    r.latlon(n, 50 - n)
    return 10, 26, 0


def sigmet(r, h):
    v = h['version'] = r.rng.randrange(2)
    n = r.points(full=100)
    r.i('subtype')
    r.i('number_points', v=n)
    r.ints('line_type line_width side_of_line')
    r.s('area', 8)
    r.s('flight_info_region', 32)
    r.i('status')
    r.f('distance', 1)
    r.s('message_id', 12)
    r.i('sequence_number')
    r.s('start_time', 20)
    r.s('end_time', 20)
    r.s('remarks', 80)
    r.i('sonic')
    r.s('phenomena', 32)
    if v:
        r.s('phenomena2', 32)
        r.s('phenomena_name', 36)
        r.s('phenomena_lat', 8)
        r.s('phenomena_lon', 8)
        r.ints('pressure max_wind')
        r.s('free_text', 256)
    else:
        r.at.update(phenomena2='', phenomena_name='', phenomena_lat='', phenomena_lon='',
                    pressure=-9999, max_wind=-9999, free_text='')
    r.s('trend', 8)
    r.s('movement', 8)
    r.i('type_indicator')
    r.s('type_time', 20)
    r.ints('flight_level speed')
    r.s('direction', 4)
    r.s('tops', 80)
    r.s('forecaster', 16)
    r.latlon(n, r.rng.pick([0, 100 - n]))
    return 11, r.rng.pick([27, 28, 29, 30, 31]), v


def ccf(r, h):
    n = r.points(full=100)
    r.i('subtype')
    r.i('number_points', v=n)
    r.ints('coverage storm_tops probability growth')
    r.floats('speed direction')
    for k in 'text_lat text_lon arrow_lat arrow_lon'.split():
        r.f(k, e='<')           # this part is stored as the machine (x86) had it
    for k in 'high_fill med_fill low_fill line_type'.split():
        r.i(k, e='<')
    r.f('arrow_size', 1, e='<')
    r.f('rotation', 1)
    r.f('text_size', 3, 0, 9)
    r.ints('text_type turbulence_symbol')
    for k in 'font text_flag width'.split():
        r.i(k, 0, 128, e='<')
    r.i(None)
    r.i(None)
    r.ints('fill_color align')
    r.f(None)
    r.f(None)
    r.ints('offset_x offset_y')
    r.s('text', 255)
    r.pad(1)
    r.s('text_layout', 256)
    r.latlon(n, 100 - n)
    return 11, 32, 0


def volcano(r, h):
    r.s('name', 64)
    r.f('code', 1)
    r.f('size', 1)
    r.i('width')
    for k, n in [('number', 17), ('location', 17), ('area', 33), ('origin_station', 17),
                 ('vaac', 33), ('wmo_id', 8), ('header_number', 9), ('elevation', 9), ('year', 9),
                 ('advisory_number', 9), ('correction', 4), ('info_source', 256),
                 ('additional_source', 256), ('aviation_color', 16), ('details', 256),
                 ('obs_date', 16), ('obs_time', 16), ('obs_ash', 1024), ('forecast_6hr', 1024),
                 ('forecast_12hr', 1024), ('forecast_18hr', 1024), ('remarks', 512),
                 ('next_advisory', 128), ('forecaster', 64)]:
        r.s(k, n)
    r.pad(3)
    r.f('lat')
    r.f('lon')
    r.ints('offset_x offset_y')
    return 11, 35, 0


def ash(r, h):
    n = r.points(full=50)
    r.i('subtype')
    r.i('number_points', v=n)
    r.f('distance')
    r.ints('forecast_hour line_type line_width side_of_line')
    r.f('speed')
    r.s('speeds', 16)
    r.s('direction', 4)
    r.s('flight_level1', 16)
    r.s('flight_level2', 16)
    spt(r, 'rotation text_size text_type turbulence_symbol font text_flag width text_color '
           'line_color fill_color align text_lat text_lon offset_x offset_y')
    r.latlon(n, r.rng.pick([0, 50 - n]))
    return 11, 36, 0


def gfa(r, h):
    b, n = r.rng.randrange(1, 3), r.points()
    r.i('number_blocks', v=b)
    r.i('number_points', v=n)
    r.at['blocks'] = [r.chars(1024) for _ in range(b)]
    r.latlon(n)
    return 15, 38, 0


def sub(r, fill):
    """Attributes of a nested structure."""
    q = Rec(r.rng)
    fill(q)
    r.out += q.out
    return q.at


def jet(r, h):
    n = r.points()

    def jline(q):
        q.i('line_color')
        q.i('number_points', v=n)
        q.ints('line_type stroke direction')
        q.f('size', 1)
        q.i('width')
        q.latlon(n, 500 - n)

    def barb(q, text=True):
        q.ints('wind_color number_wind width')
        q.f('size', 1)
        q.i('wind_type')
        q.f('head_size', 1)
        q.floats('speed direction lat lon')
        if text:
            q.i('flight_level_color')
            spt(q, 'text_rotation text_size text_type turbulence_symbol font text_flag text_width '
                   'text_color line_color fill_color align text_lat text_lon offset_x offset_y')

    r.at['line_attribute'] = sub(r, jline)
    nb = r.i('number_barbs', v=r.count(4, 50))
    r.at['barb_attributes'] = [sub(r, barb) for _ in range(nb)]
    r.pad((50 - nb) * 360)
    nh = r.i('number_hashes', v=r.count(4, 50))
    r.at['hash_attributes'] = [sub(r, lambda q: barb(q, False)) for _ in range(nh)]
    r.pad((50 - nh) * 40)
    return 15, 37, 0


def tca(r, h):
    q = r.rng
    a = r.at

    def word():
        return ''.join(q.pick(TEXT[:30]) for _ in range(q.randrange(1, 9)))

    parts = []

    def put(tag, v):
        parts.append(f'<tca_{tag}>{v}')

    for tag, name in [('stormNum', 'storm_number'), ('issueStatus', 'issue_status'),
                      ('basin', 'basin'), ('advisoryNum', 'advisory_number'),
                      ('stormName', 'storm_name'), ('stormType', 'storm_type'),
                      ('validTime', 'valid_time'), ('timezone', 'timezone'),
                      ('textLat', 'text_lat'), ('textLon', 'text_lon'), ('textFont', 'text_font'),
                      ('textSize', 'text_size'), ('textWidth', 'text_width')]:
        if tag in ('issueStatus', 'stormName', 'timezone'):
            v = word() if q.chance(0.85) else ''
        elif tag == 'advisoryNum' and q.chance(0.3):
            v = f'{q.randrange(1, 99)}{q.pick("AB")}'       # intermediate advisory
        elif tag == 'validTime':
            v = f'{q.randrange(10**6):06}/{q.randrange(10**4):04}'
        elif tag in ('textLat', 'textLon', 'textSize'):
            v = q.randrange(-9000, 9000) / 100
        else:
            v = q.randrange(0, 4 if tag == 'basin' else 5)
        a[name] = v
        put(tag, f'{v:.2f}' if isinstance(v, float) else v)
    nw = a['number_ww'] = q.randrange(0, 4)
    put('wwNum', nw)
    a['ww'] = []
    for k in range(nw):
        w = [q.randrange(2), q.randrange(2), q.randrange(3)]
        bp = [[q.randrange(-9000, 9000) / 100, q.randrange(-18000, 18000) / 100, word()]
              for _ in range(q.randrange(1, 4))]
        put(f'tcawwStr_{k}', '|'.join(map(str, w)))
        put(f'numBreakPts_{k}', len(bp))
        put(f'breakPts_{k}', '|'.join(f'{x:.2f}|{y:.2f}|{z}' for x, y, z in bp))
        a['ww'].append({'severity': w[0], 'advisory_type': w[1], 'special_geography': w[2],
                        'number_breaks': len(bp), 'break_points': bp})
    r.out.append(''.join(parts).encode() + b'\0')
    return 15, 39, 0


def tc_info(r):
    import datetime
    q = r.rng
    r.s('storm_number', 5)
    r.s('issue_status', 2)
    r.at['basin'] = q.randrange(4)
    r.chars(5, str(r.at['basin']))
    r.s('advisory_number', 5)
    r.s('storm_name', 128)
    r.at['storm_type'] = q.randrange(5)
    r.chars(5, str(r.at['storm_type']))
    t = datetime.datetime(2000, 1, 1) + datetime.timedelta(minutes=q.randrange(0, 20_000_000))
    r.at['valid_time'] = t.replace(tzinfo=datetime.timezone.utc)
    r.chars(21, t.strftime('%y%m%d/%H%M'))
    r.s('timezone', 4)
    r.s('forecast_period', 5)


def tc_error(r, h):
    n = r.points()
    tc_info(r)
    r.ints('line_color line_type fill_color fill_type')
    r.i('number_points', v=n)
    r.latlon(n)
    return 15, 40, 0


def tc_track(r, h):
    n = r.count(4, 60)
    tc_info(r)
    r.ints('line_color line_type')
    r.i('number_points', v=n)

    def point(q):
        q.f('lat')
        q.f('lon')
        for k in ('advisory_date tau max_wind wind_gust minimum_pressure development_level '
                  'development_label direction speed date_label storm_source').split():
            q.s(k, 50)
        q.pad(2)

    r.at['track_points'] = [sub(r, point) for _ in range(n)]
    return 15, 41, 0


def tc_break(r, h):
    n = r.count(4, 60)
    tc_info(r)
    r.ints('line_color line_width')
    r.i('ww_level', 0, 4)
    r.i('number_points', v=n)

    def point(q):
        q.f('lat')
        q.f('lon')
        q.s('name', 256)

    r.at['breakpoints'] = [sub(r, point) for _ in range(n)]
    return 15, 42, 0


def sgwx(r, h):
    n = r.points(full=256)
    r.i('subtype')
    r.i('number_points', v=n)
    r.floats('text_lat text_lon arrow_lat arrow_lon')
    r.ints('line_element line_type line_width')
    r.f('arrow_size', 1)
    r.ints('special_symbol weather_symbol')
    spt(r, 'text_rotation text_size text_type turbulence_symbol font text_flag text_width '
           'text_color line_color fill_color text_align - - offset_x offset_y')
    r.latlon(n, 256 - n, names=('area_lat', 'area_lon'))
    return 15, 43, 0


def watch(r, h):
    v = h['version'] = r.rng.randrange(7)
    n = r.points()
    a = r.at
    a.update(marker_type=1, marker_size=1.0, marker_width=1, anchor0_station='',
             anchor0_lat=-9999.0, anchor0_lon=-9999.0, anchor0_distance=-9999.0,
             anchor0_direction='', anchor1_station='', anchor1_lat=-9999.0, anchor1_lon=-9999.0,
             anchor1_distance=-9999.0, anchor1_direction='', status=0, issue_time=0, expire_time=0,
             severity=0, timezone='', max_hail='', max_wind='', max_tops='',
             mean_storm_direction='', mean_storm_speed='', states='', adjacent_areas='',
             replacing='', forecaster='', issue_flag=0, wsm_issue_time='', wsm_expire_time='',
             wsm_reference_direction='', wsm_recent_from_line='', wsm_md_number='',
             wsm_forecaster='', number_counties=0, plot_counties=1, county_fips=[],
             county_status=[], county_lat=[], county_lon=[], marker_name='plus_sign')
    r.i('number_points', v=n)
    r.i('style')
    if v == 0:
        r.ints('watch_type number')
        r.s('filename', 128)
        r.i('shape')
    else:
        r.i('shape')
        if v == 6:
            a['marker_name'] = MARKERS[r.i('marker_type', v=r.rng.pick(sorted(MARKERS)))]
            r.f('marker_size', 1)
            r.i('marker_width')
        if v >= 3:
            for k in '01':
                r.s(f'anchor{k}_station', 8)
                r.f(f'anchor{k}_lat')
                r.f(f'anchor{k}_lon')
                r.i(f'anchor{k}_distance')
                r.s(f'anchor{k}_direction', 4)
        r.ints('status number')
        r.s('issue_time', 20)
        r.s('expire_time', 20)
        r.ints('watch_type severity')
        for k, m in [('timezone', 4), ('max_hail', 8), ('max_wind', 8), ('max_tops', 8),
                     ('mean_storm_direction', 8), ('mean_storm_speed', 8),
                     ('states', 80 if v >= 4 else 20), ('adjacent_areas', 80 if v >= 4 else 20),
                     ('replacing', 24), ('forecaster', 64), ('filename', 128)]:
            r.s(k, m)
        r.i('issue_flag')
        for k, m in [('wsm_issue_time', 20), ('wsm_expire_time', 20),
                     ('wsm_reference_direction', 32), ('wsm_recent_from_line', 128),
                     ('wsm_md_number', 8), ('wsm_forecaster', 64)]:
            r.s(k, m)
        if v >= 2:
            c = r.i('number_counties', v=r.rng.weighted([(0, 3), (1, 3), (3, 3), (r.rng.randrange(20), 3),
                                              (400 if v >= 5 else 200, 0.2)]))
            r.i('plot_counties')
            room = (400 if v >= 5 else 200) - c
            if v in (2, 3, 4):
                a['county_status'] = r.array(c, 'i', blank=room)
            if v >= 4:
                a['county_fips'] = r.array(c, 'i', blank=room)
            a['county_lat'] = r.array(c, lo=-90, hi=90)
            a['county_lon'] = r.array(c, blank=2 * room)
    r.latlon(n)
    if n > 2:
        close(r)
    return 2, 6, v


def unknown(r, h):
    """Classes and types nobody decodes."""
    c = r.rng.pick([(12, 1), (3, 2), (5, 22), (11, 33), (15, 1), (7, 1), (8, 25), (9, 33), (13, 19),
                    (16, 7), (0, 1)])
    r.pad(4 * r.rng.randrange(0, 20))
    r.at = None
    return (*c, 0)


KINDS = {f.__name__: f for f in (
    line, special_line, front, circle, symbol, wind, text, special_text, lists, track, sigmet, ccf,
    volcano, ash, gfa, jet, tca, tc_error, tc_track, tc_break, sgwx, watch, unknown)}
NAMES = {'line': 'LineElement', 'special_line': 'SpecialLineElement', 'front': 'FrontElement',
         'circle': 'CircleElement', 'symbol': 'SymbolElement', 'wind': 'WindElement',
         'text': 'TextElement', 'special_text': 'SpecialTextElement', 'lists': 'ListElement',
         'track': 'TrackElement', 'sigmet': 'SigmetElement',
         'ccf': 'CollaborativeConvectiveForecastElement', 'volcano': 'VolcanoElement',
         'ash': 'AshCloudElement', 'gfa': 'GraphicalForecastAreaElement', 'jet': 'JetElement',
         'tca': 'TropicalCycloneAdvisoryElement', 'tc_error': 'TropicalCycloneErrorElement',
         'tc_track': 'TropicalCycloneTrackElement',
         'tc_break': 'TropicalCycloneBreakPointElement', 'sgwx': 'SignificantWeatherElement',
         'watch': 'WatchBoxElement'}
BIG = ('lists', 'jet', 'volcano', 'watch', 'gfa', 'ccf', 'sgwx')


def gen(rng):
    """A drawn record: kind, seed, group."""
    kind = rng.pick(sorted(KINDS)) if rng.chance(0.6) else rng.pick(
        [k for k in sorted(KINDS) if k not in BIG])
    return {'k': kind, 's': rng.randrange(2**31),
            'g': [rng.pick([0, 0, 1, 8, 20, 255]), rng.pick([1, 2, 3, -5, 70000])]}


def build(spec):
    """(bytes, attributes or None) of a record."""
    rng = Rng(derive('vgf', spec['s']))
    h = {'delete': int(rng.chance(0.1)), 'filled': rng.pick([0, 1, 2, 7, -1]),
         'closed': int(rng.chance(0.4)), 'smooth': rng.pick([0, 1, 2]), 'version': 0,
         'group_type': spec['g'][0], 'group_number': spec['g'][1],
         'major_color': rng.randrange(0, 33), 'minor_color': rng.randrange(0, 33)}
    r = Rec(rng)
    h['vg_class'], h['vg_type'], h['version'] = KINDS[spec['k']](r, h)
    body = b''.join(r.out)
    h['record_size'] = 40 + len(body)
    if rng.chance(0.2):
        b = [0.0] * 4
    else:
        b = [rng.randrange(-9000, 9000) / 100, rng.randrange(-18000, 18000) / 100]
        b += [b[0] + rng.randrange(1, 500) / 100, b[1] + rng.randrange(1, 500) / 100]
    h.update(zip(('min_lat', 'min_lon', 'max_lat', 'max_lon'), b, strict=True))
    head = struct.pack('>3Bb4B4i4f', h['delete'], h['vg_type'], h['vg_class'], h['filled'],
                       h['closed'], h['smooth'], h['version'], h['group_type'],
                       h['group_number'], h['major_color'], h['minor_color'], h['record_size'], *b)
    if r.at is None:
        return head + body, None
    return head + body, {'': NAMES[spec['k']], **h, **r.at}


def header(notes='drawn'):
    """A file header record."""
    body = b'Version 5.9'.ljust(128, b'\0') + notes.encode().ljust(256, b'\0')
    return struct.pack('>3Bb4B4i4f', 0, 22, 0, 0, 0, 0, 0, 0, 0, 0, 0, 40 + len(body),
                       0, 0, 0, 0) + body


def differs(el, want, skip=()):
    """First attribute of an element that is not as wanted (None: all are)."""
    if type(el).__name__ != want['']:
        return f'is a {type(el).__name__}, not a {want[""]}'
    return attrs_differ(vars(el), want, skip)


def attrs_differ(got, want, skip=()):
    for k, v in want.items():
        if k and k not in skip:
            if k not in got:
                return f'has no {k}'
            d = value_differs(got[k], v)
            if d:
                return f'{k}{d}'
    return None


def value_differs(g, v):
    if isinstance(v, dict):
        d = attrs_differ(g if isinstance(g, dict) else vars(g), v)
        return d and ' ' + d
    if isinstance(v, (list, tuple)):
        g = list(g) if not isinstance(g, int) else [g]
        if len(g) != len(v):
            return f' has {len(g)} items, not {len(v)}'
        for n, (a, b) in enumerate(zip(g, v, strict=True)):
            d = value_differs(a, b)
            if d:
                return f'[{n}]{d}'
        return None
    if isinstance(v, float) or (isinstance(v, int) and not isinstance(g, str)):
        try:
            ok = abs(float(g) - v) <= 1e-6 * max(1.0, abs(v)) and not isinstance(g, bool)
        except (TypeError, ValueError):
            ok = False
        return None if ok else f' is {g!r}, not {v!r}'
    return None if g == v else f' is {g!r}, not {v!r}'
