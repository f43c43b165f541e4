"""Independent reader of the VGF records the encoder can write (big endian, fixed structures)."""
import struct

from dst.dmread import BadFile, need

HEAD = ['delete', 'vg_type', 'vg_class', 'filled', 'closed', 'smooth', 'version', 'group_type',
        'group_number', 'major_color', 'minor_color', 'record_size', 'min_lat', 'min_lon',
        'max_lat', 'max_lon']
KIND = {(1, 3): 'Line', (2, 1): 'Front', (20, 3): 'SpecialLine', (21, 5): 'SpecialText',
        (15, 4): 'SpecialSymbol', (19, 4): 'Marker'}
BODY = {
    'Line': ('>5i', ['n', 'line_type', 'line_type_hardware', 'width', 'line_width_hardware']),
    'Front': ('>6i4s', ['n', 'front_code', 'pip_size', 'pip_stroke', 'pip_direction', 'width',
                        'label']),
    'SpecialLine': ('>4ifi', ['n', 'line_type', 'stroke', 'direction', 'size', 'width']),
    'SpecialText': ('>2f9i2f2i', ['rotation', 'size', 'text_type', 'turbulence_symbol', 'font',
                                  'text_flag', 'width', 'text_color', 'edgecolor', 'facecolor',
                                  'align', 'lat', 'lon', 'offset_x', 'offset_y']),
    'Symbol': ('>2ifi3f2i', ['number_symbols', 'width', 'size', 'symbol_type', 'symbol_code', 'lat',
                             'lon', 'offset_x', 'offset_y']),
}


def records(data):
    """[(offset, header dict, body bytes)] of every record; strict."""
    out = []
    pos = 0
    while pos < len(data):
        need(pos + 40 <= len(data), f'record header at {pos} outside the file')
        h = dict(zip(HEAD, struct.unpack_from('>3Bb4B4i4f', data, pos), strict=True))
        need(h['record_size'] >= 40, f'record size {h["record_size"]} at {pos}')
        end = pos + h['record_size']
        need(end <= len(data), f'record at {pos} ends at {end} of {len(data)}')
        out.append((pos, h, bytes(data[pos + 40:end])))
        pos = end
    return out


def walk(data):
    """List of attribute dictionaries; the first record must be the file header."""
    recs = records(data)
    need(recs, 'no records')
    _, h, body = recs[0]
    need((h['vg_type'], h['vg_class']) == (22, 0) and h['record_size'] == 424, 'file header')
    need(body[:7] == b'Version', 'file header version')
    out = []
    for pos, h, body in recs[1:]:
        kind = KIND.get((h['vg_type'], h['vg_class']))
        need(kind is not None, f'type {h["vg_type"]} class {h["vg_class"]} at {pos}')
        fmt, names = BODY['Symbol' if kind in ('SpecialSymbol', 'Marker') else kind]
        n = struct.calcsize(fmt)
        need(len(body) >= n, f'record at {pos} too short')
        m = dict(h, cls=kind)
        m.update(zip(names, struct.unpack_from(fmt, body), strict=True))
        rest = body[n:]
        if kind in ('Line', 'Front', 'SpecialLine'):
            k = m.pop('n')
            need(len(rest) == 8 * k, f'record at {pos}: {k} points in {len(rest)} bytes')
            pts = struct.unpack(f'>{2 * k}f', rest)
            m['lat'], m['lon'] = list(pts[:k]), list(pts[k:])
            if kind == 'Front':
                m['label'] = m['label'].split(b'\0')[0].decode()
        elif kind == 'SpecialText':
            need(rest.endswith(b'\0'), f'text at {pos} is not terminated')
            try:
                m['text'] = rest[:-1].decode()
            except UnicodeDecodeError as e:
                raise BadFile(f'text at {pos}: {e}') from e
        else:
            need(not rest, f'record at {pos} too long')
        out.append(m)
    return out
