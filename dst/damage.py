"""Damage to stored images: bytes flipped, stretches overwritten, moved or lost, words replaced.

`gen(rng, kind)` gives a JSON list of damages relative to the size of the image; `apply` is a pure
function of the image and the list.
"""
import struct

WORDS = [0, 1, -1, 2, 3, 4, 5, 7, 31, 32, 33, 64, 100, 127, 128, 255, 256, 500, 501, 9999, -9999, 32000,
         65535, 65536, 99999, 10**6, 2**24, 2**30, 2**31 - 1, -2**31, 0x7fc00000, 0x7f800000,
         0x00010000, 0x01000000, 0x20202020]
# words of the label of a data-management file: counts and pointers (0-based word numbers)
LABEL = list(range(7, 32))
FLOATS = [0.0, 1.0, 2.0, 3.0, 100.0, 1023.0, 1024.0, 1025.0, 3e4, 1e6, 1048576.0, 2e9, 1e20, -1.0, -5.0,
          'nan', 'inf', 90.0, 91.0, 360.0, 1e-30]


def gen_one(rng, kind):
    c = rng.weighted([('bit', 4), ('byte', 2), ('word', 4), ('label', 4 if kind != 'vgf' else 0),
                      ('field', 8 if kind == 'vgf' else 0), ('zero', 1), ('ones', 1), ('junk', 1),
                      ('dup', 1), ('drop', 1), ('swap', 1), ('copyword', 2), ('add', 3),
                      ('cut', 0.5), ('grow', 0.5), ('nav', 4 if kind == 'grid' else 0),
                      ('entry', 3 if kind != 'vgf' else 0), ('digits', 1.5 if kind == 'vgf' else 0)])
    d = {'d': c, 'at': rng.random(), 'v': rng.randrange(1 << 31)}
    if rng.chance(0.4) and kind != 'vgf':
        d['at'] *= 0.15
    if c in ('word', 'label', 'field'):
        if rng.chance(0.8):
            d['v'] = rng.pick(WORDS)
        d['rel'] = rng.pick([None, None, None, 'size', 'delta'])
        d['big'] = rng.chance(0.4)
        d['k'] = rng.randrange(64)
    if c in ('nav', 'entry'):
        d['k'] = rng.randrange(1000)
        d['x'] = rng.pick(FLOATS) if rng.chance(0.7) else rng.uniform(0, 3000)
        d['v'] = rng.pick(WORDS)
        d['rel'] = rng.pick([None, None, 'size', 'delta'])
    if c == 'add':
        d['v'] = rng.pick([1, -1, 2, -2, 4, -4, 10, 100, 1000, -1000, 65536])
        d['big'] = rng.chance(0.4)
    if c in ('zero', 'ones', 'junk', 'dup', 'drop', 'swap'):
        d['n'] = rng.pick([1, 2, 3, 4, 8, 20, 40, 128, 512, 1024, 4096])
        d['to'] = rng.random()
        d['word'] = rng.chance(0.7)
    return d


def gen_digits(rng):
    return {'d': 'digits', 'at': 0, 'v': rng.randrange(1 << 31)}


def gen_count(rng):
    """A large number in one of the first words after the header of a record, and sometimes zeros
    from there to the end (blocks that were never written)."""
    return {'d': 'count', 'at': rng.random(), 'k': rng.randrange(*rng.pick([(0, 18), (1, 6)])), 'lost': rng.chance(0.4),
            'v': rng.pick([10**5, 10**6, 2**24, 2**28, 2**30, 2**31 - 1, 0x4b000000])}


def gen(rng, kind):
    return [gen_one(rng, kind) for _ in range(rng.weighted([(1, 6), (2, 3), (4, 1), (10, 0.4)]))]


def signed(v):
    v &= 0xffffffff
    return v - 2**32 if v >= 2**31 else v


def put(b, pos, v, big):
    if 0 <= pos and pos + 4 <= len(b):
        b[pos:pos + 4] = struct.pack('>i' if big else '<i', signed(v))


def get(b, pos, big):
    if 0 <= pos and pos + 4 <= len(b):
        return struct.unpack_from('>i' if big else '<i', b, pos)[0]
    return 0


def apply(data, damages, kind):
    b = bytearray(data)
    for d in damages:
        n = len(b)
        if n < 8:
            break
        pos = min(int(d['at'] * n), n - 1)
        c = d['d']
        if c == 'bit':
            b[pos] ^= 1 << (d['v'] & 7)
        elif c == 'byte':
            b[pos] = d['v'] & 255
        elif c in ('word', 'label', 'field', 'add', 'copyword'):
            big = d.get('big')
            if c == 'label':
                pos = 4 * LABEL[d['k'] % len(LABEL)]
            elif c == 'field':
                pos = field(b, d)
                big = True
            else:
                pos -= pos % 4
            if kind == 'vgf':
                big = True
            if c == 'copyword':
                src = int(d['v'] / 2**31 * n) // 4 * 4
                b[pos:pos + 4] = b[src:src + 4]
                b[n:] = b''
                continue
            if c == 'add' or d.get('rel') == 'delta':
                delta = d['v'] if c == 'add' else [1, -1, 2, -2][d['v'] % 4]
                put(b, pos, get(b, pos, big) + delta, big)
            elif d.get('rel') == 'size':
                put(b, pos, n // 4 + d['v'] % 5 - 2, big)
            else:
                put(b, pos, d['v'], big)
        elif c == 'count':
            starts = records(b)
            if starts:
                s = starts[int(d['at'] * len(starts)) % len(starts)]
                put(b, s + 40 + 4 * d['k'], d['v'], True)
                if d['lost']:
                    end = s + 44 + 4 * d['k']
                    b[end:] = bytes(max(len(b) - end, 0))
        elif c == 'digits':
            digits(b, d)
        elif c == 'nav':
            nav(b, d)
        elif c == 'entry':
            entry(b, d)
        elif c == 'cut':
            b = b[:pos]
        elif c == 'grow':
            b += b[:pos]
        else:
            k = d['n']
            to = int(d['to'] * n)
            if d['word']:
                pos, to = pos // 4 * 4, to // 4 * 4
            k = min(k, n - pos, n - to)
            if c == 'zero':
                b[pos:pos + k] = bytes(k)
            elif c == 'ones':
                b[pos:pos + k] = b'\xff' * k
            elif c == 'junk':
                x = d['v'] | 1
                for i in range(pos, pos + k):
                    x = (x * 1103515245 + 12345) & 0x7fffffff
                    b[i] = (x >> 16) & 255
            elif c == 'dup':
                b[to:to] = b[pos:pos + k]
            elif c == 'drop':
                del b[pos:pos + k]
            elif c == 'swap':
                b[pos:pos + k], b[to:to + k] = b[to:to + k], b[pos:pos + k]
    return bytes(b)


def records(b):
    """Where the records of a vector graphic file start."""
    starts, pos = [], 0
    while pos + 40 <= len(b):
        size = struct.unpack_from('>i', b, pos + 20)[0]
        starts.append(pos)
        if size < 40:
            break
        pos += size
    return starts


def field(b, d):
    """Position of a header or count word of some record of a vector graphic file."""
    starts = records(b)
    if not starts:
        return 0
    s = starts[int(d['at'] * len(starts)) % len(starts)]
    return s + [20, 20, 20, 40, 44, 48, 52, 56, 60, 64, 68, 72, 76, 80, 0, 1, 4, 8, 12, 16, 24, 28,
                84, 88, 92, 96, 100, 104][d['k'] % 28]


def digits(b, d):
    """Turn a number in stored text into a large one (tag-value text of advisories)."""
    at = [i for i in range(1, len(b)) if 48 <= b[i] <= 57 and b[i - 1] == 62]
    if not at:
        return
    i = at[d['v'] % len(at)]
    b[i:i + 1] = [b'999999999', b'99999', b'0', b'-1'][d['v'] // 64 % 4]


def order(b):
    """Whether a data-management image is big endian."""
    return get(b, 28, True) == 1


def nav(b, d):
    """Replace a word of the navigation block of a grid file by a float."""
    big = order(b)
    base = (get(b, 36, big) - 1) * 4 + 12 * get(b, 32, big) + 4
    pos = base + 4 * ([4, 5, 4, 5, 2, 3, 6, 7, 8, 9, 10, 11, 12, 1][d['k'] % 14])
    if 0 <= pos and pos + 4 <= len(b):
        b[pos:pos + 4] = struct.pack('>f' if big else '<f', float(d['x']))


def entry(b, d):
    """Change the pointer table or the words at the start of a data block."""
    big = order(b)
    rows, cols, parts = (get(b, 4 * k, big) for k in (10, 14, 18))
    base = (get(b, 4 * 22, big) - 1) * 4
    n = rows * cols * parts
    if not 0 < n < 10**6 or base < 0:
        return
    pos = base + 4 * (d['k'] % n)
    if d['k'] % 3:
        pos = (get(b, pos, big) - 1) * 4 + 4 * (d['k'] // 3 % 9)
    if d['rel'] == 'delta':
        put(b, pos, get(b, pos, big) + [1, -1, 2, -2, 8, -8][d['v'] % 6], big)
    elif d['rel'] == 'size':
        put(b, pos, len(b) // 4 + d['v'] % 5 - 2, big)
    else:
        put(b, pos, d['v'], big)
