"""Independent minimal reader of GEMPAK data-management files (reference for the oracles).

Written from the published file layout, shares no code with gempakio, follows pointers (so it
accepts any layout) and is strict: everything must lie inside the file and nothing may overlap.
"""
import struct

import numpy as np

MAGIC = b'GEMPAK DATA MANAGEMENT FILE '
STR_KEYS = {'STID', 'STAT', 'COUN', 'STD2', 'GPM1', 'GPM2', 'GPM3'}


class BadFile(Exception):
    """The image is not a well-formed file."""


def need(cond, what):
    if not cond:
        raise BadFile(what)


class DM:
    """Parsed image."""

    def __init__(self, data):
        self.data = data
        need(data[:28] == MAGIC, 'magic')
        need(len(data) % 4 == 0 or True, 'length')
        self.n = len(data) // 4
        self.e = '<'
        lab = self.ints(8, 19)
        if lab[0] != 1 or not 1 <= lab[16] <= 3:
            self.e = '>'
            lab = self.ints(8, 19)
        (self.version, self.nfh, self.fkptr, self.nrow, self.nrk, self.rkptr, self.rhptr,
         self.ncol, self.nck, self.ckptr, self.chptr, self.nprt, self.ptptr, self.dmptr,
         self.dmlen, self.dbptr, self.ftype, self.source, self.machine) = lab
        need(self.version == 1, 'version')
        self.missing = self.floats(31, 1)[0]
        self.regions = [(1, 32, 'label'), (self.dmptr, self.dmptr + 4, 'management')]
        self.rowkeys = self.strings(self.rkptr, self.nrk)
        self.colkeys = self.strings(self.ckptr, self.nck)
        self.region(self.rkptr, self.nrk, 'row keys')
        self.region(self.ckptr, self.nck, 'column keys')
        self.parts = []
        p, n = self.ptptr, self.nprt
        names = self.strings(p, n)
        hdr, typ, cnt = self.ints(p + n, n), self.ints(p + 2 * n, n), self.ints(p + 3 * n, n)
        q = p + 4 * n
        tot = sum(cnt)
        pn = self.strings(q, tot)
        sc, of, bt = (self.ints(q + k * tot, tot) for k in (1, 2, 3))
        self.region(p, 4 * n + 4 * tot, 'parts')
        k = 0
        for i in range(n):
            s = slice(k, k + cnt[i])
            self.parts.append({'name': names[i], 'header': hdr[i], 'type': typ[i],
                               'params': pn[s], 'scale': sc[s], 'offset': of[s], 'bits': bt[s]})
            k += cnt[i]
        self.rows = self.headers(self.rhptr, self.nrow, self.rowkeys, 'row headers')
        self.cols = self.headers(self.chptr, self.ncol, self.colkeys, 'column headers')
        self.file_headers = {}
        if self.nfh:
            f = self.fkptr
            nm = self.strings(f, self.nfh)
            ln = self.ints(f + self.nfh, self.nfh)
            pos = f + 3 * self.nfh
            self.region(f, 3 * self.nfh + sum(ln) + self.nfh, 'file headers')
            for a, b in zip(nm, ln, strict=True):
                need(self.ints(pos, 1)[0] == b, f'length of file header {a}')
                self.file_headers[a] = (pos + 1, b)
                pos += b + 1
        self.region(self.dbptr, self.nrow * self.ncol * self.nprt, 'data pointers')
        self.cells = {}
        for i, row in enumerate(self.rows):
            for j, col in enumerate(self.cols):
                if row is None or col is None:
                    continue
                for k in range(self.nprt):
                    ptr = self.ints(self.dbptr + (i * self.ncol + j) * self.nprt + k, 1)[0]
                    if ptr == 0:
                        continue
                    need(ptr > 0, 'data pointer sign')
                    length = self.ints(ptr, 1)[0]
                    need(length >= self.parts[k]['header'], 'data length')
                    self.region(ptr, length + 1, f'data {i},{j},{k}')
                    self.cells[(i, j, k)] = (ptr + 1, length)
        self.check_regions()

    def region(self, start, words, what):
        if words == 0:      # an empty block may be declared anywhere
            return
        need(start >= 1 and words >= 0 and start + words - 1 <= self.n,
             f'{what} outside the file: words {start}+{words} of {self.n}')
        self.regions.append((start, start + words, what))

    def check_regions(self):
        regs = sorted(self.regions)
        for a, b in zip(regs, regs[1:], strict=False):
            need(a[1] <= b[0], f'{a[2]} overlaps {b[2]}')

    def ints(self, word, n):
        if n == 0:
            return []
        need(word >= 1 and n >= 0 and word - 1 + n <= self.n, f'words {word}+{n} outside file')
        return list(struct.unpack_from(f'{self.e}{n}i', self.data, (word - 1) * 4))

    def floats(self, word, n):
        if n == 0:
            return []
        need(word >= 1 and n >= 0 and word - 1 + n <= self.n, f'words {word}+{n} outside file')
        return list(struct.unpack_from(f'{self.e}{n}f', self.data, (word - 1) * 4))

    def strings(self, word, n):
        if n == 0:
            return []
        need(word >= 1 and n >= 0 and word - 1 + n <= self.n, f'words {word}+{n} outside file')
        return [self.data[(word - 1 + i) * 4:(word + i) * 4].decode('latin-1').rstrip()
                for i in range(n)]

    def headers(self, ptr, count, keys, what):
        out = []
        nk = len(keys)
        self.region(ptr, count * (nk + 1), what)
        for i in range(count):
            w = ptr + i * (nk + 1)
            flag = self.ints(w, 1)[0]
            need(flag in (9999, -9999), f'{what}: flag {flag}')
            if flag != 9999:
                out.append(None)
                continue
            d = {}
            for k, key in enumerate(keys):
                if key in STR_KEYS:
                    d[key] = self.strings(w + 1 + k, 1)[0]
                else:
                    d[key] = self.ints(w + 1 + k, 1)[0]
            out.append(d)
        return out

    # ---- data ------------------------------------------------------------------------------
    def real(self, i, j, k=0):
        """Levels x parameters of an unpacked real part (list of lists)."""
        part = self.parts[k]
        need(part['type'] == 1, 'part type')
        ptr, length = self.cells[(i, j, k)]
        h = part['header']
        vals = self.floats(ptr + h, length - h)
        npm = len(part['params'])
        need(len(vals) % npm == 0, 'levels')
        return [vals[a:a + npm] for a in range(0, len(vals), npm)]

    def part_header(self, i, j, k=0):
        ptr, _ = self.cells[(i, j, k)]
        return self.ints(ptr, self.parts[k]['header'])

    def grid(self, j):
        """(nx, ny, bits, float64 array with nan for missing) of a GRIB packed grid column."""
        ptr, length = self.cells[(0, j, 0)]
        h = self.parts[0]['header']
        nx, ny = self.ints(ptr, 2)
        pack, bits, miss, kxky = self.ints(ptr + h, 4)
        need(pack == 1, f'packing {pack}')
        need(1 <= bits <= 31, 'bits')
        need(nx * ny == kxky, 'kxky')
        ref, scale = self.floats(ptr + h + 4, 2)
        words = length - h - 6
        need(words * 32 >= bits * kxky, 'packed length')
        raw = np.frombuffer(self.data, dtype=self.e + 'u4', count=words,
                            offset=(ptr - 1 + h + 6) * 4)
        b = np.unpackbits(raw.astype('>u4').view(np.uint8))[:bits * kxky]
        b = b.reshape(kxky, bits).astype(np.int64)
        v = (b << np.arange(bits - 1, -1, -1, dtype=np.int64)).sum(axis=1)
        out = ref + v * float(scale)
        if miss:
            out = np.where(v == 2**bits - 1, np.nan, out)
        return nx, ny, bits, out.reshape(ny, nx)

    def navigation(self):
        ptr, length = self.file_headers['NAVB']
        need(length == 256, 'NAVB length')
        f = self.floats(ptr, 13)
        return {'proj': self.strings(ptr + 1, 1)[0], 'kx': f[4], 'ky': f[5], 'll': (f[6], f[7]),
                'ur': (f[8], f[9]), 'angles': f[10:13]}
