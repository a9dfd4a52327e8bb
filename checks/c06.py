"""C06: text<->binary conversions of every type are paired."""
import base64, re, struct
from sa.types import *
from sa.trace import Trace, load, store
from sa.libc import texts, civil, days_of, name_of
from sa.sccp import Sccp, sx

DEC = {'INT32_DECI': 1, 'INT32_CENTI': 2, 'INT32_MILI': 3, 'INT32_MICRO': 6, 'INT32_NANO': 9}
SRC, WPP, DST, OFF, OUT, DAT, HEAPA = 0x2000000, 0x30000, 0x4000000, 0x90000, 0xA000000, 0xC000000, 0x10000000
GARBAGE = 0x58


def i32(x): return struct.pack('<i', sx(x, 32))
def i64(x): return struct.pack('<q', sx(x, 64))


def dec_text(v, d):
    return '%s%d.%0*d' % ('-' if v < 0 else '', abs(v) // 10 ** d, d, abs(v) % 10 ** d)


def date_text(v):
    y, m, d = civil(v)
    return '%04d-%02d-%02d' % (y, m, d)


def time_text(v): return '%s %02d:%02d:%02d' % (date_text(v // 86400), v // 3600 % 24, v // 60 % 60, v % 60)


def hex_lines(b): return ''.join(b[i:i + 16].hex() + '\n' for i in range(0, len(b), 16))


def guid_text(b):
    h = b.hex()
    return '-'.join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))


BYTES20 = bytes([0x9b, 0x6a, 0xa6, 0xcc, 0x7c, 0x5a, 0x71, 0xc1, 0x3f, 0xc7, 0xee, 0x10, 0x11, 0xef, 0x30, 0x9c, 0x33, 0x3a, 0x90, 0x4c])
DATES = [(1970, 1, 1), (1970, 2, 28), (1970, 12, 31), (1971, 3, 1), (1972, 2, 29), (1972, 3, 1), (1972, 12, 31), (1973, 1, 1), (1999, 12, 31), (2000, 1, 1), (2000, 2, 28), (2000, 2, 29), (2000, 3, 1), (2000, 12, 31),
         (2001, 1, 1), (2001, 2, 28), (2001, 3, 1), (2003, 12, 31), (2004, 1, 1), (2004, 2, 29), (2004, 12, 31), (2005, 1, 1), (2021, 4, 30), (2021, 5, 1), (2021, 6, 15), (2021, 7, 31), (2021, 8, 1), (2021, 9, 30),
         (2021, 10, 31), (2021, 11, 30), (2024, 2, 29), (2024, 12, 31), (2099, 12, 31), (2100, 1, 1), (2100, 2, 28), (2100, 3, 1), (2100, 12, 31), (2101, 1, 1), (2104, 2, 29)]
FAR = [(1969, 12, 31), (1969, 1, 1), (1968, 12, 31), (1968, 3, 1), (1968, 2, 29), (1968, 1, 1), (1967, 12, 31), (1966, 6, 7), (1900, 3, 1), (1900, 2, 28), (1900, 1, 1), (1899, 12, 31), (1804, 2, 29), (1800, 3, 1), (1601, 1, 1), (1600, 12, 31),
       (1600, 2, 29), (1600, 1, 1), (1599, 12, 31), (1200, 2, 29), (1004, 5, 6), (2199, 12, 31), (2200, 3, 1), (2399, 12, 31), (2400, 1, 1), (2400, 2, 29), (2400, 12, 31), (2401, 1, 1), (9999, 12, 31)]
I32 = (0, 1, -1, 5, -5, 9, 10, -10, 99, 100, -100, 999, 1000, -1000, 12345, -12345, 999999, 1000000, 1000001, -1000001, 999999999, 1000000000, -1000000001, 2147483647, -2147483647)


def values():
    """{type: [(bytes, text or None when a conversion has no fixed text)]}"""
    V = {}
    V['INT32'] = [(i32(x), str(x)) for x in I32 + (-2147483648,)]
    for n, d in DEC.items(): V[n] = [(i32(x), dec_text(x, d)) for x in I32]
    V['UINT32'] = [(struct.pack('<I', x), str(x)) for x in (0, 1, 10, 2147483647, 2147483648, 4294967295)]
    V['INT64'] = [(i64(x), str(x)) for x in (0, 1, -1, 9, 10, -10, 99, 2147483648, -2147483649, 10 ** 18, -10 ** 18, 2 ** 63 - 1, -2 ** 63 + 1, -2 ** 63)]
    V['UINT64'] = [(struct.pack('<Q', x), str(x)) for x in (0, 1, 9, 10, 99, 4294967296, 10 ** 19, 2 ** 63, 2 ** 64 - 1)]
    V['IPv4'] = [(struct.pack('<I', a << 24 | b << 16 | c << 8 | d), '%d.%d.%d.%d' % (a, b, c, d)) for a, b, c, d in ((127, 0, 0, 1), (192, 168, 255, 254), (0, 0, 0, 0), (255, 1, 2, 3), (9, 10, 99, 100))]
    V['UNIX_DATE'] = [(i32(days_of(*d)), date_text(days_of(*d))) for d in DATES + FAR]
    tm = [days_of(*d) * 86400 + s for d, s in [((1970, 1, 1), 0), ((1970, 1, 1), 59), ((1970, 1, 1), 60), ((1970, 1, 1), 3599), ((1970, 1, 1), 3600)] + [(d, (i * 7919 + 82354) % 86400) for i, d in enumerate(DATES)] + [((2021, 6, 15), 86399), ((2038, 1, 19), 11647), ((2038, 1, 19), 11648), ((2106, 2, 7), 23295)]]
    V['UNIX_TIME'] = [(struct.pack('<I', x), time_text(x)) for x in tm]
    V['UNIX_TIME64_MSEC'] = [(i64(x * 1000 + i % 1000), '%s.%03d' % (time_text(x), i % 1000)) for i, x in zip([0, 1, 9, 10, 99, 100, 999] + list(range(5, 5000, 37)), tm)]
    PRINTED['UNIX_TIME64_MSEC'] = [(i64(x), '%s.%03d' % (time_text(x // 1000), x % 1000)) for x in (-1, -999, -1000, -1001, -86400001)]
    V['GUID'] = [(BYTES20[:16], guid_text(BYTES20[:16])), (bytes(16), guid_text(bytes(16))), (bytes(range(0xf0, 0x100)), guid_text(bytes(range(0xf0, 0x100))))]
    V['SHA1'] = [(BYTES20, BYTES20.hex()), (bytes(range(20)), bytes(range(20)).hex())]
    return V


PRINTED = {}             # values that no text gives


def sample(n): return bytes((i * 37 + 11) & 255 for i in range(n))
def letters(n): return ''.join(chr(97 + i * 7 % 26) for i in range(n))


class World:
    """one memory with the text functions of the C library and buffers from new"""

    def __init__(self, P, limit=60000):
        self.P = P; self.heap = {}
        self.T = Trace(P, calls=self.calls, loads=self.initial, limit=limit, depth=14)

    def initial(self, I, a, mem):
        at = a[:2] if a[0] == 'g' else None
        if at is None or (at, a[2], I.raw['sz']) in mem: return None
        return self.P.gload(a[1], a[2], I.raw['sz'], force=True)

    def calls(self, I, n, av, T, mem):
        r = texts(I, n, av, T, mem)
        if r is not None: return r
        if n in ('_Znam', '_Znwm', 'malloc', '_ZnamRKSt9nothrow_t', '_ZnwmRKSt9nothrow_t') and av[0] is not None and av[0][0] == 'c':
            a = HEAPA + (len(self.heap) << 20); size = av[0][1]
            self.heap[a] = size

            def eff(m): m[None, a, size] = ('fill', GARBAGE)
            return [(('c', a, 64), eff)] if size else None
        return None


def put(mem, at, b):
    for i, x in enumerate(b): mem[None, at + i, 1] = ('c', sx(x, 8), 8)


def get(mem, at, n):
    """bytes at a place; None where unknown"""
    out = []
    for i in range(n):
        v = load(mem, (None, at + i), 1)
        out.append(v[1] & 255 if v is not None and v[0] == 'c' else None)
    return out


def touched(mem, before, lo, hi, olo, ohi):
    """cells in [lo,hi) outside [olo,ohi) that differ from `before`"""
    out = []
    for k, v in mem.items():
        if k[0] is not None or k[1] + k[2] <= lo or k[1] >= hi or before.get(k) == v: continue
        if v[0] == 'fill' and v[1] == GARBAGE: continue
        if k[1] < olo or k[1] + k[2] > ohi: out.append(k)
    return out


def run(K):
    P = K.prog
    K.rule('Both directions of every conversion are interpreted (sa/trace.py, with contracts of the C text functions) for boundary values of each type at each alignment of the write position. '
           'Stored bytes, advances and printed texts are compared with an independent description of the types; nothing else may be read or stored.')
    T = Types(P)
    al = {t: T.align(t) or 0 for t in T.all}
    V = values()
    F = P.fn('XBT_FromString')
    from_string(K, P, T, al, V, F)
    to_string(K, P, T, al, V)
    copying(K, P, T, al)
    K.minimum('conversions evaluated', 400)
    K.minimum('printings evaluated', 400)
    K.minimum('copies evaluated', 200)


def convert(P, F, t, text, at, limit):
    W = World(P)
    mem = {(None, WPP, 8): ('c', at, 64), (None, DST - 64, 8192): ('fill', GARBAGE)}
    put(mem, SRC, text.encode('latin1') + b'\0')
    return mem, W.T.run(F, {0: ('c', SRC, 64), 1: C(t), 2: ('c', WPP, 64), 3: ('c', limit, 64)}, mem)


BAD = {'INT64': ['', 'abc', '-', '.5'], 'UINT64': ['', 'abc', '0xg', '-'], 'IPv4': ['', '1', '1.2.3', '256.1.1.1', '1.256.1.1', '1.1.256.1', '1.1.1.256', 'a.b.c.d', '-1.2.3.4', '1,2,3,4'],
       'GUID': ['', '9b6a', BYTES20[:15].hex(), 'xx'], 'SHA1': ['', BYTES20[:19].hex(), BYTES20.hex()[:39], 'zz'],
       'UNIX_DATE': ['', '2021', '2021-', '2021-13-01', '2021-00-01', '2021-05', '2021-05-', 'x', '2021/05/06'],
       'UNIX_TIME': ['', '2021', '2021-13-01 00:00:00', '2021-00-01 00:00:00', '1969-12-31 00:00:00', '2021-05', '2021-05-06x', '2021-05-06 x', '2021-05-06 12-', '2021-05-06 12:x', '2021-05-06 12:30', '2021-05-06 12:30:', 'x'],
       'UNIX_TIME64_MSEC': ['', '2021-13-01 00:00:00.000', '2021-05-06 12:30:15.', '2021-05-06 12:30:15.x', '2021-05-06 12:30:15.1', '2021-05-06 12:30:15.12', 'x'],
       'NULL': ['x', ' ', '0']}
LENGTH = {'STRING': (0, 1, 7, 100, 300)}


def also(n):
    """further texts a type is converted from: [(text, bytes)]"""
    out = []
    if n in DEC:
        d = DEC[n]
        for s in ('0', '7', '-7', '2', '1.' + '1234567891'[:d], '-1.' + '1234567891'[:d], '0.' + '0' * (d - 1) + '5', '-0.5', '1.5', '2.', '1.' + '1234567891'[:d] + '9'):
            neg = s.startswith('-'); a, _, b = s.lstrip('-').partition('.')
            x = int(a + (b + '0' * 9)[:d])
            if x < 1 << 31: out.append((s, i32(-x if neg else x)))
    if n == 'UINT64': out += [('0x0', i64(0)), ('0xff', i64(255)), ('0xFFFFFFFFFFFFFFFF', i64(-1)), ('0x1aB', i64(0x1ab))]
    if n in ('INT64', 'UINT64'): out += [(' 12', i64(12)), ('007', i64(7))]
    if n in ('GUID',): out += [(BYTES20[:16].hex(), BYTES20[:16]), (guid_text(BYTES20[:16]).upper(), BYTES20[:16])]
    if n == 'SHA1': out += [(BYTES20.hex().upper(), BYTES20)]
    if n == 'UNIX_TIME': out += [('2021-06-15', i32(days_of(2021, 6, 15) * 86400)), ('2021-06-15T22:41:40', i32(1623796900)), ('2021-06-15 07', i32(days_of(2021, 6, 15) * 86400 + 7 * 3600))]
    if n == 'UNIX_TIME64_MSEC':
        b = 1623796900000
        out += [('2021-06-15T22:41:40.123Z', i64(b + 123)), ('2021-06-15T22:41:40.123456Z', i64(b + 123)), ('2021-06-15T22:41:40.123+02:00', i64(b + 123 - 7200000)), ('2021-06-15T22:41:40.123-01:30', i64(b + 123 + 5400000)), ('2021-06-15 22:41:40', i64(b))]
    return out


def from_string(K, P, T, al, V, F):
    w = F.where
    implemented = set()
    for t in T.all + [T.id['UNKNOWN'], T.last]:
        n = T.names[t]
        K.count('types')
        fixed = n in T.FIXED
        cases = []                       # (text, stored bytes or None: failure)
        if n in V: cases += [(s, b) for b, s in V[n]] + also(n)
        elif n in ('FLOAT', 'DOUBLE'): cases += [(s, 'number') for s in ('0', '1.5', '-2.25', '1e10', '3.4028234e38', '0.1', '2.5E-7', '-7')]
        elif n == 'STRING': cases += [(letters(k), letters(k).encode() + b'\0') for k in LENGTH[n]]
        elif n == 'HEX': cases += [(s, struct.pack('<I', len(b)) + b) for b, s in [(sample(k), sample(k).hex()) for k in (0, 1, 5, 16, 17, 40)] + [(sample(4), sample(4).hex().upper()), (sample(40), ' '.join('%02x' % x for x in sample(40)))]]
        elif n == 'NULL': cases += [('', b'')]
        else: cases += [('1', None), ('', None), ('abcd', None)]
        bad = BAD.get(n, [])
        if not any(e.kind == 'ret' and (e.ret is None or e.ret[1] != 0) for s, b in cases[:2] for e in convert(P, F, t, s, DST, DST + 4096)[1]): bad = [s for s, b in cases] + bad
        else: implemented.add(t)
        if fixed and n in V or n in ('FLOAT', 'DOUBLE', 'STRING', 'HEX', 'NULL'):
            K.ob('the conversion exists', 'from:exists:' + n, t in implemented, w, 'text cannot be converted to %s' % n)
        for i, (s, b) in enumerate(cases):
            if t not in implemented or b is None: continue
            for r in (range(16) if i < 2 or n in ('HEX', 'STRING') and i < 4 else (i % 8,)):
                a = up(DST + r, al.get(t, 0))
                size = T.FIXED[n] if fixed else len(b)
                K.count('conversions evaluated')
                for limit, fits in ((DST + 4096, True), (a + (max(size, T.size2(t) or 0) if fixed else size), True), (a + size - 1, False)):
                    if not fits and size == 0 or n == 'HEX' and not fits and len(b) > 4: continue       # hexadecimal data are cut (see below)
                    if not fits and limit < DST + r: continue
                    if i > 3 and limit != DST + 4096: continue
                    before, ends = convert(P, F, t, s, DST + r, limit)
                    for e in ends:
                        if e.kind != 'ret':
                            K.ob('conversion ends', 'from:end:' + n, False, e.where, 'converting "%s" to %s ends the program' % (s[:40], n)); continue
                        ok = e.ret is not None and e.ret[0] == 'c' and e.ret[1] != 0
                        wp = e.cell(None, WPP, 8)
                        out = touched(e.mem, before, DST - 64, DST + 8192, DST + r, limit)
                        K.ob('nothing is stored outside the free space', 'from:bounds:' + n, not out, e.where, 'converting "%s" to %s stores at +%d outside its space' % (s[:40], n, out[0][1] - DST - r if out else 0))
                        if not fits:
                            K.ob('a value that does not fit is refused', 'from:limit:' + n, e.ret is not None and e.ret == ('c', 0, e.ret[2]) and not touched(e.mem, before, DST - 64, DST + 8192, DST, DST), e.where, 'a %s is converted although it does not fit before the limit' % n)
                            continue
                        K.ob('valid text is converted', 'from:ok:' + n, ok, e.where, '"%s" is not converted to %s%s' % (s[:40], n, '' if limit == DST + 4096 else ' although it fits exactly'))
                        if not ok: continue
                        K.ob('position advances by the size of the value', 'from:advance:' + n, wp == ('c', a + size, 64), e.where,
                             'after "%s" of type %s written at a position with residue %d the write position is %s instead of +%d' % (s[:40], n, r, '+%d' % (wp[1] - DST - r) if wp and wp[0] == 'c' else 'unknown', a + size - DST - r))
                        if b == 'number':
                            v = e.cell(None, a, size)
                            want = ('number', s)
                            K.ob('the number is stored as it was scanned', 'from:value:' + n, v is not None and v[0] == 's' and v[2] == 0 and holds(v[1], want, size), e.where, 'the stored %s does not come from the text "%s"' % (n, s))
                        else:
                            K.ob('the stored bytes are those of the value', 'from:value:' + n, get(e.mem, a, size) == list(b), e.where, '"%s" is stored as %s instead of %s (%s at residue %d)' % (s[:40], hexs(get(e.mem, a, size)), b.hex()[:80], n, r))
        if n == 'HEX' and t in implemented:
            # the data are limited by the space
            for r in (0, 1, 3):
                a = up(DST + r, al.get(t, 0))
                for room in (3, 4, 5, 9):
                    before, ends = convert(P, F, t, sample(20).hex(), DST + r, a + room)
                    for e in ends:
                        ok = e.kind == 'ret' and e.ret is not None and e.ret[1] != 0
                        wp = e.cell(None, WPP, 8); ln = e.cell(None, a, 4)
                        out = touched(e.mem, before, DST - 64, DST + 8192, DST + r, a + room)
                        K.ob('nothing is stored outside the free space', 'from:bounds:' + n, not out, e.where, 'hexadecimal data are stored beyond the limit')
                        if room < 4: K.ob('a value that does not fit is refused', 'from:limit:' + n, not ok, e.where, 'the length prefix of hexadecimal data is stored beyond the limit')
                        elif ok:
                            K.ob('length prefix is the number of bytes', 'from:prefix:HEX', ln is not None and wp == ('c', a + 4 + ln[1], 64) and 0 <= ln[1] <= room - 4 and get(e.mem, a + 4, ln[1]) == list(sample(20))[:ln[1]], e.where,
                                 'the length prefix of cut data does not describe what was stored')
        for s in bad:
            before, ends = convert(P, F, t, s, DST + 1, DST + 4096)
            K.count('refusals evaluated')
            for e in ends:
                K.ob('text that is no value of the type is reported', 'from:failure:' + n, e.kind == 'ret' and e.ret is not None and e.ret[0] == 'c' and e.ret[1] == 0, e.where, '"%s" is silently accepted as %s' % (s[:40], n))
                if not (n in V or n in ('HEX',)):
                    K.ob('a type without conversion stores nothing', 'from:nothing:' + n, not touched(e.mem, before, DST - 64, DST + 8192, DST, DST) and e.cell(None, WPP, 8) == ('c', DST + 1, 64), e.where, 'refused text "%s" of type %s leaves something behind' % (s[:40], n))
    K.need(len(implemented) >= 15, 'only %d conversions were recognised' % len(implemented))
    # what detection can answer can be stored
    D = P.fn('XBT_Detect')
    dets = {v[1] for v in Sccp(P).run(D, {}).ret_values() if v is not None and v[0] == 'c'}
    K.count('detectable types', len(dets))
    for t in sorted(dets):
        K.ob('every detected type can be stored', 'detect:' + T.names.get(t, str(t)), t in implemented or T.names.get(t) == 'NULL', D.where, 'detection answers %s, which cannot be stored' % T.names.get(t, t))


def holds(label, want, size):
    """a label that is the wanted number, possibly cut to single precision when it is stored in 4 bytes"""
    if label == want: return True
    return isinstance(label, tuple) and label[0] in ('fptrunc', 'fpext') and (size == 4 or label[0] == 'fpext') and holds(label[2], want, size)


def hexs(b): return ''.join('??' if x is None else '%02x' % x for x in b)[:80]


def print_all(P, G, t, data, at, size, rounds):
    """[(ends of each printing history)]: list of (piece texts, problem, where)"""
    mem = {(None, OFF, 4): ('c', 0, 32), (None, OUT - 64, size + 8192): ('fill', GARBAGE)}
    put(mem, at, data) if isinstance(data, bytes) else mem.update(data)
    lo, hi = at, at + (len(data) if isinstance(data, bytes) else 8)
    hist = [([], mem)]
    done = []
    for k in range(rounds):
        nxt = []
        for pieces, m in hist:
            W = World(P)
            for e in W.T.run(G, {0: C(t), 1: ('c', DAT + (at - DAT) % 16 if False else START[0], 64), 2: ('c', OFF, 64), 3: ('c', OUT, 64), 4: C(size)}, m):
                if e.kind != 'ret': done.append((pieces, 'ends the program', e.where)); continue
                over = touched(e.mem, m, OUT - 64, OUT + size + 8192, OUT, OUT + size)
                if over: done.append((pieces, 'stores outside the output buffer', e.where)); continue
                bad = [x for x in e.ev if x[0] == 'load' and x[2] is not None and x[2][0] is None and DAT <= x[2][1] < DAT + (1 << 20) and not (lo <= x[2][1] and x[2][1] + x[3] <= hi)]
                if bad: done.append((pieces, 'reads %d bytes at +%d outside the value' % (bad[0][3], bad[0][2][1] - lo), bad[0][1].where)); continue
                if e.ret is None or e.ret[0] != 'c': done.append((pieces, 'answers an unknown length', e.where)); continue
                if e.ret[1] == 0: done.append((pieces, None, e.where)); continue
                s = W.T.text(('c', OUT, 64), e.mem)
                if s is None or len(s) != e.ret[1] or e.ret[1] >= size: done.append((pieces, 'answers length %d for "%s"' % (e.ret[1], (s or '?')[:60]), e.where)); continue
                nxt.append((pieces + [s], e.mem))
        hist = nxt
        if not hist: break
    for pieces, m in hist: done.append((pieces, 'does not end', G.where))
    return done


START = [DAT]


def to_string(K, P, T, al, V):
    G = P.fn('XBT_ToStringChunk'); H = P.fn('XBT_ToString')
    cap = enum(P, 'MIN_OUT_BUFFER_SIZE') + 1 if 'MIN_OUT_BUFFER_SIZE' in P.enums else 257
    U32 = lambda n: struct.pack('<I', n)
    for t in T.all:
        n = T.names[t]
        w = G.where
        if n in ('VARIANT', 'IPv6'): continue
        cases = []
        if n in V: cases = [(b, s) for b, s in V[n]] + PRINTED.get(n, [])
        elif n == 'NULL': cases = [(b'', '')]
        elif n == 'STRING': cases = [(letters(k).encode() + b'\0', letters(k)) for k in (0, 1, 15, cap - 3, cap - 2, cap - 1, cap, cap + 1, 2 * cap - 3, 2 * cap - 2, 2 * cap, 700)] + [(bytes(range(1, 256)) * 2 + b'\0', (bytes(range(1, 256)) * 2).decode('latin1'))]
        elif n == 'BLOB_STRING': cases = [(U32(cp) + letters(k).encode() + bytes(cp - k), letters(k)) for k, cp in ((0, 16), (1, 16), (15, 16), (16, 24), (cap - 2, 384), (cap - 1, 384), (cap, 384), (2 * cap, 768))]
        elif n == 'HEX': cases = [(U32(k) + sample(k), hex_lines(sample(k))) for k in (0, 1, 15, 16, 17, 31, 32, 33, 48, 100, 256)]
        elif n == 'BLOB': cases = [(U32(k) + sample(k), base64.b64encode(sample(k)).decode()) for k in (0, 1, 2, 3, 4, 5, 6, 12, 188, 189, 190, 191, 192, 193, 194, 195, 380, 600)]
        elif n in ('FLOAT', 'DOUBLE'): cases = [(None, None)]
        long = {'STRING': [(letters(69900).encode() + b'\0', letters(69900))], 'BLOB_STRING': [(U32(69916) + letters(69900).encode() + bytes(16), letters(69900))]}.get(n, [])
        for i, (b, s) in enumerate(cases + long):
            for size in ((33001,) if i >= len(cases) else (257, 258, 259, 260, 4097) if n in ('STRING', 'BLOB_STRING', 'BLOB', 'HEX') else (257, 4097) if i < 3 else (257,)):
                for r in (range(8) if i < 2 and size in (257, 4097) else (i % 8,)):
                    START[0] = DAT + r
                    a = up(DAT + r, al[t])
                    K.count('printings evaluated')
                    if n in ('FLOAT', 'DOUBLE'):
                        sz = T.FIXED[n]
                        data = {(None, a, sz): ('s', 'stored', 0)}
                        got = print_all(P, G, t, data, a, size, 3)
                    else: got = print_all(P, G, t, b, a, size, (4 if i >= len(cases) else len(s or '') // 16 + 4))
                    for pieces, problem, where in got:
                        text = ''.join(pieces)
                        key = 'to:' + n
                        show = '"%s"' % (s or '')[:60] if s is not None else n
                        K.ob('printing a stored value', key, problem is None, where, 'printing the %s %s into %d bytes %s' % (n, show, size, problem))
                        if problem: continue
                        if s is None:
                            m = re.fullmatch(r'<%\.?(\d*)([fFgGeE]):(.*)>', text)
                            ok = m and m.group(3) in ('stored', name_of(('fpext', 'double', 'stored', 0))) and (n == 'FLOAT' or m.group(2) in 'gGeE' and int(m.group(1) or 6) >= 16 + (m.group(2) in 'gG'))
                            K.ob('the text is the value', 'text:' + n, bool(ok), where, 'a stored %s is printed as %s' % (n, text[:60]))
                        else:
                            p = next((j for j in range(min(len(s), len(text))) if s[j] != text[j]), min(len(s), len(text)))
                            K.ob('the text is the value', 'text:' + n, text == s, where, 'a %s is printed as "%s" instead of "%s" (%d and %d characters, difference at %d, buffer of %d bytes, residue %d)' % (n, text[max(0, p - 20):p + 30], s[max(0, p - 20):p + 30], len(text), len(s), p, size, r))
        # whole value conversion
        prev = None
        mem = None
        W = World(P)
        for i, (b, s) in enumerate(cases):
            r = (i * 3) % 8
            a = up(DAT + r, al[t])
            if mem is None: mem = {}
            for k in [k for k in mem if k[0] is None and DAT <= k[1] < DAT + (1 << 20)]: mem.pop(k)
            if b is None: mem[None, a, T.FIXED[n]] = ('s', 'stored', 0)
            else: put(mem, a, b)
            ends = W.T.run(H, {0: C(t), 1: ('c', DAT + r, 64)}, mem)
            K.count('printings evaluated')
            for e in ends:
                where = e.where
                if e.kind != 'ret': K.ob('a stored value has a text', 'string:' + n, False, where, 'XBT_ToString of %s ends the program' % n); continue
                null = e.ret is not None and e.ret[0] == 'c' and e.ret[1] == 0
                g = W.T.text(e.ret, e.mem) if e.ret is not None and not null else None
                if s is None:
                    m = re.fullmatch(r'<%\.?(\d*)([fFgGeE]):(.*)>', g or '')
                    ok = m and m.group(3) in ('stored', name_of(('fpext', 'double', 'stored', 0)))
                else: ok = g == s or null and s == '' or n == 'HEX' and s and g == s
                K.ob('a stored value has a text', 'string:' + n, bool(ok), where, 'XBT_ToString of the %s "%s" gives "%s"' % (n, (s or '')[:60], (g or 'nothing')[:60]))
                bad = [x for x in e.ev if x[0] == 'load' and x[2] is not None and x[2][0] is None and DAT <= x[2][1] < DAT + (1 << 20) and b is not None and not (a <= x[2][1] and x[2][1] + x[3] <= a + len(b))]
                K.ob('only the value is read', 'string:read:' + n, not bad, bad[0][1].where if bad else where, 'XBT_ToString of %s reads outside of the value' % n)
                for ha, hs in W.heap.items():
                    over = [k for k in e.mem if k[0] is None and ha - 4096 <= k[1] < ha + (1 << 19) and (k[1] < ha or k[1] + k[2] > ha + hs)]
                    K.ob('the buffer is large enough', 'string:buffer:' + n, not over, where, 'the text of a %s of %d bytes does not fit to its buffer of %d bytes' % (n, len(b or b''), hs))
                # a text stays valid while the next value is converted
                if prev and prev[1] is not None and n not in ('STRING', 'BLOB_STRING', 'BLOB', 'HEX'):
                    again = W.T.text(prev[0], e.mem)
                    K.ob('an answered text stays while the next one is made', 'string:stay:' + n, again == prev[1], where, 'the text "%s" of a %s becomes "%s" when the next value is converted' % (prev[1][:40], n, (again or '?')[:40]))
            if len(ends) == 1 and ends[0].kind == 'ret' and ends[0].ret is not None:
                prev = (ends[0].ret, W.T.text(ends[0].ret, ends[0].mem) if ends[0].ret[1:2] != (0,) else None)
                mem = dict(ends[0].mem) if False else ends[0].mem
            else: prev = mem = None


def copying(K, P, T, al):
    Cp = P.fn('XBT_Copy')
    for t in T.all:
        n = T.names[t]
        if n in ('NULL', 'VARIANT'): continue
        for k in ((0, 1, 9, 20, 300) if n in T.VAR or n == 'STRING' else (0,)):
            for r in (range(16) if k in (0, 9) else (k % 16,)):
                a = up(DST + r, al[t])
                size = 4 + k if n in T.VAR else T.size2(t, k)
                b = struct.pack('<I', k) + sample(k) if n in T.VAR else letters(k).encode() + b'\0' if n == 'STRING' else sample(T.FIXED[n])
                for limit, fits in ((DST + 4096, True), (a + size - 1, False)):
                    mem = {(None, WPP, 8): ('c', DST + r, 64), (None, DST - 64, 8192): ('fill', GARBAGE)}
                    put(mem, SRC, b)
                    W = World(P)
                    K.count('copies evaluated')
                    for e in W.T.run(Cp, {0: ('c', SRC, 64), 1: C(t), 2: C(k), 3: ('c', WPP, 64), 4: ('c', limit, 64)}, mem):
                        ok = e.kind == 'ret' and e.ret is not None and e.ret[0] == 'c' and e.ret[1] != 0
                        out = touched(e.mem, mem, DST - 64, DST + 8192, DST + r, min(limit, a + size))
                        K.ob('nothing is stored outside the copy', 'copy:bounds:' + n, not out, e.where, 'copying a %s stores at +%d outside its space' % (n, out[0][1] - DST - r if out else 0))
                        bad = [x for x in e.ev if x[0] == 'load' and x[2] is not None and x[2][0] is None and SRC <= x[2][1] < SRC + (1 << 20) and x[2][1] + x[3] > SRC + max(len(b), 4)]
                        K.ob('only the value is read', 'copy:read:' + n, not bad, e.where, 'copying a %s reads behind it' % n)
                        if not fits:
                            K.ob('a value that does not fit is refused', 'copy:limit:' + n, not ok and not touched(e.mem, mem, DST - 64, DST + 8192, DST, DST), e.where, 'a %s is copied beyond the limit' % n)
                            continue
                        K.ob('values can be copied', 'copy:' + n, ok, e.where, 'a %s cannot be copied' % n)
                        if not ok: continue
                        wp = e.cell(None, WPP, 8)
                        K.ob('position advances by the size of the type', 'copy:advance:' + n, wp == ('c', a + size, 64), e.where, 'after copying a %s at residue %d the write position is %s instead of +%d' % (n, r, wp, a + size - DST - r))
                        K.ob('the whole value is copied to its aligned place', 'copy:data:' + n, get(e.mem, a, len(b)) == list(b), e.where, 'a %s is not copied completely to the aligned position' % n)
