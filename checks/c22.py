"""C22: helpers for texts and encodings do exactly what they say and stay inside their buffers."""
import base64, datetime, itertools, re
from sa.types import *
from sa.trace import *
from sa.libc import texts, put

SRC, DST, VAL, CUR, EXT, DIR, HEAPA = 0x2000000, 0x4000000, 0x30000, 0x20000, 0x2800000, 0x3000000, 0x10000000
FILL = 0x58
SP = ' \t\n\v\f\r'
EPOCH = datetime.date(1970, 1, 1).toordinal()
C_ = lambda v: ('c', v & 0xffffffff, 32)
sx = lambda x, n: x - (1 << n) if (x & ((1 << n) - 1)) >> (n - 1) else x


def signed(x, n):
    x &= (1 << n) - 1
    return x - (1 << n) if x >> (n - 1) else x


class World:
    """one memory; everything the interpreted function touches is recorded"""

    def __init__(self, P): self.P = P; self.heap = {}; self.mem = Mem(); self.areas = []

    def area(self, at, size, data=None):
        """memory which may be used"""
        self.areas.append((at, at + size))
        self.mem[None, at, size] = ('fill', FILL)
        if data is not None: put(self.mem, (None, at), data)
        return ('c', at, 64)

    def text(self, at, s): return self.area(at, len(s) + 1, s + '\0')

    def cell(self, at, size, v):
        self.areas.append((at, at + size))
        store(self.mem, (None, at), size, v)
        return ('c', at, 64)

    def calls(self, I, n, av, T, mem):
        if n in ('strcpy', 'strncpy') and place(av[0]) is not None:
            s = T.text(av[1], mem)
            if s is None: raise Lost('an unknown text is copied', I.where)
            at = place(av[0]); k = None
            if n == 'strncpy':
                if av[2] is None or av[2][0] != 'c': raise Lost('an unknown part of a text is copied', I.where)
                k = av[2][1] & (1 << 64) - 1
                if k > 1 << 20: raise Lost('%d characters are copied' % k, I.where)
                s = s[:k]; s = s + '\0' * (k - len(s))
            else: s += '\0'
            if at[0] is None: self.used.append((at[1], len(s), I))
            return [(av[0], lambda m: put(m, at, s))]
        r = texts(I, n, av, T, mem)
        if r is not None: return r
        if n in ('_Znam', '_Znwm', 'malloc') and av[0] is not None and av[0][0] == 'c':
            a = HEAPA + (len(self.heap) << 20); size = av[0][1]
            self.heap[a] = size; self.areas.append((a, a + size))
            return [(('c', a, 64), (lambda m: m.__setitem__((None, a, size), ('fill', FILL))) if size else None)]
        return None

    def run(self, F, *args):
        """the only end: (answer, memory, places touched outside)"""
        self.used = []
        T = Trace(self.P, calls=self.calls, limit=60000, depth=12, decided=0, loads=self.initial)
        E = T.run(F, dict(enumerate(args)), self.mem)
        if len(E) != 1 or E[0].kind != 'ret': raise ValueError('it does not come back with one answer')
        e = E[0]
        bad = []
        for x in e.ev:
            if x[0] in ('load', 'store', 'load?', 'store?'):
                at = x[2]
                if at is None: bad.append('an unknown place at ' + x[1].where)
                elif at[0] is None and not any(lo <= at[1] and at[1] + x[3] <= hi for lo, hi in self.areas): bad.append('%s at %s' % (x[0], x[1].where))
        own = [(a, a + z) for a, z in T.stack.items()]
        for at, k, I in self.used:
            if not any(lo <= at and at + k <= hi for lo, hi in self.areas + own): bad.append('%d bytes are copied at %s' % (k, I.where))
        for k in e.mem:
            if k[0] is None and k[1] >= FRAME:
                a = max((a for a in T.stack if a <= k[1]), default=None)
                if a is not None and T.stack[a] and k[1] + k[2] > a + T.stack[a]: bad.append('%d bytes of a local buffer of %d' % (k[1] + k[2] - a, T.stack[a])); break
        return e.ret, e.mem, bad

    def initial(self, I, a, mem):
        at = a[:2] if a[0] == 'g' else None
        if at is None or (at, a[2], I.raw['sz']) in mem: return None
        return self.P.gload(a[1], a[2], I.raw['sz'], force=True)

    def num(self, mem, at, size, sign=True):
        v = load(mem, (None, at), size)
        if v is None or v[0] != 'c': return None
        return signed(v[1], 8 * size) if sign else v[1] & (1 << 8 * size) - 1

    def bytes(self, mem, at, n): return [x if x is None else x & 255 for x in (self.num(mem, at + i, 1) for i in range(n))]

    def str(self, mem, at):
        out = []
        for i in range(5000):
            x = self.num(mem, at + i, 1)
            if x is None: return None
            if x == 0: return ''.join(out)
            out.append(chr(x & 255))


def words(alphabet, n): return [''.join(t) for k in range(n + 1) for t in itertools.product(alphabet, repeat=k)]


def skip(s, i=0):
    while i < len(s) and s[i] in SP: i += 1
    return i


def num(s, i, rx):
    """(position, match) behind the spaces"""
    j = skip(s, i)
    m = re.compile(rx).match(s, j)
    return (m.end(), m.group()) if m else (j, None)


def ref_int(s, i=0):
    e, g = num(s, i, r'-?[0-9]+')
    return e, None if g is None else int(g)


def ref_u64(s, i=0):
    j = skip(s, i)
    if s[j:j + 2] == '0x':
        m = re.compile('[0-9a-fA-F]+').match(s, j + 2)
        return (m.end(), int(m.group(), 16)) if m else (j, None)
    return num_u(s, i)


def num_u(s, i):
    e, g = num(s, i, r'[0-9]+')
    return e, None if g is None else int(g)


def ref_hex64(s, i=0):
    e, g = num(s, i, r'[0-9a-fA-F]+')
    return e, None if g is None else int(g, 16)


def ref_ipv4(s, i=0):
    """the number is left open when it fails"""
    v = 0; p = i
    for k in range(4):
        if k:
            if s[p:p + 1] != '.': return i, None
            p += 1
        p, x = ref_int(s, p)
        if x is None or not 0 <= x < 256: return i, None
        v = v << 8 | x
    return p, v


class Check:
    def __init__(self, K): self.K = K; self.P = K.prog

    def ob(self, F, key, bad):
        self.K.ob('a helper does what it says and uses only its buffers', '%s:%s' % (F.short, key), not bad, F.where, '%s(%s): %s' % (F.short, key, bad))
        self.K.count('calls')

    def each(self, name):
        for F in self.P.find(name):
            if not F.decl: return F
        raise AnalysisBroken('%s is not there' % name)

    def case(self, name, key, f):
        """f(F, world) answers what is wrong"""
        F = self.each(name); W = World(self.P)
        try: bad = f(F, W)
        except (Lost, ValueError) as x: bad = 'cannot be followed: %s' % (x,)
        self.ob(F, key, bad)

    def scan(self, name, s, ref, size, sign=True):
        def f(F, W):
            W.text(SRC, s)
            ret, m, bad = W.run(F, W.cell(CUR, 8, ('c', SRC, 64)), W.cell(VAL, size, ('c', 0x3a3a3a3a & (1 << 8 * size) - 1, 8 * size)))
            if bad: return 'uses ' + bad[0]
            at, v = ref(s)
            ok = v is not None
            if (ret[1] & 1) != ok: return 'answers %d' % (ret[1] & 1)
            p = W.num(m, CUR, 8) - SRC
            if not 0 <= p <= len(s): return 'leaves the text'
            if ok:
                if p != at: return 'stops at %d, expected %d' % (p, at)
                x = W.num(m, VAL, size, sign)
                if x != (signed(v, 8 * size) if sign else v & (1 << 8 * size) - 1): return 'gives %s, expected %s' % (x, v)
            elif p > skip(s): return 'consumes a text it refuses'
            elif W.num(m, VAL, size, False) != 0x3a3a3a3a & (1 << 8 * size) - 1: return 'changes the value although it refuses'
        self.case(name, repr(s), f)


def scanning(C):
    far = ['2147483647', '-2147483647', '0000012', '12 34', '\t\n 5', '99999', '-0', '--1', '- 1', '+1']
    for s in words(' -09a', 3) + far:
        for n in ('ScanInt', 'ScanIntW'): C.scan(n, s, ref_int, 4)
    for s in words(' -09a', 2) + far + ['9223372036854775807', '-9223372036854775807', '4294967296', '-4294967297']:
        for n in ('ScanInt64', 'ScanInt64W'): C.scan(n, s, ref_int, 8)
    for s in words(' 0x9aG', 3) + ['18446744073709551615', '0xFFFFFFFFFFFFFFFF', '0x0123456789abcdef', '0xABCDEFg', '0x/', '0x:', '0x@', '0xG', '0x`', '0xg', '0x9:', '0xF@', '0xf`', '0X1', ' 0x1f rest']:
        for n in ('ScanUInt64', 'ScanUInt64W'): C.scan(n, s, ref_u64, 8, False)
    for s in words(' 0aFg', 2) + ['0123456789', 'abcdefABCDEF', 'FFFFFFFFFFFFFFFF', '/', ':', '@', 'G', '`', 'g', '1/', '1:', '1@', '1G', '1`', '1g']: C.scan('ScanUInt64Hex', s, ref_hex64, 8, False)
    for s in ('1.2.3.4', '127.0.0.1', '255.255.255.255', '0.0.0.0', '256.1.1.1', '1.256.1.1', '1.1.256.1', '1.1.1.256', '1.2.3', '1.2.3.', '1.2.3.x', '1.2.3.4.5', ' 9.8.7.6 x', '1,2.3.4', '1.2,3.4', '1.2.3,4', '', '.', '-1.2.3.4', '1.-2.3.4', '1.2.-3.4',
              '1.2.3.-4', '1', '1.'):
        C.scan('ScanIPv4', s, ref_ipv4, 4, False)


def words_and_lines(C):
    def pre(name, s, b):
        def f(F, W):
            W.text(SRC, s)
            ret, m, bad = W.run(F, W.cell(CUR, 8, ('c', SRC, 64)), W.text(EXT, b))
            if bad: return 'uses ' + bad[0]
            j = skip(s); ok = s.startswith(b, j)
            p = W.num(m, CUR, 8) - SRC
            if (ret[1] & 1) != ok or (p != j + len(b) if ok else not 0 <= p <= j): return 'answers %d and stops at %d' % (ret[1] & 1, p)
        C.case(name, '%r,%r' % (s, b), f)
    for n in ('Scan', 'ScanW'):
        for s, b in itertools.product(words(' ab', 3), ('', 'a', 'ab', 'aa', 'abb', 'b')): pre(n, s, b)

    def moving(name, s, ref, *more):
        def f(F, W):
            W.text(SRC, s)
            ret, m, bad = W.run(F, W.cell(CUR, 8, ('c', SRC, 64)), *more)
            if bad: return 'uses ' + bad[0]
            at, ok = ref(s)
            p = W.num(m, CUR, 8) - SRC
            if p != at or ok is not None and (ret[1] & 1) != ok: return 'stops at %d, expected %d' % (p, at)
        C.case(name, repr(s), f)
    line = lambda s: (s.index('\n') + 1, True) if '\n' in s else (len(s), False)
    for s in words('a\n ', 3):
        for n in ('SkipSpaces', 'SkipSpacesW'): moving(n, s, lambda s: (skip(s), None))
        for n in ('SkipLine', 'SkipLineW'): moving(n, s, line)
        moving('Go', s, line, ('c', 10, 8))

    def word(name, s, sep, size):
        def f(F, W):
            W.text(SRC, s); dst = W.area(DST, size)
            ret, m, bad = W.run(F, W.cell(CUR, 8, ('c', SRC, 64)), ('c', ord(sep), 8), dst, ('c', size, 32))
            if bad: return 'uses ' + bad[0]
            j = skip(s); e = j
            while e < len(s) and not (s[e] in SP if sep == ' ' else s[e] == sep): e += 1
            w = s[j:e]; stop = min(e + 1, len(s))
            got = W.str(m, DST) if size else ''
            p = W.num(m, CUR, 8) - SRC
            if got != w[:max(size - 1, 0)]: return 'gives %r' % (got,)
            if p != stop: return 'stops at %d, expected %d' % (p, stop)
            if (ret[1] & 1) != (got != ''): return 'answers %d' % (ret[1] & 1)
        C.case(name, '%r,%r,%d' % (s, sep, size), f)
    for n in ('ScanStr', 'ScanStrW'):
        for s in words('a, ', 3) + ['abc,def', 'abc def', '  ab\tcd', 'a b,c']:
            for sep in ', ':
                for z in (0, 1, 2, 3, 8): word(n, s, sep, z)


def encodings(C):
    S = [bytes((i * 37 + 11) & 255 for i in range(k)) for k in range(10)] + [bytes([x]) for x in (0, 1, 0x80, 0xff, 0x7f, 0xfb)] + [bytes([0xff] * 3), bytes([0, 0x10, 0x83, 0x10, 0x51, 0x87, 0x20, 0x92, 0x8b, 0x30, 0xd3, 0x8f, 0x41, 0x14, 0x93, 0x51, 0x55, 0x97, 0x61, 0x96, 0x9b, 0x71, 0xd7, 0x9f, 0x82, 0x18, 0xa3, 0x92, 0x59, 0xa7, 0xa2, 0x9a, 0xab, 0xb2, 0xdb, 0xaf, 0xc3, 0x1c, 0xb3, 0xd3, 0x5d, 0xb7, 0xe3, 0x9e, 0xbb, 0xf3, 0xdf, 0xbf])]

    def enc(b, size):
        def f(F, W):
            ret, m, bad = W.run(F, W.area(SRC, len(b), b.decode('latin1')), ('c', len(b), 32), W.area(DST, size), ('c', size, 32))
            if bad: return 'uses ' + bad[0]
            t = base64.b64encode(b).decode()
            if size > len(t): return None if W.str(m, DST) == t and place(ret) == (None, DST) else 'gives %r' % W.str(m, DST)
            got = ''.join(map(chr, (x or 0 for x in W.bytes(m, DST, size))))
            if size == len(t): return None if got == t else 'gives %r' % got
            g = got.split('\0')[0].rstrip('X')
            if not base64.b64encode(b).decode().startswith(g.rstrip('=')): return 'gives %r, which is no beginning of %r' % (g, t)
        C.case('base64_encode', '%s,%d' % (b[:8].hex() + '.' * (len(b) > 8), size), f)

    def dec(t, size, want):
        def f(F, W):
            ret, m, bad = W.run(F, W.area(SRC, len(t), t), ('c', len(t), 32), W.area(DST, size), ('c', size, 32))
            if bad: return 'uses ' + bad[0]
            n = signed(ret[1], 32)
            if n != min(len(want), size): return 'gives %d bytes instead of %d' % (n, len(want))
            got = W.bytes(m, DST, size)
            if got != list(want[:size]) + [0] * (size - n): return 'gives %s' % got
        C.case('base64_decode', '%r,%d' % (t[:12] + '.' * (len(t) > 12), size), f)
    for b in S:
        t = base64.b64encode(b).decode()
        for z in sorted({0, 1, 2, 3, 4, 5, 7, len(t), len(t) + 1, len(t) + 7}): enc(b, z)
        for z in sorted({0, 1, 2, 3, 4, len(b), len(b) + 1, len(b) + 5}): dec(t, z, b); dec(t.rstrip('='), z, b)
    for ch in range(256):
        ch = chr(ch)
        if ch not in 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/':
            dec(ch + 'AAA', 4, b''); dec('AA' + ch + 'A', 4, b'\0')
        else: dec('A' + ch + 'A', 4, base64.b64decode('A' + ch + 'A='))
    for t, w in (('', b''), ('A', b''), ('A=', b''), ('AA', b'\0'), ('AAAAA', b'\0\0\0'), ('AAA-AAAA', b'\0\0')): dec(t, 8, w)

    def tohex(name, b, fmt, size=None):
        def f(F, W):
            want = fmt(b)
            ret, m, bad = W.run(F, W.area(SRC, len(b), b.decode('latin1')), ('c', len(b) if size is None else size, 32), W.area(DST, len(want) + 1))
            if bad: return 'uses ' + bad[0]
            if W.str(m, DST) != want or place(ret) != (None, DST): return 'gives %r' % W.str(m, DST)
        C.case(name, b.hex()[:16] + '.' * (len(b) > 8) + (':%d' % size if size is not None else ''), f)
    for n in ('Hex2Str', 'Hex3Str'):
        for z in (-1, -5, -0x80000000): tohex(n, b'', lambda b: '', z)
    A = S + [bytes(range(i, i + 16)) for i in range(0, 256, 16)]
    for b in A:
        tohex('Hex2Str', b, lambda b: b.hex())
        tohex('Hex3Str', b, lambda b: ''.join('%02X ' % x for x in b))

    def guid(b):
        def f(F, W):
            h = b.hex(); want = '-'.join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))
            ret, m, bad = W.run(F, W.area(SRC, 16, b.decode('latin1')), W.area(DST, 37))
            if bad: return 'uses ' + bad[0]
            if W.str(m, DST) != want or place(ret) != (None, DST): return 'gives %r' % W.str(m, DST)
        C.case('GUID2Str', b.hex(), f)
    for i in range(0, 256, 16): guid(bytes(range(i, i + 16)))

    def fromhex(s, size):
        def f(F, W):
            W.text(SRC, s); W.area(DST, size)
            ret, m, bad = W.run(F, W.cell(CUR, 8, ('c', SRC, 64)), ('c', DST, 64), ('c', size, 32))
            if bad: return 'uses ' + bad[0]
            out = []; p = 0
            while len(out) < size:
                x = re.compile('[- ]?([0-9a-fA-F]{2})').match(s, p)
                if not x: break
                out.append(int(x.group(1), 16)); p = x.end()
            n = signed(ret[1], 32)
            if n != len(out) or W.bytes(m, DST, size) != out + [0] * (size - len(out)): return 'gives %d bytes %s' % (n, W.bytes(m, DST, size))
            if not p <= W.num(m, CUR, 8) - SRC <= min(p + 1, len(s)): return 'stops at %d' % (W.num(m, CUR, 8) - SRC)
        C.case('ScanHex', '%r,%d' % (s, size), f)
    for s in words('-0fG', 3) + ['0123456789abcdefABCDEF', '00-11 22', '00--11', '0', '01 ', '/0', ':0', '@0', 'G0', '`0', 'g0', '0/', '0:', '0@', '0G', '0`', '0g', '9b6aa6cc-7c5a-71c1-3fc7-ee1011ef309c', 'de ad be ef']:
        for z in (0, 1, 2, 4) + ((16,) if len(s) > 8 else ()): fromhex(s, z)


def numbers(C):
    def ref_get(s):
        if s is None: return None
        j = skip(s); neg = s[j:j + 1] == '-'; j += neg
        m = re.compile('0x([0-9a-fA-F]+)').match(s, j)
        if s[j:j + 2] == '0x': v = int(m.group(1), 16) if m else None
        else:
            m = re.compile('[0-9]+').match(s, j)
            v = int(m.group()) if m else None
        return v if v is None else -v if neg else v

    def get(s):
        def f(F, W):
            ret, m, bad = W.run(F, W.text(SRC, s) if s is not None else ('c', 0, 64))
            if bad: return 'uses ' + bad[0]
            v = ref_get(s)
            x = signed(ret[1], 32)
            if (x > -2147483646 if v is None else x != signed(v, 32)): return 'gives %d, expected %s' % (x, v)
        C.case('GetInt', repr(s), f)
    for s in [None] + words(' -0x9aG', 3) + ['0x7fffffff', '-0x10', '2147483647', '-2147483647', '0x/', '0x:', '0x@', '0xG', '0x`', '0xg', '0x1/', '0x1:', '0x1@', '0x1G', '0x1`', '0x1g', '0xabcdef', '0xABCDEF', '0x12345678', '0x90']: get(s)

    def ver(s):
        def f(F, W):
            ret, m, bad = W.run(F, W.text(SRC, s) if s is not None else ('c', 0, 64))
            if bad: return 'uses ' + bad[0]
            v = 0; p = 0
            for k in range(4):
                if s is None or p >= len(s): break
                p, x = ref_int(s, p)
                if x is None: break
                v |= max(0, min(255, x)) << 8 * (3 - k)
                if s[p:p + 1] != '.': break
                p += 1
            if ret[1] & 0xffffffff != v: return 'gives %x, expected %x' % (ret[1] & 0xffffffff, v)
        C.case('GetVersion', repr(s), f)
    for s in (None, '', '1', '1.2', '1.2.3', '1.2.3.4', '1.2.3.4.5', '300.1', '-1.2', 'x', '1.x', '1..2', '255.255.255.255', '0.0.0.1', '1-2', ' 7.8', '1.2.'): ver(s)

    def tostr(v):
        def f(F, W):
            ret, m, bad = W.run(F, ('c', v, 64), W.area(DST, 40))
            if bad: return 'uses ' + bad[0]
            at = place(ret)
            if at is None or not DST <= at[1] < DST + 40 or W.str(m, at[1]) != str(v): return 'gives %r' % (at and W.str(m, at[1]))
        C.case('Int64ToStr', str(v), f)
    def nowhere(F, W):
        ret, m, bad = W.run(F, ('c', 5, 64), ('c', 0, 64))
        if bad: return 'uses ' + bad[0]
        if ret != ('c', 0, 64): return 'gives a text'
    C.case('Int64ToStr', 'nowhere', nowhere)
    for v in [0, 1, -1, 9, 10, -9, -10, 99, 100, 2 ** 31, -2 ** 31, 2 ** 63 - 1, -2 ** 63 + 1, -2 ** 63] + [s * 10 ** k + d for k in range(1, 19) for s in (1, -1) for d in (0, -1)]: tostr(v)


def names(C):
    def ext(name, e, d, want):
        def f(F, W):
            p = lambda at, s: ('c', 0, 64) if s is None else W.text(at, s)
            ret, m, bad = W.run(F, p(SRC, name), p(EXT, e), p(DIR, d))
            if bad: return 'uses ' + bad[0]
            at = place(ret)
            got = None if ret == ('c', 0, 64) else W.str(m, at[1]) if at is not None else False
            if got != want: return 'gives %r, expected %r' % (got, want)
            if want is not None and at[1] not in W.heap: return 'gives no memory of its own'
        short = lambda s: repr(s) if s is None or len(s) < 40 else '%r...%d' % (s[:8], len(s))
        C.case('AllocFilenameChangeExt', ','.join(map(short, (name, e, d))), f)
    N = ('a.xml', 'src/a.xml', './a.xml', './././b', 'a', 'a.b.c', '/root/a.xml', 'dir.d/file', 'dir.d/file.xml', '../a.xml', '', '.', 'a.', 'x.y/z.w/n', '/a', 'dir.d/', 'a/.b')
    for n in (None,) + N:
        for e in (None, '', '.xb', '.longer'):
            for d in (None, 'build', 'out.d/sub'):
                if n is None: want = None
                else:
                    s = n
                    while s.startswith('./'): s = s[2:]
                    if d is not None: s = d + '/' + (s[1:] if s.startswith('/') else s)
                    if e is not None:
                        base = s.rfind('/') + 1
                        dot = s.rfind('.')
                        s = (s[:dot] if dot >= base else s) + e
                    want = s
                ext(n, e, d, want)
    for k in (4080, 4094, 4095): ext('n' * k, None, None, 'n' * k)
    ext('n' * 4000, None, 'd' * 90, 'd' * 90 + '/' + 'n' * 4000)

    def long(name, d):
        def f(F, W):
            ret, m, bad = W.run(F, W.text(SRC, name), W.text(EXT, '.xb'), ('c', 0, 64) if d is None else W.text(DIR, d))
            if bad: return 'uses ' + bad[0]
        C.case('AllocFilenameChangeExt', '%d,%s characters' % (len(name), d and len(d)), f)
    for k in (4095, 4096, 4097, 5000):
        long('n' * k, None); long('n', 'd' * k); long('n' * k, 'd' * 5); long('n' * k, 'd' * 4095)

    def ident(s, style):
        def f(F, W):
            ret, m, bad = W.run(F, W.text(SRC, s), W.text(EXT, style))
            if bad: return 'uses ' + bad[0]
            at = place(ret)
            got = []
            while at is not None and len(got) < 64:
                v = load(m, (at[0], at[1] + len(got)), 1)
                if v is None or v[0] != 'c': return 'gives an unknown text'
                if v[1] == 0: break
                got.append(chr(v[1] & 255))
            else: return 'gives a text without end'
            got = ''.join(got)
            if got and not re.fullmatch('[A-Za-z_][A-Za-z0-9_]*', got): return 'gives %r, which is no identifier' % got
            out = ''; up = 'U' in style; i = 0
            if s[:1].isdigit(): out = '_' + s[0]; i = 1
            while i < len(s) and len(out) < 63:
                ch = s[i]
                if re.match('[A-Za-z_]', ch) or out and ch in '0123456789':
                    out += ch.upper() if up or 'U!' in style else ch
                    up = False; i += 1
                elif ch in SP or ch == '-':
                    if '_' in style or ch == '-': out += '_'
                    elif 'U' in style: up = True
                    while i < len(s) and (s[i] in SP or s[i] == '-'): i += 1
                else: i += 1
            if got != out: return 'gives %r, expected %r' % (got, out)
        C.case('MakeIdent', '%r,%r' % (s if len(s) < 40 else s[:8] + '...%d' % len(s), style), f)
    for s in ('', 'a', 'abc', '9', '9a', 'a b', 'a  b', 'a-b', 'a - b', ' a', '-a', '\xe9a', 'a.b', '_x9', '99 z', 'a\tb-\nc', 'Zz', 'a9b', '.9', ' 9', '-9') + tuple('x' * k for k in (61, 62, 63, 64, 100)) + ('9' * 70, 'a ' * 40, 'a-' * 40, ' ' * 70 + 'x'):
        for st in ('', '_', 'U', 'U!', '_U'): ident(s, st)

    def length(s):
        def f(F, W):
            ret, m, bad = W.run(F, W.text(SRC, s))
            if bad: return 'uses ' + bad[0]
            x = re.match('[A-Za-z_][A-Za-z0-9_]*', s)
            if signed(ret[1], 32) != (x.end() if x else 0): return 'gives %d' % signed(ret[1], 32)
        C.case('GetIdentLen', repr(s), f)
    for s in words('a_9-', 3) + ['Zz09 x']: length(s)

    def same(a, b):
        def f(F, W):
            ret, m, bad = W.run(F, *(('c', 0, 64) if x is None else W.text(at, x) for at, x in ((SRC, a), (EXT, b))))
            if bad: return 'uses ' + bad[0]
            if (ret[1] & 1) != ((a or '') == (b or '')): return 'answers %d' % (ret[1] & 1)
        C.case('streq', '%r,%r' % (a, b), f)
    for a, b in itertools.product([None] + words('ab', 2), repeat=2): same(a, b)

    def end(s, e):
        def f(F, W):
            ret, m, bad = W.run(F, W.text(SRC, s), W.text(EXT, e))
            if bad: return 'uses ' + bad[0]
            want = s[:len(s) - len(e)] if s.endswith(e) else s
            if W.str(m, SRC) != want or (ret[1] & 1) != s.endswith(e): return 'leaves %r and answers %d' % (W.str(m, SRC), ret[1] & 1)
        C.case('EatEnd', '%r,%r' % (s, e), f)
    for s, e in itertools.product(words('ab', 3), words('ab', 2) + ['abab']): end(s, e)

    def move(s, part, space):
        def f(F, W):
            W.text(SRC, s); W.area(DST, max(space, 0))
            n = len(s) if part is None else part
            ret, m, bad = W.run(F, W.cell(CUR, 8, ('c', DST, 64)), ('c', DST + space, 64), W.cell(CUR + 8, 8, ('c', SRC, 64)), ('c', 0 if part is None else SRC + part, 64))
            if bad: return 'uses ' + bad[0]
            d, p = W.num(m, CUR, 8) - DST, W.num(m, CUR + 8, 8) - SRC
            ok = n <= space
            if (ret[1] & 1) != ok or (d, p) != ((n, n) if ok else (0, 0)): return 'answers %d and moves by %d and %d' % (ret[1] & 1, d, p)
            if ok and ''.join(map(chr, W.bytes(m, DST, n))) != s[:n]: return 'writes %r' % W.bytes(m, DST, n)
        C.case('StrWrite', '%r,%s,%d' % (s, part, space), f)
    for s in ('', 'a', 'abc', 'abcdef'):
        for part in (None,) + tuple(range(len(s) + 1)):
            for z in range(8): move(s, part, z)


def dates(C):
    """printed dates and times against the calendar"""
    days = set()
    for y in (1, 4, 100, 101, 400, 401, 1599, 1600, 1601, 1699, 1700, 1701, 1899, 1900, 1901, 1967, 1968, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2099, 2100, 2101, 2399, 2400, 2401, 9999):
        for mo in range(1, 13):
            a = datetime.date(y, mo, 1).toordinal() - EPOCH
            b = (datetime.date(y + mo // 12, mo % 12 + 1, 1).toordinal() - 1 if (y, mo) != (9999, 12) else datetime.date(9999, 12, 31).toordinal()) - EPOCH
            days |= {a, b} | ({b - 1} if mo == 2 else set())

    def day(d): return '%04d-%02d-%02d' % datetime.date.fromordinal(d + EPOCH).timetuple()[:3]

    def printed(name, v, want, room):
        def f(F, W):
            dst = W.area(DST, room)
            ret, m, bad = W.run(F, ('c', v & (1 << 64) - 1, 64) if name == 'UnixTime642Str' else C_(v), dst)
            if bad: return 'uses ' + bad[0]
            if ret != dst or W.str(m, DST) != want: return 'prints %r instead of %r' % (W.str(m, DST), want)
        C.case(name, str(v), f)
    for d in sorted(days): printed('UnixDate2Str', d, day(d), 11)
    D = 86400000
    for d in (0, -1, 1, -141428, 11016, 47540, 157113, -719162, 2932896):
        for t in (0, 1, 999, 1000, 59999, 60000, 3599999, 3600000, 45296789, D - 1000, D - 1):
            printed('UnixTime642Str', d * D + t, day(d) + ' %02d:%02d:%02d.%03d' % (t // 3600000, t // 60000 % 60, t // 1000 % 60, t % 1000), 24)


def masks(C):
    def f_(mask, s):
        def f(F, W):
            ret, m, bad = W.run(F, W.text(SRC, mask) if mask is not None else ('c', 0, 64), W.text(EXT, s))
            if bad: return 'uses ' + bad[0]
            got = ret[1] & 1
            if mask is None: return None if got else 'a missing mask refuses'
            rx = re.fullmatch(''.join('.*' if c == '*' else '.' if c == '?' else re.escape(c) for c in mask), s, re.S) is not None
            if got != rx: return 'answers %d' % got
        C.case('AdvEqual', '%r,%r' % (mask, s), f)
    f_(None, 'abc')
    for mask, s in itertools.product(words('ab*?', 3), words('ab', 3)): f_(mask, s)


def run(K):
    K.rule('Every helper is interpreted (sa/trace.py with contracts of the C library) for all texts over small alphabets up to a length and for the border cases of each of its loops and buffers; answers, texts and positions are compared with an '
           'independent definition of the helper, and every place it loads or stores must lie inside of the texts and buffers it was given.')
    K.assume('the C library functions used (strlen, strcmp, isspace, ...) do what their manual says; the C locale')
    C = Check(K)
    for g in (scanning, words_and_lines, encodings, numbers, names, dates, masks): g(C)
    K.minimum('calls', 3000)
