"""C27: comparison and equality of typed values."""
import struct
from sa.types import *
from sa.trace import Trace, load, store

A0, B0 = 0x100000, 0x200000
INTS = {'INT32': 'i', 'INT32_DECI': 'i', 'INT32_CENTI': 'i', 'INT32_MILI': 'i', 'INT32_MICRO': 'i', 'INT32_NANO': 'i', 'INT64': 'q', 'UNIX_DATE': 'i', 'UNIX_TIME64_MSEC': 'q',
        'UINT32': 'I', 'UINT64': 'Q', 'UNIX_TIME': 'I', 'FLOAT': 'f', 'DOUBLE': 'd'}
BYTES = ('HEX', 'GUID', 'SHA1', 'IPv4', 'IPv6')
VALUES = {'i': (-2 ** 31, -2 ** 31 + 1, -65537, -256, -1, 0, 1, 255, 256, 65536, 2 ** 24 + 1, 2 ** 31 - 2, 2 ** 31 - 1),
          'I': (0, 1, 255, 256, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 2, 2 ** 32 - 1),
          'q': (-2 ** 63, -2 ** 63 + 1, -2 ** 32 - 1, -2 ** 32, -2 ** 31, -1, 0, 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 53 + 1, 2 ** 53, 2 ** 63 - 2, 2 ** 63 - 1),
          'Q': (0, 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 2, 2 ** 64 - 1),
          'f': (-3e38, -2.5, -1.0, -0.75, 0.0, 0.5, 0.75, 1.0, 1.5, 16777216.0, 3e38), 'd': (-1e300, -1e10, -1.0, -0.25, 0.0, 0.25, 0.75, 1.0, 1.0 + 2 ** -52, 1e10, 1e300)}
NULLV = -0x80000000


def put(mem, at, b):
    for i, x in enumerate(b): mem[None, at + i, 1] = ('c', x - 256 if x > 127 else x, 8)


def run(K):
    P = K.prog
    K.rule('The comparison is interpreted (sa/trace.py) for all pairs of boundary values of every ordered type, for byte and text values that differ at each position, and for all pairs of types and sizes; '
           'the answer must be negative, zero and positive exactly as the values are ordered. Equality and the search of a child by the value of its attribute are interpreted likewise.')
    T = Types(P)
    F = P.fn('XBT_Compare')
    w = F.where

    def cmp(ta, a, sa, tb, b, sb):
        """set of answers (None: not determined)"""
        mem = {}
        put(mem, A0, a); put(mem, B0, b)
        tr = Trace(P)
        return {e.ret[1] if e.kind == 'ret' and e.ret is not None and e.ret[0] == 'c' else None for e in tr.run(F, {0: C(ta), 1: ('c', A0, 64), 2: C(sa), 3: C(tb), 4: ('c', B0, 64), 5: C(sb)}, mem)}
    sign = lambda v: (v > 0) - (v < 0)

    def judge(n, key, got, want, what):
        K.count('comparisons')
        ok = len(got) == 1 and None not in got and sign(next(iter(got))) == want and (want == 0 or next(iter(got)) != NULLV)
        K.ob('the answer follows the order of the values', key, ok, w, '%s gives %s' % (what, sorted(str(x) for x in got)))
    for n, f in INTS.items():
        t = T.id[n]; sz = struct.calcsize(f)
        K.count('ordered types')
        for x in VALUES[f]:
            for y in VALUES[f]:
                judge(n, '%s:%s' % (n, 'less' if x < y else 'greater' if x > y else 'equal'), cmp(t, struct.pack('<' + f, x), sz, t, struct.pack('<' + f, y), sz), sign((x > y) - (x < y)), 'comparing %r with %r of type %s' % (x, y, n))
        for sa, sb in ((sz + 1, sz), (sz, sz - 1), (0, sz), (sz, 0), (sz * 2, sz * 2), (sz // 2, sz // 2), (0, 0)):
            got = cmp(t, bytes(16), sa, t, bytes(16), sb)
            K.ob('values of a wrong size are not equal', '%s:size:%d:%d' % (n, sa, sb), got == {NULLV}, w, 'values of type %s with sizes %d and %d compare as %s' % (n, sa, sb, sorted(str(v) for v in got)))
    for n in BYTES:
        t = T.id[n]
        K.count('byte and text types')
        L = {'GUID': 16, 'SHA1': 20, 'IPv4': 4, 'IPv6': 16}.get(n, 9)
        base = bytes((i * 29 + 5) & 127 for i in range(L))
        judge(n, n + ':equal', cmp(t, base, L, t, base, L), 0, 'comparing equal %s values' % n)
        for i in range(L):
            for d in (1, 0x80):
                up_ = bytearray(base); up_[i] += d
                judge(n, n + ':less', cmp(t, base, L, t, bytes(up_), L), -1, 'comparing %s values that differ at byte %d' % (n, i))
                judge(n, n + ':greater', cmp(t, bytes(up_), L, t, base, L), 1, 'comparing %s values that differ at byte %d' % (n, i))
        for k in (L - 1, L + 1, 0):
            got = cmp(t, base + b'x', L, t, base + b'x', k)
            K.ob('values of different length are not equal', n + ':length', None not in got and 0 not in got, w, '%s values of different length compare as %s' % (n, sorted(str(v) for v in got)))
    for n in ('STRING', 'BLOB_STRING'):
        t = T.id[n]
        K.count('byte and text types')
        words = sorted(['', 'a', 'A', 'ab', 'abc', 'abd', 'b', 'aB', 'z' * 20, 'z' * 19 + 'y', '\xe1', 'a\xe1'], key=lambda s: s.encode('latin1'))
        for i, x in enumerate(words):
            for j, y in enumerate(words):
                judge(n, n + ':' + ('less' if i < j else 'greater' if i > j else 'equal'), cmp(t, x.encode('latin1') + b'\0', len(x) + 1, t, y.encode('latin1') + b'\0', len(y) + 1), sign((i > j) - (i < j)), 'comparing "%s" with "%s"' % (x, y))
    # different types
    for a in T.all:
        for b in T.all:
            if a == b: continue
            K.count('pairs of different types')
            for sa, sb, d in ((4, 8, 0), (8, 4, 0), (4, 4, 1), (8, 8, 1)):
                x = bytes(range(1, 9)); y = bytearray(x); y[0] += d
                got = cmp(a, x, sa, b, bytes(y), sb)
                K.ob('values that cannot be compared are not equal', '%s:%s' % (T.names[a], T.names[b]), None not in got and 0 not in got, w, '%s of %d bytes and %s of %d bytes compare as %s' % (T.names[a], sa, T.names[b], sb, sorted(str(v) for v in got)))
    for a in T.all:
        n = T.names[a]
        if n in INTS or n in BYTES or n in ('STRING', 'BLOB_STRING'): continue
        got = cmp(a, bytes(8), 8, a, bytes(8), 8)
        K.ob('values that cannot be compared are not equal', '%s:%s' % (n, n), None not in got and 0 not in got, w, 'values of type %s compare as %s' % (n, sorted(str(v) for v in got)))
    equality(K, P, T)
    search(K, P, T)
    K.minimum('ordered types', 14)
    K.minimum('comparisons', 1500)
    K.minimum('equalities evaluated', 24)
    K.minimum('searches', 50)


def equality(K, P, T):
    E = P.fn('XBT_Equal')
    o = {m: field(P, 'XML_Binary_Data_Ref', m) for m in ('type', 'data', 'size')}
    DA, DB = 0x300000, 0x400000
    froms = {f.name for f in P.find('XBT_FromString')}

    def eq(ta, a, sa, tb, b, sb, conv=None):
        """(set of answers, conversions); conv: bytes a conversion stores, False: it fails"""
        log = []

        def calls(I, n, av, S, mem):
            if n in froms:
                log.append((av[0] and av[0][1], av[1] and av[1][1]))
                if conv is False or conv is None: return [(('c', 0, 1), None)]
                at = load(mem, (None, av[2][1]), 8)

                def eff(m):
                    p = up(at[1], T.align(av[1][1]) or 0)
                    put(m, p, conv); store(m, (None, av[2][1]), 8, ('c', p + len(conv), 64))
                return [(('c', -1, 1), eff)]
            return None
        mem = {}
        put(mem, DA, a); put(mem, DB, b)
        for base, t, d, s in ((A0, ta, DA, sa), (B0, tb, DB, sb)):
            store(mem, (None, base + o['type'][0]), 4, C(t)); store(mem, (None, base + o['data'][0]), 8, ('c', d, 64)); store(mem, (None, base + o['size'][0]), 4, C(s))
        ends = Trace(P, calls=calls).run(E, {0: ('c', A0, 64), 1: ('c', B0, 64)}, mem)
        return {(e.ret[1] & 1 if e.kind == 'ret' and e.ret is not None and e.ret[0] == 'c' else None) for e in ends}, log
    w = E.where
    for t in T.all:
        n = T.names[t]
        K.count('equalities evaluated')
        L = T.FIXED.get(n, 9)
        base = bytes((i * 29 + 5) & 127 for i in range(L))
        got, _ = eq(t, base, L, t, base, L)
        K.ob('equal values are equal', 'equal:%s:0' % n, got == {1}, w, 'equal %s values: %s' % (n, got))
        for i in range(L):
            x = bytearray(base); x[i] ^= 0x40
            got, _ = eq(t, base, L, t, bytes(x), L)
            K.ob('equality compares all bytes', 'equal:%s:%d' % (n, i), got == {0}, w, '%s values that differ at byte %d are equal' % (n, i))
        for k in (L - 1, 0):
            got, _ = eq(t, base, L, t, base, k)
            K.ob('values of different size are not equal', 'equal:%s:size' % n, got == {0}, w, '%s values of different size can be equal' % n)
        for u in T.all:
            if u == t: continue
            m = T.names[u]
            if 'STRING' in (n, m):
                got, _ = eq(t, b'12345678\0', 9, u, b'12345678\0', 9, False)
                K.ob('text that cannot be converted is not equal', 'equal:%s:%s' % (n, m), got == {0}, w, '%s and %s are equal although the conversion failed' % (n, m))
                src, dst = (DA, u) if n == 'STRING' else (DB, t)
                d = T.names[dst]
                if d not in T.FIXED and d != 'HEX' or d == 'IPv6': continue
                L2 = T.FIXED.get(d, 9)
                v = bytes((i * 31 + 3) & 127 for i in range(L2))
                for k in (None,) + tuple(range(L2)):
                    x = bytearray(v)
                    if k is not None: x[k] ^= 0x20
                    if n == 'STRING': got, log = eq(t, b'text\0', 5, u, bytes(x), L2, v)
                    else: got, log = eq(t, bytes(x), L2, u, b'text\0', 5, v)
                    K.ob('text is converted to the type of the other value', 'equal:conv:%s:%s' % (n, m), set(log) <= {(src, dst)}, w, 'comparing %s with %s converts %s' % (n, m, log))
                    if k is None: K.ob('text equals the value it converts to', 'equal:text:%s:%s' % (n, m), got == {1} or not log and got == {0}, w, 'a text is not equal to the %s it converts to' % d)
                    else: K.ob('text that converts to another value is not equal', 'equal:other:%s:%s' % (n, m), got == {0}, w, 'a text equals a %s that differs from its conversion at byte %d' % (d, k))
            else:
                got, _ = eq(t, base, L, u, base, L)
                K.ob('values of different types are not equal', 'equal:%s:%s' % (n, m), got == {0}, w, '%s and %s values can be equal' % (n, m))


def search(K, P, T):
    """the first child with an attribute of the searched value"""
    from checks.c16 import Heap, ptr, POOL
    F = P.fn('BW_element::findChildByParam')
    hdr = sizeof(P, 'BW_element')
    VAL = 0x700000
    for n in ('INT32', 'UINT32', 'INT64', 'UINT64', 'UNIX_DATE', 'GUID', 'STRING', 'IPv4', 'UNIX_TIME', 'UNIX_TIME64_MSEC'):
        t = T.id[n]
        L = T.FIXED.get(n, 9)
        for kids in range(0, 4):
            for want in [None] + list(range(kids)):
                for variant in ('plain', 'other attribute', 'other tag', 'second attribute', 'other type', 'twice'):
                    if want is None and variant in ('second attribute', 'twice'): continue
                    H = Heap(P)
                    root = 0x1000
                    cs = [0x2000 + 0x400 * i for i in range(kids)]
                    H.el(root, first_child=cs[0] if cs else 0)
                    H.ring(cs, identification=12)
                    v = b'abcdefgh\0' if n == 'STRING' else bytes((i * 31 + 3) & 127 for i in range(L))
                    z = b'abcdefgx\0' if n == 'STRING' else bytes((i * 31 + 3) & 127 ^ (i == L - 1) for i in range(L))
                    for i, c in enumerate(cs):
                        al = [c + 0x100, c + 0x180]
                        H.set(c, first_attribute=al[0])
                        H.ring(al, flags=0, value_type=t)
                        H.set(al[0], identification=5); H.set(al[1], identification=6)
                        put(H.mem, POOL + al[0] + hdr, v if i == want or variant == 'twice' and want is not None and i > want else z)
                        put(H.mem, POOL + al[1] + hdr, v if variant == 'other attribute' else z)
                        if variant == 'second attribute': H.set(al[0], identification=6); H.set(al[1], identification=5); put(H.mem, POOL + al[1] + hdr, v if i == want else z); put(H.mem, POOL + al[0] + hdr, z)
                        if variant == 'other tag' and i != want: H.set(c, identification=13); put(H.mem, POOL + al[0] + hdr, v)
                        if variant == 'other type' and i != want: H.set(al[0], value_type=T.id['BLOB']); put(H.mem, POOL + al[0] + hdr, v)
                    put(H.mem, VAL, v)
                    K.count('searches')
                    for e in Trace(P).run(F, {0: ptr(root), 1: C(12), 2: C(5), 3: C(t), 4: ('c', VAL, 64), 5: C(L)}, H.mem):
                        exp = ptr(cs[want]) if want is not None else ('c', 0, 64)
                        # a value of another type of the same size and bytes may count as equal
                        if variant == 'other type' and e.kind == 'ret' and T.size2(T.id['BLOB'], 0) == L: continue
                        K.ob('the first child with the value is found', 'find:%s:%s' % (n, variant), e.kind == 'ret' and e.ret == exp, e.where, 'searching %d children for a %s attribute (%s, at child %s) answers %s' % (kids, n, variant, want, 'nothing' if e.ret == ('c', 0, 64) else 'another child'))
