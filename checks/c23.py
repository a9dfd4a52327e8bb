"""C23: the hash is SHA-1 of all bytes, and sorting gives an ordered, stable arrangement of the same items."""
import hashlib, itertools
from sa.types import *
from sa.trace import *
from sa.libc import put

DATA, CTX, OUT, ARR, ARG, NAME = 0x2000000, 0x30000, 0x40000, 0x4000000, 0x50000, 0x60000
rot = lambda x, k: ('c', ((x << k % 32 | (x & 0xffffffff) >> (32 - k) % 32) & 0xffffffff) - ((1 << 32) if ((x << k % 32 | (x & 0xffffffff) >> (32 - k) % 32) >> 31) & 1 else 0), 32)


def sample(n): return bytes((i * 37 + 11 + (i >> 8)) & 255 for i in range(n))


def base(I, n, av, T, mem):
    """instructions and functions of the machine used by the hash"""
    a = I.raw.get('asm')
    if a is not None:
        op = str(a).split()[0]
        if op in ('rol', 'ror', 'roll', 'rorl') and len(av) == 2 and all(v is not None and v[0] == 'c' for v in av):
            k, x = av[0][1], av[1][1] & 0xffffffff
            return [(rot(x, k if op.startswith('rol') else 32 - k), None)]
        raise Lost('an unknown instruction', I.where)
    if n in ('ntohl', 'htonl') and av[0] is not None and av[0][0] == 'c':
        x = int.from_bytes((av[0][1] & 0xffffffff).to_bytes(4, 'little'), 'big')
        return [(('c', x - (1 << 32) if x >> 31 else x, 32), None)]
    return None


def outside(ev, areas):
    for x in ev:
        if x[0] in ('load', 'store', 'load?', 'store?'):
            at = x[2]
            if at is None: return 'an unknown place is used at ' + x[1].where
            if at[0] is None and not any(lo <= at[1] and at[1] + x[3] <= hi for lo, hi in areas): return 'a place outside is used at ' + x[1].where
    return None


def only(E):
    if len(E) != 1 or E[0].kind != 'ret': raise ValueError('it does not come back once')
    return E[0]


def got(mem, at, n): return [v[1] & 255 if v is not None and v[0] == 'c' else None for v in (load(mem, (None, at + i), 1) for i in range(n))]


def hashes(K, P):
    def defined(n):
        for F in P.find(n):
            if not F.decl: return F
        raise AnalysisBroken('%s is not there' % n)
    S, I, U, F = (defined(n) for n in ('SHA1', 'blk_SHA1_Init', 'blk_SHA1_Update', 'blk_SHA1_Final'))

    def ob(f, key, bad): K.ob('the hash is SHA-1 of all bytes', key, not bad, f.where, '%s: %s' % (key, bad)); K.count('hashes')

    g = P.globals.get('SHA1_NULL')
    if g is not None:
        z = [P.gload('SHA1_NULL', i, 1, force=True) for i in range(g['sz'])]
        K.ob('the hash of nothing known is all zero', 'SHA1_NULL', g['sz'] == 20 and g['const'] and all(x is not None and x[1] == 0 for x in z), S.where, 'SHA1_NULL is not twenty zero bytes'); K.count('hashes')

    def whole(n):
        b = sample(n); bad = None
        m = Mem(); put(m, (None, DATA), b.decode('latin1'))
        try:
            e = only(Trace(P, calls=base, limit=400000, decided=0).run(S, {0: ('c', DATA, 64), 1: ('c', n, 64), 2: ('c', OUT, 64)}, m))
            bad = outside(e.ev, [(DATA, DATA + n), (OUT, OUT + 20)])
            if not bad and got(e.mem, OUT, 20) != list(hashlib.sha1(b).digest()): bad = 'another hash'
            if not bad and e.ret != ('c', OUT, 64): bad = 'another place is answered'
        except (Lost, ValueError) as x: bad = str(x)
        ob(S, 'SHA1 of %d bytes' % n, bad)
    for n in (0, 1, 2, 3, 4, 31, 54, 55, 56, 57, 62, 63, 64, 65, 100, 118, 119, 120, 121, 127, 128, 129, 190, 256): whole(n)

    def parts(*ks):
        b = sample(sum(ks)); bad = None
        m = Mem(); put(m, (None, DATA), b.decode('latin1'))
        z = layout_size(P)
        areas = [(DATA, DATA + len(b)), (CTX, CTX + z), (OUT, OUT + 20)]
        try:
            e = only(Trace(P, calls=base, limit=400000, decided=0).run(I, {0: ('c', CTX, 64)}, m))
            at = DATA
            for k in ks:
                bad = bad or outside(e.ev, areas)
                e = only(Trace(P, calls=base, limit=400000, decided=0).run(U, {0: ('c', CTX, 64), 1: ('c', at, 64), 2: ('c', k, 64)}, e.mem)); at += k
            bad = bad or outside(e.ev, areas)
            e = only(Trace(P, calls=base, limit=400000, decided=0).run(F, {0: ('c', OUT, 64), 1: ('c', CTX, 64)}, e.mem))
            bad = bad or outside(e.ev, areas)
            if not bad and got(e.mem, OUT, 20) != list(hashlib.sha1(b).digest()): bad = 'another hash'
        except (Lost, ValueError) as x: bad = str(x)
        ob(U, 'hash of parts of %s bytes' % ', '.join(map(str, ks)), bad)
    for ks in ((1, 1), (63, 1), (1, 63), (1, 64), (64, 64), (65, 1), (3, 60, 1), (10, 54), (10, 55), (10, 118, 3), (64, 0, 1), (0,), (60, 10), (60, 70), (5, 5, 5), (40, 40, 40)): parts(*ks)

    # very long: the count of bytes needs more than 32 bits
    def counted(n):
        m = Mem(); bad = None
        o, s = 0, 8
        try:
            e = only(Trace(P, calls=base, limit=400000, decided=0).run(I, {0: ('c', CTX, 64)}, m))
            o = field_of(P, 'size')
            store(e.mem, (None, CTX + o), 8, ('c', n, 64))
            fed = []

            def calls(J, f, av, T, mem):
                if f == U.name:
                    k = av[2][1] if av[2] is not None and av[2][0] == 'c' else None
                    at = place(av[1])
                    if k is None or at is None: raise Lost('unknown bytes are hashed', J.where)
                    v = [load(mem, (at[0], at[1] + i), 1) for i in range(k)]
                    if None in v and at[0] is not None: v = [x if x is not None else P.gload(at[0][1], at[1] + i, 1) for i, x in enumerate(v)]
                    fed.extend(x[1] & 255 if x is not None and x[0] == 'c' else None for x in v)
                    return [(None, None)]
                return base(J, f, av, T, mem)
            only(Trace(P, calls=calls, limit=400000, decided=0).run(F, {0: ('c', OUT, 64), 1: ('c', CTX, 64)}, e.mem))
            want = [0x80] + [0] * ((55 - n) % 64) + list((8 * n & (1 << 64) - 1).to_bytes(8, 'big'))
            if fed != want: bad = 'the end of the message is %s instead of %s' % (fed, want)
        except (Lost, ValueError) as x: bad = str(x)
        ob(F, 'end of a message of %d bytes' % n, bad)
    for n in (0, 55, 56, 63, 64, 0x1fffffff, 0x20000000, 0xffffffff, 0x100000000, 0x123456789a): counted(n)


def field_of(P, n):
    L = [t for k, t in P.types.items() if {m['n'] for m in t['m']} >= {'size', 'H', 'W'}]
    L += [t for t in getattr(P, 'anon', []) if {m['n'] for m in t['m']} >= {'size', 'H', 'W'}]
    for t in L:
        for m in t['m']:
            if m['n'] == n: return m['o']
    return {'size': 0}[n]


def layout_size(P):
    for t in list(P.types.values()) + list(getattr(P, 'anon', [])):
        if {m['n'] for m in t['m']} >= {'size', 'H', 'W'}: return t['sz']
    return 96


def files(K, P):
    """file_getsha1 hashes the whole file"""
    G = next(f for f in P.find('file_getsha1') if not f.decl)
    sha = {f.name: k for k in ('blk_SHA1_Init', 'blk_SHA1_Update', 'blk_SHA1_Final') for f in P.find(k)}

    def one(size, cut, fail):
        """cut: how many bytes one read gives at most; fail: which request fails"""
        st = dict(pos=0, fed=[], inited=0, closed=0, hashed=None, failed=False, n=0)

        def answer(what, ok):
            st['n'] += 1
            if st['n'] == fail: st['failed'] = what; return [(('c', -1, 64), None)]
            return [(ok(), None)]

        def calls(I, n, av, T, mem):
            k = sha.get(n)
            if k == 'blk_SHA1_Init': st['inited'] += 1; st['fed'] = []; return [(None, None)]
            if k == 'blk_SHA1_Update':
                if av[2] is None or av[2][0] != 'c': raise Lost('an unknown number of bytes is hashed', I.where)
                if av[2][1]:
                    v = load(mem, place(av[1]), 8)
                    st['fed'].append((v, av[2][1]))
                return [(None, None)]
            if k == 'blk_SHA1_Final': st['hashed'] = list(st['fed']); return [(None, None)]
            if n in ('open', 'open64'): return answer('open', lambda: ('c', 7, 32))
            if n in ('close',): st['closed'] += 1; return answer('close', lambda: ('c', 0, 32))
            if n in ('read',):
                st['n'] += 1
                if st['n'] == fail: st['failed'] = 'read'; return [(('c', -1, 64), None)]
                if av[2] is None or av[2][0] != 'c': raise Lost('an unknown number of bytes is read', I.where)
                k = min(av[2][1], size - st['pos'], cut)
                at = st['pos']; st['pos'] += k; d = place(av[1])
                return [(('c', k, 64), (lambda m: store(m, d, 8, ('s', 'data', at))) if k else None)]
            if n == 'strerror': return [(('s', '&text', 0), None)]
            return None
        bad = None
        try:
            m = Mem(); put(m, (None, NAME), 'x\0')
            E = Trace(P, calls=calls, limit=20000).run(G, {0: ('c', NAME, 64), 1: ('c', OUT, 64)}, m)
            e = only(E)
            r = e.ret[1] & 1
            pos = 0
            for v, k in st['hashed'] or []:
                if v != ('s', 'data', pos): bad = 'other bytes are hashed'
                pos += k
            if st['failed'] not in (False, 'close') and r: bad = 'a failure of %s is answered as success' % st['failed']
            if not st['failed'] and not r: bad = 'failure is answered'
            if not bad and r and (st['hashed'] is None or st['inited'] != 1 or pos != size): bad = 'only %d of %d bytes are hashed' % (pos, size)
            if not bad and st['closed'] != (st['failed'] != 'open'): bad = 'the file is closed %d times' % st['closed']
        except (Lost, ValueError) as x: bad = str(x)
        K.ob('a file is hashed completely or refused', 'file of %d bytes, %s at once, failing request %s' % (size, cut, fail), not bad, G.where, 'a file of %d bytes, %d at once: %s' % (size, cut, bad))
        K.count('files')
    for size in (0, 1, 4095, 4096, 4097, 8192, 10000):
        for cut in (1 << 30, 4096, 1000): one(size, cut, 0)
    for size in (1, 9000):
        for f in range(1, 6): one(size, 1 << 30, f)


def sorting(K, P):
    def one(F, keys, stable):
        m = Mem()
        for i, k in enumerate(keys):
            store(m, (None, ARR + 8 * i), 4, ('c', k, 32)); store(m, (None, ARR + 8 * i + 4), 4, ('c', 1000 + i, 32))
        n = len(keys)
        T = None
        wrong = []

        def calls(I, f, av, T, mem):
            if f in ('_Znam', '_Znwm', 'malloc', 'calloc', '_ZnamRKSt9nothrow_t', '_ZnwmRKSt9nothrow_t') and all(a is not None and a[0] == 'c' for a in av[:1 + (f == 'calloc')]):
                T.areas += 1; a = 2 * FRAME + (T.areas << 24)
                T.stack[a] = av[0][1] * (av[1][1] if f == 'calloc' else 1)
                return [(('c', a, 64), (lambda mem: mem.__setitem__((None, a, T.stack[a]), ('fill', 0))) if f == 'calloc' else None)]
            if f in ('_ZdaPv', '_ZdlPv', '_ZdaPvm', '_ZdlPvm', 'free'): return [(None, None)]
            if f is not None or not I.raw.get('fp'): return None
            if len(av) < 3 or av[2] != ('c', ARG, 64): wrong.append('the comparison gets another argument'); raise Lost('another argument', I.where)
            v = []
            for p in av[:2]:
                at = place(p)
                x = load(mem, at, 4) if at is not None else None
                if x is None or x[0] != 'c' or at[0] is None and ARR - 64 < at[1] < ARR + 8 * n + 64 and not ARR <= at[1] < ARR + 8 * n: raise Lost('no item is compared', I.where)
                v.append(x[1])
            return [(('c', (v[0] > v[1]) - (v[0] < v[1]), 32), None)]
        bad = None
        try:
            T = Trace(P, calls=calls, limit=60000, depth=40, decided=0)
            e = only(T.run(F, {0: ('c', ARR, 64), 1: ('c', n, 32), 2: ('c', 8, 32), 3: ('s', '&compare', 0), 4: ('c', ARG, 64)}, m))
            r = []
            for i in range(n):
                a, b = load(e.mem, (None, ARR + 8 * i), 4), load(e.mem, (None, ARR + 8 * i + 4), 4)
                r.append((a[1], b[1] - 1000) if a is not None and b is not None else None)
            w = sorted((k, i) for i, k in enumerate(keys))
            if any(x is None for x in r): bad = 'an item is unknown'
            elif sorted(r) != w: bad = 'the items are %s' % r
            elif [k for k, i in r] != sorted(keys): bad = 'the order is %s' % [k for k, i in r]
            elif stable and r != w: bad = 'equal items change their order: %s' % r
            if not bad:
                bad = outside(e.ev, [(ARR, ARR + 8 * n)])
                if not bad and any(k[0] is None and (ARR - 64 < k[1] < ARR or ARR + 8 * n <= k[1] < ARR + 8 * n + 64) for k in e.mem): bad = 'something beside the items is changed'
            for k in e.mem:
                if not bad and k[0] is None and k[1] >= FRAME:
                    a = max((a for a in T.stack if a <= k[1]), default=None)
                    if a is not None and k[1] + k[2] > a + T.stack[a] and T.stack[a]: bad = 'a local buffer of %d bytes is too small' % T.stack[a]
        except (Lost, ValueError) as x: bad = wrong[0] if wrong else str(x)
        K.ob('items are sorted', '%s:%s' % (F.short, ''.join(map(str, keys))), not bad, F.where, '%s of %s: %s' % (F.short, keys, bad))
        K.count('arrangements')
    M = next(f for f in P.find('mergesort_r2') if not f.decl)
    Q = next(f for f in P.find('qsort_r2') if not f.decl)
    L = [p for n in range(6) for p in itertools.permutations(range(n))] + [p for n in range(2, 8) for p in itertools.product((0, 1), repeat=n)] + [p for p in itertools.product((0, 1, 2), repeat=4)]
    L += [tuple((i * 7 + 3) % k for i in range(k)) for k in (8, 9, 10, 11, 13, 15, 16, 17, 31, 33)] + [tuple(range(k, 0, -1)) for k in (6, 7, 8, 9, 16, 17)]
    for p in dict.fromkeys(L):
        one(M, p, True); one(Q, p, False)


def run(K):
    P = K.prog
    K.rule('The hash functions are interpreted (sa/trace.py; rotations and byte order of the machine by contract) for every border of a block and of the length of the message, and for messages given in parts; results are compared with an independent SHA-1. '
           'Sorting is interpreted for all arrangements of few items; the result must be ordered, hold every item once and (merge sort) keep the order of equal items.')
    K.assume('rol, ror, ntohl and htonl of the machine; the sorts use items only through comparison and copying')
    hashes(K, P); files(K, P); sorting(K, P)
    K.minimum('hashes', 40)
    K.minimum('arrangements', 400)
