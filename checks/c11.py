"""C11: symbol tables of a document are complete, ordered and found by their names."""
from sa.types import *
from sa.trace import *
from sa.sccp import Sccp

CR, TAB, TYP, NM, HEAP, SRCOBJ, EL = 0x6000000, 0xc000000, 0xd000000, 0xa000000, 0xe000000, 0x5000000, 0xb000000
ITEM = 0x7000000
WORDS = ['', 'A', 'B1', 'Z', 'a', 'a-b', 'a.b', 'aa', 'ab', 'abc', 'abd', 'b', 'ba', 'item', 'items', 'z', 'zz', '\xe9t\xe9', '\xff']
CAP = 32768


def A(v): return ('c', v, 64)


class Tables:
    def __init__(self, P, tables):
        """tables: two lists of (name, type)"""
        self.P = P
        self.fo = {n: field(P, 'Bin_xml_creator', n)[0] for n in ('symbol_table', 'symbol_table_types', 'symbol_count', 'src')}
        self.mem = {}
        self.at = {}
        self.next = NM
        for t, L in enumerate(tables):
            self.mem[None, CR + self.fo['symbol_table'] + 8 * t, 8] = A(TAB + t * 0x100000)
            self.mem[None, CR + self.fo['symbol_table_types'] + 8 * t, 8] = A(TYP + t * 0x100000)
            self.mem[None, CR + self.fo['symbol_count'] + 4 * t, 4] = C(len(L))
            for i, (nm, ty) in enumerate(L):
                self.mem[None, TAB + t * 0x100000 + 8 * i, 8] = A(self.word(nm))
                self.mem[None, TYP + t * 0x100000 + i, 1] = ('c', ty, 8)

    def word(self, s):
        a = self.next; self.next += 0x40
        for i, ch in enumerate(s + '\0'): self.mem[None, a + i, 1] = ('c', sx(ord(ch), 8), 8)
        return a

    def decode(self, T, m, t):
        n = self.num(m, CR + self.fo['symbol_count'] + 4 * t, 4)
        a, b = self.num(m, CR + self.fo['symbol_table'] + 8 * t, 8), self.num(m, CR + self.fo['symbol_table_types'] + 8 * t, 8)
        if n is None or not 0 <= n <= 4096: return None
        out = []
        for i in range(n):
            p = self.num(m, a + 8 * i, 8) if a else None
            s = T.text(A(p), m) if p else None
            y = self.num(m, b + i, 1) if b else None
            out.append((s, y & 255 if y is not None else None))
        return out

    def num(self, m, at, s):
        v = load(m, (None, at), s)
        return v[1] if v is not None and v[0] == 'c' else None


def run(K):
    P = K.prog
    K.rule('Abstract interpretation of search and insertion on ordered tables of every size up to seven (and 33 and the limit), for each present name and each gap, with each outcome of allocation; '
           'of both constructions of the tables from sources; and of the search of the reader on the same tables. The resulting memory is decoded: it must hold exactly the expected names in order with their types.')
    K.assume('strcmp orders names; the combination of types is judged by C07')
    names = lambda *l: {f.name for s in l for f in P.find(s)}
    join, det, det2 = names('XBT_JoinTypes'), names('XBT_Detect'), names('XBT_Detect2')
    unmute = names('XTNR2str', 'XPNR2str')
    J = lambda a, b: 100 + 10 * min(a, b) + max(a, b)
    D2 = lambda v, old: J(old, 4 if v % 0x40 == 0 else 4)
    FA, FT, FI = P.fn('Bin_xml_creator::FindOrAdd'), P.fn('Bin_xml_creator::FindOrAddTyped'), P.fn('Bin_xml_creator::Find')
    K.count('functions', 6)

    def tr(hook, **kw):
        T = Trace(P, calls=hook, limit=200000, depth=20, **kw)
        T.mute -= unmute
        return T

    def base(I, n, av, T, m, nomem=True):
        if n in join:
            return [(C(J(av[0][1], av[1][1])), None)] if all(x is not None and x[0] == 'c' for x in av[:2]) else [(None, None)]
        if n in det: return [(C(4), None)]
        if n in det2: return [(C(J(4, av[1][1])), None)] if av[1] is not None and av[1][0] == 'c' else [(None, None)]
        if n == 'malloc':
            k = (load(m, (('heap',), 0), 8) or (0, 0))[1]
            def eff(m): store(m, (('heap',), 0), 8, A(k + 1))
            sz = av[0][1] if av[0] is not None and av[0][0] == 'c' else None
            r = [(A(HEAP + k * 0x100000), lambda m: (eff(m), m.__setitem__((('size',), k, 1), ('c', sz if sz is not None else -1, 64))))]
            if nomem: r.append((A(0), None))
            return r
        if n == 'free': return [(None, None)]
        return None

    for n in (0, 1, 2, 3, 4, 5, 6, 7, len(WORDS) // 2, 33):
        W = WORDS if n <= 9 else ['w%03d' % i for i in range(2 * n + 1)]
        inside = [W[2 * i + 1] for i in range(n)] if 2 * n + 1 <= len(W) else W[1:n + 1]
        out = [w for w in W[:2 * n + 1] if w not in inside]
        if n > 9: out = out[:3] + out[-2:] + [out[n // 2]]
        asked = inside if n <= 9 else inside[:2] + inside[-2:] + [inside[n // 2]]
        L = [(w, 1 + i % 9) for i, w in enumerate(inside)]
        other = [('a', 3), ('zzz', 5)]
        for t in range(2):
            for nm in asked + out + ([None] if n < 3 else []):
                for F, kind in ((FI, 'search'), (FA, 'text'), (FT, 'typed')):
                    B = Tables(P, [L, other] if t == 0 else [other, L])
                    a = B.word(nm) if nm is not None else 0
                    val = B.word('12')
                    K.count('cases')
                    T = tr(base)
                    E = [e for e in T.run(F, {0: A(CR), 1: A(a), 2: C(t), 3: A(val) if kind == 'text' else C(4)}, B.mem)]
                    E = [e for e in E if e.kind == 'ret']
                    key = '%s:%d:%d:%s' % (kind, t, n, ''.join(c if c.isalnum() and ord(c) < 128 else '_%x' % ord(c) for c in nm) if nm is not None else 'null')
                    K.ob('search and insertion end', key + ':ends', bool(E), F.blocks[0][0].where, 'the operation with a name %s a table of %d does not return' % ('in' if nm in inside else 'not in', n))
                    fine = [e for e in E if not any(x[0] == 'call' and x[2] == 'malloc' and x[4][1] == 0 for x in e.ev)]
                    K.ob('search and insertion can succeed', key + ':can', bool(fine), F.blocks[0][0].where, 'the operation with a name %s a table of %d cannot succeed' % ('in' if nm in inside else 'not in', n))
                    for e in E:
                        r = e.ret[1] if e.ret is not None and e.ret[0] == 'c' else None
                        got, oth = B.decode(T, e.mem, t), B.decode(T, e.mem, 1 - t)
                        failed = any(x[0] == 'call' and x[2] == 'malloc' and x[4][1] == 0 for x in e.ev)
                        want, ans = list(L), -1
                        if nm in inside:
                            ans = inside.index(nm)
                            if kind != 'search': want[ans] = (nm, J(4, want[ans][1]) & 255)
                        elif nm is not None and kind != 'search' and not failed:
                            ans = sum(1 for w in inside if w < nm)
                            want.insert(ans, (nm, 4))
                        K.ob('the position of a name is answered', key + ':ret', r == ans, e.where, 'for a name %s a table of %d, position %s is answered, expected %d' % ('in' if nm in inside else 'not in', n, r, ans))
                        bad = None
                        if got != want:
                            bad = 'it holds %s names, expected %d' % (len(got) if got is not None else 'an undetermined number of', len(want)) if got is None or len(got) != len(want) else \
                                'entry %d is wrong' % [i for i in range(len(want)) if got[i] != want[i]][0]
                        elif oth != other: bad = 'the other table was changed'
                        elif kind != 'search' and nm not in inside and nm is not None and not failed:
                            p = B.num(e.mem, TAB + t * 0x100000 + 8 * ans, 8)
                            if p == a: bad = 'the name is not copied'
                            else:
                                sz = load(e.mem, (('size',), (p - HEAP) >> 20), 1)
                                if p is None or sz is None or sz[1] < len(nm) + 1: bad = 'the copy of the name has just %s bytes' % (sz[1] if sz else '?')
                        K.ob('the table stays ordered and complete', key, bad is None, e.where, 'after %s of a name %s a table of %d, %s' % ('search' if kind == 'search' else 'insertion', 'in' if nm in inside else 'not in', n, bad))

    # ---- a full table
    word = lambda i: 'w%05d' % i

    def lazy(I, a, m):
        if a[0] != 'c': return None
        for t in range(2):
            o = a[1] - TAB - t * 0x100000
            if 0 <= o < 8 * CAP and o % 8 == 0 and I.raw['sz'] == 8: return A(0x20000000 + (o // 8) * 0x10)
            o = a[1] - TYP - t * 0x100000
            if 0 <= o < CAP and I.raw['sz'] == 1: return ('c', 3, 8)
        return None

    def txt(v, T, m):
        if v is not None and v[0] == 'c' and 0x20000000 <= v[1] < 0x20000000 + 0x10 * CAP: return word((v[1] - 0x20000000) // 0x10)
        return T.text(v, m) if v is not None else None

    for t in range(2):
        for q, ans in ((word(0), 0), (word(CAP - 1), CAP - 1), (word(CAP // 2), CAP // 2), (word(1234), 1234), ('a', -1), ('x', -1), (word(77) + 'x', -1)):
            for F, kind in ((FI, 'search'), (FA, 'text'), (FT, 'typed')):
                B = Tables(P, [[], []])
                for u in range(2): B.mem[None, CR + B.fo['symbol_count'] + 4 * u, 4] = C(CAP)
                a, val = B.word(q), B.word('12')

                def full(I, n, av, T, m):
                    if n == 'strcmp':
                        x, y = txt(av[0], T, m), txt(av[1], T, m)
                        if x is not None and y is not None: return [(C((x > y) - (x < y)), None)]
                    if n == 'fprintf': return [(C(0), None)]
                    return base(I, n, av, T, m)
                K.count('cases')
                E = [e for e in tr(full, loads=lazy).run(F, {0: A(CR), 1: A(a), 2: C(t), 3: A(val) if kind == 'text' else C(4)}, B.mem) if e.kind == 'ret']
                K.need(E, '%s does not return' % F.short)
                for e in E:
                    st = [x for x in e.ev if x[0] == 'store' and x[2][0] is None and (x[2][1] >= TAB + t * 0x100000 + 8 * CAP or x[2][1] < TAB) and TAB <= x[2][1] < HEAP and not TYP <= x[2][1] < TYP + 0x100000 + CAP]
                    n = B.num(e.mem, CR + B.fo['symbol_count'] + 4 * t, 4)
                    r = e.ret[1] if e.ret is not None and e.ret[0] == 'c' else None
                    K.ob('a full table refuses new names', 'full:%s:%d:%s' % (kind, t, q), r == ans and n == CAP and not st, e.where, 'with a full table, position %s is answered, expected %d; it then holds %s names' % (r, ans, n))

    # ---- built-in names
    S = Sccp(P)
    def builtin_name(fn, i):
        v = S.run(P.fn(fn), {0: ('c', i, 16)}).ret()
        return P.gstring(v[1], v[2]) if v is not None and v[0] == 'g' else None
    for fn, first, last, t in (('XTNR2str', enum(P, 'XTNR_NULL'), enum(P, 'XTNR_LAST'), 0), ('XPNR2str', enum(P, 'XPNR_NULL'), enum(P, 'XPNR_LAST'), 1)):
        seen = {}
        for i in range(first, last, -1):
            s = builtin_name(fn, i)
            K.ob('built-in names are distinct', 'builtin:%s:%d' % (fn, i), s is not None and s not in seen and s != '__reserved__', 'src/bin_xml.cpp', 'the built-in name %d is %r like %s' % (i, s, seen.get(s)))
            seen[s] = i
            if i == first: continue
            findable = t == 1 or i in (enum(P, 'XTNR_ET_TECERA'), enum(P, 'XTNR_TRANSACTION'))
            for L in ([], [(x, 3) for x in ('aa', 'mm', 'zz')], [(s, 3)]):
                B = Tables(P, [L, [('q', 1)]] if t == 0 else [[('q', 1)], L])
                a = B.word(s)
                K.count('cases')
                for e in tr(base).run(FI, {0: A(CR), 1: A(a), 2: C(t)}, B.mem):
                    if e.kind != 'ret': continue
                    r = e.ret[1] if e.ret is not None and e.ret[0] == 'c' else None
                    ok = (0, i) if L and L[0][0] == s else (i,) if findable else (-1,)
                    K.ob('built-in names are found', 'find:%s:%d:%d' % (fn, i, len(L)), r in ok, e.where, 'the built-in name %r is found as %s, the reader shows %d by this name' % (s, r, i))

    # ---- the reader
    GI, GS, GT = (P.fn('_XB_symbol_table::' + x) for x in ('getID', 'getSymbol', 'getType'))
    rf = {n: field(P, '_XB_symbol_table', n) for n in ('count', 'type_count', 'reference_array', 'type_array', 'item_container')}
    K.count('functions', 3)
    for n in (0, 1, 2, 3, 4, 5, 6, 7, 9, 33):
        W = WORDS if n <= 9 else ['w%03d' % i for i in range(2 * n + 1)]
        inside = [W[2 * i + 1] for i in range(n)] if 2 * n + 1 <= len(W) else W[1:n + 1]
        mem = {}
        R = CR
        def put(k, v):
            o, s = rf[k]; mem[None, R + o, s] = ('c', v, 8 * s)
        put('count', n); put('type_count', n); put('reference_array', ITEM + 0x100 if n else 0); put('type_array', ITEM + 0x100 + 4 * n if n else 0); put('item_container', ITEM)
        p = 0x1000
        for i, w in enumerate(inside):
            mem[None, ITEM + 0x100 + 4 * i, 4] = C(p); mem[None, ITEM + 0x100 + 4 * n + i, 1] = ('c', 1 + i % 9, 8)
            for ch in w + '\0': mem[None, ITEM + p, 1] = ('c', sx(ord(ch), 8), 8); p += 1
        for j, w in enumerate(W[:2 * n + 1]):
            m = dict(mem)
            for i, ch in enumerate(w + '\0'): m[None, NM + i, 1] = ('c', sx(ord(ch), 8), 8)
            K.count('cases')
            E = [e for e in tr(None).run(GI, {0: A(R), 1: A(NM)}, m)]
            K.ob('the reader ends its search', 'reader:%d:%d:ends' % (n, j), any(e.kind == 'ret' for e in E), GI.blocks[0][0].where, 'a search in %d names does not end' % n)
            for e in E:
                want = inside.index(w) if w in inside else -1
                K.ob('the reader finds each name', 'reader:%d:%d' % (n, j), e.ret is not None and e.ret[0] == 'c' and e.ret[1] == want, e.where, 'in a table of %d names, %r is found at %s, expected %d' % (n, w, e.ret[1] if e.ret else None, want))
        for i in list(range(-3, n + 3)) + [32767, -32768]:
            K.count('cases')
            for e in tr(None).run(GS, {0: A(R), 1: ('c', i, 16)}, mem):
                v = e.ret
                if 0 <= i < n: ok = v is not None and v[0] == 'c' and tr(None).text(v, mem) == inside[i]
                else: ok = v is not None and v[0] == 'g'
                K.ob('the reader shows the name of each ID', 'name:%d:%d' % (n, i), ok, e.where, 'ID %d of %d names leads to another name' % (i, n))
            for e in tr(None).run(GT, {0: A(R), 1: ('c', i, 16)}, mem):
                want = 1 + i % 9 if 0 <= i < n else enum(P, 'XBT_NULL')
                K.ob('the reader shows the type of each ID', 'type:%d:%d' % (n, i), e.ret is not None and e.ret[0] == 'c' and e.ret[1] == want, e.where, 'ID %d of %d names leads to another type' % (i, n))

    sources(K, P, tr, base, J)
    K.minimum('cases', 1000)


def sources(K, P, tr, base, J):
    """construction of the tables from a source"""
    CT, MT = P.fn('Bin_xml_creator::CopySymbolTable'), P.fn('Bin_xml_creator::MakeSymbolTable')
    unk = enum(P, 'XBT_UNKNOWN')
    sets = ([], [['m', 'm']], [['b', 'a', 'c']], [['x', 'y'], ['x', 'q', 'x']], [[w for w in reversed(WORDS[1:8])], ['k']])
    for binary in (True, False):
        for nodes in sets:
            for attrs in sets:
                flat, flatp = [w for l in nodes for w in l], [w for l in attrs for w in l]
                for F, copy in ((CT, True), (MT, False)):
                    if copy and not binary: continue
                    B = Tables(P, [[], []])
                    for t in range(2):
                        B.mem[None, CR + B.fo['symbol_table'] + 8 * t, 8] = A(0); B.mem[None, CR + B.fo['symbol_table_types'] + 8 * t, 8] = A(0)
                    B.mem[None, CR + B.fo['src'], 8] = A(SRCOBJ)
                    B.mem[None, SRCOBJ, 8] = ('g', '_ZTVN9pklib_xml9BW_pluginE', 16)
                    addr = [B.word(w) for w in flat]; paddr = [B.word(w) for w in flatp]
                    vals = B.word('12')
                    tw = [4]
                    ty = lambda i: unk if i % 5 == 4 else 1 + i % 4

                    def each(T, fn, calls, m):
                        ms = [m]
                        for args in calls:
                            ms = [e.mem for x in ms for e in T.run_(P.funcs[fn], dict(enumerate(args)), x, 1, None) if e.kind == 'ret']
                        return ms

                    eff = become

                    def hook(I, n, av, T, m):
                        if n and 'plugin' in n:
                            cb = av[1][1] if len(av) > 1 and av[1] is not None and av[1][0] == 'g' else None
                            if 'getSymbolCount' in n: return [(C(len(flat) if av[1][1] == 0 else len(flatp)), None)]
                            if 'getSymbol' in n:
                                i, L = av[2][1], addr if av[1][1] == 0 else paddr
                                return [(A(L[i]), lambda m: store(m, place(av[3]), 4, C(ty(i))))]
                            if 'getRoot' in n: return [(A(EL), None)]
                            if 'getNodeName' in n: return [(A(addr[av[1][1] - EL]), None)]
                            if 'getNodeValue' in n: return [(A(vals), None)]
                            if 'ForAllChildrenRecursively' in n and cb: return [(None, eff(x)) for x in each(T, cb, [[A(EL + i), av[3], C(0)] for i in range(len(addr))], m)]
                            if 'ForAllBinParams' in n and cb:
                                if not binary: return [(('c', 0, 1), None)]
                                L = [[A(p), C(0), C(1 + i % 4), A(vals), av[2], av[3]] for i, p in enumerate(paddr)] if av[2] == A(EL) else []
                                return [(('c', -1, 1), eff(x)) for x in each(T, cb, L, m)]
                            if 'ForAllParams' in n and cb:
                                L = [[A(p), A(vals), av[2], av[3]] for p in paddr] if av[2] == A(EL) else []
                                return [(None, eff(x)) for x in each(T, cb, L, m)]
                            return None
                        return base(I, n, av, T, m, nomem=False)
                    K.count('cases')
                    T = tr(hook)
                    E = [e for e in T.run(F, {0: A(CR)}, B.mem) if e.kind == 'ret']
                    key = '%s:%d:%d:%d' % (F.short.split('::')[1], binary, sets.index(nodes), sets.index(attrs))
                    K.ob('construction of the tables ends', key + ':ends', bool(E), F.blocks[0][0].where, 'construction of tables of %d tags and %d attributes does not return' % (len(flat), len(flatp)))
                    for e in E:
                        r = e.ret[1] & 1 if e.ret is not None and e.ret[0] == 'c' else None
                        if copy and not flat:
                            K.ob('a source without symbols is not copied', key, r == 0, e.where, 'symbols of a source without symbols are copied'); continue
                        bad = None
                        for t, (L, what) in enumerate(((flat, 'tags'), (flatp, 'attributes'))):
                            if not copy and t == 1 and not flat: L = []
                            got = B.decode(T, e.mem, t)
                            want = {}
                            for i, w in enumerate(L):
                                y = ty(i) if copy else 4 if t == 0 or not binary else 1 + i % 4
                                if copy and y == unk: continue
                                want[w] = y if w not in want else J(y, want[w]) & 255
                            if got != sorted(want.items()): bad = 'the table of %s is %s, expected %s' % (what, got, sorted(want.items()))
                            p = B.num(e.mem, CR + B.fo['symbol_table'] + 8 * t, 8)
                            if not bad and want and (p is None or not HEAP <= p < HEAP + (1 << 28)): bad = 'the table of %s does not outlive its construction' % what
                        K.ob('the tables hold all names of the source', key, r == 1 and bad is None, e.where, 'for a %s source with %d tags and %d attributes, %s' % ('binary' if binary else 'text', len(flat), len(flatp), bad or 'failure is reported'))
