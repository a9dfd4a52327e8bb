"""C18: names registered in a writable document keep their ID, name and type."""
from sa.types import *
from sa.trace import *
from .c13 import Pool, PL, ptr0
from .c16 import POOL

NM = ('s', '&NAME', 0)
TABLES = ('tags', 'params')


class Doc(Pool):
    """a pool with two symbol tables; records are ID, type, name, zero, padding to four bytes"""

    def __init__(self, P, tags, params, index=(True, True), limit=0x100000, order=TABLES, gap=0, room=None):
        szp = sizeof(P, 'BW_pool')
        Pool.__init__(self, P, 0, limit, limit)
        self.t = {(k, n): (POOL + field(P, 'BW_pool', k)[0] + field(P, 'BW_symbol_table_16B', n)[0], 4) for k in TABLES for n in ('max_id', 'names_offset', 'index', 'flags')}
        at = szp
        ent = dict(tags=tags, params=params)
        self.rec = {}
        for k in order:
            L = ent[k]
            self.put(k, 'max_id', len(L) - 1); self.put(k, 'names_offset', at if L else 0); self.put(k, 'flags', 0); self.put(k, 'index', 0)
            self.rec[k] = []
            for i, (nm, ty) in enumerate(L):
                self.rec[k].append(at)
                b = [i & 255, i >> 8, ty] + [ord(c) for c in nm] + [0]
                while len(b) % 4: b.append(0)
                for x in b:
                    self.mem[None, POOL + at, 1] = ('c', x - 256 if x > 127 else x, 8); at += 1
            at += gap
        for k, w in zip(TABLES, index):
            if w and ent[k]:
                self.put(k, 'index', at)
                for r in self.rec[k]: self.mem[None, POOL + at, 4] = ('c', r, 32); at += 4
        self.end = at
        o, s = self.f['allocator']; store(self.mem, (None, POOL + o), s, ('c', at, 32))
        if room is not None:
            for n in ('allocator_limit', 'file_size'):
                o, s = self.f[n]; store(self.mem, (None, POOL + o), s, ('c', at + room, 32))
        for n, v in (('check_only', 0), ('check_failures', 0), ('initialized', 1)):
            o, s = field(P, 'BW_plugin', n); self.mem[None, PL + o, s] = ('c', v, s * 8)

    def put(self, k, n, v): a, s = self.t[k, n]; store(self.mem, (None, a), s, ('c', v, 32))

    def val(self, mem, k, n):
        a, s = self.t[k, n]
        v = load(mem, (None, a), s)
        return v[1] if v is not None and v[0] == 'c' else None

    def decode(self, mem, k):
        """[(name, type)] of the table or a text telling what is wrong"""
        n, at, end = self.val(mem, k, 'max_id'), self.val(mem, k, 'names_offset'), self.get(mem, 'allocator')
        if n is None or at is None or end is None: return 'the table is not determined'
        out = []
        idx = self.val(mem, k, 'index')
        for i in range(n + 1):
            b = [load(mem, (None, POOL + at + j), 1) for j in range(3)]
            if any(x is None or x[0] != 'c' for x in b): return 'record %d is not written' % i
            if (b[0][1] & 255) | (b[1][1] & 255) << 8 != i: return 'record %d has ID %d' % (i, (b[0][1] & 255) | (b[1][1] & 255) << 8)
            nm = ''
            while True:
                c = load(mem, (None, POOL + at + 3 + len(nm)), 1)
                if c is None or c[0] != 'c': return 'the name of record %d is not written' % i
                if c[1] == 0: break
                nm += chr(c[1] & 255)
            if idx:
                e = load(mem, (None, POOL + idx + 4 * i), 4)
                if e is None or e[1] != at: return 'the index of ID %d is wrong' % i
            out.append((nm, b[2][1]))
            at = up(at + 3 + len(nm) + 1, 4)
            if at > end: return 'record %d is outside of the used space' % i
        if idx and (idx < sizeof(self.P, 'BW_pool') or idx + 4 * (n + 1) > end): return 'the index is outside of the used space'
        return out


def put_name(mem, s, at=NM):
    for i, c in enumerate(s + '\0'): mem[at[:2], at[2] + i, 1] = ('c', ord(c), 8)


def pool_stores(e, D, but=()):
    """stores into the pool or the plugin"""
    return [x for x in e.ev if x[0] == 'store' and x[2][0] is None and (POOL <= x[2][1] < POOL + (1 << 24)) and x[2][1] not in but]


def lists():
    a = [('t%d' % i + 'xyzw'[:i % 4], 1 + i % 5) for i in range(300)]
    return a


def run(K):
    P = K.prog
    T = Types(P)
    K.rule('Abstract interpretation of registration, lookup and alteration of symbols on representative tables (empty, few symbols with all lengths modulo four, tables crossing the ID boundaries 128 and 256; indexed and not; '
           'contiguous or not; enough or not enough space). After every operation both tables are decoded and must contain exactly the expected names, IDs and types; '
           'in check mode and on failure nothing may be stored into the document.')
    K.assume('names are shorter than 256 characters; the order of record fields (ID, type, name, zero, padded to four bytes) is the format shared by all functions')
    gp = {f.name for f in P.find('BW_plugins::getPlugin')}

    def calls(I, n, av, TR, mem):
        if n in gp: return [(('c', PL, 64), None)]
        if n in ('ftruncate', 'ftruncate64'): return [(C(0), None), (C(-1), None)]
        return None

    def runs(F, a, D, key):
        K.count('cases')
        L = [e for e in Trace(P, calls=calls, limit=60000).run(F, a, D.mem) if e.kind == 'ret']
        K.need(L, F.short + ' does not return')
        return L
    full = lists()
    few = [[], full[:1], full[:2], full[:5]]
    big = [full[:127], full[:128], full[:129], full[:130], full[:256], full[:257]]

    def byname(D, L, k, this, nm, key):
        put_name(D.mem, nm)
        OFS, TYP = ('s', '&OFS', 0), ('s', '&TYP', 0)
        want = [i for i, x in enumerate(L) if x[0] == nm]
        for e in runs(P.fn('BW_symbol_table_16B::getByName'), {0: this, 1: ptr0(), 2: NM, 3: OFS, 4: TYP}, D, key):
            got = e.ret[1] if e.ret is not None and e.ret[0] == 'c' else '?'
            bad = None
            if got != (want[0] if want else -1): bad = 'ID is %s' % got
            elif want:
                o, t = load(e.mem, (OFS[:2], 0), 4), load(e.mem, (TYP[:2], 0), 4)
                if o is None or o[1] != D.rec[k][want[0]]: bad = 'place is %s' % (o and o[1])
                elif t is None or t[1] != L[want[0]][1]: bad = 'type is %s' % (t and t[1])
            if pool_stores(e, D): bad = 'the document is changed'
            K.ob('a name is found by its text', 'getByName:' + key, bad is None, e.where, 'looking for %s of %d %s: %s' % ('registered name' if want else 'a missing name', len(L), k, bad))

    # ---- names which are alike
    ALIKE = [('abc', 1), ('ab', 2), ('abcd', 3), ('ABC', 4), ('b', 5), ('aab', 1), ('bc', 2)]
    for k in TABLES:
        for idx in (False, True):
            for order in (1, -1):
                L = ALIKE[::order]
                D = Doc(P, L, L, (idx, idx))
                for nm in [x[0] for x in L] + ['', 'a', 'abcde', 'c', 'bcd', 'aa', 'B', 'Abc']:
                    byname(D, L, k, ('c', POOL + field(P, 'BW_pool', k)[0], 64), nm, '%s:alike:%s:%d:%s' % (k, 'indexed' if idx else 'sequential', order, nm))
                    fs = P.find('BW_plugin::' + ('registerTag' if k == 'tags' else 'registerParam'))
                    F = [f for f in fs if (len(f.args) if hasattr(f, 'args') else f.nargs) == 3][0]
                    D2 = Doc(P, L, L, (idx, idx), room=0x1000); put_name(D2.mem, nm)
                    ty = dict(L).get(nm, 7)
                    for e in runs(F, {0: ('c', PL, 64), 1: NM, 2: C(ty)}, D2, 'alike'):
                        mine = D2.decode(e.mem, k)
                        exp = L if nm in dict(L) else L + [(nm, ty)]
                        ok = e.ret is not None and e.ret[0] == 'c' and e.ret[1] == [x[0] for x in exp].index(nm) and mine == exp or not nm and e.ret is not None and e.ret[1] == -1 and mine == L
                        K.ob('names which are alike are different names', '%s:alike:%s:%s:%d' % (F.short, nm, idx, order), ok, e.where, '%s of "%s" beside %s answers %s, table %s' % (F.short, nm, ' '.join(x[0] for x in L), e.ret and e.ret[1], mine))

    # ---- lookups
    for k in TABLES:
        for L in few + big:
            for idx in (False, True):
                D = Doc(P, L if k == 'tags' else full[:2], L if k == 'params' else full[:2], (idx, idx))
                this = ('c', POOL + field(P, 'BW_pool', k)[0], 64)
                n = len(L)
                probe = [0, 1, n - 2, n - 1, n, n + 1, -200] if n <= 8 else [0, 126, 127, 128, n - 2, n - 1, n]
                for i in sorted(set(probe)):
                    if -100 < i < 0: continue
                    want = L[i] if 0 <= i < n else None
                    key = '%s:%d:%s:%d' % (k, n, 'indexed' if idx else 'sequential', i)
                    if i >= 0:
                        for e in runs(P.fn('BW_symbol_table_16B::getName'), {0: this, 1: ptr0(), 2: C(i)}, D, key):
                            got = None if e.ret is not None and e.ret[0] == 'c' and e.ret[1] == 0 else Trace(P).text(e.ret, e.mem) if e.ret is not None else '?'
                            K.ob('the name of an ID is found', 'getName:' + key, got == (want and want[0]) and not pool_stores(e, D), e.where, 'name of ID %d of %d %s is %s' % (i, n, k, got))
                    for e in runs(P.fn('BW_symbol_table_16B::getType'), {0: this, 1: ptr0(), 2: C(i)}, D, key):
                        got = None
                        if e.ret is None or e.ret[0] != 'c': got = '?'
                        elif e.ret[1]: got = e.ret[1] - POOL
                        exp = D.rec[k][i] + 2 if want else None
                        K.ob('the type of an ID is found', 'getType:' + key, got == exp and not pool_stores(e, D), e.where, 'place of the type of ID %d of %d %s is %s instead of %s' % (i, n, k, got, exp))
                    if i >= 0:
                        byname(D, L, k, this, want[0] if want else 'missing%d' % i, key)
                    if idx and n and i < n:
                        for g, ty in (('getTagType' if k == 'tags' else 'getAttrType', True), ('getTagName' if k == 'tags' else 'getAttrName', False)):
                            if i < 0: continue
                            for e in runs(P.fn('BW_pool::' + g), {0: ptr0(), 1: ('c', i, 16)}, D, key):
                                got = (e.ret[1] if e.ret is not None and e.ret[0] == 'c' else '?') if ty else Trace(P).text(e.ret, e.mem) if e.ret is not None else '?'
                                K.ob('declared name and type of an ID', g + ':' + key, got == want[1 if ty else 0] and not pool_stores(e, D), e.where, '%s of ID %d of %d is %s' % (g, i, n, got))
                for e in runs(P.fn('BW_symbol_table_16B::getNamesSize'), {0: this, 1: ptr0()}, D, 'size'):
                    exp = sum(up(4 + len(x[0]), 4) for x in L)
                    got = e.ret[1] if e.ret is not None and e.ret[0] == 'c' else '?'
                    K.ob('the size of the names is exact', 'getNamesSize:%s:%d:%d' % (k, n, idx), got == exp and not pool_stores(e, D), e.where, 'size of the names of %d %s is %s instead of %d%s' % (n, k, got, exp, ', and the table is changed' if pool_stores(e, D) else ''))

    # ---- registration
    SEQ = dict(registerTag0=('tags', True), registerAttr=('params', True), registerTag1=('tags', False), registerParam=('params', False))
    join = lambda a, b: T.fold('XBT_JoinTypes', {0: C(a), 1: C(b)})
    for what, (k, byid) in SEQ.items():
        fs = P.find('BW_plugin::' + what.rstrip('01'))
        fs = [f for f in fs if (len(f.args) if hasattr(f, 'args') else f.nargs) == (4 if byid else 3)] if len(fs) > 1 else fs
        K.need(len(fs) == 1, 'BW_plugin::%s is ambiguous' % what)
        F = fs[0]
        K.count('functions')
        other = 'params' if k == 'tags' else 'tags'
        oth = full[10:13]
        for L in few + [full[:127], full[:128], full[:129], full[:256]]:
            if not L and k == 'params' and False: continue
            for idx, order, gap in ((False, TABLES, 0), (True, TABLES, 0), (False, TABLES[::-1], 0), (False, TABLES, 64)):
                if len(L) > 8 and (gap or order != TABLES): continue
                for room in (0x10000, 0, 8):
                    n = len(L)
                    tries = [('new', ln) for ln in ('', 'x', 'xy', 'xyz')] + ([('again', 0), ('again', n - 1)] if n else [])
                    for kind, at in tries:
                        if byid and kind == 'again': continue
                        for same in ((True, False) if kind == 'again' else (True,)):
                            D = Doc(P, L if k == 'tags' else oth, L if k == 'params' else oth, (idx, idx), order=order, gap=gap, room=room)
                            nm = L[at][0] if kind == 'again' else 'brandnew' + at
                            ty = L[at][1] if kind == 'again' and same else T.id['INT64']
                            put_name(D.mem, nm)
                            a = {0: ('c', PL, 64)}
                            a.update({1: ('c', n, 16), 2: NM, 3: C(ty)} if byid else {1: NM, 2: C(ty)})
                            key = '%s:%d:%s%s:%s%s:%x' % (what, n, 'i' if idx else 's', gap, kind, at if at is not None else '', room) + ('' if same else ':retyped') + ('' if order == TABLES else ':swapped')
                            for e in runs(F, a, D, key):
                                ok = e.ret is not None and e.ret[0] == 'c' and (e.ret[1] & 1 if byid else e.ret[1] >= 0)
                                mine, their = D.decode(e.mem, k), D.decode(e.mem, other)
                                bad = None
                                if e.ret is None or e.ret[0] != 'c': bad = 'the answer is not determined'
                                elif their != oth: bad = 'the other table: ' + (their if isinstance(their, str) else 'it has changed')
                                elif D.get(e.mem, 'allocator') > D.get(e.mem, 'allocator_limit'): bad = 'the names exceed the file'
                                elif ok:
                                    exp = L + [(nm, ty)] if kind == 'new' else [x if i != at else (nm, ty if same else join(ty, x[1])) for i, x in enumerate(L)]
                                    wid = n if kind == 'new' else at
                                    if not byid and e.ret[1] != wid: bad = 'ID %d is answered instead of %d' % (e.ret[1], wid)
                                    elif isinstance(mine, str): bad = mine
                                    elif mine != exp: bad = 'the table has %d symbols instead of %d or a symbol is changed' % (len(mine), len(exp))
                                else:
                                    if kind == 'again': bad = 'a known name is refused'
                                    elif room > 0x1000: bad = 'a new name is refused although space is available'
                                    elif isinstance(mine, str): bad = mine + ' after a failure'
                                    elif mine != L: bad = 'the table is changed by a failure'
                                K.ob('a registration adds exactly the given symbol', key, bad is None, e.where, '%s (%s, %d known): %s' % (F.short, kind, n, bad))
        if not byid: continue
        # out of sequence and invalid
        for n in (0, 1, 3):
            for i in (-1, n - 1, n + 1, n + 200):
                if i >= -1 and i < n and i >= 0: pass
                D = Doc(P, full[:n] if k == 'tags' else oth, full[:n] if k == 'params' else oth, (False, False))
                put_name(D.mem, 'other')
                for e in runs(F, {0: ('c', PL, 64), 1: ('c', i, 16), 2: NM, 3: C(1)}, D, 'seq'):
                    ok = e.ret is not None and e.ret[1] & 1
                    mine = D.decode(e.mem, k)
                    K.ob('an ID that cannot be stored is refused', '%s:%d:seq:%d' % (what, n, i), not ok and mine == full[:n] or (ok and mine == full[:n] + [('other', 1)] and i == n), e.where, '%s accepts ID %d of %d, the table cannot hold it' % (F.short, i, n))
        for nm, a in (('no name', {1: ('c', 1, 16), 2: ('c', 0, 64), 3: C(1)}), ('negative type', {1: ('c', 1, 16), 2: NM, 3: C(-1)}), ('unknown type', {1: ('c', 1, 16), 2: NM, 3: C(T.last)})):
            D = Doc(P, full[:1], full[:1], (False, False)); put_name(D.mem, 'other'); a[0] = ('c', PL, 64)
            for e in runs(F, a, D, nm):
                K.ob('invalid declarations are refused', what + ':' + nm, e.ret is not None and not e.ret[1] & 1 and not pool_stores(e, D), e.where, '%s accepts %s' % (F.short, nm))
        # check mode
        for n in (3, 130):
            for i in (0, n - 1, n, -1, -2):
                for nmok in (True, False):
                    for tok in (True, False):
                        for co in ('check',):
                            D = Doc(P, full[:n] if k == 'tags' else oth, full[:n] if k == 'params' else oth)
                            o, s = field(P, 'BW_plugin', 'check_only'); D.mem[None, PL + o, s] = ('c', 1, 8)
                            have = full[i] if 0 <= i < n else ('zz', 3)
                            put_name(D.mem, have[0] if nmok else have[0] + 'q')
                            for e in runs(F, {0: ('c', PL, 64), 1: ('c', i, 16), 2: NM, 3: C(have[1] if tok else 9)}, D, 'check'):
                                ok = e.ret is not None and bool(e.ret[1] & 1)
                                o2, s2 = field(P, 'BW_plugin', 'check_failures')
                                cf = load(e.mem, (None, PL + o2), s2)
                                exp = 0 <= i < n and nmok and tok
                                bad = 'answers %s' % ok if ok != exp else 'stores into the document' if pool_stores(e, D) else 'does not count the failure' if cf is None or cf[1] != (0 if exp else 1) else None
                                K.ob('checking compares and never changes', '%s:check:%d:%d:%d%d' % (what, n, i, nmok, tok), bad is None, e.where, '%s of ID %d (%s name, %s type) %s' % (F.short, i, 'same' if nmok else 'other', 'same' if tok else 'other', bad))

    # ---- alteration
    conv = enum(P, 'XBT_CONVERTABLE')
    for what, k in (('alterTag', 'tags'), ('alterAttr', 'params')):
        F = P.fn('BW_plugin::' + what)
        K.count('functions')
        for a in T.all:
            for b in T.all:
                c = T.fold('XBT_ConvertableType', {0: C(a), 1: C(b)})
                if c is None: continue
                L = [('x', 1), ('yy', a), ('zzz', 2)]
                D = Doc(P, L, L)
                for e in runs(F, {0: ('c', PL, 64), 1: ('c', 1, 16), 2: C(b)}, D, what):
                    ok = e.ret is not None and bool(e.ret[1] & 1)
                    mine, their = D.decode(e.mem, k), D.decode(e.mem, 'params' if k == 'tags' else 'tags')
                    exp = [L[0], ('yy', b if c == conv else a), L[2]]
                    K.ob('a type is altered only to a convertible one', '%s:%s:%s' % (what, T.names[a], T.names[b]), ok == (c == conv) and mine == exp and their == L, e.where, '%s from %s to %s (%sconvertible) answers %s, table %s' % (what, T.names[a], T.names[b], '' if c == conv else 'not ', ok, 'changed' if mine != L else 'unchanged'))
        for i, t in ((-1, 1), (3, 1), (-20, 1), (1, -1), (1, T.last)):
            L = [('x', 1), ('yy', 1), ('zzz', 2)]; D = Doc(P, L, L)
            for e in runs(F, {0: ('c', PL, 64), 1: ('c', i, 16), 2: C(t)}, D, what):
                K.ob('an unknown symbol or type is not altered', '%s:%d:%d' % (what, i, t), e.ret is not None and not e.ret[1] & 1 and not pool_stores(e, D), e.where, '%s of ID %d to type %d is accepted' % (what, i, t))

    # ---- index tables, opening, clearing
    for short in ('BW_pool::makeTable', 'BW_symbol_table_16B::Open'):
        F = P.fn(short)
        K.count('functions')
        for k in TABLES:
            for L in few + [full[:128], full[:129], full[:257]]:
                for idx in (False, True):
                    for room in (0x10000, 0, 8):
                        D = Doc(P, L if k == 'tags' else full[10:13], L if k == 'params' else full[10:13], (idx, idx), room=room)
                        tb = ('c', POOL + field(P, 'BW_pool', k)[0], 64)
                        mk = short.endswith('makeTable')
                        key = '%s:%s:%d:%d:%x' % (short.split('::')[1], k, len(L), idx, room)
                        for e in runs(F, {0: ptr0() if mk else tb, 1: tb if mk else ptr0()}, D, key):
                            ok = e.ret is not None and bool(e.ret[1] & 1)
                            mine, their = D.decode(e.mem, k), D.decode(e.mem, 'params' if k == 'tags' else 'tags')
                            bad = None
                            if isinstance(mine, str) and (ok or 'index' not in mine): bad = mine
                            elif isinstance(their, str): bad = their
                            elif their != full[10:13] or not isinstance(mine, str) and mine != L: bad = 'a table is changed'
                            elif D.get(e.mem, 'allocator') > D.get(e.mem, 'allocator_limit'): bad = 'the table exceeds the file'
                            elif ok and mk and L and not D.val(e.mem, k, 'index'): bad = 'no index is made'
                            elif ok and not mk and (D.val(e.mem, k, 'index') or D.val(e.mem, k, 'names_offset') + sum(up(4 + len(x[0]), 4) for x in L) != D.get(e.mem, 'allocator')): bad = 'the names do not end at the end of the used space'
                            elif not ok and room > 0x1000: bad = 'it fails although space is available'
                            K.ob('index and opening keep all symbols', key, bad is None, e.where, '%s of %d %s: %s' % (short, len(L), k, bad))
    # ---- the end of the registration
    F = P.fn('BW_plugin::allRegistered')
    K.count('functions')
    for A, B in ((few[-1], few[-1]), (few[-1], []), (few[0], []), (full[:130], full[:3])):
        for idx in ((True, True), (False, False), (True, False), (False, True)):
            for co, cf in ((0, 0), (1, 0), (1, 1), (1, 3)):
                D = Doc(P, A, B, idx, room=0x10000)
                for n, v in (('check_only', co), ('check_failures', cf)):
                    o, s = field(P, 'BW_plugin', n); D.mem[None, PL + o, s] = ('c', v, s * 8)
                key = 'allRegistered:%d:%d:%d%d:%d:%d' % (len(A), len(B), idx[0], idx[1], co, cf)
                for e in runs(F, {0: ('c', PL, 64)}, D, key):
                    ok = e.ret is not None and bool(e.ret[1] & 1)
                    a, b = D.decode(e.mem, 'tags'), D.decode(e.mem, 'params')
                    bad = None
                    if ok != (cf == 0): bad = 'answers %s after %d failed checks' % (ok, cf)
                    elif isinstance(a, str) or isinstance(b, str): bad = a if isinstance(a, str) else b
                    elif (a, b) != (A, B): bad = 'a symbol is lost or changed'
                    elif ok and (A and not D.val(e.mem, 'tags', 'index') or B and not D.val(e.mem, 'params', 'index')): bad = 'an index is missing'
                    K.ob('the registration ends with an answer about all names', key, bad is None, e.where, '%s of %d elements and %d attributes %s' % (F.short, len(A), len(B), bad))
    F = P.fn('BW_plugin::Clear')
    K.count('functions')
    for A in few + [full[:130]]:
        for B in few:
            if not A and B: continue                             # attributes need elements
            for order, gap in ((TABLES, 0), (TABLES, 512), (TABLES[::-1], 0), (TABLES[::-1], 8), (TABLES[::-1], 4096), (TABLES, 8192)):
                D = Doc(P, A, B, (True, True), order=order, gap=gap)
                D.mem[None, POOL + D.end, 256] = ('fill', 0x55)
                o, s = D.f['allocator']; store(D.mem, (None, POOL + o), s, ('c', D.end + 256, 32))
                o, s = D.f['root']; store(D.mem, (None, POOL + o), s, ('c', D.end, 32))
                key = 'Clear:%d:%d:%s:%d' % (len(A), len(B), order[0], gap)
                for e in runs(F, {0: ('c', PL, 64)}, D, key):
                    ok = e.ret is not None and bool(e.ret[1] & 1)
                    a, b = D.decode(e.mem, 'tags'), D.decode(e.mem, 'params')
                    bad = None
                    if not ok: bad = 'it fails'
                    elif isinstance(a, str) or isinstance(b, str): bad = a if isinstance(a, str) else b
                    elif (a, b) != (A, B): bad = 'a symbol is lost or changed'
                    elif D.get(e.mem, 'root') != 0: bad = 'the root is kept'
                    elif A and not D.val(e.mem, 'tags', 'index') or B and not D.val(e.mem, 'params', 'index'): bad = 'an index is missing'
                    elif D.get(e.mem, 'allocator') > D.end + 256: bad = 'the space of the elements is not released'
                    else:
                        end = D.get(e.mem, 'allocator')
                        for o in range(up(end, 4), D.end + 256, 4):
                            v = load(e.mem, (None, POOL + o), 4)
                            if v is not None and v[0] == 'c' and v[1] != 0: bad = 'released space is not cleared'; break
                    K.ob('clearing keeps the symbols and nothing else', key, bad is None, e.where, 'clearing a document with %d elements and %d attributes: %s' % (len(A), len(B), bad))
    K.minimum('cases', 1500)
    K.minimum('functions', 10)
