"""C14: typed values are stored into writable documents completely, where declared and nowhere else."""
from sa.types import *
from sa.trace import *
from .c16 import Heap, POOL, ELEMENT, DELETED, ptr

X, E, PL, D = 0x2000, 0x8000, 0x5000000, 0x6000000
N = 5                                                # length of the text or block handed over
LBL = ('s', 'VAL', 0)
SRC = ('s', '&VAL', 0)
HDR = 24
# method -> (natural declared type, kind of value)
ATTR = {'attrNull': ('NULL', None), 'attrStr': ('STRING', 'text'), 'attrStr2': ('STRING', 'range'), 'attrBLOB': ('BLOB', 'block'), 'attrHEX': ('HEX', 'block'), 'attrInt32': ('INT32', 'val'),
        'attrUInt32': ('UINT32', 'val'), 'attrInt64': ('INT64', 'val'), 'attrUInt64': ('UINT64', 'val'), 'attrFloat': ('FLOAT', 'val'), 'attrDouble': ('DOUBLE', 'val'), 'attrGUID': ('GUID', 'bytes'),
        'attrSHA1': ('SHA1', 'bytes'), 'attrTime': ('UNIX_TIME', 'val'), 'attrTime64': ('UNIX_TIME64_MSEC', 'val'), 'attrHexStr': (None, 'text'), 'attrIPv4': (None, 'text'), 'attrIPv6': (None, 'text')}
TAG = {'tag': ('NULL', None), 'tagStr': ('STRING', 'text'), 'tagBLOB': ('BLOB', 'block'), 'tagHEX': ('HEX', 'block'), 'tagInt32': ('INT32', 'val'), 'tagInt64': ('INT64', 'val'), 'tagFloat': ('FLOAT', 'val'),
       'tagGUID': ('GUID', 'bytes'), 'tagSHA1': ('SHA1', 'bytes'), 'tagTime': ('UNIX_TIME', 'val'), 'tagTime64': ('UNIX_TIME64_MSEC', 'val'), 'tagHexStr': (None, 'text'), 'tagUInt32': (None, 'val'),
       'tagUInt64': (None, 'val'), 'tagDouble': (None, 'val'), 'tagIPv4': (None, 'text'), 'tagIPv6': (None, 'text')}
POOLTAG = {'tag': ('NULL', None), 'tagInt32': ('INT32', 'val'), 'tagInt64': ('INT64', 'val'), 'tagString': ('STRING', 'text'), 'tagTime': ('UNIX_TIME', 'val'), 'tagSHA1': ('SHA1', 'bytes')}
SET = {'tagSetInt32': ('INT32', 'val'), 'tagSetInt64': ('INT64', 'val'), 'tagSetString': ('STRING', 'text'), 'tagSetTime': ('UNIX_TIME', 'val'), 'tagSetSHA1': ('SHA1', 'bytes'), 'tag': ('NULL', None)}
RAW = {'GUID': 16, 'SHA1': 20}


class Model:
    """environment of a writing call: declared type t, allocation may fail, the heap around the owner"""

    def __init__(self, P, T, t):
        self.P = P; self.T = T; self.t = t
        nm = lambda *l: {f.name for s in l for f in P.find(s)}
        self.types = nm('BW_pool::getTagType', 'BW_pool::getAttrType')
        self.names = nm('BW_pool::getTagName', 'BW_pool::getAttrName', 'BW_element::getName')
        self.newel = nm('BW_pool::new_element'); self.alloc = nm('BW_pool::allocate', 'BW_pool::allocate8')
        self.space = nm('BW_plugin::makeSpace'); self.plug = nm('BW_plugins::getPlugin'); self.conv = nm('XBT_FromString')
        self.H = Heap(P)
        pf = field(P, 'BW_pool', 'file_size')
        store(self.H.mem, (None, POOL + pf[0]), pf[1], ('c', 0x100000, 32))
        o, s = field(P, 'BW_plugin', 'pool'); self.H.mem[None, PL + o, s] = ('c', POOL, 64)
        self.H.mem[None, PL, 8] = ('g', '_ZTVN9pklib_xml9BW_pluginE', 16)
        self.room = None

    def calls(self, I, n, av, T, mem):
        if n in self.types: return [(C(self.t), None)]
        if n in self.names: return [(('s', '&name', 0), None)]
        if n in self.newel:
            ty, sz = av[1], av[2]
            if ty is None or ty[0] != 'c' or sz is None or sz[0] != 'c': return [(None, None)]
            n2 = self.T.size2(ty[1], sz[1])
            if n2 is None or n2 < 0: return [(ptr(0), None)]
            def eff(m):
                kill(m, None, POOL + E, HDR + n2)
                m[None, POOL + E, HDR + n2] = ('fill', 0)
                h = Heap(self.P); h.mem = m
                h.set(E, offset=E, next=E, prev=E, value_type=ty[1])
                if self.T.names[ty[1]] in VARS: store(m, (None, POOL + E + HDR), 4, C(n2 - 4))
                m[('room',), 0, 0] = ('c', n2, 32)
            return [(ptr(E), eff), (ptr(0), None)]
        if n in self.alloc:
            sz = av[1]
            if sz is None or sz[0] != 'c': return [(None, None)]
            if sz[1] <= 0: return [(ptr(0), None)]
            def eff2(m):
                kill(m, None, POOL + E, sz[1]); m[None, POOL + E, sz[1]] = ('fill', 0)
                m[('room',), 0, 0] = ('c', sz[1] - HDR, 32)
            return [(ptr(E), eff2), (ptr(0), None)]
        if n in self.space: return [(('c', -1, 1), None), (('c', 0, 1), None)]
        if n in self.plug: return [(('c', PL, 64), None), (ptr(0), None)]
        if n == 'strlen' and av[0] == SRC: return [(('c', N, 64), None)]
        if n == 'strlen' and av[0] == ('c', D, 64): return [(('c', N, 64), None)]
        if n in ('strcpy', 'strncpy', 'stpcpy'):
            return [(av[0], None)]
        return None


VARS = ('BLOB', 'HEX', 'BLOB_STRING')


def value_args(F, kind, first, null=False):
    """bindings of the value arguments"""
    s = ptr(0) if null else SRC
    if kind == 'val': return {first: LBL}
    if kind in ('text', 'bytes'): return {first: s}
    if kind == 'range': return {first: s, first + 1: ('s', '&VAL', N) if not null else ptr(0)}
    if kind == 'block': return {first: s, first + 1: C(N)}
    return {}


def source(kind):
    """the bytes handed over"""
    if kind == 'text': return [97 + i for i in range(N)] + [0]
    if kind == 'range': return [97 + i for i in range(N + 1)]
    return [(97 + i) * (i % 3 != 1) for i in range(24)]


PROG = []


def text_of(v): return PROG[0].gstring(v[1], v[2]) if v is not None and v[0] == 'g' and v[1] in PROG[0].globals else None


def written(e, at):
    """[(offset, count or None, what)] of everything written into the value behind the header of the element"""
    out = []
    for x in e.ev:
        if x[0] == 'store' and x[2][0] is None and at <= x[2][1] < at + (1 << 20): out.append((x[2][1] - at, x[3], ('store', x[4])))
        if x[0] == 'call' and x[2]:
            b = x[2].split('.')[1] if x[2].startswith('llvm.mem') else x[2]
            if b in ('memcpy', 'memmove', 'strcpy', 'strncpy', 'stpcpy', 'memset') and x[3][0] is not None and x[3][0][0] == 'c' and at <= x[3][0][1] < at + (1 << 20):
                n = x[3][2] if len(x[3]) > 2 else None
                g = text_of(x[3][1])
                cnt = (N if g is None else len(g)) + 1 if b in ('strcpy', 'stpcpy') else n[1] if n is not None and n[0] == 'c' else None
                out.append((x[3][0][1] - at, cnt, (b, x[3][1])))
    return out


def judge(M, e, t, kind, nat, null=False, at=None):
    """why the value was not stored completely into the new element (None: it was)"""
    T, H = M.T, M.H
    n = T.names[t]
    at = POOL + E + HDR if at is None else at
    rm = e.mem.get((('room',), 0, 0))
    room = rm[1] if rm else None
    w = [x for x in written(e, at)]
    hdr = [x for x in w if x[2][0] == 'store' and n in VARS and x[0] == 0 and x[1] == 4]
    for o, c, what in w:
        if c is None: return 'an undetermined number of bytes is written'
        if room is not None and (o < 0 or o + c > room): return '%d bytes are written at offset %d of a value of %d bytes' % (c, o, room)
    pre = 4 if n in VARS else 0
    if pre:
        v = load(e.mem, (None, at), 4)
        if v is None or v[0] != 'c' or room is None or v[1] + 4 > room or v[1] < (N if kind == 'block' else N + 1 if kind == 'text' else 0): return 'the size in front of the value is %s' % (v and v[1])
    if kind == 'val':
        width = T.size2(t)
        if room is not None and width != room: return 'the value has %s bytes and its type %s' % (room, width)
        v = load(e.mem, (None, at), width)
        okv = v is not None and v[0] == 's' and (v == LBL or v[1][:1] == ('trunc',) and v[1][1] == width * 8 and v[1][2] == 'VAL' and v[2] == 0)
        st = [x for x in w if x[2][0] == 'store' and x[0] == 0]
        if not okv: return 'the value is not stored'
        if any(c != width for o, c, _ in st): return 'a value of %d bytes is stored as %d bytes' % (width, st[0][1])
        return None
    if kind is None: return None
    copies = [x for x in w if x[2][0] in ('memcpy', 'memmove', 'strcpy', 'strncpy', 'stpcpy') and x[2][1] == SRC]
    if null: return None if not copies else 'the missing value is copied'
    if not copies:                                        # copied byte by byte
        cnt = RAW[n] if kind == 'bytes' and n in RAW else N
        got = [load(e.mem, (None, at + pre + i), 1) for i in range(cnt + 1)]
        if any(got[i] is None or got[i][0] != 'c' or got[i][1] & 255 != v for i, v in enumerate(source(kind)[:cnt])): return 'the value is not copied'
        if kind in ('text', 'range') and (got[cnt] is None or got[cnt][0] != 'c' or got[cnt][1] & 255): return 'the text is not terminated'
        if room is not None and room < pre + cnt + (kind in ('text', 'range')): return 'there is no room for the value'
        return None
    if len(copies) != 1: return 'the value is not copied once'
    o, c, (fn, _) = copies[0]
    if o != pre: return 'the value is copied to offset %d' % o
    if kind in ('block', 'bytes') and fn not in ('memcpy', 'memmove'): return 'a block with zero bytes is copied as a text'
    if kind == 'bytes':
        raw = RAW[n] if n in RAW else None
        if c != raw: return '%d bytes of a value of %s bytes are copied' % (c, raw)
    if kind == 'block' and c != N: return '%d bytes of a value of %d bytes are copied' % (c, N)
    if kind in ('text', 'range'):
        if c < N: return 'only %d of %d characters are copied' % (c, N)
        if fn in ('memcpy', 'memmove', 'strncpy') and c == N:
            z = load(e.mem, (None, at + pre + N), 1)
            zs = [x for x in w if x[0] == pre + N and x[1] == 1 and x[2] == ('store', ('c', 0, 8))]
            if not zs and (z is None or z[0] != 'c' or z[1] != 0): return 'the text is not terminated'
        if room is not None and room < pre + N + 1: return 'there is no room for the terminator'
    return None


def width_class(T, t):
    n = T.names[t]
    if n in ('INT64', 'UINT64', 'DOUBLE', 'UNIX_TIME64_MSEC'): return 8
    if n in VARS: return 'var'
    if n in ('STRING', 'NULL', 'GUID', 'SHA1', 'IPv6', 'VARIANT'): return n
    return 4


def run(K):
    P = K.prog
    PROG[:] = [P]
    K.rule('Abstract interpretation (trace partitioning) of every writing method for every declared value type, with allocation answered by success or failure: a success must leave exactly one new element with the '
           'given name, the declared type, the whole value at its place within the allocated room and linked into the owner exactly once; a refused type, a failed allocation or a missing owner must leave the lists unchanged and answer nothing.')
    T = Types(P)

    def group(cls, table, flag, owner):
        for name, (nat, kind) in table.items():
            F = pick(P, cls + '::' + name, 0 if name == 'tag' else None)
            K.count('methods')
            done = False
            for t in T.all:
                n = T.names[t]
                for lists in (0, 2) if owner else (0,):
                    for null in ((False, True) if kind in ('text', 'bytes', 'range', 'block') else (False,)):
                        M = Model(P, T, t); H = M.H
                        A = [0x1000, 0x1040][:lists]; mine, other = ('first_child', 'first_attribute') if flag else ('first_attribute', 'first_child')
                        H.ring(A, flags=flag); H.el(X, **{mine: A[0] if A else 0, other: 0x1100}); H.el(0x1100, flags=1 - flag)
                        a = {0: ptr(X) if owner else ('c', POOL, 64) if cls == 'BW_pool' else ('c', PL, 64), 1: ('c', 0x123, 16)}
                        a.update(value_args(F, kind, 2, null))
                        if name == 'attrInt32': a[3] = ptr(0)
                        if not null and kind in ('text', 'range', 'block', 'bytes'):
                            for i, b in enumerate(source(kind)): H.mem[SRC[:2], i, 1] = ('c', b, 8)
                        TR = Trace(P, calls=M.calls)
                        K.count('cases')
                        key = '%s::%s:%s%s%s' % (cls, name, n, ':null' if null else '', ':%d' % lists if lists else '')
                        for e in TR.run(F, a, H.mem):
                            if e.kind != 'ret': continue
                            made = [x for x in e.ev if x[0] == 'call' and x[2] in M.newel | M.alloc and x[4] == ptr(E)]
                            lst = A + [E]
                            ok_owner = H.rings_ok(e.mem, lst) is None and H.get(e.mem, X, mine) == lst[0] if owner else True
                            same_owner = (H.rings_ok(e.mem, A) is None and H.get(e.mem, X, mine) == (A[0] if A else 0) and H.get(e.mem, X, other) == 0x1100) if owner else True
                            succ = e.ret == (ptr(X) if owner else ptr(E))
                            if succ and owner and not made:
                                K.ob('nothing is stored only when there is nothing to store', key, null and same_owner, e.where, '%s answers success for declared type %s without storing the value' % (F.short, n))
                                continue
                            if succ:
                                bad = None
                                if n == 'VARIANT' and kind is not None: pass
                                elif nat is not None and n != nat and width_class(T, n_id(T, nat)) != width_class(T, t) and not (cls == 'BW_plugin' and name == 'tag') and not (name == 'tagStr' and n == 'BLOB_STRING'):
                                    bad = 'a value of another size is stored as %s' % n
                                st = H.get(e.mem, E, 'value_type')
                                if bad is None and st != t and not (n == 'VARIANT' and st == n_id(T, nat)) and not (cls == 'BW_plugin' and name == 'tag'): bad = 'the new element has type %s instead of the declared %s' % (T.names.get(st, st), n)
                                if bad is None and H.get(e.mem, E, 'identification') != 0x123: bad = 'the new element does not have the given name'
                                fl = H.get(e.mem, E, 'flags')
                                if bad is None and fl != flag: bad = 'the new element is marked %s' % fl
                                if bad is None and len(made) != 1: bad = '%d elements are allocated' % len(made)
                                if bad is None and not ok_owner: bad = 'the new element is not the last one of the list'
                                if bad is None and owner and H.get(e.mem, X, other) != 0x1100: bad = 'the other list is changed'
                                if bad is None: bad = judge(M, e, st if st in T.names else t, kind, nat, null)
                                K.ob('a stored value is complete and linked once', key, bad is None, e.where, '%s for declared type %s: %s' % (F.short, n, bad))
                                if n == nat and not null: done = True
                            else:
                                K.ob('a refused value leaves no trace', key + ':refused', e.ret == ptr(0) and same_owner, e.where,
                                     '%s for declared type %s %s' % (F.short, n, 'answers something else than success or nothing' if e.ret != ptr(0) else 'fails and changes the lists of the owner'))
                                if nat == n and not null and not any(x[0] == 'call' and x[2] in M.newel | M.alloc | M.space | M.plug and x[4] is not None and x[4][1] == 0 for x in e.ev):
                                    K.ob('a value of the declared type is accepted', key + ':accepted', False, e.where, '%s refuses a value of its own type %s although space is available' % (F.short, n))
                            if not succ and e.ret == ptr(0) and owner is None: pass
            if nat is not None: K.ob('a value of the declared type can be stored', '%s::%s:able' % (cls, name), done, F.where, '%s never stores a value declared as %s' % (F.short, nat))
            else: K.ob('an unsupported value is refused', '%s::%s:unsupported' % (cls, name), True, F.where, '')
    group('BW_element', ATTR, 0, True)
    group('BW_plugin', TAG, ELEMENT, False)
    group('BW_pool', POOLTAG, ELEMENT, False)
    setters(K, P, T)
    data(K, P, T)
    settext(K, P, T)
    any_text(K, P, T)
    K.minimum('methods', 35)
    K.minimum('cases', 1000)


def n_id(T, n): return T.id[n]


def pick(P, short, kind=None):
    L = P.find(short)
    if len(L) > 1: L = [f for f in L if f.cls and short.startswith(f.cls.split('::')[-1]) or True]
    return L[0]


def setters(K, P, T):
    global N
    """find or create a child and set its value"""
    for name, (nat, kind) in SET.items():
        F = P.fn('BW_element::' + name)
        K.count('methods')
        t = T.id[nat]
        for have in (None, nat, 'other'):
            for ring in ((0,), (0, 1), (1, 0)) if have else ((), (1,)):
                for null in ((False, True) if kind in ('text', 'bytes') else (False,)):
                    M = Model(P, T, t); H = M.H
                    offs = [0x1000, 0x1100][:len(ring)]
                    H.ring(offs)
                    old = None
                    for o, r in zip(offs, ring):
                        H.set(o, identification=0x123 if r == 0 else 0x55)
                        if r == 0:
                            old = o
                            H.set(o, value_type=t if have == nat else T.id['BLOB'])
                            store(H.mem, (None, POOL + o + HDR), 4, None)
                    H.el(X, first_child=offs[0] if offs else 0, first_attribute=0x1200); H.el(0x1200, flags=0)
                    a = {0: ptr(X), 1: ('c', 0x123, 16)}
                    a.update(value_args(F, kind, 2, null))
                    for oldlen, N in ([(o, v) for o in (0, 2, 3, 4, 7, 8, 40) for v in range(0, 10)] if kind == 'text' and have == nat and not null else [(40, 5), (2, 5)] if kind == 'text' else [(5, 5)]):
                        def calls(I, n, av, TR, mem, M=M, old=old, oldlen=oldlen):
                            if n == 'strlen' and old and av[0] == ptr(old + HDR): return [(('c', oldlen, 64), None)]
                            return M.calls(I, n, av, TR, mem)
                        K.count('cases')
                        key = 'BW_element::%s:%s:%s%s:%d' % (name, have or 'none', ''.join(map(str, ring)), ':null' if null else '', oldlen) + ('' if N == 5 else ':%d' % N)
                        if not null and kind in ('text', 'bytes'):
                            for k in [k for k in H.mem if k[0] == SRC[:2]]: del H.mem[k]
                            for i, b in enumerate(source(kind)): H.mem[SRC[:2], i, 1] = ('c', b, 8)
                        for e in Trace(P, calls=calls).run(F, a, H.mem):
                            if e.kind != 'ret': continue
                            made = any(x[0] == 'call' and x[2] in M.newel | M.alloc and x[4] == ptr(E) for x in e.ev)
                            bad = None
                            if e.ret == ptr(0):
                                if not failed(M, e) and have != 'other': bad = 'the value is refused'
                                elif H.rings_ok(e.mem, offs) or H.get(e.mem, X, 'first_child') != (offs[0] if offs else 0): bad = 'it fails and changes the children'
                            else:
                                tgt = e.ret[1] - POOL if e.ret is not None and e.ret[0] == 'c' else None
                                if made and tgt == E: lst = [E if o == old else o for o in offs] if old else offs + [E]
                                else: lst = offs
                                if tgt not in lst: bad = 'the answered element is not a child of the owner'
                                else:
                                    r = H.rings_ok(e.mem, lst)
                                    if r: bad = r
                                    elif H.get(e.mem, X, 'first_child') != lst[0]: bad = 'the first child is wrong'
                                    elif H.get(e.mem, tgt, 'identification') != 0x123: bad = 'another child is answered'
                                    elif name != 'tag' and H.get(e.mem, tgt, 'value_type') != t: bad = 'a value is stored into a child of another type'
                                    elif name == 'tag' and (tgt == E) != (old is None): bad = 'an existing child is not reused'
                                    elif tgt == E: bad = judge(M, e, t, kind, nat, null)
                                    elif name != 'tag':
                                        n2 = up(T.size2(t, oldlen) if kind == 'text' else T.size2(t), 4)   # allocated in words
                                        for o, c, what in written(e, POOL + tgt + HDR):
                                            if bad is None and (c is None or o + c > n2) and not (null and what[1] != SRC and kind == 'text' and o == 0): bad = '%s bytes are written into a value of %s bytes' % (c, n2)
                                        if bad is None and not null: bad = judge_in_place(M, e, t, kind, tgt)
                                        if bad is None and null and not written(e, POOL + tgt + HDR): bad = 'the old value is kept'
                            K.ob('the child of the given name has the value', key, bad is None, e.where, '%s with %s child: %s' % (F.short, {None: 'no', nat: 'a matching', 'other': 'a different'}[have], bad))


    N = 5


def judge_in_place(M, e, t, kind, tgt):
    e.mem.pop((('room',), 0, 0), None)
    return judge(M, e, t, kind, None, at=POOL + tgt + HDR)


def failed(M, e): return any(x[0] == 'call' and x[2] in M.newel | M.alloc | M.space | M.plug and x[4] is not None and x[4][1] == 0 for x in e.ev)


def data(K, P, T):
    """values handed over as a reference with type and size"""
    R = 0x7000000
    f = {n: field(P, 'XML_Binary_Data_Ref', n) for n in ('type', 'size', 'data')}
    for short, owner in (('BW_element::attrData', True), ('BW_plugin::tagData', False)):
        F = P.fn(short)
        K.count('methods')
        for t in T.all:
            n = T.names[t]
            if n in ('UNKNOWN', 'LAST', 'VARIANT'): continue
            for dt in {t, T.id['STRING'], T.id['INT32']}:
                M = Model(P, T, t); H = M.H
                size = {'STRING': N + 1, 'NULL': 0}.get(T.names[dt]) if T.names[dt] in ('STRING', 'NULL') else N + 4 if T.names[dt] in VARS else T.size2(dt)
                H.el(X, first_attribute=0, first_child=0x1100); H.el(0x1100)
                for i, b in enumerate(source('block')): H.mem[SRC[:2], i, 1] = ('c', b, 8)
                for k, v in (('type', C(dt)), ('size', C(size)), ('data', SRC)): H.mem[None, R + f[k][0], f[k][1]] = v
                conv = T.size2(t) if n not in VARS + ('STRING', 'NULL') else N + 4
                def calls(I, nm, av, TR, mem, M=M, conv=conv):
                    if nm in M.conv:
                        at = place(av[2])
                        src, lim = av[0], av[3]
                        wp = load(mem, at, 8) if at else None
                        if wp is None: return [(None, None)]
                        def eff(m):
                            store(m, at, 8, ('c', wp[1] + conv, 64)); m[('conv',), 0, 0] = ('c', wp[1], 64)
                        return [(('c', -1, 1), eff), (('c', 0, 1), None)]
                    return M.calls(I, nm, av, TR, mem)
                a = {0: ptr(X) if owner else ('c', PL, 64), 1: ('c', 0x123, 16), 2: ('c', R, 64)}
                key = '%s:%s:%s' % (short, n, T.names[dt])
                K.count('cases')
                stored = False
                for e in Trace(P, calls=calls).run(F, a, H.mem):
                    if e.kind != 'ret': continue
                    good = e.ret == (ptr(X) if owner else ptr(E))
                    bad = None
                    cv = e.mem.get((('conv',), 0, 0))
                    if good:
                        stored = True
                        want_n = conv if cv else size
                        cp = [x for x in written(e, POOL + E + HDR) if x[2][0] in ('memcpy', 'memmove')]
                        src = ('c', cv[1], 64) if cv else SRC
                        bytewise = not cp and not cv and all(load(e.mem, (None, POOL + E + HDR + i), 1) == ('c', b, 8) for i, b in enumerate(source('block')[:want_n]))
                        st = H.get(e.mem, E, 'value_type')
                        if dt != t and not cv and T.names[dt] != 'NULL' : bad = 'a value of type %s is stored unchanged' % T.names[dt]
                        elif st != t and not (T.names[dt] == 'NULL' and st == dt): bad = 'the new element has type %s' % T.names.get(st, st)
                        elif want_n and not bytewise and [c[:2] + (c[2][1],) for c in cp] != [(0, want_n, src)]: bad = 'not the whole value of %d bytes is copied' % want_n
                        elif H.get(e.mem, E, 'identification') != 0x123: bad = 'the new element does not have the given name'
                        elif H.get(e.mem, E, 'flags') != (0 if owner else ELEMENT): bad = 'the new element is marked wrong'
                        elif owner and (H.rings_ok(e.mem, [E]) or H.get(e.mem, X, 'first_attribute') != E): bad = 'the new attribute is not linked'
                        elif H.rings_ok(e.mem, [E]): bad = 'the new element is not a list of its own'
                        else:
                            rm = e.mem.get((('room',), 0, 0))
                            if want_n and (rm is None or rm[1] < want_n): bad = 'the allocated room is too small'
                    else:
                        if e.ret != ptr(0): bad = 'something else than success or nothing is answered'
                        elif owner and H.get(e.mem, X, 'first_attribute') != 0: bad = 'it fails and changes the owner'
                    K.ob('a referenced value is stored as the declared type', key, bad is None, e.where, '%s of a %s declared as %s: %s' % (F.short, T.names[dt], n, bad))
                if dt == t: K.ob('a value of the declared type can be stored', key + ':able', stored, F.where, '%s never stores a value of type %s' % (short, n))


def any_text(K, P, T):
    """a new element of a given type made from a text"""
    L = P.find('BW_pool::tagAny', False)
    if not L: return
    F = L[0]
    K.count('methods')
    for t in T.all:
        n = T.names[t]
        if n in ('UNKNOWN', 'LAST', 'VARIANT'): continue
        size = N + 8 if n in VARS or n == 'STRING' else 0
        n2 = T.size2(t, size)
        if n2 is None or n2 < 0: continue
        M = Model(P, T, t)
        def calls(I, nm, av, TR, mem, M=M):
            if nm in M.conv:
                at = place(av[2]); wp = load(mem, at, 8) if at else None
                good = av[0] == SRC and av[1] is not None and av[1][0] == 'c' and av[1][1] & 0xff == t and wp == ptr(E + HDR) and av[3] is not None and av[3][0] == 'c' and POOL + E + HDR <= av[3][1] <= POOL + E + HDR + n2
                return [(('c', -1, 1), lambda m: m.__setitem__((('conv',), 0, 0), ('c', 1 if good else 2, 32))), (('c', 0, 1), None)]
            return M.calls(I, nm, av, TR, mem)
        K.count('cases')
        for e in Trace(P, calls=calls).run(F, {0: ('c', POOL, 64), 1: ('c', 0x123, 16), 2: C(t), 3: SRC, 4: C(size)}, M.H.mem):
            if e.kind != 'ret': continue
            H = M.H; cv = e.mem.get((('conv',), 0, 0)); bad = None
            if e.ret == ptr(E):
                if cv is None or cv[1] != 1: bad = 'the text is not converted to its type within its room'
                elif (H.get(e.mem, E, 'identification'), H.get(e.mem, E, 'value_type'), H.get(e.mem, E, 'flags')) != (0x123, t, ELEMENT): bad = 'the new element has another name, type or kind'
                elif H.rings_ok(e.mem, [E]): bad = 'the new element is not a list of its own'
            elif e.ret != ptr(0): bad = 'something else than success or nothing is answered'
            elif cv is not None or not any(x[0] == 'call' and x[2] in M.newel | M.conv and x[4] is not None and x[4][1] == 0 for x in e.ev): bad = 'a value is refused'
            K.ob('a text is stored as the given type', 'BW_pool::tagAny:' + n, bad is None, e.where, '%s as %s: %s' % (F.short, n, bad))


def settext(K, P, T):
    """a new text for an existing element or attribute"""
    global N
    F = P.fn('BW_element::setStr')
    K.count('methods')
    NEWV = 0x6000000
    for tn in ('STRING', 'BLOB_STRING', 'INT32', 'BLOB', 'NULL'):
        t = T.id[tn]
        pre = 4 if tn == 'BLOB_STRING' else 0
        for flag in (ELEMENT, 0):
            for ring, k in (((0x1000,), 0), ((0x1000, 0x1100, 0x1200), 1), ((0x1000, 0x1100), 0)):
                for old, new in (('', ''), ('abc', 'abc'), ('abc', 'xyz'), ('abc', ''), ('abc', 'ab'), ('abc', 'abcd'), ('', 'q'), ('abcdefg', 'a'), ('abc', None), ('', None), ('abc', 'abcdefghijkl'), ('abc', 'abd')):
                    for declared in ((t, T.id['STRING']) if tn == 'BLOB_STRING' else (t,)):
                        M = Model(P, T, declared); H = M.H
                        A = list(ring); mine, other = ('first_child', 'first_attribute') if flag else ('first_attribute', 'first_child')
                        H.ring(A, flags=flag); H.el(X, **{mine: A[0], other: 0x1300}); H.el(0x1300, flags=1 - flag)
                        me = A[k]
                        H.set(me, identification=0x123, value_type=t)
                        if flag: H.set(me, first_child=0x1400, first_attribute=0x1500); H.el(0x1400); H.el(0x1500, flags=0)
                        at = POOL + me + HDR
                        if tn in ('BLOB_STRING', 'BLOB'): store(H.mem, (None, at), 4, C(len(old) + 1))
                        if tn == 'INT32': store(H.mem, (None, at), 4, C(7))
                        elif tn != 'NULL':
                            for i, ch in enumerate(old + '\0'): H.mem[None, at + (4 if tn != 'STRING' else 0) + i, 1] = ('c', ord(ch), 8)
                        for i, ch in enumerate((new or '') + '\0'): H.mem[None, NEWV + i, 1] = ('c', ord(ch), 8)
                        def calls(I, n, av, TR, mem, M=M):
                            if n in ('strcpy', 'strncpy', 'stpcpy', 'strlen', 'strcmp'): return None
                            return M.calls(I, n, av, TR, mem)
                        K.count('cases')
                        txt = new or ''
                        key = 'BW_element::setStr:%s:%s:%s:%d/%d:%s:%s' % (tn, 'same' if declared == t else 'other', 'child' if flag else 'attribute', k, len(A), old, new)
                        for e in Trace(P, calls=calls).run(F, {0: ptr(me), 1: ('c', PL, 64), 2: ptr(X), 3: ('c', NEWV if new is not None else 0, 64)}, H.mem):
                            if e.kind != 'ret': continue
                            def text(at, m=e.mem):
                                out = ''
                                for i in range(40):
                                    v = load(m, (None, at + i), 1)
                                    if v is None or v[0] != 'c': return None
                                    if v[1] == 0: return out
                                    out += chr(v[1] & 255)
                            res = e.ret is not None and e.ret[0] == 'c' and e.ret[1] & 1
                            made = any(x[0] == 'call' and x[2] in M.newel | M.alloc and x[4] == ptr(E) for x in e.ev)
                            def same(): return H.rings_ok(e.mem, A) is None and H.get(e.mem, X, mine) == A[0] and H.get(e.mem, me, 'identification') == 0x123 and H.get(e.mem, me, 'value_type') == t and H.get(e.mem, me, 'flags') == flag and (not flag or H.get(e.mem, me, 'first_child') == 0x1400 and H.get(e.mem, me, 'first_attribute') == 0x1500)
                            bad = None
                            isText = tn in ('STRING', 'BLOB_STRING')
                            if H.get(e.mem, X, other) != 0x1300: bad = 'the other list is changed'
                            elif not res:
                                if not same(): bad = 'it fails and changes the element or its siblings'
                                elif isText and text(at + pre) != old: bad = 'it fails and changes the text'
                                elif isText and old != txt and not failed(M, e) and declared == t and not (tn == 'BLOB_STRING' and not flag): bad = 'a text is refused'
                            elif not isText: bad = 'an element without text accepts a text'
                            elif not made:
                                if not same(): bad = 'the element or its siblings are changed'
                                elif text(at + pre) != txt: bad = 'the text is %r instead of %r' % (text(at + pre), txt)
                                elif len(txt) > len(old): bad = 'a longer text is written into the place of a shorter one'
                                elif pre and (load(e.mem, (None, at), 4) or (0, 0))[1] > len(old) + 1: bad = 'the size of the block grows'
                            else:
                                lst = [E if o == me else o for o in A] if flag else None
                                rest = [o for o in A if o != me]
                                got = H.get(e.mem, X, mine)
                                st = H.get(e.mem, E, 'value_type')
                                if flag and (H.rings_ok(e.mem, lst) or got != lst[0]): bad = 'the new element does not take the place of the old one'
                                elif not flag and (H.rings_ok(e.mem, rest + [E]) or got != (rest + [E])[0]): bad = 'the new attribute does not replace the old one'
                                elif H.get(e.mem, E, 'identification') != 0x123 or H.get(e.mem, E, 'flags') != flag: bad = 'the new element does not have the name of the old one'
                                elif st != declared: bad = 'the new element has type %s' % T.names.get(st, st)
                                elif text(POOL + E + HDR + (4 if T.names[st] == 'BLOB_STRING' else 0)) != txt: bad = 'the text is %r instead of %r' % (text(POOL + E + HDR + (4 if T.names[st] == 'BLOB_STRING' else 0)), txt)
                                elif flag and (H.get(e.mem, E, 'first_child') != 0x1400 or H.get(e.mem, E, 'first_attribute') != 0x1500): bad = 'children or attributes are lost'
                                elif H.rings_ok(e.mem, [me]): bad = 'the old element is still linked'
                                elif flag and (H.get(e.mem, me, 'first_child') or H.get(e.mem, me, 'first_attribute')): bad = 'the old element still owns children or attributes'
                            K.ob('a new text replaces the old one', key, bad is None, e.where, 'setting %r over %r of a %s: %s' % (new, old, tn, bad))
