"""C29: copying parts of a read document into a writable one copies everything that belongs to the path, or fails."""
import struct
from sa.types import *
from sa.trace import *
from sa.libc import texts, put
from .c02 import Layout, DOC, RD, A
from .c13 import PL
from .c16 import Heap, POOL, ELEMENT, DELETED
from .c18 import Doc
from .c21 import no_null

VA, ARGS = 0x6200000, 0x6210000
V8 = ('INT64', 'UINT64', 'DOUBLE', 'UNIX_TIME64_MSEC')


class Node:
    """name, type of the value, its bytes, attributes (name, type, bytes), children"""

    def __init__(self, tag, ty='NULL', val=b'', attrs=(), kids=()): self.tag = tag; self.ty = ty; self.val = val; self.attrs = list(attrs); self.kids = list(kids)

    def tree(self): return (self.tag, self.ty, bytes(self.val), [(a, t, bytes(v)) for a, t, v in self.attrs], [k.tree() for k in self.kids])

    def all(self): return [self] + [y for k in self.kids for y in k.all()]


def s(t): return ('STRING', t.encode() + b'\0')
def i32(v): return ('INT32', struct.pack('<i', v))
def i64(v): return ('INT64', struct.pack('<q', v))
def blk(t, b): return (t, struct.pack('<i', len(b)) + b)


def encode(L, n, at=0):
    """bytes of the element at the place `at`; the places of all elements are noted in them"""
    T = {v: k for k, v in L.types.items()}
    n.at = at
    b = bytearray(L.head + L.pd * len(n.attrs) + 4 * len(n.kids)) + bytes([T[n.ty]])
    if n.ty != 'NULL':
        if n.ty != 'STRING': b += bytes(-len(b) % (8 if n.ty in V8 else 4))
        b += n.val
    ps = []
    for a, t, v in n.attrs:
        if L.P is None or len(v) == 4 and t not in ('STRING', 'BLOB', 'HEX', 'BLOB_STRING'): d = int.from_bytes(v, 'little')
        elif t == 'NULL': d = 0
        else:
            if t != 'STRING': b += bytes(-len(b) % 8)
            d = len(b); b += v
        ps.append((a, t, d))
    b += bytes(-len(b) % 8)
    for i, (a, t, d) in enumerate(ps):
        for m, y in (('name', a), ('type', T[t]), ('data', d)):
            o, z = L.pf[m]; L.put(b, L.head + i * L.pd + o, z, y)
    own = len(b)
    for i, k in enumerate(n.kids):
        L.put(b, L.head + L.pd * len(ps) + 4 * i, 4, len(b))
        b += encode(L, k, at + len(b))
        b += bytes(-len(b) % 8)
    L.header(b, 0, name=n.tag, paramcount=len(ps), childcount=len(n.kids), length=len(b))
    return b


class Dest:
    """the writable document, decoded from memory"""

    def __init__(self, P, D):
        self.P = P; self.D = D; self.H = Heap(P); self.names = {v: k[4:] for k, v in P.enums.items() if k.startswith('XBT_') and not k.endswith('CONVERTABLE')}
        self.hdr = sizeof(P, 'BW_element')

    def raw(self, mem, a, n):
        out = bytearray()
        for i in range(n):
            v = load(mem, (None, POOL + a + i), 1)
            if v is None or v[0] != 'c': return None
            out.append(v[1] & 255)
        return bytes(out)

    def value(self, mem, o, ty):
        a = o + self.hdr
        if ty == 'NULL': return b''
        if ty == 'STRING':
            out = b''
            while out[-1:] != b'\0':
                c = self.raw(mem, a + len(out), 1)
                if c is None: return None
                out += c
            return out
        if ty in ('BLOB', 'HEX', 'BLOB_STRING'):
            n = self.raw(mem, a, 4)
            return n and self.raw(mem, a, 4 + int.from_bytes(n, 'little'))
        return self.raw(mem, a, {'SHA1': 20, 'GUID': 16, 'IPv6': 16}.get(ty, 8 if ty in V8 else 4))

    def ring(self, mem, first, kind):
        out, o = [], first
        while o:
            if len(out) > 500: return None
            fl, nx = self.H.get(mem, o, 'flags'), self.H.get(mem, o, 'next')
            if fl is None or nx is None or (fl & ELEMENT) != kind or fl & DELETED or self.H.get(mem, nx, 'prev') != o or self.H.get(mem, o, 'offset') != o: return None
            out.append(o)
            if nx == first: break
            o = nx
        return out

    def tree(self, mem, o, deep=0):
        """the element at o or a text telling what is wrong"""
        end = self.D.get(mem, 'allocator')
        g = lambda k: self.H.get(mem, o, k)
        if end is None or o < sizeof(self.P, 'BW_pool') or o + self.hdr > end or deep > 20: return 'no element'
        ty = self.names.get(g('value_type'))
        at, ch = self.ring(mem, g('first_attribute'), 0), self.ring(mem, g('first_child'), ELEMENT)
        if at is None or ch is None: return 'a broken list'
        ats = []
        for a in at:
            t = self.names.get(self.H.get(mem, a, 'value_type'))
            ats.append((self.H.get(mem, a, 'identification'), t, self.value(mem, a, t)))
        return (g('identification'), ty, self.value(mem, o, ty), ats, [self.tree(mem, c, deep + 1) for c in ch])


def build(P, D, n):
    """a tree in the writable document as earlier copying left it; answers its place"""
    H = Heap(P); H.mem = D.mem
    T = {k[4:]: v for k, v in P.enums.items() if k.startswith('XBT_')}
    hdr = sizeof(P, 'BW_element')

    def new(i, t, v, fl):
        o = (D.get(D.mem, 'allocator') + 7) // 8 * 8
        for j in range(hdr): D.mem[None, POOL + o + j, 1] = ('c', 0, 8)
        H.el(o, identification=i, value_type=T[t], flags=fl)
        for j, x in enumerate(v): D.mem[None, POOL + o + hdr + j, 1] = ('c', x - 256 if x > 127 else x, 8)
        a, z = D.f['allocator']; store(D.mem, (None, POOL + a), z, C((o + hdr + len(v) + 7) // 8 * 8))
        return o

    def link(l):
        for i, o in enumerate(l): H.set(o, next=l[(i + 1) % len(l)], prev=l[i - 1])
        return l[0] if l else 0
    o = new(n.tag, n.ty, n.val, ELEMENT)
    H.set(o, first_attribute=link([new(a, t, v, 0) for a, t, v in n.attrs]))
    H.set(o, first_child=link([build(P, D, k) for k in n.kids]))
    return o


def same_keys(dst, src, keys):
    f = lambda n: {a: (t, bytes(v)) for a, t, v in n.attrs if a in keys}
    return f(dst) == f(src)


def copy_of(n): return Node(n.tag, n.ty, n.val, n.attrs, [copy_of(k) for k in n.kids])


def copied(dst, path, whole, keys, trans):
    """(document after copying, the element that is answered) or None: refused"""
    src, new = path[0], False
    if dst is None: dst = at = Node(src.tag); new = True
    else:
        at = dst
        if dst.tag == trans and src.tag != trans:
            if not dst.kids: dst.kids.append(Node(src.tag)); new = True
            at = dst.kids[0]
        if not new and (at.tag != src.tag or not same_keys(at, src, keys)): return None
    for k in path[1:] + [None]:
        if k is None:
            if new:
                if whole: at.attrs = src.attrs; at.kids = [copy_of(x) for x in src.kids]; at.ty, at.val = src.ty, src.val
                else: at.attrs = [x for x in src.attrs if x[0] in keys]
            return dst, at
        if new: at.attrs = [x for x in src.attrs if x[0] in keys]
        f = next((c for c in at.kids if c.tag == k.tag and same_keys(c, k, keys)), None)
        new = f is None
        if new: f = Node(k.tag); at.kids.append(f)
        src, at = k, f


def run(K):
    P = K.prog
    L = Layout(P)
    T = {v: k for k, v in L.types.items()}
    K.rule('Abstract interpretation of the copying of elements with their attributes, values and children, and of the copying of paths, from complete documents (all kinds of values, nested children) into writable documents (empty, with other '
           'and with equal elements, inside of a transaction). The writable document is decoded afterwards: it must contain what was there, and each copied element, attribute and value once at its place, in order, or the failure must be answered.')
    K.assume('the writable document has the symbol tables of the source (importTags, importParams); the first attribute of each name is its key')
    nm = lambda *l: {f.name for x in l for f in P.find(x)}
    iskey, root, plug, names = nm('XB_reader::ParamIsKey'), nm('XB_reader::getRoot'), nm('BW_plugins::getPlugin'), nm('BW_pool::getTagName', 'BW_pool::getAttrName', 'BW_element::getName')
    state = dict(keys=(), grow=True)

    def calls(I, n, av, TR, mem):
        if n in iskey: return [(('c', -1 if av[1] is not None and av[1][1] in state['keys'] else 0, 1), None)]
        if n in root: return [(A(DOC), None)]
        if n in plug: return [(A(PL), None)]
        if n in names: return [(('s', '&name', 0), None)]
        if n in ('ftruncate', 'ftruncate64'): return [(C(0 if state['grow'] else -1), None)]
        if n.startswith('llvm.va_copy'):
            def eff(m, d=av[0][1], f=av[1][1]):
                for o, z in ((0, 4), (4, 4), (8, 8), (16, 8)): store(m, (None, d + o) if av[0][0] == 'c' else av[0], z, load(m, (None, f + o), z))
            if av[0][0] == 'c' and av[1][0] == 'c': return [(None, eff)]
            def eff2(m):
                for o, z in ((0, 4), (4, 4), (8, 8), (16, 8)): store(m, at(av[0], o), z, load(m, at(av[1], o), z))
            return [(None, eff2)]
        if n.startswith('llvm.va_start'):
            def eff3(m):
                for o, z, v in VALIST: store(m, at(av[0], o), z, ('c', v, z * 8))
            return [(None, eff3)]
        if n.startswith('llvm.va_end'): return [(None, None)]
        return texts(I, n, av, TR, mem)
    VALIST = ((0, 4, 48), (4, 4, 304), (8, 8, ARGS), (16, 8, 0))

    def at(p, o): return (None, p[1] + o) if p[0] == 'c' else (p[:2], p[2] + o)
    TR = Trace(P, calls=calls, limit=60000, depth=60)

    def source(n, mem):
        b = encode(L, n)
        for i, x in enumerate(b): mem[None, DOC + i, 1] = ('c', x - 256 if x > 127 else x, 8)

    tags = lambda tt: [('t%d' % i, T[t]) for i, t in enumerate(tt)]
    params = lambda tt: [('p%d' % i, T[t]) for i, t in enumerate(tt)]

    def writable(tt, pt, dst, room=0x40000):
        D = Doc(P, tags(tt), params(pt), room=0x40000)
        for o in range(D.end, D.end + 8): D.mem[None, POOL + o, 1] = ('c', 0, 8)
        at = build(P, D, dst) if dst is not None else 0
        for n in ('allocator_limit', 'file_size'):
            o, z = D.f[n]; store(D.mem, (None, POOL + o), z, C((D.get(D.mem, 'allocator') + 3) // 4 * 4 + room))
        o, z = D.f['mmap_size']; store(D.mem, (None, POOL + o), z, C(0x100000))
        o, z = D.f['root']; store(D.mem, (None, POOL + o), z, C(at))
        D.mem[None, RD, 8] = ('g', '_ZTVN9pklib_xml9XB_readerE', 16)
        return D, at

    # the types that the values have are declared
    TT = ['NULL', 'STRING', 'INT32', 'INT64', 'BLOB', 'HEX', 'SHA1', 'GUID', 'DOUBLE', 'UNIX_TIME', 'UNIX_DATE', 'BLOB_STRING', 'FLOAT', 'UNIX_TIME64_MSEC', 'UINT32', 'UINT64', 'INT32_MILI', 'NULL', 'STRING']
    VALS = [('NULL', b''), s('text'), i32(-5), i64(1 << 40), blk('BLOB', b'abc'), blk('HEX', b'\1\xff'), ('SHA1', bytes(range(20))), ('GUID', bytes(range(100, 116))), ('DOUBLE', struct.pack('<d', 1.5)),
            ('UNIX_TIME', struct.pack('<I', 3000000000)), ('UNIX_DATE', struct.pack('<i', 77)), blk('BLOB_STRING', b'text\0'), ('FLOAT', struct.pack('<f', 2.5)), ('UNIX_TIME64_MSEC', struct.pack('<q', -9)), ('UINT32', b'\xff\xfe\xfd\xfc'),
            ('UINT64', b'\xff' * 8), ('INT32_MILI', struct.pack('<i', 1234)), ('NULL', b''), s('')]
    N = lambda tag, attrs=(), kids=(), val=True: Node(tag, *(VALS[tag] if val else ('NULL', b'')), attrs=[(a,) + VALS[a] for a in attrs], kids=kids)
    nested = N(0, (1, 2), [N(1, (4, 3)), N(17, (), [N(2), N(5, (8,)), N(17, (), [N(3, (6, 7, 1))])]), N(1), N(18, (2,))])

    def judge(key, D, e, F, want, at, root, what, ok=True):
        """want: tree of the whole document or None: refused"""
        dec = Dest(P, D)
        v = e.ret[1] if e.ret is not None and e.ret[0] == 'c' else None
        K.ob('copying succeeds or answers nothing', key + ':answer', v is not None and (v != 0) == ok, F.where, '%s is %s' % (what, 'not answered' if v is None else 'refused' if ok else 'reported as copied'))
        if not ok or not v: return
        o, z = D.f['root']
        r = load(e.mem, (None, POOL + o), z)
        got = dec.tree(e.mem, r[1] if root else v - POOL) if r is not None and r[0] == 'c' else 'no root'
        K.ob('everything of the copied part is there once, in order, and nothing else', key, got == want.tree(), F.where, '%s leads to %s instead of %s' % (what, got, want.tree()))

    # ---- whole elements
    F = P.fn('BW_plugin::CopyAll')
    trees = [N(i) for i in range(len(VALS))] + [N(0, (i,)) for i in range(len(VALS))] + [N(0, (), [N(i)]) for i in range(len(VALS))] + [N(0, (1, 2, 3)), N(17, (3, 1, 4), [N(1, (5,)), N(2, (6, 1))]), nested]
    for i, n in enumerate(trees):
        for room in (0x40000, 0, 256):
            for grow in ((True,) if room == 0x40000 else (True, False)):
                if room != 0x40000 and i < len(VALS) * 3 and i % 3: continue
                D, _ = writable(TT, TT, Node(n.tag, n.ty, n.val), room)
                source(n, D.mem)
                o, z = D.f['root']; dst = D.get(D.mem, 'root')
                state.update(keys=(), grow=grow)
                E = TR.run(F, {0: A(PL), 1: A(POOL + dst), 2: A(RD), 3: A(DOC)}, D.mem)
                K.count('cases')
                K.need(E, 'CopyAll does not end')
                for e in E:
                    K.ob('copying does not give up', 'all:%d:%d:%d:end' % (i, room, grow), e.kind == 'ret', e.where, 'copying ends the program')
                    no_null(K, e, 'all:%d:%d:%d' % (i, room, grow), F)
                    if e.kind != 'ret': continue
                    need = len(n.kids) or n.attrs
                    if grow or not need: judge('all:%d:%d:%d' % (i, room, grow), D, e, F, n, 0, False, 'copying of %s' % (n.tree(),))
                    else:
                        v = e.ret[1] if e.ret is not None and e.ret[0] == 'c' else None
                        got = Dest(P, D).tree(e.mem, dst)
                        K.ob('copying without space is not reported as success', 'all:%d:%d:full' % (i, room), v is not None and (v == 0 or got == n.tree()), F.where, 'an incomplete copy %s of %s is reported as success' % (got, n.tree()))
    # ---- values of other types than declared
    for i, (decl, val, want) in enumerate((('INT32', s('17'), i32(17)), ('HEX', s('00ff'), blk('HEX', b'\0\xff')), ('INT32', i64(5), None), ('INT64', i32(5), None), ('STRING', i32(5), None), ('SHA1', ('GUID', bytes(16)), None),
                                          ('INT64', s('-9'), i64(-9)), ('SHA1', s('00' * 20), ('SHA1', bytes(20))), ('SHA1', s('00' * 19), None))):
        for part in ('attribute', 'child'):
            n = Node(0, kids=[Node(1, *val)]) if part == 'child' else Node(0, attrs=[(1,) + val])
            w = want and (Node(0, kids=[Node(1, *want)]) if part == 'child' else Node(0, attrs=[(1,) + want]))
            tt = ['NULL', decl]
            D, dst = writable(tt, tt, Node(0))
            source(n, D.mem); state.update(keys=(), grow=True)
            for e in TR.run(F, {0: A(PL), 1: A(POOL + dst), 2: A(RD), 3: A(DOC)}, D.mem):
                K.count('cases')
                judge('type:%d:%s' % (i, part), D, e, F, w, 0, False, 'copying of a %s with %s declared as %s' % (part, val, decl), bool(w))
    # ---- elements that are not empty or of another name
    for i, d in enumerate((Node(0, kids=[N(1)]), N(0, (1,)), N(1))):
        D, dst = writable(TT, TT, d)
        source(N(0, (1,), [N(1)]), D.mem)
        for e in TR.run(F, {0: A(PL), 1: A(POOL + dst), 2: A(RD), 3: A(DOC)}, D.mem):
            K.count('cases')
            judge('all:used:%d' % i, D, e, F, None, 0, False, 'copying into an element that is %s' % ('of another name' if i == 2 else 'not empty'), False)

    # ---- paths
    TRANS = enum(P, 'XTNR_TRANSACTION')
    F = P.fn('BW_plugin::CopyPath_')
    K1 = lambda t: (1,) + s(t)
    k2 = lambda v: (2,) + i32(v)
    leaf = Node(18, *s('value'), attrs=[K1('a'), k2(5), (3,) + i64(9)], kids=[N(2), N(1, (1,), [N(3)])])
    other = Node(18, *s('other'), attrs=[K1('b')])
    plain = Node(17, attrs=[(3,) + i64(1)])
    mid = Node(17, attrs=[K1('m'), (3,) + i64(7)], kids=[plain, leaf, other])
    top = Node(0, attrs=[K1('root'), (3,) + i64(2)], kids=[mid, N(1)])
    valued = Node(1, *s('content'), attrs=[k2(1)])
    dests = [None, Node(0, attrs=[K1('root')]), Node(0, attrs=[K1('else')]), Node(0), Node(17, attrs=[K1('root')]), Node(TRANS), Node(TRANS, kids=[Node(0, attrs=[K1('root')])]), Node(TRANS, kids=[Node(17)]),
             Node(0, attrs=[K1('root')], kids=[Node(18, attrs=[K1('m')]), Node(17, attrs=[K1('x')]), Node(17, attrs=[K1('m')])]),
             Node(0, attrs=[K1('root')], kids=[Node(17, attrs=[K1('m')], kids=[Node(18, attrs=[K1('a'), k2(5)])])]),
             Node(0, attrs=[K1('root')], kids=[Node(17, attrs=[K1('m')], kids=[Node(18, attrs=[K1('a'), k2(6)]), Node(18, attrs=[K1('b')])])]),
             Node(0, attrs=[K1('root')], kids=[Node(17, attrs=[K1('m')], kids=[Node(18, attrs=[K1('a')]), Node(18, attrs=[(3,) + i64(4), K1('b')])])]),
             Node(0, attrs=[K1('root')], kids=[Node(17, attrs=[(3,) + i64(7)]), Node(17, attrs=[(3,) + i64(9), (2,) + i32(2), K1('m')])]),
             Node(0, attrs=[K1('root')], kids=[Node(17), Node(17, attrs=[K1('m'), k2(5)])]),
             Node(0, attrs=[k2(5), K1('root')], kids=[Node(18)]),
             Node(0, attrs=[(3,) + i64(2), K1('root')], kids=[Node(17, attrs=[K1('ma')]), Node(17, attrs=[(3,) + i64(8), K1('m')], kids=[valued])])]
    paths = [(top, [top]), (top, [top, mid]), (top, [top, mid, leaf]), (top, [top, mid, other]), (top, [top, mid, plain]), (top, [top, top.kids[1]]), (valued, [valued])]
    CP = {True: [f for f in P.find('BW_plugin::CopyPath') if not f.decl], False: [f for f in P.find('BW_plugin::CopyPathOnly') if not f.decl]}
    for di, d in enumerate(dests):
        for pi, (src, path) in enumerate(paths):
            for keys in ((), (1,), (1, 2)):
                for whole in (True, False):
                    for room in (0x40000, 64):
                        if room == 64 and (pi % 2 or len(keys) != 1): continue
                        for entry in (0, 1):
                            if entry and (len(keys) != 1 or room == 64): continue
                            D, _ = writable(TT, TT, d and copy_of(d), room)
                            source(src, D.mem)
                            for i, x in enumerate(path[1:] + [None]): D.mem[None, ARGS + 8 * i, 8] = A(DOC + x.at if x else 0)
                            for o, z, v in VALIST: store(D.mem, (None, VA + o), z, ('c', v, z * 8))
                            state.update(keys=keys, grow=room != 64)
                            want = copied(d and copy_of(d), path, whole, keys, TRANS)
                            key = 'path:%d:%d:%s:%d:%d:%d' % (di, pi, ''.join(map(str, keys)), whole, room, entry)
                            G = CP[whole][0] if entry else F
                            args = {0: A(PL), 1: A(RD), 2: A(DOC + path[0].at)} if entry else {0: A(PL), 1: ('c', -1 if whole else 0, 1), 2: A(RD), 3: A(DOC + path[0].at), 4: A(VA)}
                            E = TR.run(G, args, D.mem)
                            K.count('cases')
                            K.need(E, 'CopyPath does not end')
                            for e in E:
                                K.ob('copying does not give up', key + ':end', e.kind == 'ret', e.where, 'copying ends the program')
                                no_null(K, e, key, G)
                                if e.kind != 'ret': continue
                                what = 'copying of the path %s to %s%s' % ([x.tag for x in path], d and d.tree(), '' if whole else ' without content')
                                if room == 64:
                                    v = e.ret[1] if e.ret is not None and e.ret[0] == 'c' else None
                                    r = load(e.mem, (None, POOL + D.f['root'][0]), 4)
                                    done = r is not None and want and Dest(P, D).tree(e.mem, r[1]) == want[0].tree()
                                    K.ob('copying without space is not reported as success', key + ':full', v is not None and (v == 0 or done), G.where, '%s without space is reported as success' % what)
                                    continue
                                judge(key, D, e, G, want and want[0], 0, True, what, bool(want))
                                if want and e.ret is not None and e.ret[0] == 'c' and e.ret[1]:
                                    K.ob('the answer of copying is the last element of the path', key + ':last', Dest(P, D).tree(e.mem, e.ret[1] - POOL) == want[1].tree(), G.where, '%s answers another element' % what)
    for F in (P.fn('BW_plugin::CopyPath_'),):
        D, _ = writable(TT, TT, None)
        for w in (0, DOC + 8):
            for e in TR.run(F, {0: A(PL), 1: ('c', -1, 1), 2: A(RD), 3: A(w), 4: A(VA)}, D.mem):
                K.ob('copying succeeds or answers nothing', 'path:none:%d' % w, e.kind == 'ret' and e.ret == A(0), F.where, 'copying of %s is not refused' % ('nothing' if not w else 'an element that is not the root'))
    imports(K, P, nm)
    K.minimum('cases', 400)


def imports(K, P, nm):
    sym, typ = nm('_XB_symbol_table::getSymbol'), nm('_XB_symbol_table::getType')
    NAMES = 0x6300000
    plug = nm('BW_plugins::getPlugin')
    J = join(P)
    off = {k: field(P, 'XB_reader', m)[0] for k, m in (('tags', 'tag_symbols'), ('params', 'param_symbols'))}
    oc, zc = field(P, '_XB_symbol_table', 'count')
    for k, m in (('tags', 'BW_plugin::importTags'), ('params', 'BW_plugin::importParams')):
        F = P.fn(m)
        for i, (have, src) in enumerate((([], []), ([], [('a', 1)]), ([], [('a', 1), ('bb', 2), ('ccc', 5), ('dddd', 0), ('e', 1)]), ([('x', 1)], [('a', 1), ('x', 1), ('b', 3)]), ([('x', 2), ('a', 1)], [('a', 1), ('x', 2)]),
                                         ([('a', 0)], [('a', 3)]), ([('x', 1), ('y', 1)], []), ([], [('n%d' % j, j % 3) for j in range(40)]))):
            for room in (0x10000, 8, 24):
                for null in (False, True):
                    def calls(I, n, av, TR, mem):
                        if n in sym or n in typ:
                            if av[0] != A(RD + off[k]) or av[1] is None or av[1][0] != 'c': return [(None, None)]
                            j = av[1][1]
                            if not 0 <= j < len(src): return [(A(0), None)] if n in sym else [(('c', 0, 8), None)]
                            return [(A(NAMES + 64 * j), None)] if n in sym else [(('c', src[j][1], 8), None)]
                        if n in plug: return [(A(PL), None)]
                        if n in ('ftruncate', 'ftruncate64'): return [(C(-1), None)]
                        return texts(I, n, av, TR, mem)
                    D = Doc(P, have if k == 'tags' else [('p', 1)], have if k == 'params' else [('t', 0)], index=(False, False), room=room)
                    for j, (a, _) in enumerate(src): put(D.mem, (None, NAMES + 64 * j), a + '\0')
                    D.mem[None, RD + off[k] + oc, zc] = ('c', len(src), 8 * zc)
                    if null is False and room == 0x10000 and have: D.put(k, 'flags', 1)   # left by an import into the empty document
                    want = list(have)
                    for a, t in [] if null else src:
                        f = next((x for x in range(len(want)) if want[x][0] == a), None)
                        if f is None: want.append((a, t))
                        elif want[f][1] != t: want[f] = (a, J(t, want[f][1]))
                    key = '%s:%d:%d:%d' % (k, i, room, null)
                    K.count('cases')
                    for e in Trace(P, calls=calls, limit=30000).run(F, {0: A(PL), 1: A(0 if null else RD)}, D.mem):
                        if e.kind != 'ret': continue
                        no_null(K, e, key, F)
                        ok = e.ret[1] & 1 if e.ret is not None and e.ret[0] == 'c' else None
                        got = D.decode(e.mem, k)
                        if room == 0x10000: K.ob('all symbols are imported with their types', key + ':ok', ok == 1, F.where, 'the import of %s to %s fails' % (src[:5], have))
                        K.ob('all symbols are imported with their types', key, ok == 0 or ok == 1 and got == want, F.where, 'the import of %s to %s is reported as done, but the table is %s' % (src[:5], have, got[:9]))


def join(P):
    J = P.fn('XBT_JoinTypes')

    def f(a, b):
        E = Trace(P).run(J, {0: C(a), 1: C(b)}, {})
        return E[0].ret[1] if len(E) == 1 and E[0].ret is not None else None
    return f
