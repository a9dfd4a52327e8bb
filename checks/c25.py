"""C25: merging of duplicate subtrees by the packer."""
import hashlib
from sa.types import *
from sa.trace import *

THIS, DATA, NEW = 0x100000, 0x4000000, 0x5000000


def A(v): return ('c', v, 64)


class Image:
    """builds a document the way it is serialised: a node is (name, attributes, own bytes, children)"""

    def __init__(self, P):
        self.f = {m: field(P, 'XML_Item', m) for m in ('name', 'paramcount', 'childcount', 'length')}
        self.head, self.pd = sizeof(P, 'XML_Item'), sizeof(P, 'XML_Param_Description')
        self.nodes = []; self.b = bytearray()

    def put(self, at, n, v):
        o, z = self.f[n]
        self.b[at + o:at + o + z] = (v & ((1 << 8 * z) - 1)).to_bytes(z, 'little')

    def add(self, t):
        name, params, own, kids = t
        at = len(self.b)
        self.nodes.append(at)
        self.b += bytes(self.head)
        for p in params: self.b += p
        refs = len(self.b)
        self.b += bytes(4 * len(kids))
        self.b += own
        while len(self.b) % 4: self.b += b'\0'
        for i, k in enumerate(kids):
            r = self.add(k) - at
            self.b[refs + 4 * i:refs + 4 * i + 4] = r.to_bytes(4, 'little')
        for n, v in (('name', name), ('paramcount', len(params)), ('childcount', len(kids)), ('length', len(self.b) - at)): self.put(at, n, v)
        return at


def decode(im, rd, at, seen, depth=0):
    """tree of a document, nodes in order of their first visit; None where a byte is not known"""
    if depth > 12: return 'endless'
    g = lambda n: rd(at + im.f[n][0], im.f[n][1])
    name, pc, cc, ln = (g(n) for n in ('name', 'paramcount', 'childcount', 'length'))
    if None in (name, pc, cc, ln) or not (0 <= pc < 9 and 0 <= cc < 9): return None
    a = at + im.head
    params = tuple(rd(a + i, 1) for i in range(pc * im.pd))
    a += pc * im.pd
    refs = [rd(a + 4 * i, 4) for i in range(cc)]
    a += 4 * cc
    if None in refs: return None
    ends = [ln + at] + [at + r for r in refs if r > 0]
    own = tuple(rd(x, 1) for x in range(a, min(ends)))
    seen.setdefault(at, (ln, min(ends) - at, [at + r for r in refs]))
    return (name, params, own, tuple(decode(im, rd, at + r, seen, depth + 1) for r in refs))


def par(P, im, name, typ, v):
    b = bytearray(im.pd)
    for m, x in (('name', name), ('type', typ), ('data', v)):
        o, z = field(P, 'XML_Param_Description', m)
        b[o:o + z] = x.to_bytes(z, 'little')
    return bytes(b)


def documents(P, im):
    p, q = par(P, im, 3, 1, 7), par(P, im, 3, 1, 8)
    leaf = lambda n, own=b'', ps=(): (n, list(ps), own, [])
    L, L2 = leaf(5, b'abc\0'), leaf(5, b'abd\0')
    yield 'one node', leaf(1)
    yield 'one child', (1, [], b'', [L])
    yield 'two equal children', (1, [], b'', [L, L])
    yield 'three equal children', (1, [p], b'xy\0\0', [L, L, L])
    yield 'equal children around another one', (1, [], b'', [L, L2, L, leaf(6)])
    yield 'children that differ in the last byte', (1, [], b'', [leaf(5, b'abc0'), leaf(5, b'abc1'), leaf(5, b'abc0')])
    yield 'children that differ in their name', (1, [], b'', [leaf(5), leaf(6), leaf(7), leaf(5)])
    yield 'children that differ in an attribute', (1, [], b'', [leaf(5, b'', [p]), leaf(5, b'', [q]), leaf(5, b'', [p, q]), leaf(5, b'', [q])])
    yield 'equal subtrees', (1, [], b'own\0', [(2, [p], b'', [L, L2]), (2, [p], b'', [L, L2]), leaf(9)])
    yield 'equal subtrees of different depth', (1, [], b'', [(2, [], b'', [L]), (3, [], b'', [(2, [], b'', [L]), L]), L])
    yield 'subtrees that differ below', (1, [], b'', [(2, [], b'v\0\0\0', [L]), (2, [], b'v\0\0\0', [L2]), (2, [], b'v\0\0\0', [L])])
    yield 'equal children inside of equal subtrees', (1, [], b'', [(2, [], b'', [L, L]), (2, [], b'', [L, L])])
    yield 'nodes of different alignment', (1, [], b'12345678', [L, leaf(6), L, leaf(7, b'1234'), (8, [q], b'', [L2])])
    yield 'a chain', (1, [], b'', [(2, [], b'', [(3, [], b'', [(4, [], b'z\0\0\0', [])])])])
    yield 'bytes behind the children', (1, [], b'', [(2, [], b'', [L]), L, leaf(4, b'12345678')])


def run(K):
    P = K.prog
    K.rule('The whole merging pass is interpreted on documents of one to ten nodes whose hashes are unknown up to the bytes in which they differ: the packed document must decode to the same tree, '
           'hold equal nodes once and all others at their address modulo 8, with the lengths of all nodes correct and every store inside of the allocated memory.')
    K.assume('the hash of a node is a function of exactly the bytes handed to SHA1; different contents have different hashes (they differ in at least one of the 20 bytes, the position is varied)')
    im0 = Image(P)
    fd, fd2, fsize, fcount = (field(P, 'Bin_xml_packer', m)[0] for m in ('data', 'data2', 'dst_file_size', 'total_node_count'))
    F = P.fn('Bin_xml_packer::Pack')
    w = P.fn('Bin_xml_packer::PackNode').where
    wm = P.fn('Bin_xml_packer::MarkReferences', False)
    wm = wm.where if wm else F.where
    sha = {f.name for f in P.find('SHA1')}
    nm = {m: field(P, '_XML_Reference', m)[0] for m in ('name', 'length')}
    K.ob('a reference keeps the length of the node', 'layout', nm['length'] == im0.f['length'][0] and nm['name'] == im0.f['name'][0], 'include/binary_xml/bin_xml.h', '_XML_Reference and XML_Item disagree')
    for title, tree in documents(P, im0):
        for shift in (0, 4):
            for pos, order in ((0, 1), (9, -1), (19, 1), (19, -1)):
                im = Image(P)
                t = tree
                if shift: t = (t[0], [], bytes(4) + t[2], t[3])
                im.add(t)
                one(K, P, im, F, sha, '%s:%d:%d:%d' % (title, shift, pos, order), title, pos, order, (fd, fd2, fsize, fcount), w, wm)
    K.minimum('documents packed', 60); K.minimum('nodes hashed', 200)


def one(K, P, im, F, sha, key, title, pos, order, fl, w, wm):
    fd, fd2, fsize, fcount = fl
    size = len(im.b)
    st = {'n': 0, 'cls': {}, 'bad': [], 'live': {}, 'reads': []}

    def calls(I, n, av, T, mem):
        if n in sha:
            a, ln, out = (x[1] if x is not None and x[0] == 'c' else None for x in av[:3])
            if None in (a, ln, out) or not 0 <= ln < 4096: st['bad'].append('unknown memory is hashed'); return [(None, None)]
            c = tuple((load(mem, (None, a + i), 1) or (0, None))[1] for i in range(ln))
            if None in c: st['bad'].append('bytes %d.. which are not part of the document are hashed' % (a - DATA))
            K.count('nodes hashed')
            k = st['cls'].setdefault(c, len(st['cls']))

            def eff(m):
                kill(m, None, out, 20)
                for i in range(20): m[None, out + i, 1] = ('c', (k * order if i == pos else i * 7) & 127, 8)
            return [(None, eff)]
        if n and n.startswith('_Zna') or n in ('malloc', 'calloc'):
            sz = av[0][1] if av[0] is not None and av[0][0] == 'c' else None
            if n == 'calloc' and sz is not None and av[1] is not None: sz *= av[1][1]
            if sz is None: st['bad'].append('size of an allocation is not known'); return [(None, None)]
            st['n'] += 1
            a = NEW + (st['n'] << 20)
            st['live'][a] = sz

            def eff(m):
                if n == 'calloc': m[None, a, sz] = ('fill', 0)
            return [(A(a), eff)]
        if n and (n.startswith('_Zda') or n.startswith('_Zdl') or n == 'free'):
            a = av[0][1] if av[0] is not None and av[0][0] == 'c' else None
            if a and a not in st['live']: st['bad'].append('memory is released that is not allocated')
            st['live'].pop(a, None)
            return [(None, None)]
        return None
    mem = {(None, THIS + fd, 8): A(DATA), (None, THIS + fd2, 8): A(0), (None, THIS + fsize, 4): C(size), (None, THIS + fcount, 4): C(len(im.nodes))}
    for i, b in enumerate(im.b): mem[None, DATA + i, 1] = ('c', b - 256 if b > 127 else b, 8)
    # buffers are remembered with their sizes for the bounds

    def loads(I, a, m):
        at = place(a)
        if at is not None and at[0] is None and (at[0], at[1], I.raw['sz']) not in m:
            st['reads'].append((I.where, at[1]))
            raise Lost('undefined memory is read')
        return None
    T = Trace(P, calls=calls, limit=20000, depth=24, loads=loads)
    try: res = T.run(F, {0: A(THIS)}, mem)
    except Lost as x:
        if not st['reads']: K.ob('packing a consistent document ends', 'ends:' + key, False, F.where, 'packing of %s does not end: %s' % (title, x)); return
        K.ob('only the document is read', 'reads:' + key, False, st['reads'][0][0], 'packing of %s reads at %d of the document or memory that was never stored' % (title, st['reads'][0][1] - DATA)); return
    K.count('documents packed')
    where = w
    K.ob('packing a consistent document ends', 'ends:' + key, len(res) == 1 and res[0].kind == 'ret', F.where if not res or res[0].kind == 'ret' else res[0].where, 'packing of %s ends in %s' % (title, [e.kind for e in res]))
    for b in dict.fromkeys(st['bad']): K.ob('nodes are hashed completely', 'hash:' + key, False, wm, '%s: %s' % (title, b))
    if len(res) != 1 or res[0].kind != 'ret': return
    e = res[0]
    K.ob('only the document is read', 'reads:' + key, True, where, '')
    K.ob('temporary memory is released', 'free:' + key, not st['live'], wm, '%d blocks remain allocated' % len(st['live']))

    def rd0(a, z): return int.from_bytes(im.b[a:a + z], 'little', signed=True) if 0 <= a and a + z <= len(im.b) else None
    s0, s1 = {}, {}
    want = decode(im, rd0, 0, s0)
    n = e.ret[1] if e.ret is not None and e.ret[0] == 'c' else None
    K.ob('the packed length is answered', 'length:' + key, n is not None and 0 < n <= size, F.where, 'packing %s of %d bytes answers %s' % (title, size, n))
    if n is None: return

    def rd(a, z):
        if a < 0 or a + z > n: return None
        v = load(e.mem, (None, DATA + a), z)
        return v[1] if v is not None and v[0] == 'c' else None
    got = decode(im, rd, 0, s1)
    # bytes between the own values and the first child may grow by the gap that keeps the address modulo 8
    K.ob('the packed document has the same content', 'tree:' + key, equal(want, got), w, '%s changes: %s becomes %s' % (title, show(want), show(got)))
    K.ob('the document has the packed length', 'root:' + key, 0 in s1 and s1[0][0] == n, w, 'length of the root of %s is not the packed length %s' % (title, n))
    if not equal(want, got): return
    # every subtree is stored once, every other node once
    trees = {}
    for a in s0: trees.setdefault(bytes(im.b[a:a + s0[a][0]]), []).append(a)
    firsts = {min(v) for v in trees.values()}
    m = {}
    pair(im, rd0, rd, 0, 0, m)
    for a, b in sorted(m.items()):
        f = min(trees[bytes(im.b[a:a + s0[a][0]])])
        K.ob('a reference leads to the first copy', 'share:%s:%d' % (key, a), b == m.get(f), w, '%s: the copy of the first equal node is at %s, the one at %d leads to %d' % (title, m.get(f), a, b))
        if a in firsts: K.ob('a node keeps its address modulo 8', 'residue:%s:%d' % (key, a), (a - b) % 8 == 0, w, '%s: a node moves from %d to %d' % (title, a, b))
    # lengths: own bytes and the children stored below, without overlaps
    spans = sorted((b, b + s1[b][1]) for b in s1)
    K.ob('nodes do not overlap', 'overlap:' + key, all(x[1] <= y[0] for x, y in zip(spans, spans[1:])), w, '%s: packed nodes overlap' % title)
    for a in sorted(firsts):
        b = m[a]
        ln = s1[b][0]
        end = max([b + s0[a][1]] + [m[r] + s1[m[r]][0] for r in s0[a][2] if r in firsts])
        K.ob('a node reaches to the end of its children', 'extent:%s:%d' % (key, b), b + ln == end, w, '%s: node at %d has length %d, its content ends at %d' % (title, b, ln, end - b))
    K.ob('nothing is stored outside of the document', 'outside:' + key, all(x[0] == 'store' and ok_store(x[2], x[3], size) for x in e.ev if x[0] in ('store', 'store?')), w, '%s: a store outside' % title)
    sz = sizes(e.ev)
    for x in e.ev:
        if x[0] == 'call' and x[2] and (x[2].startswith('llvm.mem') or x[2] in ('memcpy', 'memmove', 'memset')):
            a, l = place(x[3][0]), x[3][2]
            if a is not None and a[0] is None and DATA <= a[1] < DATA + 0x100000 and l is not None and l[0] == 'c':
                K.ob('nothing is stored outside of the document', 'outside:mem:' + key, a[1] + l[1] <= DATA + size, x[1].where, '%s: %d bytes are copied to %d' % (title, l[1], a[1] - DATA))
            if a is not None and a[0] is None and NEW <= a[1] < NEW + (64 << 20) and l is not None and l[0] == 'c':
                K.ob('nothing is stored outside of the allocated memory', 'outside:new:' + key, (a[1] & 0xfffff) + l[1] <= sz.get(a[1] >> 20, 0), x[1].where, '%s: %d bytes are stored at %d' % (title, l[1], a[1] & 0xfffff))
    for x in e.ev:
        if x[0] == 'store' and x[2][0] is None and NEW <= x[2][1] < NEW + (64 << 20):
            K.ob('nothing is stored outside of the allocated memory', 'outside:new:' + key, (x[2][1] & 0xfffff) + x[3] <= sz.get(x[2][1] >> 20, 0), x[1].where, '%s: a store outside of the allocated memory' % title)


def sizes(ev):
    """sizes of the allocated blocks by their place"""
    d = {}
    for x in ev:
        if x[0] == 'call' and x[2] and (x[2].startswith('_Zna') or x[2] in ('malloc', 'calloc')) and x[4] is not None and x[4][0] == 'c':
            d[x[4][1] >> 20] = x[3][0][1] * (x[3][1][1] if x[2] == 'calloc' else 1)
    return d


def ok_store(at, z, size):
    if at[0] is not None: return False
    if DATA <= at[1] < DATA + 0x100000: return at[1] + z <= DATA + size
    return True


def equal(a, b):
    if not isinstance(a, tuple) or not isinstance(b, tuple): return False
    if a[0] != b[0] or a[1] != b[1] or len(a[3]) != len(b[3]) or None in b[2]: return False
    own = b[2][:len(a[2])]
    if own != a[2] or any(b[2][len(a[2]):]) or len(b[2]) > len(a[2]) + 4: return False
    return all(equal(x, y) for x, y in zip(a[3], b[3]))


def show(t):
    if not isinstance(t, tuple): return str(t)
    return '%s(%s)' % (t[0], ' '.join([bytes(x & 255 if x is not None else 63 for x in t[2]).decode('latin1').replace('\0', '.')] + [show(x) for x in t[3]]))


def pair(im, ra, rb, a, b, m):
    if a in m: return
    m[a] = b
    off = lambda r, x: x + im.head + r(x + im.f['paramcount'][0], im.f['paramcount'][1]) * im.pd
    cc = ra(a + im.f['childcount'][0], im.f['childcount'][1])
    for i in range(cc): pair(im, ra, rb, a + ra(off(ra, a) + 4 * i, 4), b + rb(off(rb, b) + 4 * i, 4), m)
