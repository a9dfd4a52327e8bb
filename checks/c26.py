"""C26: walking a document opened for reading visits each attribute, child and appended element exactly once in order."""
from sa.types import *
from sa.trace import *
from sa import build

I0, DOC, RD, CUR, USER, ROOTS = 0x4000000, 0x4000000, 0x5100000, 0x5200000, 0x5300000, 0x5400000
CB = 'VISITOR'
PROBE = '''#include "binary_xml/bin_xml.h"
static_cast<const char *(XB_reader::*)(uint32_t) const>(&XB_reader::getString)
static_cast<uint32_t (XB_reader::*)(const char *) const>(&XB_reader::getRelPtr)
static_cast<XML_Item *(XB_reader::*)() const>(&XB_reader::getRoot)
static_cast<const char *(XB_reader::*)(tag_name_id_t) const>(&XB_reader::getNodeName)
static_cast<const char *(XB_reader::*)(tag_name_id_t) const>(&XB_reader::getParamName)
'''


def A(v): return ('c', v, 64)


class Doc:
    """elements of a mapped document: (name, [attribute names], [children addresses], length)"""

    def __init__(self, P):
        self.P = P; self.mem = {}
        self.hdr = sizeof(P, 'XML_Item'); self.pd = sizeof(P, 'XML_Param_Description')
        self.f = {n: field(P, 'XML_Item', n) for n in ('name', 'paramcount', 'childcount', 'length')}
        self.pn = field(P, 'XML_Param_Description', 'name'); self.pt = field(P, 'XML_Param_Description', 'type'); self.pv = field(P, 'XML_Param_Description', 'data')

    def put(self, a, n, v): self.mem[None, a + self.f[n][0], self.f[n][1]] = ('c', v, self.f[n][1] * 8)

    def item(self, a, name=1, params=(), children=(), length=64):
        for n, v in (('name', name), ('paramcount', len(params)), ('childcount', len(children)), ('length', length)): self.put(a, n, v)
        b = a + self.hdr
        for i, p in enumerate(params):
            self.mem[None, b + i * self.pd + self.pn[0], self.pn[1]] = ('c', p, self.pn[1] * 8)
            self.mem[None, b + i * self.pd + self.pt[0], 1] = ('c', 0, 8)
            self.mem[None, b + i * self.pd + self.pv[0], 4] = C(0)
        b += len(params) * self.pd
        for i, c in enumerate(children): self.mem[None, b + 4 * i, 4] = C(c - a)
        self.mem[None, b + 4 * len(children), 1] = ('c', 0, 8)
        return a

    def param(self, a, i): return a + self.hdr + i * self.pd


def run(K):
    P = K.prog
    K.rule('The walking operations of the reader are evaluated by abstract interpretation on elements with zero to three attributes and children at places before and behind the element; '
           'the sequence of answers or visits must be exactly the sequence of the attributes, children or (behind the marker) appended and validated elements.')
    nm = lambda *l: {f.name for s in l for f in P.find(s)}
    check = nm('XML_Item::Check')
    answer = {}

    def calls(I, n, av, T, mem):
        if n == CB: return [(None, None)]
        if n in check:
            deep = av[2] if len(av) > 2 else None
            K.ob('appended elements are checked completely', 'check:deep', av[1] == A(RD) and (len(av) < 3 or deep is not None and deep[0] == 'c' and deep[1] & 1 == 1), I.where, 'an appended element is checked without its children')
            a = av[0][1] if av[0] is not None and av[0][0] == 'c' else None
            if a in answer: return [(('c', -1 if answer[a] else 0, 1), None)]
            return [(None, None)]
        if n and (n.startswith('_ZNSo') or n.startswith('_ZSt') or n.startswith('_ZNKSt')): return [(None, None)]
        return None
    TR = Trace(P, calls=calls)

    def stores(e): return [x for x in e.ev if x[0] in ('store', 'store?') and not (x[2] is not None and (x[2] == (None, CUR) or x[2][0] is None and ROOTS <= x[2][1] < ROOTS + 4096 or x[2][0] is not None and x[2][0][0] == 'g'))]

    def go(F, args, mem):
        K.count('cases')
        return TR.run(F, args, mem)

    fn = lambda n: P.fn('XML_Item::' + n)
    # ---- attributes -------------------------------------------------------------------------------------
    for names in ([], [5], [5, 6], [5, 6, 7, 8], [-3, 6, -3, 6]):
        for kids in (0, 2):
            D = Doc(P); D.item(I0, params=names, children=[I0 + 0x400 + 0x40 * i for i in range(kids)])
            for i in range(-2, len(names) + 2):
                for e in go(fn('getParamByIndex'), {0: A(I0), 1: C(i)}, D.mem):
                    want = D.param(I0, i) if 0 <= i < len(names) else 0
                    K.ob('an attribute by index is the attribute at this position', 'getParamByIndex:%d/%d' % (i, len(names)), e.ret == A(want) and not stores(e), e.where, 'attribute %d of %d is answered as %s' % (i, len(names), e.ret))
            for code in (5, 6, 8, -3, 99, 0):
                for e in go(fn('getParamByName'), {0: A(I0), 1: C(code)}, D.mem):
                    want = D.param(I0, names.index(code)) if code in names else 0
                    K.ob('an attribute by name is the first one with this name', 'getParamByName:%d:%s' % (code, names), e.ret == A(want) and not stores(e), e.where, 'the attribute with name %d of %s is answered as %s' % (code, names, e.ret))
    # ---- children ---------------------------------------------------------------------------------------
    for np in (0, 1, 3):
        for n in (0, 1, 2, 4):
            D = Doc(P)
            kids = [I0 + (0x400 + 0x40 * i if i != 1 else -0x200) for i in range(n)]
            D.item(I0, params=[5] * np, children=kids)
            for i, k in enumerate(kids): D.item(k, name=[20, 21, 20, -7][i])
            for e in go(fn('getChildren'), {0: A(I0)}, D.mem):
                K.ob('the children table is the table behind the attributes', 'getChildren:%d/%d' % (np, n), e.ret == A(I0 + D.hdr + np * D.pd if n else 0), e.where, 'the children table of %d children behind %d attributes is answered as %s' % (n, np, e.ret))
            for i in range(-2, n + 2):
                for e in go(fn('getChildByIndex'), {0: A(I0), 1: C(i)}, D.mem):
                    want = kids[i] if 0 <= i < n else 0
                    K.ob('a child by index is the child at this position', 'getChildByIndex:%d/%d/%d' % (i, n, np), e.ret == A(want) and not stores(e), e.where, 'child %d of %d behind %d attributes is answered as %s' % (i, n, np, e.ret))
            for code in (20, 21, -7, 22):
                ks = [20, 21, 20, -7][:n]
                for e in go(fn('getChildByName'), {0: A(I0), 1: C(code)}, D.mem):
                    want = kids[ks.index(code)] if code in ks else 0
                    K.ob('a child by name is the first one with this name', 'getChildByName:%d/%d/%d' % (code, n, np), e.ret == A(want) and not stores(e), e.where, 'the child with name %d of %s is answered as %s' % (code, ks, e.ret))
    # ---- recursive visits -------------------------------------------------------------------------------
    D = Doc(P)
    k = [I0 + 0x100 * i for i in range(1, 8)]
    D.item(I0, params=[5], children=[k[0], k[1], k[2]])
    D.item(k[0], children=[k[3], k[4]]); D.item(k[1], params=[6, 7]); D.item(k[2], children=[k[5]]); D.item(k[3]); D.item(k[4], children=[k[6]]); D.item(k[5]); D.item(k[6])
    tree = {I0: [k[0], k[1], k[2]], k[0]: [k[3], k[4]], k[2]: [k[5]], k[4]: [k[6]]}

    def pre(x, d): return [y for c in tree.get(x, []) for y in [(c, d)] + pre(c, d + 1)]
    def post(x, d, off=1): return [y for c in tree.get(x, []) for y in post(c, d + 1, off) + [(c, d + off)]]
    for name, want in (('ForAllChildrenRecursively', pre(I0, 3)), ('ForAllChildrenRecursively_PostOrder', post(I0, 3, 0)), ('ForAllChildrenRecursively_PostOrderA', post(I0, 3, 0))):
        F = P.find('XML_Item::' + name, False)
        if not F: continue
        args = {0: A(I0), 1: ('g', CB, 0), 2: A(USER), 3: C(3)}
        if name.endswith('A'): args[4] = A(ROOTS)
        for e in go(F[0], args, D.mem):
            got = [x[3] for x in e.ev if x[0] == 'call' and x[2] == CB]
            ok = e.kind == 'ret' and [a[0] for a in got] == [A(c) for c, _ in want] and [a[2] for a in got] == [C(d) for _, d in want] and all(a[1] == A(USER) for a in got)
            K.ob('a recursive visit meets every element below once in order', name, ok and not stores(e), e.where, 'the visited elements are %s, below are %s' % ([a[0] and hex(a[0][1] - I0) for a in got], [hex(c - I0) for c, _ in want]))
            if name.endswith('A'):
                # the path of the visited element: its ancestors at their depth
                par = {c: x for x, l in tree.items() for c in l}
                ok2 = all(a[3] == A(ROOTS) for a in got)
                K.ob('a recursive visit knows the path', name + ':path', ok2, e.where, 'the path is not handed to the visitor')
                last = load(e.mem, (None, ROOTS + 8 * 3), 8)
                K.ob('a recursive visit knows the path', name + ':root', last == A(I0), e.where, 'the path does not contain the root at its depth')
    # the deepest path entry stays inside the array of the visitor
    F = P.find('XML_Item::ForAllChildrenRecursively_PostOrderA', False)
    maxdeep = None
    if F:
        for d in (0, 30, 31, 32, 60, 63, 64, 100, 127, 128, 1000):
            D2 = Doc(P); D2.item(I0)
            for e in go(F[0], {0: A(I0), 1: ('g', CB, 0), 2: A(USER), 3: C(d), 4: A(ROOTS)}, D2.mem):
                w = [x for x in e.ev if x[0] == 'store' and x[2] is not None and x[2][0] is None and x[2][1] >= ROOTS]
                K.ob('a path entry is stored at its depth', 'path:%d' % d, all(x[2][1] == ROOTS + 8 * d for x in w), e.where, 'the element at depth %d is stored elsewhere' % d)
    # ---- walking over children and appended elements ----------------------------------------------------
    F = fn('getNextChild')
    marker = enum(P, 'XTNR_ET_TECERA')
    rf = {n: field(P, 'XB_reader', n) for n in ('doc', 'size')}

    def walk(kids, appended, doclen, size, key, bad=None):
        """kids: names of the children; appended: lengths of the appended records"""
        D = Doc(P)
        el = I0 + 0x100
        at = [I0 + 0x200 + 0x40 * i for i in range(len(kids))]
        D.item(I0, length=doclen, children=[el]); D.item(el, params=[5], children=at)
        for a, nme in zip(at, kids): D.item(a, name=nme)
        p = up(doclen, 4); app = []
        answer.clear()
        for i, l in enumerate(appended):
            D.item(I0 + p, name=30 + i, length=l); answer[I0 + p] = i != bad
            app.append(I0 + p); p = up(p + l, 4)
        D.mem[None, RD + rf['doc'][0], 8] = A(I0); D.mem[None, RD + rf['size'][0], 8] = A(size if size is not None else p)
        want = at[:]
        if kids and kids[-1] == marker: want = at[:-1] + (app if bad is None else app[:bad])
        states = [(D.mem, C(0))]
        for step in range(len(want) + 1):
            nxt = []
            for mem, i in states:
                mem = Mem(mem); mem[None, CUR, 4] = i
                for e in go(F, {0: A(el), 1: A(RD), 2: A(CUR)}, mem):
                    w = want[step] if step < len(want) else 0
                    ok = e.kind == 'ret' and e.ret == A(w) and not stores(e)
                    K.ob('walking visits children and then appended elements once in order', '%s:%d' % (key, step), ok, e.where,
                         'step %d of %d answers %s%s' % (step, len(want), e.ret, '' if w == 0 else ', the next element is at %#x' % w))
                    i2 = load(e.mem, (None, CUR), 4)
                    if ok and i2 is not None: nxt.append((e.mem, i2))
                    if ok and w == 0 and i2 is not None:       # the end stays the end
                        m2 = Mem(e.mem); m2[None, CUR, 4] = i2
                        for e2 in go(F, {0: A(el), 1: A(RD), 2: A(CUR)}, m2):
                            K.ob('walking visits children and then appended elements once in order', key + ':end', e2.ret == A(0), e2.where, 'after the end another element is answered')
            states = nxt
    for kids in ([], [20], [20, 21, 22]):
        walk(kids, [], 0x400, None, 'children:%d' % len(kids))
        walk(kids, [64, 32], 0x400, None, 'children:%d before appended' % len(kids))
        for doclen in (0x400, 0x401, 0x402, 0x403):
            for l in ([], [64], [61], [64, 33, 34], [16, 35]):
                walk(kids + [marker], l, doclen, None, 'appended:%d:%s:%d' % (len(kids), l, doclen & 3))
        walk(kids + [marker], [64, 64, 64], 0x400, None, 'invalid second:%d' % len(kids), bad=1)
        walk(kids + [marker], [64], 0x400, None, 'invalid first:%d' % len(kids), bad=0)
    for rest in (1, 4, 11, 12):                          # fragments behind the last record
        answer.clear()
        D = Doc(P); D.item(I0, length=0x400); D.item(I0 + 0x100, children=[I0 + 0x200]); D.item(I0 + 0x200, name=marker)
        D.item(I0 + 0x400, name=30, length=rest); answer[I0 + 0x400] = True
        D.mem[None, RD + rf['doc'][0], 8] = A(I0); D.mem[None, RD + rf['size'][0], 8] = A(0x400 + rest); D.mem[None, CUR, 4] = C(0)
        for e in go(F, {0: A(I0 + 0x100), 1: A(RD), 2: A(CUR)}, D.mem):
            K.ob('a fragment behind the last record is no element', 'fragment:%d' % rest, e.ret == A(0) if rest < D.hdr else e.ret == A(I0 + 0x400), e.where, '%d bytes behind the document are answered as %s' % (rest, e.ret))
    # ---- names of the document, texts by their place -----------------------------------------------------

    def go2(F, args, mem):
        K.count('cases')
        return TR2.run(F, args, mem)
    P2 = build.load(probe=PROBE)
    TR2 = Trace(P2, calls=calls)
    for n, size in (('getString', 4), ('getRelPtr', 8)):
        Fs = P2.find('XB_reader::' + n, False)
        if not Fs: continue
        for x in (0, 1, 5, 0x3ff, 0x400, 0x401, 0x7fffffff, 0xffffffff):
            mem = {(None, RD + rf['doc'][0], 8): A(I0), (None, RD + rf['size'][0], 8): A(0x400)}
            for e in go2(Fs[0], {0: A(RD), 1: ('c', sx(x, 32), 32) if size == 4 else A(I0 + x)}, mem):
                if n == 'getString': ok = e.ret == (A(I0 + x) if 0 < x < 0x400 else A(0))
                else: ok = e.ret is not None and ux(e.ret[1], 32) == (x if 0 < x < 0x400 else 0)
                K.ob('places and texts are converted into each other inside of the document only', '%s:%#x' % (n, x), ok, e.where, 'place %#x of a document of 0x400 bytes is answered as %s' % (x, e.ret))
        for x in (0, 5):
            mem = {(None, RD + rf['doc'][0], 8): A(0), (None, RD + rf['size'][0], 8): A(0x400)}
            for e in go2(Fs[0], {0: A(RD), 1: ('c', x, 32) if size == 4 else A(x)}, mem):
                K.ob('places and texts are converted into each other inside of the document only', '%s:closed:%d' % (n, x), e.ret is not None and e.ret[1] == 0, e.where, 'a document that is not open answers %s' % (e.ret,))
    K.minimum('cases', 400)
