"""C01: opening a document succeeds (and publishes the root element) only after the complete validation sequence."""
import struct
from sa.util import *
from sa.trace import *
from sa.libc import texts
from .c02 import Layout, DOC, RD, outside

NAME, FD, SIZE = 0x5400000, 77, 0x1000


class Document:
    """a complete file; every element is listed as (title, place)"""

    def __init__(self, L, tags=('alpha', 'beta', 'gamma'), params=('a', 'b'), order=(0, 1, 2), drop=(), children=1):
        P = L.P; T = {n: v for v, n in L.types.items()}
        self.L = L
        tab = []
        for nm, names in (('XTNR_TAG_SYMBOLS', tags), ('XTNR_PARAM_SYMBOLS', params)):
            b, data, area, end = L.container(len(names), len(names), list(names), tag=nm)
            while len(b) % 8: b += b'\0'
            L.header(b, 0, length=len(b))
            tab.append((b, data, area))
        leaf = L.item(name=2, params=[(1, T['STRING'], L.head + 2 * L.pd + 3), (0, T['INT32'], -4)], value=bytes([T['NULL']]), extra=b'\0\0text\0', pad=8)
        mid = L.item(name=1, kids=[leaf, leaf], value=bytes([T['STRING']]), extra=b'value\0', pad=4)
        root = L.item(name=0, params=[(0, T['UINT32'], 9)], kids=[mid, leaf], pad=4)
        pay = L.item(name=enum(P, 'XTNR_PAYLOAD'), kids=[root] * children)
        parts = [tab[0][0], tab[1][0], pay, L.item(name=1)]
        names = ['tag symbols', 'attribute symbols', 'payload', 'further element']
        meta = bytearray(L.item(name=enum(P, 'XTNR_META_ROOT'), kids=[parts[i] for i in order if i not in drop], pad=8))
        self.b = meta
        ref = lambda at, pc, i: at + int.from_bytes(meta[at + L.head + pc * L.pd + 4 * i:at + L.head + pc * L.pd + 4 * i + 4], 'little', signed=True)
        self.at = {'meta root': 0}
        for k, i in enumerate([i for i in order if i not in drop]): self.at[names[i]] = ref(0, 0, k)
        if 2 not in drop and children:
            p = self.at['payload']; r = self.at['root element'] = ref(p, 0, 0)
            m = self.at['first child'] = ref(r, 1, 0); self.at['second child'] = ref(r, 1, 1)
            self.at['grandchild'] = ref(m, 0, 0); self.at['second grandchild'] = ref(m, 0, 1)
        self.data = self.at.get('root element', 0)
        self.tables = [(tab[i][1], tab[i][2], len(tab[i][0])) for i in (0, 1)]


def defects(L, D):
    """(title, bytes): the document with one defect"""
    T = {n: v for v, n in L.types.items()}
    for nm, at in D.at.items():
        pc = int.from_bytes(D.b[at + L.f['paramcount'][0]:][:2], 'little'); cc = int.from_bytes(D.b[at + L.f['childcount'][0]:][:4], 'little')
        for d in (dict(length=4), dict(length=-1), dict(length=len(D.b) + 8), dict(length=2147483647), dict(paramcount=-1), dict(paramcount=32767), dict(childcount=-1), dict(childcount=0x3fffffff),
                  dict(name=3), dict(name=32767), dict(name=-32768), dict(name=enum(L.P, 'XTNR_LAST'))):
            b = bytearray(D.b); L.header(b, at, **d)
            yield '%s %s in the %s' % (list(d.items())[0][0], list(d.values())[0], nm), b
        for i in range(cc):
            for r in (-2147483648, -at - 4, len(D.b) - at - 8, len(D.b) - at, 2147483647, 0, -at):
                if r in (0, -at) and (i or nm not in ('meta root', 'first child')): continue
                b = bytearray(D.b); L.put(b, at + L.head + pc * L.pd + 4 * i, 4, r)
                yield 'reference %d of child %d in the %s' % (r, i, nm), b
        for i in range(pc):
            for f, v in (('name', 2), ('name', -32768), ('type', 99), ('type', T['STRING']), ('type', T['INT64']), ('type', T['BLOB'])):
                b = bytearray(D.b); p = at + L.head + i * L.pd
                if f == 'type' and v != 99: L.put(b, p + L.pf['data'][0], 4, 2147483640)
                o, z = L.pf[f]; L.put(b, p + o, z, v)
                yield 'attribute %d with %s %d in the %s' % (i, f, v, nm), b
        v = at + L.head + pc * L.pd + 4 * cc
        for t in (99, T['VARIANT']):
            b = bytearray(D.b); b[v] = t
            yield 'value of type %d in the %s' % (t, nm), b
        if nm not in ('tag symbols', 'attribute symbols'):
            b = bytearray(D.b); b[v] = T['BLOB']; L.put(b, v + 1 + (-(v + 1 - at) % 4), 4, 2147483600)
            yield 'value of 2 GB in the %s' % nm, b
    for i, nm in ((0, 'tag symbols'), (1, 'attribute symbols')):
        at = D.at[nm]; data, area, n = D.tables[i]
        for r in (0, -5, data, n, 2147483647):
            b = bytearray(D.b); L.put(b, at + data, 4, r)
            yield 'first name of the %s at %d' % (nm, r), b
        for k in (-1, 3, n, 2147483647):
            b = bytearray(D.b); L.put(b, at + data - 4, 4, k)
            yield 'a block of %d bytes in the %s' % (k, nm), b
        for k in (-1, -2147483648, 1000, 2147483647):
            b = bytearray(D.b); L.put(b, at + L.head + L.pf['data'][0], 4, k)
            yield '%d names in the %s' % (k, nm), b


class Opening:
    """XB_reader::Initialize with a file of given bytes; step: outcome of (open, size, mmap, convert)"""

    def __init__(self, P):
        self.P = P; self.F = P.fn('XB_reader::Initialize')
        self.T = Trace(P, calls=self.calls, limit=4000000, depth=2000)
        self.size_of = [f.name for f in P.by_short.get('file_getsize', [])]
        self.convert = {f.name for s in ('Bin_xml_packer::Convert',) for f in P.by_short.get(s, [])}

    def calls(self, I, n, av, T, mem):
        r = texts(I, n, av, T, mem)
        if r is not None: return r
        if n is None: return None
        if n in ('open', 'open64'):
            self.log.append(('open', T.text(av[0], mem) if av[0] is not None else None, av[1][1] if av[1] is not None and av[1][0] == 'c' else None))
            return [(C(FD if self.ok['open'] else -1), None)]
        if n in ('openat', 'openat64', 'fopen', 'fopen64'): return [(None, None)]
        size = C(self.size, 64)
        if n in self.size_of:
            self.log.append(('size', T.text(av[0], mem) if av[0] is not None else None))
            return [(size, None)]
        if n in ('lseek', 'lseek64'): return [(size, None)]
        if n in ('fstat', 'fstat64', 'stat', 'stat64'):
            return [(C(0), lambda m: store(m, (place(av[1])[0], place(av[1])[1] + 48), 8, size))]     # st_size
        if n in ('mmap', 'mmap64'):
            num = [x[1] if x is not None and x[0] == 'c' else None for x in av]
            self.log.append(('mmap', num))
            if not self.ok['mmap']: return [(C(-1, 64), None)]
            return [(C(DOC, 64), self.mapped)]
        if n in self.convert:
            self.log.append(('convert', T.text(av[0], mem), T.text(av[1], mem)))
            return [(C(-1 if self.ok['convert'] else 0, 1), None)]
        if n in ('close', 'munmap'): return [(C(0), None)]
        if n.startswith('_ZNSo') or n.startswith('_ZSt'): return [(av[0] if av else None, None)]
        return None

    def mapped(self, m):
        for i, x in enumerate(self.b): m[None, DOC + i, 1] = ('c', sx(x, 8), 8)

    def open(self, b, name=b'doc.xb', size=None, **fail):
        P = self.P
        self.b = b; self.size = len(b) if size is None else size; self.log = []
        self.ok = dict(open=1, mmap=1, convert=1); self.ok.update(fail)
        mem = {(None, RD, 8): ('g', '_ZTVN9pklib_xml9XB_readerE', 16)}
        for m, v in (('doc', -1), ('data', 0), ('size', -1), ('fd', -1), ('filename', NAME), ('verbosity', 0)):
            o, z = field(P, 'XB_reader', m); mem[None, RD + o, z] = ('c', v, 8 * z)
        for t in ('tag_symbols', 'param_symbols'):
            o = field(P, 'XB_reader', t)[0]
            mem[None, RD + o, sizeof(P, '_XB_symbol_table')] = ('fill', 0)
        mem[None, NAME, 64] = ('fill', 0)
        for i, x in enumerate(name + b'\0'): store(mem, (None, NAME + i), 1, ('c', sx(x, 8), 8))
        return self.T.run(self.F, {0: C(RD, 64)}, mem)


def member(P, e, m):
    o, z = field(P, 'XB_reader', m)
    v = load(e.mem, (None, RD + o), z)
    return v[1] if v is not None and v[0] == 'c' else None


def run(K):
    P = K.prog
    K.rule('Opening is interpreted over complete documents: intact ones, and ones with a single defect in each element (meta root, both symbol containers, payload, root, children and grandchildren), in each symbol table, '
           'and with each failing step (open, size, map, conversion). Success and a published root element are allowed only for intact documents with all steps done; nothing outside of the file may be read.')
    K.assume('file contents do not change while the file is opened; the system calls behave as documented')
    L = Layout(P); W = Opening(P); F = W.F
    base = 'XB_reader::Initialize'
    ok1 = lambda e: e.kind == 'ret' and (e.ret is None or e.ret[0] != 'c' or e.ret[1] & 1)
    no1 = lambda e: e.kind == 'abort' or e.kind == 'ret' and e.ret is not None and e.ret[0] == 'c' and not e.ret[1] & 1

    def reads(e, key, what, size):
        bad = [x for x in outside([x for x in e.ev if x[0] != 'call'] + [x for x in e.ev if x[0] == 'call' and x[3] and x[3][0] is not None and x[3][0][0] == 'c' and not NAME <= x[3][0][1] < NAME + SIZE and x[3][0][1] < FRAME], DOC, DOC + size)
               if not NAME - DOC <= x[1] < NAME + SIZE - DOC]
        for I, o, n in bad[:1]: K.ob('nothing is read through what was not checked', key + ':reads', False, I.where, 'opening %s reads at %d of a file of %d bytes' % (what, o, size))
        K.count('traces')

    def refused(e, key, what):
        K.ob('a document is opened only after it was completely validated', key, no1(e), e.where, '%s is opened' % what)
        K.ob('no root element is available after a failure', key + ':data', e.kind == 'abort' or member(P, e, 'data') == 0, e.where, '%s: the root element is available although opening failed' % what)

    # ---- intact documents
    docs = {'a document': Document(L), 'a document with the containers in another order': Document(L, order=(2, 1, 0)), 'a document with many roots': Document(L, children=3), 'a document with a further part': Document(L, order=(0, 1, 3, 2))}
    for title, D in docs.items():
        for e in W.open(D.b):
            K.count('documents opened')
            reads(e, title, title, len(D.b))
            K.ob('a valid document is opened', base + ':' + title, e.kind == 'ret' and not no1(e), e.where, '%s is not opened' % title)
            if e.kind != 'ret': continue
            for m, v, w in (('data', DOC + D.data, 'the root element'), ('doc', DOC, 'the document'), ('size', len(D.b), 'the size'), ('fd', FD, 'the file handle')):
                K.ob('an opened document is published as it is mapped', '%s:%s:%s' % (base, title, m), member(P, e, m) == v, e.where, '%s of %s is %s instead of %s' % (w, title, member(P, e, m), v))
            for i, t in ((0, 'tag_symbols'), (1, 'param_symbols')):
                o = field(P, 'XB_reader', t)[0]; f = lambda m: (lambda q: load(e.mem, (None, RD + o + q[0]), q[1]))(field(P, '_XB_symbol_table', m))
                c, ic = f('count'), f('item_container')
                nm = 'tag symbols' if i == 0 else 'attribute symbols'
                K.ob('the symbols come from their own container', '%s:%s:%s' % (base, title, t), c == C(3 - i) and ic is not None and ic[1] == DOC + D.at[nm], e.where, 'the %s of %s are loaded from another place' % (nm, title))
        maps = [x[1] for x in W.log if x[0] == 'mmap']; opens = [x for x in W.log if x[0] == 'open']
        K.ob('the whole file is mapped', base + ':map', len(maps) == 1 and maps[0][1] == len(D.b) and maps[0][4] == FD and maps[0][5] == 0, F.where, 'mapped with %s' % (maps,))
        K.ob('the named file is opened', base + ':open', len(opens) == 1 and opens[0][1] == 'doc.xb', F.where, 'opened %s' % (opens,))
    # ---- failing steps
    D = docs['a document']
    for nm, kw in (('a file which cannot be opened', dict(open=0)), ('a file which cannot be mapped', dict(mmap=0)), ('a file of unknown size', dict(size=-1))):
        for e in W.open(D.b, **kw): reads(e, nm, nm, len(D.b)); refused(e, base + ':' + nm, nm)
    for n in (0, 1, 2, 4, L.head - 1, L.head, L.head + 1, L.head + 4, L.head + 12, L.head + 13, len(D.b) // 2, len(D.b) - 8, len(D.b) - 4, len(D.b) - 1):
        for e in W.open(D.b[:n]): reads(e, 'cut', 'a document cut to %d bytes' % n, n); refused(e, '%s:cut to %d' % (base, n), 'a document cut to %d bytes' % n)
    for nm in ('XTNR_TAG_SYMBOLS', 'XTNR_PARAM_SYMBOLS', 'XTNR_PAYLOAD', 'XTNR_NULL'):
        b = bytearray(D.b); L.header(b, 0, name=enum(P, nm))
        for e in W.open(b): reads(e, nm, 'a document that starts with %s' % nm, len(b)); refused(e, '%s:starts with %s' % (base, nm), 'a document that starts with %s' % nm)
    for d, nm in ((0, 'tag symbols'), (1, 'attribute symbols')):
        X = Document(L, drop=(d,)).b
        for e in W.open(X): reads(e, 'no ' + nm, 'a document without %s' % nm, len(X)); refused(e, '%s:no %s' % (base, nm), 'a document without %s' % nm)
    for title, X in (('a document without payload', Document(L, drop=(2,))), ('a document without root element', Document(L, children=0))):
        for e in W.open(X.b):
            reads(e, title, title, len(X.b))
            K.ob('no root element is available without one', base + ':' + title, e.kind == 'abort' or member(P, e, 'data') == 0, e.where, '%s has a root element' % title)
    # ---- one defect
    n = 0
    for dn, X in (('', D), (' behind the payload', docs['a document with the containers in another order']), (' beside it', docs['a document with a further part'])):
        for title, b in defects(L, X):
            n += 1
            if dn and n % 3 and not title.endswith('further element'): continue
            K.count('defects')
            what = 'a document with %s%s' % (title, dn)
            for e in W.open(b): reads(e, title + dn, what, len(b)); refused(e, '%s:%s%s' % (base, title, dn), what)
    K.minimum('defects', 200)
    # ---- sources that are converted first
    for name, other in ((b'doc.xml', 'doc.xb'), (b'doc.xsd', 'doc.xb'), (b'doc.wsdl', 'doc.xb'), (b'doc.json', 'doc.xb'), (b'doc.xb', None), (b'doc', None), (b'xml', None), (b'a.xml.xb', None), (b'a.b.xml', 'a.b.xb'), (b'.xml', '.xb')):
        t = name.decode()
        for good in (1, 0):
            for e in W.open(D.b, name=name, convert=good):
                K.count('names')
                cv = [x[1:] for x in W.log if x[0] == 'convert']; op = [x[1] for x in W.log if x[0] == 'open']
                K.ob('sources are converted before they are opened', '%s:convert:%s' % (base, t), cv == ([(t, other)] if other else []), e.where, '%s: converted %s' % (t, cv))
                if other and not good: refused(e, '%s:convert:%s:failed' % (base, t), '%s which could not be converted' % t)
                else: K.ob('the converted document is opened', '%s:convert:%s:open' % (base, t), op == [other or t] and [x[1] for x in W.log if x[0] == 'size'] in ([other or t], []), e.where, '%s: opened %s' % (t, op))
    # ---- nobody else publishes it
    o_data = field(P, 'XB_reader', 'data')[0]
    called = callees(P, F)
    for f in P.repo_funcs:
        if f is F or f.name in called: continue
        for I in f.insts():
            if I.op == 'store' and I.a[1][0] == 'v':
                G = f.inst[I.a[1][1]]
                if G.op == 'getelementptr' and 'XB_reader' in G.raw['st'] and G.raw['o'] == o_data and not G.raw['vix']:
                    K.ob('root element is published only by open', 'publish:' + f.short, I.a[0][0] == 'c' and I.a[0][1] == 0, I.where, '%s sets the root element' % f.short)


def callees(P, F):
    """functions that are reached from F through members of the reader"""
    seen, todo = {F.name}, [F]
    while todo:
        f = todo.pop()
        for c in f.calls():
            g = P.funcs.get(c.callee) if c.callee else None
            if g is not None and g.name not in seen and not g.decl and g.short.startswith('XB_reader::'): seen.add(g.name); todo.append(g)
    return seen
