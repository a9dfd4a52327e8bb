"""C21: sources hand over each element, attribute and value of their document once."""
import json
from sa.types import *
from sa.trace import *
from sa import stream
from sa.libc import put
from .c16 import Heap, POOL, ELEMENT, ptr
from .c18 import Doc

PX, PJ, PL = 0x3000000, 0x3100000, 0x5000000
HEAP = 0x40000000
NODES, TEXT, BUF, FILE = 0x8000000, 0x9000000, 0xa000000, 0xb000000
USER = ('s', '&USER', 0)
CB = ('g', 'CALLBACK', 0)


def nulls(e): return next((x for x in e.ev if x[0] in ('load', 'store') and x[2] is not None and x[2][0] is None and abs(x[2][1]) < 0x1000), None)


def no_null(K, e, key, F):
    x = nulls(e)
    K.ob('nothing is accessed through a null pointer', key + ':null', x is None, x[1].where if x else F.where, '%s follows a null pointer for %s' % (F.short, key))


class Xml:
    """nodes of the XML library in memory"""

    def __init__(self, P):
        self.P = P; self.mem = Mem(); self.at = NODES; self.txt = TEXT; self.ent = {}
        self.kind = dict(ELEMENT=1, ATTRIBUTE=2, TEXT=3, CDATA=4, ENTITY_REF=5, PI=7, COMMENT=8)                     # binary interface of the XML library
        self.f = {n: field(P, '_xmlNode', n) for n in ('type', 'name', 'children', 'last', 'parent', 'next', 'prev', 'doc', 'ns', 'content', 'properties', 'nsDef')}
        self.af = {n: field(P, '_xmlAttr', n) for n in ('type', 'name', 'children', 'last', 'parent', 'next', 'prev', 'doc', 'ns')}
        self.hf = {n: field(P, '_xmlNs', n) for n in ('next', 'type', 'href', 'prefix')}

    def text(self, s):
        if s is None: return 0
        a = self.txt
        put(self.mem, (None, a), s.encode().decode('latin1') + '\0')
        self.txt += (len(s.encode()) + 16) // 16 * 16
        return a

    def new(self, cls, f, **kw):
        a = self.at; self.at += (sizeof(self.P, cls) + 15) // 16 * 16
        for n, (o, s) in f.items(): self.mem[None, a + o, s] = ('c', kw.get(n, 0), s * 8)
        return a

    def set(self, a, f, n, v): o, s = f[n]; self.mem[None, a + o, s] = ('c', v, s * 8)

    def node(self, d, parent=0):
        """d: ('E', name, attrs, children[, ns, nsdef]) or (kind, text)"""
        if d[0] == 'E':
            a = self.new('_xmlNode', self.f, type=self.kind['ELEMENT'], name=self.text(d[1]), parent=parent)
            for k, n in ((4, 'ns'), (5, 'nsDef')):
                if len(d) > k and d[k] is not None: self.set(a, self.f, n, self.new('_xmlNs', self.hf, href=self.text(d[k]) if d[k] != '' else 0))
            self.chain(a, [self.node(x, a) for x in d[3]])
            prev = 0
            for nm, parts in d[2]:
                b = self.new('_xmlAttr', self.af, type=self.kind['ATTRIBUTE'], name=self.text(nm), parent=a, prev=prev)
                if prev: self.set(prev, self.af, 'next', b)
                else: self.set(a, self.f, 'properties', b)
                kids = [self.node(x, b) for x in parts]
                for i, k in enumerate(kids):
                    self.set(k, self.f, 'next', kids[i + 1] if i + 1 < len(kids) else 0); self.set(k, self.f, 'prev', kids[i - 1] if i else 0)
                if kids: self.set(b, self.af, 'children', kids[0]); self.set(b, self.af, 'last', kids[-1])
                prev = b
            return a
        a = self.new('_xmlNode', self.f, type=self.kind[d[0]], parent=parent)
        if d[0] == 'ENTITY_REF': self.ent[a] = d[1]; self.set(a, self.f, 'name', self.text('ent')); self.set(a, self.f, 'content', self.text('&ent;'))
        else: self.set(a, self.f, 'content', self.text(d[1]))
        return a

    def chain(self, a, kids):
        for i, k in enumerate(kids):
            self.set(k, self.f, 'next', kids[i + 1] if i + 1 < len(kids) else 0); self.set(k, self.f, 'prev', kids[i - 1] if i else 0)
        if kids: self.set(a, self.f, 'children', kids[0]); self.set(a, self.f, 'last', kids[-1])

    def get(self, mem, a, f, n):
        v = load(mem, (None, a + f[n][0]), f[n][1])
        return v[1] if v is not None and v[0] == 'c' else None


def cstr(T, v, mem): return None if v is None or v == ('c', 0, 64) else T.text(v, mem)


def xml_value(kids):
    """the text of an element: all parts in front of its first child element"""
    s = ''
    for k in kids:
        if k[0] == 'E': break
        if k[0] in ('TEXT', 'CDATA', 'ENTITY_REF'): s += k[1]
    s = s.lstrip(' \t\r\n')
    return s or None


def xml_source(K, P):
    get = [0]
    base_end = {f.name for m in ('~Bin_src_plugin', 'Bin_src_plugin') for f in P.find('Bin_src_plugin::' + m)}

    def count(m, what, at):
        m[('xml', what, 0)] = ('n', m.get(('xml', what, 0), ('n', 0))[1] + 1)
        live = m.get(('xml', 'live', 0), ('set', frozenset()))[1]
        if what == 'freed' and at not in live: m[('xml', 'twice', 0)] = ('n', 1)
        m[('xml', 'live', 0)] = ('set', live | {at} if what == 'got' else live - {at})

    def calls(I, n, av, T, mem):
        r = stream.streams(I, n, av, T, mem)
        if r is not None: return r
        if n == 'xmlFreeDoc': return [(None, lambda m: m.__setitem__(('xml', 'doc', 0), ('n', m.get(('xml', 'doc', 0), ('n', 0))[1] + 1)))]
        if n in base_end or n in ('xmlCleanupParser', 'xmlCheckVersion'): return [(None, None)]
        if n == 'CALLBACK':
            old = mem.get(('handed', 0, 0), ('list', ()))[1]
            new = tuple(T.text(v, mem) if v is not None and v not in (('c', 0, 64), USER) and v[0] != 's' else None for v in av[:2]) if len(av) == 4 else ()
            return [(('c', 0, 64), lambda m: m.__setitem__(('handed', 0, 0), ('list', old + (new,))))]
        X = Xml.now
        if n in ('xmlNodeGetContent', 'xmlNodeListGetString', 'xmlStrcat', 'xmlStrdup', 'xmlStrncat'):
            def txt(v):
                if v is None: raise Lost('the XML library is handed something unknown', I.where)
                if v[0] == 'c' and v[1] == 0: return None
                s = T.text(v, mem)
                if s is None: raise Lost('the XML library is handed something unknown', I.where)
                return s
            def content(a):
                if a in X.ent: return X.ent[a]
                k = X.get(mem, a, X.f, 'type')
                if k in (X.kind['ELEMENT'], X.kind['ATTRIBUTE']):
                    s = ''; c = X.get(mem, a, X.f, 'children')
                    while c: s += content(c) or ''; c = X.get(mem, c, X.f, 'next')
                    return s
                return cstr(T, load(mem, (None, a + X.f['content'][0]), 8), mem)
            if n == 'xmlStrcat':
                a, b = txt(av[0]), txt(av[1])
                if b is None: return [(av[0], None)]
                s = (a or '') + b
            elif n == 'xmlStrncat':
                a, b = txt(av[0]), txt(av[1])
                if b is None: return [(av[0], None)]
                s = (a or '') + b[:av[2][1]]
            elif n == 'xmlStrdup':
                s = txt(av[0])
                if s is None: return [(('c', 0, 64), None)]
            elif n == 'xmlNodeGetContent': s = content(av[0][1])
            else:
                s = ''; c = av[1][1]
                if not c: return [(('c', 0, 64), None)]
                while c:
                    k = X.get(mem, c, X.f, 'type')
                    if k in (X.kind['TEXT'], X.kind['CDATA']) or c in X.ent: s += content(c) or ''
                    c = X.get(mem, c, X.f, 'next')
            get[0] += 1
            at = BUF + get[0] % 4096 * 0x400
            new = not (n in ('xmlStrcat', 'xmlStrncat') and a is not None)          # otherwise the first text is replaced

            def eff(m):
                put(m, (None, at), (s or '') + '\0')
                if new: count(m, 'got', at)
                else: m[('xml', 'live', 0)] = ('set', m.get(('xml', 'live', 0), ('set', frozenset()))[1] - {av[0][1]} | {at})
            return [(('c', at, 64), eff)]
        if n in ('xmlFree', 'free') or n is None and av and len(av) == 1: 
            a = av[0][1] if av and av[0] is not None and av[0][0] == 'c' else None
            if a and BUF <= a < FILE:
                def gone(m):
                    count(m, 'freed', a)
                    for k in [k for k in m if k[0] is None and a <= k[1] < a + 0x400]: m[k] = ('?',)
                return [(('c', 0, 64), gone)]
            return [(('c', 0, 64), None)]
        return None
    T = Trace(P, calls=calls, limit=20000, loads=lambda I, a, mem: ('g', a[1], 0) if a[0] == 'g' and a[1] in ('xmlFree', 'xmlMalloc') else None)

    def go(X, m, args, key):
        Xml.now = X
        F = P.fn('Bin_xml_plugin::' + m)
        mem = Mem(X.mem)
        mem[None, PX, sizeof(P, 'Bin_xml_plugin')] = ('fill', 0)
        for n, v in (('doc', ('s', '&DOC', 0)), ('root_element', ('c', X.root, 64))): store(mem, (None, PX + field(P, 'Bin_xml_plugin', n)[0]), 8, v)
        store(mem, (None, PX), 8, ('g', '_ZTVN9pklib_xml14Bin_xml_pluginE', 16))
        K.count('cases')
        E = T.run(F, {0: ('c', PX, 64), **args}, mem)
        for e in E:
            if e.kind != 'ret': K.ob('a source does not give up', key + ':end', False, e.where, 'the XML source gives up for %s' % key)
            no_null(K, e, key, F)
            n = [e.mem.get(('xml', k, 0), ('n', 0))[1] for k in ('got', 'freed')]
            if m == 'ForAllParams': K.ob('texts of the XML library are given back', key + ':free', n[0] == n[1], F.where, '%d of %d texts made by the XML library are given back' % (n[1], n[0]))
        return F, [e for e in E if e.kind == 'ret']

    def seen(e): return [x for x in e.ev if x[0] == 'call' and x[2] == 'CALLBACK']

    E = lambda n, *k, a=(): ('E', n, list(a), list(k))
    Tx = lambda s: ('TEXT', s)
    # children
    kinds = [None, E('x'), Tx('t'), ('CDATA', 'c'), ('COMMENT', 'm'), ('PI', 'p'), ('ENTITY_REF', 'r')]
    lists = [[k] for k in kinds[1:]] + [[a, b] for a in kinds[1:] for b in kinds[1:]] + [[E('x'), Tx(' '), E('y'), E('z')], [Tx('\n'), E('x'), ('COMMENT', 'm'), E('y'), Tx('\n'), E('z'), Tx('\n')], [], [E('a', E('b'), E('c', E('d'))), E('e')],
             [Tx('a'), ('COMMENT', 'm'), ('CDATA', 'b'), ('ENTITY_REF', 'c'), Tx('d'), E('x'), Tx('e')], [Tx('   \n'), ('CDATA', '  v'), Tx(' ')], [Tx(' \t\r\n '), E('x')], [Tx(' \t\r\nabc d ')], [Tx('')], [('COMMENT', 'x'), ('PI', 'y')], [('ENTITY_REF', '')], [Tx('é')]]
    for i, kids in enumerate(lists):
        X = Xml(P); X.root = X.node(E('r', *kids))
        want = []
        c = X.get(X.mem, X.root, X.f, 'children')
        while c:
            if X.get(X.mem, c, X.f, 'type') == X.kind['ELEMENT']: want.append(c)
            c = X.get(X.mem, c, X.f, 'next')
        key = 'xml:%d:%s' % (i, '+'.join(k[0] for k in kids))
        F, Es = go(X, 'ForAllChildren', {1: CB, 2: ('c', X.root, 64), 3: USER}, key)
        K.need(Es, 'ForAllChildren does not return')
        for e in Es:
            got = [x[3][0][1] if x[3][0] is not None and x[3][0][0] == 'c' else None for x in seen(e)]
            K.ob('each child element is handed over once and in order', key + ':children', got == want, F.where, 'of children %s, %s are handed over' % ([k[0] for k in kids], [want.index(g) if g in want else 'another node' for g in got]))
            K.ob('the receiver gets its data', key + ':user', all(x[3][1] == USER for x in seen(e)), F.where, 'the receiver of child elements does not get its data')
        order = []

        def pre(a, deep):
            order.append((a, deep))
            c = X.get(X.mem, a, X.f, 'children')
            while c:
                if X.get(X.mem, c, X.f, 'type') == X.kind['ELEMENT']: pre(c, deep + 1)
                c = X.get(X.mem, c, X.f, 'next')
        pre(X.root, 3)
        F, Es = go(X, 'ForAllChildrenRecursively', {1: CB, 2: ('c', X.root, 64), 3: USER, 4: C(3)}, key)
        for e in Es:
            got = [(x[3][0][1], x[3][2][1]) if x[3][0] is not None and x[3][2] is not None else None for x in seen(e)]
            K.ob('the whole tree is handed over, parents first', key + ':tree', got == order and all(x[3][1] == USER for x in seen(e)), F.where, 'elements and depths %s are handed over instead of %s' % (got, order))
        F, Es = go(X, 'getNodeValue', {1: ('c', X.root, 64)}, key)
        for e in Es:
            w = xml_value(kids)
            g = cstr(T, e.ret, e.mem)
            ok = g == (w.encode().decode('latin1') if w else None)
            K.ob('the text of an element is its value', key + ':value', ok and e.ret is not None, F.where, 'the value of an element with %s is %r instead of %r' % ([k[:2] if k[0] != 'E' else k[0] for k in kids], g, w))
        F, Es = go(X, 'getNodeName', {1: ('c', X.root, 64)}, key)
        for e in Es: K.ob('the name of an element', key + ':name', cstr(T, e.ret, e.mem) == 'r', F.where, 'the name of element r is %r' % cstr(T, e.ret, e.mem))
        F, Es = go(X, 'getRoot', {}, key)
        for e in Es: K.ob('the root is the root of the document', key + ':root', e.ret == ('c', X.root, 64), F.where, 'another element is the root')
    for m in ('ForAllChildren', 'ForAllChildrenRecursively', 'ForAllParams'):
        X = Xml(P); X.root = X.node(E('r'))
        F, Es = go(X, m, {1: CB, 2: ('c', 0, 64), 3: USER, 4: C(0)}, 'xml:none:' + m)
        for e in Es: K.ob('nothing is handed over for no element', 'xml:none:' + m, not seen(e), F.where, 'something is handed over for no element')
    # attributes
    shapes = [[], [Tx('v')], [Tx('')], [Tx('a'), ('ENTITY_REF', 'b')], [('ENTITY_REF', 'b')], [('ENTITY_REF', 'b'), Tx('c')], [Tx('a'), ('ENTITY_REF', 'b'), Tx('c')], [('ENTITY_REF', '')]]
    alists = [[]] + [[('p', s)] for s in shapes] + [[('p', a), ('q', b)] for a in shapes[1:5] for b in shapes[:4]] + [[('p%d' % i, s) for i, s in enumerate(shapes)]]
    for i, al in enumerate(alists):
        for ns, nd in ((None, None), ('urn:a', None), (None, 'urn:b'), ('urn:a', 'urn:b')):
            if i > 3 and (ns or nd) and i % 5: continue
            X = Xml(P); X.root = X.node(('E', 'r', al, [Tx('v'), E('x', a=[('q', [Tx('inner')])])], ns, nd))
            key = 'xml:params:%d:%s:%s' % (i, ns, nd)
            F, Es = go(X, 'ForAllParams', {1: CB, 2: ('c', X.root, 64), 3: USER}, key)
            want = [(nm, ''.join(p[1] for p in s)) for nm, s in al]
            for e in Es:
                got = list(e.mem.get(('handed', 0, 0), ('list', ()))[1])
                nsw = [('xmlns', ns or nd)] if ns or nd else []
                K.ob('each attribute is handed over once, in order, with its text', key, got == nsw + want, F.where, 'attributes %s are handed over instead of %s' % (got, nsw + want))
                K.ob('attributes are handed over with their element', key + ':user', all(x[3][2] == ('c', X.root, 64) and x[3][3] == USER for x in seen(e)), F.where, 'the receiver of attributes does not get the element or its data')
    # from the construction to the end
    ctor = [f for f in P.find('Bin_xml_plugin::Bin_xml_plugin') if not f.decl]
    dtor = [f for f in P.find('Bin_xml_plugin::~Bin_xml_plugin') if not f.decl and 'D0E' not in f.name]
    K.need(ctor and dtor, 'no constructor or destructor of the XML source')
    mixed = [Tx('a'), ('COMMENT', 'm'), ('CDATA', 'b'), ('ENTITY_REF', 'c')]
    for doc in (0, 1):
        for n in range(4) if doc else (0,):
            X = Xml(P); X.root = X.node(E('r', *mixed)); other = X.node(E('s', Tx('plain'))); X2 = X.node(E('t', ('COMMENT', 'm')))
            Xml.now = X
            key = 'xml:life:%d:%d' % (doc, n)
            K.count('cases')
            e = T.run(ctor[0], {0: ('c', PX, 64), 1: ('s', '&FILE', 0), 2: ('c', 0, 64)}, X.mem)[0]
            mem = e.mem
            if doc:
                for nm, v in (('doc', ('s', '&DOC', 0)), ('root_element', ('c', X.root, 64))): store(mem, (None, PX + field(P, 'Bin_xml_plugin', nm)[0]), 8, v)
            for el in [X.root, other, X.root, X2][:n + 1] if doc else []:
                e = T.run(P.fn('Bin_xml_plugin::getNodeValue'), {0: ('c', PX, 64), 1: ('c', el, 64)}, mem)[0]
                w = {X.root: 'abc', other: 'plain', X2: None}[el]
                K.ob('the text of an element is its value', key + ':value', cstr(T, e.ret, e.mem) == w, e.where, 'the value of an element asked after others is %r instead of %r' % (cstr(T, e.ret, e.mem), w))
                mem = e.mem
            for e in T.run(dtor[0], {0: ('c', PX, 64)}, mem):
                no_null(K, e, key, dtor[0])
                K.ob('everything is given back once', key, not e.mem.get(('xml', 'live', 0), ('set', ()))[1] and ('xml', 'twice', 0) not in e.mem and e.mem.get(('xml', 'doc', 0), ('n', 0))[1] == doc, dtor[0].where,
                     'the document or texts of the XML source are not given back exactly once')
    # initialization
    F = P.fn('Bin_xml_plugin::Initialize')
    up_ = {f.name for f in P.find('Bin_src_plugin::Initialize')}
    seen_ok = False
    for base in (0, 1):
        for d in (0, 1):
            for r in (0, 1):
                def calls2(I, n, av, T, mem):
                    q = stream.streams(I, n, av, T, mem)
                    if q is not None: return q
                    if n in up_: return [(('c', -base, 1), None)]
                    if n in ('xmlReadFile', 'xmlParseFile'): return [(('s', '&DOC', 0) if d else ('c', 0, 64), None)]
                    if n == 'xmlDocGetRootElement': return [(('s', '&ROOT', 0) if r and av[0] == ('s', '&DOC', 0) else ('c', 0, 64), None)]
                    return None
                mem = Mem()
                mem[None, PX, 8] = ('g', '_ZTVN9pklib_xml14Bin_xml_pluginE', 16)
                o, s = field(P, 'Bin_xml_plugin', 'filename'); mem[None, PX + o, s] = ('s', '&FILE', 0)
                K.count('cases')
                for e in Trace(P, calls=calls2).run(F, {0: ('c', PX, 64)}, mem):
                    if e.kind != 'ret': continue
                    ok = e.ret[1] & 1 if e.ret is not None and e.ret[0] == 'c' else None
                    K.ob('a document is ready exactly when it was read and has a root', 'xml:init:%d%d%d' % (base, d, r), ok == (base and d and r), e.where, 'the XML source reports %s when %s' % (ok, 'the document cannot be parsed' if not d else 'all went well' if r and base else 'there is no root'))
                    for x in e.ev:
                        if x[0] == 'call' and x[2] == 'xmlReadFile':
                            seen_ok = True
                            op = x[3][2]
                            K.ob('a damaged document is not accepted', 'xml:recover', op is not None and op[0] == 'c' and not op[1] & 1, e.where, 'damaged documents are accepted (recovery is enabled)')
                            K.ob('the document of the source is read', 'xml:file', x[3][0] == ('s', '&FILE', 0), e.where, 'another file is read')
                    if ok:
                        o, s = field(P, 'Bin_xml_plugin', 'root_element'); K.ob('the root of the document is kept', 'xml:keep', load(e.mem, (None, PX + o), s) == ('s', '&ROOT', 0), e.where, 'the root of the document is not kept')


JO = lambda *m: ('o', m)
JA = lambda *m: ('a', m)
JS = lambda src, text=None: ('s', src, src if text is None else text)
JP = lambda src: ('p', src, src)


def render(d, sp=''):
    if d[0] == 'o': return '{' + sp + (',' + sp).join((k if k[:1] == '`' else '"%s"' % k).strip('`') + sp + ':' + sp + render(v, sp) for k, v in d[1]) + sp + '}'
    if d[0] == 'a': return '[' + sp + (',' + sp).join(render(v, sp) for v in d[1]) + sp + ']'
    return '"%s"' % d[1] if d[0] == 's' else d[1]


def plain(k):
    """a name or text after decoding"""
    if k[:1] == '`': return k.strip('`')
    return json.loads('"%s"' % k).encode().decode('latin1')


def tree(d, name=None, member=False):
    """(name, value, children) of a document; items of arrays are named after their array"""
    if d[0] == 'o': return (name, None, [tree(v, plain(k), True) for k, v in d[1]])
    if d[0] == 'a':
        return (name, None, [tree(v, None if not member else name[:-1] if name[-1:] == 's' else name[:-4] if len(name) > 4 and name[-4:] == 'List' else name + 'Item') for v in d[1]])
    return (name, plain(d[1]) if d[0] == 's' else d[1], [])


ITEM = '__ARRAY_ITEM_NAME__'                          # nameless in a nameless array


def tokens_of(d): return 1 + sum(1 + tokens_of(v) for k, v in d[1]) if d[0] == 'o' else 1 + sum(map(tokens_of, d[1])) if d[0] == 'a' else 1


def json_source(K, P):
    def calls(I, n, av, T, mem):
        r = stream.streams(I, n, av, T, mem)
        if r is not None: return r
        if n == 'CALLBACK': return [(('c', 0, 64), None)]
        if n in base_init: return [(('c', 0 if fail[0] == 'base' else -1, 1), None)]
        if n in ('open', 'open64') and fail[0] == 'open': return [(C(-1), None)]
        if n in ('mmap', 'mmap64') and fail[0] == 'mmap': return [(('c', -1, 64), None)]
        if n in ('_Znam', '_Znwm', 'malloc', 'calloc'):
            if av[0] is None or av[0][0] != 'c': raise Lost('memory of unknown size is allocated', I.where)
            blocks.append((HEAP + (len(blocks) << 20), av[0][1] * (av[1][1] if n == 'calloc' else 1)))
            return [(('c', blocks[-1][0], 64), None)]
        if n in ('open', 'open64'): return [(C(5), None)]
        if n in ('mmap', 'mmap64'): return [(('c', FILE, 64), None)]
        if n in ('munmap', 'close', 'free', '_ZdaPv', '_ZdlPv', '_ZdlPvm', '_ZdaPvm'): return [(C(0), None)]
        if n in base_end: return [(None, None)]
        return None
    base_end = {f.name for m in ('~Bin_src_plugin', 'Bin_src_plugin') for f in P.find('Bin_src_plugin::' + m)}
    base_init = {f.name for f in P.find('Bin_src_plugin::Initialize')}
    blocks, fail = [], [None]
    T = Trace(P, calls=calls, limit=30000, depth=60)

    def beyond(mem): return [k for k in mem if k[0] is None and HEAP <= k[1] < HEAP + (len(blocks) << 20) and not any(a <= k[1] and k[1] + k[2] <= a + n for a, n in blocks)]
    g = lambda n: field(P, 'Bin_json_plugin', n)
    ctor = [f for f in P.find('Bin_json_plugin::Bin_json_plugin') if not f.decl]
    K.need(ctor, 'no constructor of the JSON source')
    ctor = ctor[0]
    dtor = [f for f in P.find('Bin_json_plugin::~Bin_json_plugin') if not f.decl and 'D0E' not in f.name]
    K.need(dtor, 'no destructor of the JSON source')
    dtor = dtor[0]

    def start(text):
        mem = Mem()
        E = T.run(ctor, {0: ('c', PJ, 64), 1: ('s', '&FILE', 0), 2: ('c', 0, 64)}, mem)
        K.need(len(E) == 1 and E[0].kind == 'ret', 'the source cannot be constructed')
        mem = E[0].mem
        for n, v, s in (('file_size', len(text), 8),): store(mem, (None, PJ + g(n)[0]), s, ('c', v, s * 8))
        del blocks[:]
        put(mem, (None, FILE), text)                      # nothing is known behind the end of the file
        return mem

    def one(m, args, mem, key):
        F = P.fn('Bin_json_plugin::' + m) if m[0] != '~' else dtor
        E = T.run(F, {0: ('c', PJ, 64), **args}, Mem(mem))
        K.ob('a source does not give up', key + ':end', all(e.kind == 'ret' for e in E) and len(E) == 1, F.where, 'the JSON source gives up for %s' % key)
        no_null(K, E[0], key, F)
        return F, E[0]

    def fits(mem, key, where, text):
        K.ob('parts and texts fit into their memory', key + ':fits', not beyond(mem), where, 'for document %r, memory behind an allocated block is written' % text)

    def look(el, mem, deep=0):
        if deep > 20: raise Lost('the children of a document never end', P.fn('Bin_json_plugin::ForAllChildren').where)
        _, e = one('getNodeName', {1: el}, mem, 'json:name'); nm = e.ret
        _, e = one('getNodeValue', {1: el}, e.mem, 'json:value')
        v = cstr(T, e.ret, e.mem); nm = cstr(T, nm, e.mem)        # name and value are used together
        mems.append(e.mem)
        _, e = one('ForAllChildren', {1: CB, 2: el, 3: USER}, e.mem, 'json:children')
        kids = [x[3] for x in e.ev if x[0] == 'call' and x[2] == 'CALLBACK']
        if any(k[1] != USER for k in kids): raise Lost('receiver without its data')
        mem, below = e.mem, []
        for k in kids:
            below.append(look(k[0], mem, deep + 1))
            mem = mems[-1]                                          # what was asked for one part is still there for the next
        mems.append(mem)
        return (nm, v, below), el

    def strip(t): return (None if t[0][0] == ITEM else t[0][0], t[0][1], [strip(x) for x in t[0][2]])
    def flat(t, deep): return [(t[1], deep)] + [y for x in t[0][2] for y in flat(x, deep + 1)]
    mems = []
    one_, two = JP('1'), JS('b')
    docs = [JO(), JA(), JO(('a', one_)), JO(('a', two)), JO(('a', one_), ('b', two)), JO(('a', JO())), JO(('a', JA())), JO(('a', JO(('b', one_)))), JO(('a', JO(('b', one_), ('c', two))), ('d', one_)),
            JO(('items', JA(one_, two, JP('true')))), JO(('xList', JA(JO(), JO(('a', one_))))), JO(('List', JA(one_))), JO(('items', JA(JO(('a', one_)), JO(('longer', one_)), two, JO(('x', JA(two))), JA(one_)))), JO(('xs', JA(JO(('longer', JA(one_))), JO(('y', two)), one_))), JO(('a', JA(one_, JA(two, one_), JO(('k', two))))), JA(one_, two), JA(JO(('a', one_)), JO(('b', two))), JA(JA(), JA(JA(one_))),
            JO(('s', JA(one_))), JO(('', one_)), JO(('a', JS(''))), JO(('`a`', one_), ('`b2`', JO(('`c`', two)))), JO(('a', JP('null')), ('b', JP('-1.5e3')), ('c', JP('false'))), JS('text'), JP('12'),
            JO(('a', JS('x\\ty\\n\\r\\b\\f'))), JO(('a', JS('q\\"\\\\\\/'))), JO(('a', JS('\\u0041\\u00e9\\u20ac\\ud83d\\ude00z'))), JO(('n\\u0073', JA(one_))), JO(('a\\tb', two)), JO(('a', JS('é€'))), JO(('a', JS('{[,:]}'))), JO(('a', JS('\\\\')), ('b', one_)),
            JO(('a', JA(JO(('b', JA(JO(('c', one_), ('d', JA()), ('e', two)))), ('f', JA(one_))))), ('g', two)), JO(('a', JS('\\u1234\\u5678\\u9abc\\u0def\\uABCD\\uEFEF\\uF9Af'))), JO(('a', JS('\\u007f\\u0080\\u07ff\\u0800\\uffff\\u0001\\ud7ff\\ue000'))), JO(('a', JS('\\ud800\\udc00\\udbff\\udfff\\ud9ab\\uddef!'))),
            JO(('longername', JS('longervalue')), ('x', JS('y'))), JO(('x', JS('longest value of all')), ('longername', one_))]
    for i, d in enumerate(docs):
        for sp in ('', ' ', '\n\t\r ') if i < 20 else ('',):
            text = sp + render(d, sp) + sp
            text = text.encode().decode('latin1')
            key = 'json:%d:%d' % (i, len(sp))
            K.count('cases')
            del blocks[:], mems[:]
            F, e = one('Initialize', {}, start(text), key)
            mems.append(e.mem)
            for x in e.ev:
                if x[0] == 'call' and x[2] in ('mmap', 'mmap64'):
                    a = x[3]
                    K.ob('the whole file is read', key + ':map', a[1] == ('c', len(text), 64) and a[2] is not None and a[2][0] == 'c' and a[2][1] & 1 and a[4] == C(5) and a[5] == ('c', 0, 64), F.where, 'something else than the whole file is mapped')
            ok = e.ret[1] & 1 if e.ret is not None and e.ret[0] == 'c' else None
            K.ob('a well formed document is accepted', key + ':accept', ok == 1, F.where, 'the document %r is refused' % text)
            if not ok: continue
            n = load(e.mem, (None, PJ + g('num_tokens0')[0]), 4)
            K.ob('the parts of a document are counted', key + ':count', n == ('c', tokens_of(d), 32), F.where, 'document %r has %d parts, %s are counted' % (text, tokens_of(d), n and n[1]))
            mem = e.mem
            _, e = one('getRoot', {}, mem, key)
            got = look(e.ret, mem)
            want = tree(d)
            K.ob('each name, value and array item is handed over once, in order', key, strip(got) == want, F.where, 'document %r is handed over as %s instead of %s' % (text, strip(got), want))
            fits(next((m for m in mems if beyond(m)), mems[0]), key, F.where, text)
            F2, e = one('ForAllChildrenRecursively', {1: CB, 2: e.ret, 3: USER, 4: C(2)}, mem, key)
            rec = [(x[3][0], x[3][2][1]) for x in e.ev if x[0] == 'call' and x[2] == 'CALLBACK' and x[3][1] == USER]
            K.ob('the whole tree is handed over, parents first', key + ':tree', rec == flat(got, 2), F2.where, 'document %r is not handed over in the order of the document' % text)
            Fd, e = one('~Bin_json_plugin', {}, mems[-1], key)
            E = [x for x in e.ev if x[0] == 'call']
            gone = [x[3][0] for x in E if x[2].startswith('_Zd') or x[2] == 'free']
            K.ob('everything is given back once', key + ':free', sorted(x[1] for x in gone if x is not None and x[1]) == [a for a, _ in blocks] and None not in gone
                 and [x[3][:2] for x in E if x[2] == 'munmap'] == [[('c', FILE, 64), ('c', len(text), 64)]] and [x[3][0] for x in E if x[2] == 'close'] == [C(5)], Fd.where, 'the memory, mapping or file of the source is not given back exactly once')
            _, e = one('ForAllParams', {1: CB, 2: ('c', 0, 64), 3: USER}, mem, key)
            K.ob('JSON has no attributes', key + ':params', not [x for x in e.ev if x[0] == 'call' and x[2] == 'CALLBACK'], F.where, 'an attribute is invented')
    for w in ('base', 'open', 'mmap'):
        fail[0] = w
        key = 'json:fail:' + w
        F, e = one('Initialize', {}, start('{"a":1}'), key)
        K.ob('a document that cannot be read is refused', key, e.ret is not None and e.ret[0] == 'c' and not e.ret[1] & 1, F.where, 'success is reported although the file cannot be read (%s)' % w)
        fail[0] = None
        Fd, e = one('~Bin_json_plugin', {}, e.mem, key)
        E = [x for x in e.ev if x[0] == 'call']
        K.ob('everything is given back once', key + ':free', not [x for x in E if x[2] == 'munmap'] and [x[3][0] for x in E if x[2] == 'close'] == ([C(5)] if w == 'mmap' else []), Fd.where, 'the file of a source that could not be read is not given back exactly once')
    mem = one('Initialize', {}, start('{"a":1}'), 'json:none')[1].mem
    for m in ('ForAllChildren', 'ForAllChildrenRecursively', 'getNodeName', 'getNodeValue'):
        none = ('c', 0, 64)
        F, e = one(m, {1: CB, 2: none, 3: USER, 4: C(0)} if m[0] == 'F' else {1: none}, mem, 'json:none:' + m)
        K.ob('nothing is handed over for no element', 'json:none:' + m, not [x for x in e.ev if x[0] == 'call' and x[2] == 'CALLBACK'] and (m[0] == 'F' or e.ret == none), F.where, 'something is handed over for no element')
    for i, text in enumerate(['', ' ', '{', '[', '}', ']', '{"a"', '{"a":', '{"a":1', '{"a":1]', '[1}', '"a', '{"a}', '[1]]', '{}}', '{"a":"\\x"}', '{"a":"\\u12g4"}', '{"a"}', '{"a":1 2}', '{:1}', '{"a":1,"b"}', '[1 "a":2]', '{1:[}]', '[{]}', '{{}}', '{[]}', '1 2', '{}{}', '[][]', '{"a":{},{}}', '{"a":1}:}', '[]:]', '{"a":1:2}', '{"a":"b":"c"}', '{"a":[1}', '["\\u00"]', '["\\', '["\\u', '{"a":\x01}']):
        key = 'json:bad:%d' % i
        K.count('cases')
        F, e = one('Initialize', {}, start(text), key)
        ok = e.ret[1] & 1 if e.ret is not None and e.ret[0] == 'c' else None
        K.ob('a malformed document is refused', key, ok == 0, F.where, 'the malformed document %r is accepted' % text)


def bw_source(K, P):
    """a writable document as a source"""
    TY = Types(P)
    t = TY.id
    tags = [('root', t['NULL']), ('num', t['INT32']), ('text', t['STRING']), ('big', t['INT64']), ('blob', t['BLOB']), ('hex', t['HEX'])]
    atts = [('pa', t['INT32']), ('pb', t['STRING']), ('pc', t['DOUBLE']), ('pd', t['SHA1']), ('pe', t['BLOB']), ('pf', t['HEX'])]
    tos = {f.name for f in P.find('XBT_ToString')}

    def calls(I, n, av, T, mem):
        r = stream.streams(I, n, av, T, mem)
        if r is not None: return r
        if n == 'CALLBACK':
            old = mem.get(('handed', 0, 0), ('list', ()))[1]
            if len(av) >= 4:                     # names are looked at when they are handed over
                nm = T.text(av[0], mem) if av[0] is not None and av[0][0] == 'c' else None
                new = (nm,) + tuple(v[1] if v is not None and v[0] in 'cs' else None for v in av[1:])
            else: new = tuple(v[1] if v is not None else None for v in av)
            return [(('c', 0, 64), lambda m: m.__setitem__(('handed', 0, 0), ('list', old + (new,))))]
        if n in tos:
            if any(v is None or v[0] != 'c' for v in av[:2]): return None
            return [(('s', '&TEXT:%d:%d' % (av[0][1], av[1][1] - POOL), 0), None)]
        return None
    T = Trace(P, calls=calls, limit=50000, depth=30)

    def heap():
        H = Heap(P); D = Doc(P, tags, atts, room=0x8000)
        K.need(D.end < 0x1000, 'the symbols do not fit into the model')
        H.mem.update(D.mem)
        o, s = field(P, 'BW_plugin', 'pool'); H.mem[None, PL + o, s] = ('c', POOL, 64)
        H.mem[None, PL, 8] = ('g', '_ZTVN9pklib_xml9BW_pluginE', 16)
        return H
    R, FLAG = 0x1000, ELEMENT

    def go(m, args, H, key):
        F = P.fn('BW_plugin::' + m)
        K.count('cases')
        E = T.run(F, {0: ('c', PL, 64), **args}, Mem(H.mem))
        K.ob('a source does not give up', key + ':end', len(E) == 1 and E[0].kind == 'ret', F.where, 'the source of writable documents gives up or is not decided for %s' % key)
        no_null(K, E[0], key, F)
        return F, E[0]
    KID, ATT = [0x1100, 0x1200, 0x1300, 0x1400], [0x2100, 0x2200, 0x2300, 0x2400, 0x2500, 0x2600]
    for n in range(4):
        for m in (0, 1, 2, 3, 6):
            for h in range(max(n, 1)):
                H = heap()
                kids = KID[:n]; at = ATT[:m]
                H.ring(kids, flags=FLAG); H.ring(at, flags=0)
                kids = kids[h:] + kids[:h]                # the first one need not be the first in memory
                for i, k in enumerate(kids): H.set(k, identification=1 + i % 5, value_type=tags[1 + i % 5][1])
                at = at[h % max(m, 1):] + at[:h % max(m, 1)]
                for i, k in enumerate(at): H.set(k, identification=i, value_type=atts[i][1])
                H.el(R, first_child=kids[0] if kids else 0, first_attribute=at[0] if at else 0, identification=0, flags=FLAG)
                sub = []
                if n > 1:                                  # the second child has children and attributes
                    sub = [0x3100, 0x3200]
                    H.ring(sub, flags=FLAG); H.set(kids[1], first_child=sub[0])
                    H.el(0x3300, flags=0, identification=4); H.set(kids[1], first_attribute=0x3300)
                key = 'bw:%d:%d:%d' % (n, m, h)
                F, e = go('ForAllChildren', {1: CB, 2: ptr(R), 3: C(77)}, H, key + ':children')
                got = list(e.mem.get(('handed', 0, 0), ('list', ()))[1])
                K.ob('each child element is handed over once and in order', key + ':children', got == [(POOL + k, 77) for k in kids], F.where, 'of %d children, %s are handed over' % (n, [kids.index(g[0] - POOL) if g[0] is not None and g[0] - POOL in kids else 'another element' for g in got]))
                F, e = go('ForAllChildrenRecursively', {1: CB, 2: ptr(R), 3: C(77), 4: C(3)}, H, key + ':tree')
                got = list(e.mem.get(('handed', 0, 0), ('list', ()))[1])
                want = [(R, 3)]
                for i, k in enumerate(kids): want += [(k, 4)] + ([(x, 5) for x in sub] if i == 1 else [])
                K.ob('the whole tree is handed over, parents first', key + ':tree', got == [(POOL + a, 77, d) for a, d in want], F.where, 'elements and depths %s are handed over instead of %s' % ([(g[0] and g[0] - POOL, g[-1]) for g in got], want))
                F, e = go('ForAllParams', {1: CB, 2: ptr(R), 3: C(77)}, H, key + ':params')
                got = list(e.mem.get(('handed', 0, 0), ('list', ()))[1])
                want = [(atts[i][0], '&TEXT:%d:%d' % (atts[i][1], k + 24), POOL + R, 77) for i, k in enumerate(at)]
                K.ob('each attribute is handed over once, in order, with its text', key + ':params', got == want, F.where, 'attributes %s are handed over instead of %s' % (got, want))
                F, e = go('ForAllBinParams', {1: CB, 2: ptr(R), 3: C(77)}, H, key + ':binparams')
                got = list(e.mem.get(('handed', 0, 0), ('list', ()))[1])
                want = [(atts[i][0], i, atts[i][1], POOL + k + 24, POOL + R, 77) for i, k in enumerate(at)]
                K.ob('each attribute is handed over once, in order, with its value', key + ':binparams', got == want and e.ret is not None and e.ret[0] == 'c' and e.ret[1] & 1 == 1, F.where, 'attributes %s are handed over instead of %s' % (got, want))
    for m in ('ForAllChildren', 'ForAllChildrenRecursively', 'ForAllParams', 'ForAllBinParams'):
        F, e = go(m, {1: CB, 2: ptr(0), 3: C(77), 4: C(0)}, heap(), 'bw:none:' + m)
        K.ob('nothing is handed over for no element', 'bw:none:' + m, not e.mem.get(('handed', 0, 0)), F.where, 'something is handed over for no element')
    # names and values
    for i, (nm, ty) in enumerate(tags):
        H = heap(); H.el(R, identification=i, flags=FLAG, value_type=ty)
        F, e = go('getNodeName', {1: ptr(R)}, H, 'bw:name:%d' % i)
        K.ob('the name of an element', 'bw:name:%d' % i, cstr(T, e.ret, e.mem) == nm, F.where, 'the name of element %s is %r' % (nm, cstr(T, e.ret, e.mem)))
    for i, (nm, ty) in enumerate(atts):
        H = heap(); H.el(R, identification=i, flags=0, value_type=ty)
        F, e = go('getNodeName', {1: ptr(R)}, H, 'bw:aname:%d' % i)
        K.ob('the name of an attribute', 'bw:aname:%d' % i, cstr(T, e.ret, e.mem) == nm, F.where, 'the name of attribute %s is %r' % (nm, cstr(T, e.ret, e.mem)))
    outt, outs = 0x7000000, 0x7000010
    for ty in TY.all + [t['NULL']]:
        nm = TY.names[ty]
        H = heap(); H.el(R, flags=FLAG, value_type=ty)
        text = 'some text'
        if nm in ('STRING', 'BLOB_STRING', 'VARIANT'): put(H.mem, (None, POOL + R + 24), text + '\0'); n = len(text)
        elif nm in ('BLOB', 'HEX'): store(H.mem, (None, POOL + R + 24), 4, C(13)); n = 13
        else: n = 0
        key = 'bw:value:' + nm
        F, e = go('getNodeBinValue', {1: ptr(R), 2: ('c', outt, 64), 3: ('c', outs, 64)}, H, key)
        gt, gs = load(e.mem, (None, outt), 4), load(e.mem, (None, outs), 4)
        K.ob('the type of a value is handed over', key + ':type', gt == C(ty), F.where, 'the type of a value of type %s is handed over as %s' % (nm, gt and gt[1]))
        if nm == 'NULL': K.ob('an element without value has none', key, e.ret == ('c', 0, 64) and gs == C(0), F.where, 'a value is handed over for an element without value')
        else:
            K.ob('the value is handed over', key, e.ret == ('c', POOL + R + 24, 64), F.where, 'something else than the value of type %s is handed over' % nm)
            if nm in ('STRING', 'BLOB', 'HEX'): K.ob('the size of a value is handed over', key + ':size', gs == C(n), F.where, 'the size of a value of type %s is %s instead of %d' % (nm, gs and gs[1], n))
        F, e = go('getNodeValue', {1: ptr(R)}, H, 'bw:text:' + nm)
        K.ob('the text of a value is handed over', 'bw:text:' + nm, e.ret == ('s', '&TEXT:%d:%d' % (ty, R + 24), 0), F.where, 'the text of another value or type is handed over')
    # root and symbols
    for r in (0, R, 0x1100):
        H = heap(); H.el(R); H.el(0x1100)
        o, s = field(P, 'BW_pool', 'root'); store(H.mem, (None, POOL + o), s, ('c', r, s * 8))
        F, e = go('getRoot', {}, H, 'bw:root:%x' % r)
        K.ob('the root is the root of the document', 'bw:root:%x' % r, e.ret == ptr(r), F.where, 'another element is the root')
    for k, L, en in (('nodes', tags, 'SYMBOL_TABLE_NODES'), ('params', atts, 'SYMBOL_TABLE_PARAMS')):
        F, e = go('getSymbolCount', {1: C(enum(P, en))}, heap(), 'bw:count:' + k)
        K.ob('the number of symbols', 'bw:count:' + k, e.ret == C(len(L)), F.where, '%s symbols of %d are announced' % (e.ret and e.ret[1], len(L)))
        for i in range(len(L) + 1):
            F, e = go('getSymbol', {1: C(enum(P, en)), 2: C(i), 3: ('c', outt, 64)}, heap(), 'bw:symbol:%s:%d' % (k, i))
            if i == len(L): K.ob('no symbol is invented', 'bw:symbol:%s:%d' % (k, i), e.ret == ('c', 0, 64), F.where, 'a symbol is invented'); continue
            g = cstr(T, e.ret, e.mem), load(e.mem, (None, outt), 4)
            K.ob('each symbol is handed over with its type', 'bw:symbol:%s:%d' % (k, i), g == (L[i][0], C(L[i][1])), F.where, 'symbol %s is handed over as %s' % (L[i], g))


def run(K):
    P = K.prog
    K.rule('Abstract interpretation of the sources on documents with all shapes of their parts: the sequence of callbacks must be exactly the elements and attributes of the document in order, and names and values exactly its texts.')
    K.assume('the XML library parses according to its documentation')
    xml_source(K, P)
    json_source(K, P)
    bw_source(K, P)
