"""C08: printing documents as XML text gives well formed XML with the same content."""
import struct
from xml.parsers import expat
from sa.types import *
from sa.trace import *
from sa.libc import texts
from sa import stream
from .c06 import World, values, put, sample, hex_lines

DOC, RD, TAGS, PARS, OBJ, DATA, CTX = 0x4000000, 0x5100000, 0x6000000, 0x6100000, 0x5200000, 0x7000000, 0x5300000
TAG = ['root', 'item', 'a', 'long-element.name', 'b']
ATTR = ['id', 'value', 'xml:lang', 'k']


class N:
    """a node: name, attributes (name, type, bytes, text), value (type, bytes, text) or None, children"""

    def __init__(self, name, attrs=(), value=None, kids=()):
        self.name = name; self.attrs = list(attrs); self.value = value; self.kids = list(kids)

    def tree(self): return (self.name, [(a[0], a[3]) for a in self.attrs], self.value[2] if self.value else '', [k.tree() for k in self.kids])


def S(t): return ('STRING', t.encode('latin1') + b'\0', t)


def parsed(b, parts=None):
    """tree of an XML text, or the complaint of a parser"""
    stack = [('', [], [], [])]
    p = expat.ParserCreate('iso-8859-1', None)
    p.ordered_attributes = True
    p.buffer_text = True

    def start(n, a): stack.append((n, [(a[i], a[i + 1]) for i in range(0, len(a), 2)], [], []))

    def end(n):
        x = stack.pop()
        stack[-1][3].append((x[0], x[1], ''.join(x[2]), x[3]))
    p.StartElementHandler = start; p.EndElementHandler = end
    p.CharacterDataHandler = lambda t: stack[-1][2].append(t)
    try: p.Parse(bytes(b), True)
    except expat.ExpatError as e: return 'not well formed: %s' % e
    return stack[0][3][0]


def differs(got, want, path=''):
    """first difference of two trees; text between children may gain white space"""
    if isinstance(got, str): return got
    path += '/' + want[0]
    if got[0] != want[0]: return 'element %s is printed as %s' % (path, got[0])
    if got[1] != want[1]: return 'attributes of %s are printed as %s instead of %s' % (path, short(got[1]), short(want[1]))
    if len(got[3]) != len(want[3]): return '%d children of %s are printed instead of %d' % (len(got[3]), path, len(want[3]))
    a, b = got[2], want[2]
    if want[3]: a, b = a.strip(), b.strip()
    if a != b: return 'the value of %s is printed as %s instead of %s' % (path, short(a), short(b))
    for g, w in zip(got[3], want[3]):
        d = differs(g, w, path)
        if d: return d
    return None


def short(x):
    s = repr(x)
    return s if len(s) < 80 else s[:40] + '...' + s[-30:]


def documents(P):
    yield 'an empty element', N('root')
    yield 'a text', N('root', [], S('text'))
    yield 'an empty text', N('root', [], S(''))
    yield 'attributes', N('root', [('id',) + S('1'), ('value',) + S(''), ('xml:lang',) + S('x y')])
    yield 'attributes and a text', N('root', [('id',) + S('7')], S('7'))
    yield 'a child', N('root', [], None, [N('item')])
    yield 'a child with a text', N('root', [('k',) + S('v')], None, [N('item', [('id',) + S('2')], S('t'))])
    yield 'children and a text', N('root', [], S('mixed'), [N('item'), N('a', [], S('x')), N('item')])
    yield 'children of children', N('root', [], None, [N('item', [], None, [N('a'), N('b', [('id',) + S('1')], None, [N('long-element.name', [], S('deep'))])]), N('item', [('k',) + S('2')], S('in'), [N('b')]), N('a')])
    yield 'a chain', N('root', [], None, [N('item', [], None, [N('a', [], None, [N('b', [], None, [N('item')])])])])
    every = ''.join(chr(c) for c in range(32, 256)) + '\t\n\r\r\n'
    yield 'all characters', N('root', [('id',) + S(every), ('value',) + S('<')], S('x' + every), [N('item', [('k',) + S('&amp;')], S(every))])
    yield 'markup', N('root', [('id',) + S('"<&>"'), ('value',) + S("'")], S('</root>'), [N('a', [], S(']]>')), N('a', [], S('<!-- -->')), N('a', [], S('&lt;')), N('a', [], S('"'))])
    for n in (4095, 4096, 4097, 4098, 8191, 8192, 8193):
        t = ''.join('&<>"abcdefgh'[(i * 5 + n) % 12] for i in range(n))
        yield 'a text of %d bytes' % n, N('root', [], S(t))
    for n in (4096, 8192): yield 'an attribute of %d bytes' % n, N('root', [('id',) + S('<' * (n - 1) + 'z'), ('value',) + S('y')])
    V = values()
    for t in sorted(V):
        for i, (b, x) in enumerate([V[t][0], V[t][-1]]):
            if x is None: continue
            yield 'a value of %s (%d)' % (t, i), N('root', [('id', t, b, x), ('k',) + S('.')], (t, b, x), [N('item', [('value', t, b, x)]), N('item', [], (t, b, x)), N('b', [('id',) + S('q'), ('value', t, b, x)], (t, b, x))])
    for n in (1, 16, 33, 3000):
        b = sample(n)
        yield 'a block of %d bytes' % n, N('root', [('id', 'HEX', struct.pack('<i', n) + b, hex_lines(b))], ('HEX', struct.pack('<i', n) + b, hex_lines(b)))


class Layout:
    """documents as they are stored in a binary file"""

    def __init__(self, P):
        self.P = P
        self.f = {m: field(P, 'XML_Item', m) for m in ('name', 'paramcount', 'childcount', 'length')}
        self.pf = {m: field(P, 'XML_Param_Description', m) for m in ('name', 'type', 'data')}
        self.head, self.pd = sizeof(P, 'XML_Item'), sizeof(P, 'XML_Param_Description')
        self.four = {t for t in ('INT32', 'UINT32', 'FLOAT', 'IPv4', 'UNIX_DATE', 'UNIX_TIME', 'INT32_DECI', 'INT32_CENTI', 'INT32_MILI', 'INT32_MICRO', 'INT32_NANO')}
        self.eight = {'INT64', 'UINT64', 'DOUBLE', 'UNIX_TIME64_MSEC'}

    def align(self, b, at, t):
        n = 1 if t == 'STRING' else 8 if t in self.eight else 4
        while (at + len(b)) % n: b += b'\0'

    def item(self, n, at, name=None, tail=None):
        """bytes of an element placed at an address, children included; tail: id of one more child"""
        kids = list(n.kids) + (['tail'] if tail is not None else [])
        b = bytearray(self.head + self.pd * len(n.attrs) + 4 * len(kids))
        t, v = n.value[:2] if n.value else ('NULL', b'')
        b.append(enum(self.P, 'XBT_' + t))
        if v: self.align(b, at, t); b += v
        ps = []
        for nm, t, v, _ in n.attrs:
            if t in self.four: d = int.from_bytes(v, 'little')
            elif not v: d = 0
            else:
                self.align(b, at, t); d = len(b); b += v
            ps.append((ATTR.index(nm) if not isinstance(nm, int) else nm, enum(self.P, 'XBT_' + t), d))
        for i, (x, t, d) in enumerate(ps):
            for m, y in (('name', x), ('type', t), ('data', d)):
                o, z = self.pf[m]; o += self.head + i * self.pd
                b[o:o + z] = (y & ((1 << 8 * z) - 1)).to_bytes(z, 'little')
        for i, k in enumerate(kids):
            while len(b) % 8: b += b'\0'
            o = self.head + self.pd * len(n.attrs) + 4 * i
            b[o:o + 4] = len(b).to_bytes(4, 'little')
            b += self.item(k, at + len(b)) if k != 'tail' else self.item(N(None), at + len(b), tail)
        while len(b) % 8: b += b'\0'
        for m, y in (('name', name if name is not None else TAG.index(n.name)), ('paramcount', len(n.attrs)), ('childcount', len(kids)), ('length', len(b))):
            o, z = self.f[m]
            b[o:o + z] = (y & ((1 << 8 * z) - 1)).to_bytes(z, 'little')
        return b

    def symbols(self, mem, table, at, names):
        """a loaded symbol table"""
        P = self.P
        b = bytearray(4 * len(names))
        for i, s in enumerate(names):
            b[4 * i:4 * i + 4] = (len(b) + 16).to_bytes(4, 'little'); b += s.encode() + b'\0'
        put(mem, at + 16, bytes(b))
        g = lambda m: field(P, '_XB_symbol_table', m)
        for m, v in (('count', len(names)), ('type_count', 0), ('item_container', at), ('reference_array', at + 16), ('type_array', at + 16 + 4 * len(names))):
            mem[None, table + g(m)[0], g(m)[1]] = ('c', v, g(m)[1] * 8)


def run(K):
    P = K.prog
    K.rule('Printing is interpreted on documents with elements in all positions, texts of all characters, values of all types and texts around the chunk size, read from a binary file and from sources with and without typed values. '
           'The printed text must be accepted by an XML parser and give the same elements, attributes and values.')
    L = Layout(P)
    W = World(P, limit=400000)
    base = W.calls

    def calls(I, n, av, T, mem):
        r = stream.streams(I, n, av, T, mem)
        if r is not None: return r
        r = source(I, n, av, T, mem)
        if r is not None: return r
        return base(I, n, av, T, mem)
    W.T.hook = calls
    W.T.mute = set()
    model = {}

    def source(I, n, av, T, mem):
        if n is None or not n.startswith('SRC:'): return None
        return model['answer'](I, n[4:], av, T, mem)
    where = lambda e: e.where

    def judge(rule, key, title, ends, want, sid='&stream0', where=None):
        K.count('documents printed')
        for e in ends:
            b = stream.written(e.mem, sid)
            if e.kind != 'ret': K.ob(rule, key + title, False, e.where, 'printing of %s aborts' % title); continue
            if None in b: K.ob(rule, key + title, False, where or e.where, 'printing of %s writes bytes that are not known: %s' % (title, short(''.join(chr(x) if x is not None else '?' for x in b)))); continue
            d = differs(parsed(b), want)
            K.ob(rule, key + title, d is None, where or e.where, 'printing of %s: %s' % (title, d))
        if not ends: K.ob(rule, key + title, False, where, 'printing of %s does not end' % title)

    # ---- documents in a binary file ---------------------------------------------------------------------
    F = P.fn('XML_Item::write')
    rf = {m: field(P, 'XB_reader', m) for m in ('doc', 'size', 'data', 'tag_symbols', 'param_symbols', 'verbosity')}

    def memory(body, extra=b''):
        mem = {}
        # meta root without content in front of the printed element
        head = bytearray(L.item(N('root'), DOC))
        whole = len(head) + len(body)
        put(mem, DOC, bytes(head) + bytes(body) + bytes(extra))
        o, z = L.f['length']; mem_put(mem, DOC + o, z, whole)
        for m, v in (('doc', DOC), ('size', whole + len(extra)), ('data', DOC + len(head)), ('verbosity', 0)): mem[None, RD + rf[m][0], rf[m][1]] = ('c', v, rf[m][1] * 8)
        L.symbols(mem, RD + rf['tag_symbols'][0], TAGS, TAG)
        L.symbols(mem, RD + rf['param_symbols'][0], PARS, ATTR)
        return mem, DOC + len(head)
    at = len(L.item(N('root'), DOC))
    A = lambda v: ('c', v, 64)
    for title, n in documents(P):
        mem, x = memory(L.item(n, DOC + at))
        judge('a binary document is printed completely and well formed', 'reader:', title, W.T.run(F, {0: A(x), 1: stream.stream(0), 2: A(RD), 3: C(0)}, mem), n.tree(), where=F.where)
    # texts of more than 64 kB
    t = ('abc &<' + 'lmnopqrst' * 9) * 804; t = t[:69800]
    n = N('root', [('id',) + S(t)], S(t[::-1]))
    mem, x = memory(L.item(n, DOC + at))
    W.T.limit, keep = 20000000, W.T.limit
    judge('a binary document is printed completely and well formed', 'reader:', 'long texts', W.T.run(F, {0: A(x), 1: stream.stream(0), 2: A(RD), 3: C(0)}, mem), n.tree(), where=F.where)
    W.T.limit = keep
    n = N('root', [], None, [N('item')])
    for d in (1, 3):
        mem, x = memory(L.item(n, DOC + at))
        judge('a binary document is printed completely and well formed', 'reader:', 'an element at depth %d' % d, W.T.run(F, {0: A(x), 1: stream.stream(0), 2: A(RD), 3: C(d)}, mem), n.tree(), where=F.where)
    # names of the format itself
    n = N('root', [(enum(P, 'XPNR_COUNT'),) + S('5')])
    mem, x = memory(L.item(n, DOC + at, enum(P, 'XTNR_PAYLOAD')))
    judge('a binary document is printed completely and well formed', 'reader:', 'names of the format', W.T.run(F, {0: A(x), 1: stream.stream(0), 2: A(RD), 3: C(0)}, mem), ('payload', [('count', '5')], '', []), where=F.where)
    # elements that were appended behind the document
    for k in (0, 1, 3):
        n = N('root', [], None, [N('item', [], S('first'))])
        body = L.item(n, DOC + at, None, enum(P, 'XTNR_ET_TECERA'))
        extra = bytearray(); want = n.tree()
        for i in range(k):
            e = N('a', [('id',) + S(str(i))], S('appended'), [N('b')] * i)
            extra += L.item(e, DOC + at + len(body) + len(extra)); want[3].append(e.tree())
        mem, x = memory(body, extra)
        judge('a binary document is printed completely and well formed', 'reader:', '%d appended elements' % k, W.T.run(F, {0: A(x), 1: stream.stream(0), 2: A(RD), 3: C(0)}, mem), want, where=F.where)
    # the operator for a reader
    ops = [f for f in P.repo_funcs if f.short.split('::')[-1] == 'operator<<' and any('XB_reader' in str(t) for t in (f.dit or []))]
    K.need(len(ops) == 1, 'the stream operator of readers')
    for k in (0, 1):
        n = N('root', [('id',) + S('1')], None, [N('item', [], S('first')), N('a')])
        mem, x = memory(b'')
        b = bytearray(L.head + 4 * 3 + 4)
        head = len(b)
        while head % 8: head += 1
        # the root holds both symbol tables (here without content) and the payload
        blob = bytearray(b); blob += b'\0' * (head - len(b))
        offs = []
        for nm in ('XTNR_TAG_SYMBOLS', 'XTNR_PARAM_SYMBOLS')[::1 if k == 0 else -1]:
            offs.append(len(blob)); blob += L.item(N(None), DOC, enum(P, nm))
        offs.insert(1 if k else 2, len(blob))
        pl = bytearray(L.head + 4 + 4); inner = L.item(n, DOC + len(blob) + len(pl))
        for m, y in (('name', enum(P, 'XTNR_PAYLOAD')), ('paramcount', 0), ('childcount', 1), ('length', len(pl) + len(inner))):
            o, z = L.f[m]; pl[o:o + z] = (y & ((1 << 8 * z) - 1)).to_bytes(z, 'little')
        pl[L.head:L.head + 4] = len(pl).to_bytes(4, 'little')
        blob += pl + inner
        for i, o in enumerate(offs): blob[L.head + 4 * i:L.head + 4 * i + 4] = o.to_bytes(4, 'little')
        for m, y in (('name', enum(P, 'XTNR_META_ROOT')), ('paramcount', 0), ('childcount', 3), ('length', len(blob))):
            o, z = L.f[m]; blob[o:o + z] = (y & ((1 << 8 * z) - 1)).to_bytes(z, 'little')
        put(mem, DOC, bytes(blob))
        mem[None, RD + rf['size'][0], rf['size'][1]] = ('c', len(blob), 64)
        mem[None, RD + rf['data'][0], rf['data'][1]] = ('c', DOC + len(blob) - len(inner), 64)
        judge('a binary document is printed completely and well formed', 'reader:', 'a whole file (%d)' % k, W.T.run(ops[0], {0: stream.stream(0), 1: A(RD)}, mem), n.tree(), where=ops[0].where)
    # ---- sources ----------------------------------------------------------------------------------------
    table = '_ZTVN9pklib_xml14Bin_xml_pluginE'
    slots = []
    for i in range(2, 40):
        v = P.gload(table, 8 * i, 8, force=True)
        if v is None or v[0] != 'g': break
        slots.append(P.funcs[v[1]].short.split('::')[-1] if v[1] in P.funcs else v[1])
    sources(K, P, W, model, slots, judge)
    K.minimum('documents printed', 150)


def mem_put(mem, a, z, v):
    for i in range(z): mem[None, a + i, 1] = ('c', sx(v >> 8 * i & 255, 8), 8)


def sources(K, P, W, model, slots, judge):
    ops = [f for f in P.repo_funcs if f.short.split('::')[-1] == 'operator<<' and any('Bin_src_plugin' in str(t) for t in (f.dit or []))]
    K.need(len(ops) == 1, 'the stream operator of sources')
    F = ops[0]
    need = {'getRoot', 'getNodeName', 'getNodeValue', 'getNodeBinValue', 'ForAllChildren', 'ForAllParams', 'ForAllBinParams'}
    K.need(need <= set(slots), 'virtual operations of sources')
    plain = {m: [f for f in P.find('Bin_src_plugin::' + m, False) or []] for m in need}
    A = lambda v: ('c', v, 64)
    NODE = 0x9000000
    listing = P.find('Bin_src_plugin::print', False)
    for mode in ('text', 'typed', 'typed values', 'base'):
        for title, root in documents(P):
            if mode in ('typed values', 'base') and 'bytes' in title and '4097' not in title: continue
            nodes = []; mem = {}; pos = [DATA]

            def bytes_(b):
                a = (pos[0] + 7) & ~7
                put(mem, a, b); pos[0] = a + len(b) + 16
                return a

            def number(n):
                i = len(nodes); nodes.append(n); n.id = NODE + i * 16
                n.sname = bytes_(n.name.encode() + b'\0')
                n.at = [(bytes_(a[0].encode() + b'\0'), enum(P, 'XBT_' + a[1]), bytes_(a[2]), bytes_(a[3].encode('latin1') + b'\0')) for a in n.attrs]
                n.val = (enum(P, 'XBT_' + n.value[0]), bytes_(n.value[1]), bytes_(n.value[2].encode('latin1') + b'\0'), len(n.value[1])) if n.value else None
                for k in n.kids: number(k)
            number(root)
            by = {n.id: n for n in nodes}
            for i, s in enumerate(slots):
                use = ('g', 'SRC:' + s, 0)
                if plain.get(s) and (mode == 'base' or mode == 'text' and s == 'ForAllBinParams') and s in ('getNodeBinValue', 'ForAllBinParams'): use = ('g', plain[s][0].name, 0)
                mem[('g', 'VTABLE'), 8 * i, 8] = use
            mem[None, OBJ, 8] = ('g', 'VTABLE', 0)

            def node(av, k=1): return by.get(av[k][1]) if len(av) > k and av[k] is not None and av[k][0] == 'c' else None

            def visit(T, mem, calls_):
                """all outcomes of a row of callbacks"""
                states = [mem]
                for G, args in calls_:
                    states = [e.mem for m in states for e in T.run_(G, dict(enumerate(args)), m, 2, None) if e.kind == 'ret']
                return states

            def callback(av): return P.funcs.get(av[1][1]) if len(av) > 1 and av[1] is not None and av[1][0] == 'g' else None

            def answer(I, s, av, T, mem):
                if s == 'getRoot': return [(A(root.id), None)]
                if s.startswith('ForAll'):
                    n, G = node(av, 2), callback(av)
                    if G is None or n is None: return [(None, None)]
                    res = None
                    if s == 'ForAllChildren': rows = [(G, [A(k.id), av[3]]) for k in n.kids]
                    elif s == 'ForAllParams': rows = [(G, [A(a), A(x), av[2], av[3]]) for a, t, b, x in n.at]
                    elif s == 'ForAllBinParams' and mode == 'typed': res = ('c', -1, 1); rows = [(G, [A(a), C(0), C(t), A(b), av[2], av[3]]) for a, t, b, x in n.at]
                    elif s == 'ForAllBinParams': res = ('c', 0, 1); rows = []
                    else: return [(None, None)]
                    return [(res, become(m)) for m in visit(T, mem, rows)]
                n = node(av)
                if n is None: return [(None, None)]
                if s == 'getNodeName': return [(A(n.sname), None)]
                if s == 'getNodeValue': return [(A(n.val[2] if n.val else 0), None)]
                if s == 'getNodeBinValue':
                    if mode == 'text': r, t, z = 0, enum(P, 'XBT_UNKNOWN'), 0
                    elif n.val: r, t, z = n.val[1], n.val[0], n.val[3]
                    else: r, t, z = 0, enum(P, 'XBT_NULL'), 0

                    def eff(m):
                        store(m, place(av[2]), 4, C(t)); store(m, place(av[3]), 4, C(z))
                    return [(A(r), eff)]
                return [(None, None)]
            model['answer'] = answer
            judge('a source is printed completely and well formed', 'source:%s:' % mode, title, W.T.run(F, {0: stream.stream(0), 1: A(OBJ)}, mem), root.tree(), where=F.where)
            if mode == 'base' and listing and plain_text(root):
                judge('the listing of a source shows the whole document', 'listing:', title, W.T.run(listing[0], {0: A(OBJ)}, mem), root.tree(), sid='stdout', where=listing[0].where)


def plain_text(n):
    """a listing does not escape"""
    t = [n.value[2] if n.value else ''] + [a[3] for a in n.attrs]
    return not any(c in x for x in t for c in '<>&"\t\n\r') and all(plain_text(k) for k in n.kids)
