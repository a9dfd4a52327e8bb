"""C12: a serialised node describes its element completely and stays inside the buffer."""
from sa.types import *
from sa.trace import *

CR, DATA, WPP, SRCOBJ, VALS, NAMES, ELS, TAB = 0x6000000, 0x7000000, 0x8000000, 0x5000000, 0x9000000, 0xa000000, 0xb000000, 0xc000000
LOG = ('log',)


def log(m, x): m[LOG, sum(1 for k in m if k[0] == LOG), 1] = ('s', x, 0)


def logged(m): return [m[k][1] for k in sorted((k for k in m if k[0] == LOG), key=lambda k: k[1])]


def A(v): return ('c', v, 64)


class Out:
    """the creator with a buffer, and what serialisation calls"""

    def __init__(self, P, T, limit, start):
        self.P, self.T, self.limit, self.start = P, T, limit, start
        self.mem = {}
        for n, v in (('data', DATA), ('data_size_allocated', limit), ('src', SRCOBJ)):
            o, s = field(P, 'Bin_xml_creator', n); self.mem[None, CR + o, s] = ('c', v, s * 8)
        self.mem[None, SRCOBJ, 8] = ('g', '_ZTVN9pklib_xml9BW_pluginE', 16)
        self.mem[None, WPP, 8] = A(DATA + start)
        self.text = {}                                # address -> length
        self.ids = {}                                 # name -> id
        nm = lambda *l: {f.name for s in l for f in P.find(s)}
        self.find, self.copy, self.conv = nm('Bin_xml_creator::Find'), nm('XBT_Copy'), nm('XBT_FromString')
        self.detect, self.detect2 = nm('XBT_Detect'), nm('XBT_Detect2')
        self.nested = {}                              # function -> kind
        self.X = DATA + up(start, 4)
        self.params = []; self.children = []; self.binary = True
        self.value = None; self.name = NAMES; self.vtype = 0
        self.pcount = None
        self.dtype = {}                               # text address -> detected type
        self.bad = set()                              # texts that cannot be converted

    def width(self, t, src):
        n = self.T.names[t]
        if n == 'STRING': return self.text.get(src, 0) + 1
        if n in Types.VAR: return 4 + self.text.get(src, 0)
        if n == 'NULL': return 0
        if n == 'SHA1': return 24
        return Types.FIXED.get(n)

    def put(self, m, av, t, src, cell, limit, kind):
        w = load(m, cell, 8)
        if w is None or w[0] != 'c' or t is None or t[0] != 'c' or src is None or src[0] != 'c' or limit is None: return [(None, None)]
        n = self.width(t[1], src[1])
        lim = limit[1] if limit[0] == 'c' else None
        if n is None or lim != DATA + self.limit:
            return [(('c', 0, 1), lambda m: log(m, ('wrong', kind, t[1], lim)))]
        al = self.T.align(t[1]) if n else 0
        at = up(w[1], al or 1)
        fits = at + n <= lim
        def eff(m):
            log(m, (kind, w[1], at, n, t[1], src[1]))
            store(m, cell, 8, A(at + n))
        if src[1] in self.bad: return [(('c', 0, 1), None)]
        return [(('c', -1, 1), eff)] if fits else [(('c', 0, 1), None)]

    def each(self, T, fn, calls, m):
        """all ways in which a sequence of callbacks changes memory"""
        ms = [m]
        for args in calls:
            nx = []
            for x in ms:
                for e in T.run_(self.P.funcs[fn], dict(enumerate(args)), x, 1, None):
                    if e.kind == 'ret': nx.append(e.mem)
            ms = nx
        return ms

    def calls(self, I, n, av, T, m):
        P = self.P
        if n in self.find:
            k = av[1]
            if k is None or k[0] != 'c': return [(None, None)]
            r = self.ids.get(k[1])
            return [(('c', r if r is not None else -1, 16 if width(I.t) == 16 else 32), lambda m: log(m, ('find', k[1], av[2][1] if av[2] and av[2][0] == 'c' else None)))]
        if n == 'strcmp' and any(x is not None and x[0] == 'c' and NAMES <= x[1] < ELS for x in av[:2]): return [(C(1), None)]
        if n == 'strlen' and av[0] is not None and av[0][0] == 'c' and av[0][1] in self.text: return [(A(self.text[av[0][1]]), None)]
        if n and (n in ('strcpy', 'strncpy') or n.split('.')[1 if n.startswith('llvm.') else 0] in ('memcpy', 'memmove')) and av[1] is not None and av[1][0] == 'c' and av[1][1] in self.text:
            d, s = av[0], av[1][1]
            k = self.text[s] + 1 if n in ('strcpy', 'strncpy') else av[2][1] if av[2] is not None and av[2][0] == 'c' else None
            if d is None or d[0] != 'c' or k is None: return [(av[0], lambda m: log(m, ('wrong', 'str', 0, 0)))]
            def eff(m):
                log(m, ('str', d[1], d[1], k, self.T.id['STRING'], s))
                store(m, (None, d[1]), k, ('s', ('bytes', s), 0))
            return [(av[0], eff)]
        if n in self.copy: return self.put(m, av, av[1], av[0], place(av[3]), av[4], 'copy')
        if n in self.conv: return self.put(m, av, av[1], av[0], place(av[2]), av[3], 'conv')
        if n in self.detect or n in self.detect2:
            return [(C(self.dtype.get(av[0][1], self.T.id['STRING'])), None)] if av[0] is not None and av[0][0] == 'c' else [(None, None)]
        if n in self.nested:
            kind = self.nested[n]
            cell = place(av[1]); w = load(m, cell, 8)
            if w is None or w[0] != 'c': return [(A(0), lambda m: log(m, ('wrong', 'node', 0, 0)))]
            node = up(w[1], 4)
            what = tuple(x[1] if x is not None and x[0] == 'c' else None for x in av[2:])
            def eff2(m):
                log(m, ('node', node, kind, what)); store(m, cell, 8, A(node + 20))
            out = [(A(0), None), (A(0), lambda m: store(m, cell, 8, A(node + 8)))]
            if node + 20 <= DATA + self.limit: out.append((A(node), eff2))
            return out
        if n is None or 'plugin' not in n: return None
        if 'getNodeName' in n: return [(A(self.name), None)]
        if 'getRoot' in n: return [(A(ELS), None)]
        if 'getFilename' in n: return [(A(VALS), None)]
        if 'getNodeBinValue' in n:
            if not self.binary: return [(A(0), None)]
            tc, sc = place(av[2]), place(av[3])
            def eff3(m):
                store(m, tc, 4 if self.tw == 4 else self.tw, ('c', self.vtype, 8 * self.tw)); store(m, sc, 4, C(self.text.get(self.value, 0)))
            return [(A(self.value or 0), eff3)]
        if 'getNodeValue' in n: return [(A(self.value or 0), None)]
        cb = av[1][1] if len(av) > 1 and av[1] is not None and av[1][0] == 'g' else None
        if 'ForAllBinParams' in n or 'ForAllParams' in n:
            if cb is None: return [(None, None)]
            if ('Bin' in n.split('ForAll')[1][:3]) != self.binary:
                return [(('c', 0, 1), None)] if not self.binary else [(None, lambda m: log(m, ('wrong', 'params', 0, 0)))]
            L = [[A(nm), C(0), C(t), A(v), av[2], av[3]] if self.binary else [A(nm), A(v), av[2], av[3]] for nm, t, v in self.params]
            if self.pcount is not None and not any(x[0] == 'poked' for x in logged(m)):
                o, s = field(P, 'XML_Item', 'paramcount')
                m = Mem(m); log(m, ('poked',)); store(m, (None, self.X + o), s, ('c', self.pcount, 16))
            r = []
            for x in self.each(T, cb, L, m):
                eff4 = become(x)
                r.append((('c', -1, 1), eff4))
            return r
        if 'ForAllChildren' in n and 'Recurs' not in n:
            if cb is None: return [(None, None)]
            r = []
            for x in self.each(T, cb, [[A(c), av[3]] for c in self.children], m):
                eff5 = become(x)
                r.append((None, eff5))
            return r
        return None

    def num(self, m, at, s):
        v = load(m, (None, at), s)
        return v[1] if v is not None and v[0] == 'c' else None


def run(K):
    P = K.prog
    K.rule('Abstract interpretation of the serialisation of one node for each number of attributes and children, each value type, binary and text sources, each buffer size around the needed one and each outcome of nested steps; '
           'sources, conversions and nested nodes are replaced by their contracts. A returned node must describe exactly its element at matching offsets, without overlaps, and nothing may be stored behind the buffer.')
    K.assume('sources call back once per attribute and child, the same in both passes; conversions behave as C06 states')
    T = Types(P)
    szX, szD = sizeof(P, 'XML_Item'), sizeof(P, 'XML_Param_Description')
    fx = {n: field(P, 'XML_Item', n) for n in ('name', 'paramcount', 'childcount', 'length')}
    fd = {n: field(P, 'XML_Param_Description', n) for n in ('name', 'type', 'data')}
    WN = P.fn('Bin_xml_creator::WriteNode'); WP = P.fn('Bin_xml_creator::WritePayloadContainer'); WS = P.fn('Bin_xml_creator::WriteChildSymbols'); FD = P.fn('Bin_xml_creator::FillData')
    K.count('functions', 4)
    inline = {t for t in T.all if Types.FIXED.get(T.names[t]) == 4}
    types = [t for t in T.all if T.names[t] in Types.FIXED or T.names[t] in Types.VAR or T.names[t] in ('STRING', 'NULL')]
    null, string = T.id['NULL'], T.id['STRING']
    tabs = dict(nodes=enum(P, 'SYMBOL_TABLE_NODES'), params=enum(P, 'SYMBOL_TABLE_PARAMS'))
    tn = enum(P, 'XTNR_NULL')

    def word(O, a, n):
        """a value of n content bytes at address a"""
        O.text[a] = n
        O.mem[None, a, 1] = ('c', 0x78 if n else 0, 8)

    def blob(O, a, n):
        O.text[a] = n; O.mem[None, a, 4] = C(n)

    def setup(limit, start, binary, value, params, nchild, missing=()):
        """value, params: types; -1 stands for an absent value"""
        O = Out(P, T, limit, start)
        O.binary = binary; O.tw = 4
        O.nested = {WN.name: 'node'}
        o, s = field(P, 'Bin_xml_creator', 'symbol_table_types')
        for i in range(2): O.mem[None, CR + o + 8 * i, 8] = A(TAB + i * 0x10000)
        O.ids[NAMES] = 100
        for i, t in enumerate(params):
            nm, a = NAMES + 0x100 * (i + 1), VALS + 0x100 * (i + 1)
            O.ids[nm] = 200 + i
            if t == -1: a = 0
            elif T.names[t] in Types.VAR and binary: blob(O, a, 5 + i)
            else: word(O, a, 5 + i)
            O.dtype[a] = t
            O.params.append((nm, t if t != -1 else string, a))
        for i in missing: O.ids[NAMES + 0x100 * i] = tn
        if value != -1:
            O.value = VALS; O.vtype = value; O.dtype[VALS] = value
            if T.names[value] in Types.VAR and binary: blob(O, VALS, 7)
            else: word(O, VALS, 7)
        else: O.vtype = null
        O.children = [ELS + 0x100 * (i + 1) for i in range(nchild)]
        return O

    def judge(O, e):
        """what is wrong with a returned node"""
        m = e.mem
        X = O.X
        L = logged(m)
        if any(x[0] == 'wrong' for x in L): return 'the limit of the buffer or the source is not passed on: %s' % [x[1:] for x in L if x[0] == 'wrong'][0].__repr__()
        end = O.num(m, WPP, 8)
        if e.ret != A(X): return 'its address is not returned'
        g = lambda n: O.num(m, X + fx[n][0], fx[n][1])
        if g('name') != O.ids[O.name]: return 'its name is %s, expected %d' % (g('name'), O.ids[O.name])
        if g('paramcount') != len(O.params): return 'it has %s attributes, expected %d' % (g('paramcount'), len(O.params))
        if g('childcount') != len(O.children): return 'it has %s children, expected %d' % (g('childcount'), len(O.children))
        if end is None or g('length') != end - X: return 'its length is %s, expected %s' % (g('length'), end - X if end else '?')
        used = [(X, X + szX, 'header')]
        q = X + szX; c = q + szD * len(O.params); tb = c + 4 * len(O.children)
        used.append((q, c, 'table of attributes')); used.append((c, tb, 'table of children')); used.append((tb, tb + 1, 'type of value'))
        data = [x for x in L if x[0] in ('copy', 'conv', 'str')]
        # value
        vt = O.num(m, tb, 1)
        if O.value is None:
            if vt != null: return 'the type of its absent value is %s' % vt
        else:
            mine = [x for x in data if x[5] == O.value]
            want = O.vtype if O.binary else O.dtype[O.value]
            if vt != want: return 'the type of its value is %s, expected %s' % (T.names.get(vt, vt), T.names[want])
            if len(mine) != 1 or mine[0][4] != vt: return 'its value is stored %d times' % len(mine)
            if mine[0][1] != tb + 1: return 'its value is stored %d bytes behind its type' % (mine[0][1] - tb - 1)
            used.append((mine[0][2], mine[0][2] + mine[0][3], 'value'))
            data.remove(mine[0])
        for i, (nm, t, a) in enumerate(O.params):
            d = q + i * szD
            h = lambda n: O.num(m, d + fd[n][0], fd[n][1])
            ty = h('type')
            if h('name') != O.ids[nm]: return 'attribute %d has name %s, expected %d' % (i, h('name'), O.ids[nm])
            mine = [x for x in data if x[5] == a and a]
            if not a or O.text[a] == 0 and not O.binary or O.binary and t == null:
                if ty != null or h('data') != 0 or mine: return 'attribute %d without value has type %s and data %s' % (i, T.names.get(ty, ty), h('data'))
                continue
            if ty is None or O.binary and ty != t: return 'attribute %d of type %s is stored as %s' % (i, T.names[t], T.names.get(ty, ty))
            if not O.binary and ty not in (O.dtype[a], string): return 'text of attribute %d is stored as %s' % (i, T.names.get(ty, ty))
            if len(mine) != 1 or mine[0][4] != ty: return 'the value of attribute %d is stored %d times' % (i, len(mine))
            k, w, at, n = mine[0][:4]
            data.remove(mine[0])
            if ty in inline:
                if w != d + fd['data'][0]: return 'the value of attribute %d of type %s is not stored in its description' % (i, T.names[ty])
                continue
            if h('data') != at - X: return 'attribute %d leads to offset %s, its value is at %d' % (i, h('data'), at - X)
            if ty == string and n < O.text[a] + 1: return 'just %d bytes of the text of attribute %d are stored' % (n, i)
            used.append((at, at + n, 'value of attribute %d' % i))
        if data: return '%d foreign values are stored' % len(data)
        nodes = [x for x in L if x[0] == 'node']
        if len(nodes) != len(O.children): return '%d children are stored, expected %d' % (len(nodes), len(O.children))
        for i, (x, el) in enumerate(zip(nodes, O.children)):
            if x[3][0] != el: return 'child %d is another element' % i
            if O.num(m, c + 4 * i, 4) != x[1] - X: return 'reference %d is %s, the child is at %d' % (i, O.num(m, c + 4 * i, 4), x[1] - X)
            used.append((x[1], x[1] + 20, 'child %d' % i))
        used.sort()
        for (a, b, s), (a2, b2, s2) in zip(used, used[1:]):
            if a2 < b: return '%s overlaps %s' % (s2, s)
        if used[-1][1] > end: return '%s reaches behind its end' % used[-1][2]
        if end > DATA + O.limit: return 'it reaches behind the buffer'

    def beyond(O, e):
        for k in e.mem:
            if k[0] is None and DATA - (1 << 20) <= k[1] < DATA + (1 << 22) and (k[1] + k[2] > DATA + O.limit or k[1] < DATA + O.start) and e.mem[k][0] != '?': return k[1] - DATA
            if k[0] is None and DATA <= k[1] < DATA + (1 << 22) and k[1] + k[2] > DATA + O.limit: return k[1] - DATA

    def go(O, key, what, can=True, must=False):
        K.count('cases')
        E = [e for e in Trace(P, calls=O.calls, limit=60000, depth=20).run(WN, {0: A(CR), 1: A(WPP), 2: A(ELS)}, O.mem)]
        K.need(E, 'WriteNode does not end')
        won = None
        for e in E:
            b = beyond(O, e)
            K.ob('nothing is stored outside of the buffer', key + ':bounds', b is None, e.where, 'a node with %s: bytes at %s of a buffer of %d bytes are written' % (what, b, O.limit))
            if e.kind != 'ret': continue
            if e.ret is None or e.ret[0] != 'c': K.ob('the result is determined', key + ':det', False, e.where, 'a node with %s: the result is not determined' % what); continue
            if e.ret[1] == 0: continue
            bad = judge(O, e)
            won = e.mem
            if not can: bad = 'it is reported as stored'
            K.ob('a returned node describes its element', key, bad is None, e.where, 'a node with %s: %s' % (what, bad))
        if must: K.ob('an element that fits is stored', key + ':can', won is not None, WN.blocks[0][0].where, 'a node with %s cannot be stored' % what)
        return won

    BIG = 4096
    name = lambda t: T.names[t] if t != -1 else 'none'
    for binary in (True, False):
        b = 'binary' if binary else 'text'
        for start in range(4, 13 if binary else 9):
            for np in range(4):
                for nc in range(4):
                    if start > 4 and np + nc > 3: continue
                    ps = [string, T.id['INT32'], T.id['INT64'], T.id['BLOB'] if binary else T.id['STRING']][:np]
                    go(setup(BIG, start, binary, string, ps, nc), '%s:%d:%d:%d' % (b, start, np, nc), '%d attributes and %d children from a %s source' % (np, nc, b), must=True)
        for t in types + [-1]:
            if not binary and t != -1 and T.names[t] in ('NULL',): continue
            for start in (4, 5, 8):
                go(setup(BIG, start, binary, t, [], 1), '%s value:%s:%d' % (b, name(t), start), 'a value of type %s from a %s source' % (name(t), b), must=True)
                for ps in ([t], [t, t], [string, t], [t, string]):
                    go(setup(BIG, start, binary, string, ps, 1), '%s attr:%s:%d' % (b, ','.join(name(x) for x in ps), start), 'attributes of types %s from a %s source' % ([name(x) for x in ps], b), must=True)
        # empty text, failing conversions
        if not binary:
            O = setup(BIG, 4, False, string, [string, string], 0); word(O, VALS + 0x100, 0); go(O, 'empty', 'an empty attribute', must=True)
            for t in sorted(inline) + [T.id['INT64']]:
                O = setup(BIG, 4, False, string, [t, string], 0); O.bad.add(VALS + 0x100); go(O, 'bad:%s' % T.names[t], 'an attribute that is not convertible to %s' % T.names[t], must=True)
                O = setup(BIG, 4, False, t, [string], 0); O.bad.add(VALS); go(O, 'bad value:%s' % T.names[t], 'a value that is not convertible to %s' % T.names[t], can=False)
        else:
            for t in types:
                if t == null: continue
                O = setup(BIG, 4, True, string, [t, string], 0); O.bad.add(VALS + 0x100); go(O, 'bad binary:%s' % T.names[t], 'an attribute of type %s that cannot be copied' % T.names[t], can=False)
                O = setup(BIG, 4, True, t, [string], 0); O.bad.add(VALS); go(O, 'bad binary value:%s' % T.names[t], 'a value of type %s that cannot be copied' % T.names[t], can=False)
        # names that are not registered
        for miss in ((0,), (1,), (2,)):
            go(setup(BIG, 4, binary, string, [string, T.id['INT32']], 1, miss), '%s missing:%d' % (b, miss[0]), 'a name that is not registered', can=False)
        # all sizes of the buffer
        for ps, nc, v in (([], 0, -1), ([], 0, string), ([string], 0, -1), ([T.id['INT32'], string], 1, string), ([string, T.id['INT64']], 2, string), ([], 3, T.id['INT32']), ([T.id['INT64']], 0, T.id['INT64'])):
            O = setup(BIG, 4, binary, v, ps, nc)
            m = go(O, '%s full:%s:%d' % (b, len(ps), nc), 'enough space')
            if m is None: continue
            need = O.num(m, WPP, 8) - DATA
            for limit in range(4, need + 10):
                go(setup(limit, 4, binary, v, ps, nc), '%s limit:%d:%d:%d' % (b, len(ps), nc, limit), '%d attributes, %d children and %d bytes of %d' % (len(ps), nc, limit, need), can=limit >= need)
        # more attributes than the counter holds
        O = setup(BIG, 4, binary, -1, [T.id['INT32']] * 4, 0)
        O.pcount = 32765
        go(O, '%s many' % b, '32769 attributes', can=False)

    containers(K, P, T, WN, WP, WS, FD, setup, fx, fd, szX, szD)
    K.minimum('cases', 300)


def containers(K, P, T, WN, WP, WS, FD, setup, fx, fd, szX, szD):
    g = lambda O, m, n, X: O.num(m, X + fx[n][0], fx[n][1])
    h = lambda O, m, X, i, n: O.num(m, X + szX + i * szD + fd[n][0], fd[n][1])
    SHA = ('SHA1')

    def over(O, e):
        for k in e.mem:
            if k[0] is None and DATA <= k[1] < DATA + (1 << 22) and k[1] + k[2] > DATA + O.limit: return k[1] - DATA

    # ---- payload
    for limit in list(range(8, 60)) + [4096]:
        for start in (4, 7):
            O = setup(limit, start, True, -1, [], 0)
            K.count('cases')
            won = False
            for e in Trace(P, calls=O.calls, limit=20000).run(WP, {0: A(CR), 1: A(WPP), 2: ('c', -77, 16), 3: A(ELS)}, O.mem):
                if e.kind != 'ret': continue
                key = 'payload:%d:%d' % (limit, start)
                K.ob('nothing is stored outside of the buffer', key + ':bounds', over(O, e) is None, e.where, 'the container of the document: bytes at %s of a buffer of %d bytes are written' % (over(O, e), limit))
                if e.ret is None or e.ret[:2] == ('c', 0): continue
                won = True
                m, X = e.mem, O.X
                nodes = [x for x in logged(m) if x[0] == 'node']
                bad = None
                end = O.num(m, WPP, 8)
                if e.ret != A(X) or g(O, m, 'name', X) != -77 or g(O, m, 'paramcount', X) != 0 or g(O, m, 'childcount', X) != 1: bad = 'wrong header'
                elif len(nodes) != 1 or nodes[0][3] != (ELS,): bad = 'the root is stored %d times' % len(nodes)
                elif O.num(m, X + szX, 4) != nodes[0][1] - X: bad = 'the reference to the root is %s, it is at %d' % (O.num(m, X + szX, 4), nodes[0][1] - X)
                elif O.num(m, X + szX + 4, 1) != T.id['NULL'] or nodes[0][1] < X + szX + 5: bad = 'its own value is not empty'
                elif g(O, m, 'length', X) != end - X or end < nodes[0][1] + 20 or end > DATA + limit: bad = 'its length is %s' % g(O, m, 'length', X)
                K.ob('the container of the document leads to its root', key, bad is None, e.where, 'the container of the document: %s' % bad)
            if limit == 4096: K.ob('the container of the document can be stored', 'payload:can:%d' % start, won, WP.blocks[0][0].where, 'the container cannot be stored')

    # ---- symbol tables
    cnt, tcnt = enum(P, 'XPNR_COUNT'), enum(P, 'XPNR_TYPE_COUNT')
    for table in range(2):
        for names in ([], [3], [0, 1, 2], [5] * 7):
            need = None
            for limit in [4096] + list(range(8, 220, 1)):
                if need is not None and limit > need + 24: break
                for start in ((4, 5) if limit == 4096 else (4,)):
                    O = setup(limit, start, True, -1, [], 0)
                    fo = {n: field(P, 'Bin_xml_creator', n)[0] for n in ('symbol_table', 'symbol_table_types', 'symbol_count')}
                    ns = []
                    for t in range(2):
                        O.mem[None, CR + fo['symbol_table'] + 8 * t, 8] = A(TAB + 0x20000 + t * 0x1000)
                        O.mem[None, CR + fo['symbol_table_types'] + 8 * t, 8] = A(TAB + t * 0x10000)
                        L = names if t == table else [9, 9]
                        O.mem[None, CR + fo['symbol_count'] + 4 * t, 4] = C(len(L))
                        for i, n in enumerate(L):
                            a = VALS + 0x10000 * (t + 1) + 0x100 * i
                            if t == table: ns.append(a)
                            O.text[a] = n; O.mem[None, a, 1] = ('c', 0x78, 8)
                            O.mem[None, TAB + 0x20000 + t * 0x1000 + 8 * i, 8] = A(a)
                            O.mem[None, TAB + t * 0x10000 + i, 1] = ('c', 3 + (i + t) % 9, 8)
                    K.count('cases')
                    key = 'symbols:%d:%d:%d:%d' % (table, len(names), limit, start)
                    won = False
                    for e in Trace(P, calls=O.calls, limit=20000).run(WS, {0: A(CR), 1: A(WPP), 2: ('c', -55, 16), 3: C(table)}, O.mem):
                        if e.kind != 'ret': continue
                        K.ob('nothing is stored outside of the buffer', key + ':bounds', over(O, e) is None, e.where, 'a table of %d symbols: bytes at %s of a buffer of %d bytes are written' % (len(names), over(O, e), limit))
                        if e.ret is None or e.ret[:2] == ('c', 0): continue
                        won = True
                        m, X = e.mem, O.X
                        end = O.num(m, WPP, 8)
                        if limit == 4096 and start == 4: need = end - DATA
                        bad = None
                        q = X + szX + 2 * szD
                        blk = up(q + 1, 4)
                        ref = blk + 4; ty = ref + 4 * len(ns); tx = ty + len(ns)
                        strs = {x[5]: x for x in logged(m) if x[0] == 'str'}
                        if e.ret != A(X) or g(O, m, 'name', X) != -55 or g(O, m, 'paramcount', X) != 2 or g(O, m, 'childcount', X) != 0: bad = 'wrong header'
                        elif (h(O, m, X, 0, 'name'), h(O, m, X, 0, 'type'), h(O, m, X, 0, 'data')) != (cnt, T.id['INT32'], len(ns)): bad = 'wrong number of symbols'
                        elif (h(O, m, X, 1, 'name'), h(O, m, X, 1, 'type'), h(O, m, X, 1, 'data')) != (tcnt, T.id['INT32'], len(ns)): bad = 'wrong number of types'
                        elif O.num(m, q, 1) != T.id['BLOB']: bad = 'its value is not a block'
                        elif sorted(strs) != sorted(ns): bad = '%d names are stored' % len(strs)
                        else:
                            bend = max([x[1] + x[3] for x in strs.values()] + [tx])
                            if O.num(m, blk, 4) != bend - ref: bad = 'the size of the block is %s, expected %d' % (O.num(m, blk, 4), bend - ref)
                            elif end is None or end < bend or end > DATA + limit or end % 4 or g(O, m, 'length', X) != end - X: bad = 'its length is %s' % g(O, m, 'length', X)
                            used = sorted((x[1], x[1] + x[3]) for x in strs.values())
                            if any(a[1] > b[0] for a, b in zip(used, used[1:])) or used and used[0][0] < tx: bad = 'names overlap'
                            for i, a in enumerate(ns):
                                if O.num(m, ref + 4 * i, 4) != strs[a][1] - X or strs[a][3] < O.text[a] + 1: bad = 'reference %d is %s, its name is at %d' % (i, O.num(m, ref + 4 * i, 4), strs[a][1] - X)
                                if O.num(m, ty + i, 1) != 3 + (i + table) % 9: bad = 'type %d is %s' % (i, O.num(m, ty + i, 1))
                        K.ob('a symbol table holds all names and types', key, bad is None, e.where, 'a table of %d symbols: %s' % (len(ns), bad))
                    if limit == 4096: K.ob('a symbol table can be stored', key + ':can', won, WS.blocks[0][0].where, 'a table of %d symbols cannot be stored' % len(names))

    # ---- the whole document
    O = setup(4096, 0, True, -1, [], 0)
    O.nested = {WS.name: 'symbols', WP.name: 'payload'}
    O.text[VALS] = 9; O.mem[None, VALS, 1] = ('c', 0x78, 8)
    K.count('cases')
    won = False
    for e in Trace(P, calls=O.calls, limit=20000).run(FD, {0: A(CR)}, O.mem):
        if e.kind != 'ret': continue
        r = e.ret[1] if e.ret is not None and e.ret[0] == 'c' else None
        m, X = e.mem, DATA
        L = logged(m); nodes = [x for x in L if x[0] == 'node']
        if len(nodes) != 3:
            K.ob('a document without one of its parts is not stored', 'document:part%d' % len(nodes), r is not None and r <= 0, e.where, '%s bytes are reported after just %d of 3 parts' % (r, len(nodes)))
            continue
        won = True
        bad = None
        want = {('symbols', enum(P, 'XTNR_TAG_SYMBOLS'), enum(P, 'SYMBOL_TABLE_NODES')), ('symbols', enum(P, 'XTNR_PARAM_SYMBOLS'), enum(P, 'SYMBOL_TABLE_PARAMS')), ('payload', enum(P, 'XTNR_PAYLOAD'), ELS)}
        got = {(x[2],) + x[3] for x in nodes}
        strs = [x for x in L if x[0] == 'str']
        pn, cn = g(O, m, 'paramcount', X), g(O, m, 'childcount', X)
        end = max(x[1] + 20 for x in nodes)
        if g(O, m, 'name', X) != enum(P, 'XTNR_META_ROOT') or cn != 3 or pn is None: bad = 'wrong header'
        elif got != want: bad = 'the parts are %s' % sorted(got)
        elif r is None or r < end - X or g(O, m, 'length', X) != r: bad = 'its length is %s, its parts end at %d' % (r, end - X)
        else:
            c = X + szX + szD * pn
            names = {h(O, m, X, i, 'name'): i for i in range(pn)}
            head = c + 4 * cn + 1
            for i, x in enumerate(nodes):
                if sorted(O.num(m, c + 4 * j, 4) or 0 for j in range(3))[i] != sorted(y[1] - X for y in nodes)[i]: bad = 'the references to its parts are wrong'
            if O.num(m, c + 12, 1) != T.id['NULL']: bad = 'its own value is not empty'
            v = names.get(enum(P, 'XPNR_FORMAT_VERSION'))
            if v is None or h(O, m, X, v, 'type') != T.id['INT32'] or h(O, m, X, v, 'data') is None: bad = 'the version of the format is missing'
            s = names.get(enum(P, 'XPNR_NAME'))
            if s is None or h(O, m, X, s, 'type') != T.id['STRING'] or len(strs) != 1 or h(O, m, X, s, 'data') != strs[0][1] - X or strs[0][1] < head or strs[0][3] < 10: bad = 'its name is not stored where its description leads'
            k = names.get(enum(P, 'XPNR_HASH'))
            if not bad and k is not None:
                d = h(O, m, X, k, 'data')
                if d is None or d % 4 or X + d < strs[0][1] + 10 or X + d + 20 > min(x[1] for x in nodes): bad = 'its hash overlaps other parts'
        K.ob('a document leads to its symbol tables and its root', 'document', bad is None, e.where, 'the document: %s' % bad)
    K.ob('a document can be stored', 'document:can', won, FD.blocks[0][0].where, 'the document cannot be stored')
