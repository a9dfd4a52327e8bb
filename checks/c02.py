"""C02: a node (and a symbol table) is accepted only when everything the accessors reach through it lies inside it."""
import struct
from sa.types import *
from sa.trace import *

DOC, RD, TAB, USERTAB = 0x4000000, 0x5100000, 0x5200000, 0x5300000
W8 = ('INT64', 'UINT64', 'UNIX_TIME64_MSEC', 'DOUBLE')
INLINE = ('INT32', 'INT32_DECI', 'INT32_CENTI', 'INT32_MILI', 'INT32_MICRO', 'INT32_NANO', 'FLOAT', 'UNIX_TIME', 'IPv4', 'UINT32', 'UNIX_DATE')
FIXED = dict([(t, 8) for t in W8] + [('SHA1', 20), ('GUID', 16), ('IPv6', 16)])
VAR = ('BLOB', 'HEX', 'BLOB_STRING')
NTAG, NPAR = 5, 4


def A(v): return ('c', v, 64)


class Layout:
    def __init__(self, P):
        self.P = P
        self.f = {m: field(P, 'XML_Item', m) for m in ('name', 'paramcount', 'childcount', 'length')}
        self.pf = {m: field(P, 'XML_Param_Description', m) for m in ('name', 'type', 'data')}
        self.head, self.pd = sizeof(P, 'XML_Item'), sizeof(P, 'XML_Param_Description')
        self.types = {v: k[4:] for k, v in P.enums.items() if k.startswith('XBT_') and not k.endswith('CONVERTABLE')}
        self.low, self.plow = enum(P, 'XTNR_LAST'), enum(P, 'XPNR_LAST')

    def put(self, b, o, z, v): b[o:o + z] = (v & ((1 << 8 * z) - 1)).to_bytes(z, 'little')

    def header(self, b, at, **kw):
        for m, v in kw.items():
            o, z = self.f[m]; self.put(b, at + o, z, v)

    def item(self, name=1, params=(), kids=(), value=b'\0', extra=b'', length=None, pad=4):
        """an element: params are (name, type, data), kids are bytes of children"""
        b = bytearray(self.head + self.pd * len(params) + 4 * len(kids)) + value + extra
        while len(b) % pad: b += b'\0'
        for i, (n, t, d) in enumerate(params):
            for m, y in (('name', n), ('type', t), ('data', d)):
                o, z = self.pf[m]; self.put(b, self.head + i * self.pd + o, z, y)
        for i, k in enumerate(kids):
            self.put(b, self.head + self.pd * len(params) + 4 * i, 4, len(b)); b += k
        self.header(b, 0, name=name, paramcount=len(params), childcount=len(kids), length=len(b) if length is None else length)
        return b

    def container(self, count, types, names, refs=None, blob=True, size=None, tail=b'', swap=False, cut=None, slack=b'\0\0\0\0', tag='XTNR_TAG_SYMBOLS'):
        """a table as it is stored; refs: replaced references {index: offset from the begin of the names}"""
        Ty = {n: v for v, n in self.types.items()}
        ps = ([(enum(self.P, 'XPNR_COUNT'), Ty['INT32'], count)] if count is not None else []) + ([(enum(self.P, 'XPNR_TYPE_COUNT'), Ty['INT32'], types)] if types is not None else [])
        if swap: ps.reverse()
        n = len(names)
        head = self.head + self.pd * len(ps) + 1
        pre = (bytes(-head % 4) + b'\0\0\0\0') if blob else b''
        data = head + len(pre)
        body = bytearray(4 * n + (types or 0 if (types or 0) > 0 else 0))
        area = data + len(body)
        offs = []
        for s in names: offs.append(len(body) + data); body += s.encode() + b'\0'
        body += tail
        if cut: body = body[:len(body) - cut]
        for i, o in enumerate(offs):
            v = o
            if refs and i in refs: v = refs[i](area, data + len(body), data)
            self.put(body, 4 * i, 4, v)
        for i in range((types or 0) if (types or 0) > 0 else 0): body[4 * n + i] = i % 5
        sz = len(body) if size is None else size(len(body))
        if blob: pre = pre[:-4] + struct.pack('<i', sz)
        b = self.item(name=enum(self.P, tag), params=ps, value=bytes([Ty['BLOB' if blob else 'STRING' if blob is False else 'NULL']]) , extra=bytes(pre) + bytes(body), pad=1)
        b += slack
        self.header(b, 0, length=len(b))
        return b, data, area, data + len(body)

    # ---- the specification ------------------------------------------------------------------------------
    def judge(self, b, at, size, rec, depth=0):
        """False: must be rejected, True: must be accepted, None: either"""
        def get(o, z, signed=True):
            if o < 0 or o + z > len(b): return None
            return int.from_bytes(b[o:o + z], 'little', signed=signed)
        if at < 0 or at + self.head > size or depth > 3000: return False
        if at % 4: return False
        g = {m: get(at + o, z) for m, (o, z) in self.f.items()}
        L, pc, cc = g['length'], g['paramcount'], g['childcount']
        if L < self.head or pc < 0 or cc < 0 or at + L > size: return False
        if not self.low < g['name'] < NTAG: return False
        tab = self.head + pc * self.pd + cc * 4
        if tab > L: return False
        sure = True
        for i in range(pc):
            p = at + self.head + i * self.pd
            n, t, d = (get(p + o, z) for o, z in (self.pf['name'], self.pf['type'], self.pf['data']))
            if not self.plow < n < NPAR: return False
            tn = self.types.get(t)
            if tn == 'NULL' or tn in INLINE: continue
            r = self.extent(b, at + d, at + L, tn) if 0 <= d < L else False
            if r is False: return False
            if tn == 'SHA1' and d + 24 > L: sure = None          # written with 4 bytes of padding
            if d < self.head or d % (8 if tn in W8 else 1 if tn == 'STRING' else 4): sure = None
        v = at + tab
        if v >= at + L: return False
        tn = self.types.get(get(v, 1)); v += 1
        if tn != 'NULL':
            n = 8 if tn in W8 else 1 if tn == 'STRING' else 4
            v += -v % n
            if tn in INLINE: r = v + 4 <= at + L
            else: r = self.extent(b, v, at + L, tn)
            if not r: return False
        for i in range(cc):
            c = at + get(at + self.head + pc * self.pd + 4 * i, 4)
            if c < 0 or c + self.head > size: return False
            if rec:
                r = self.judge(b, c, size, True, depth + 1)
                if r is False: return False
                if r is None: sure = None
        return sure

    def extent(self, b, v, end, tn):
        if tn == 'STRING': return 0 in b[v:end]
        if tn in FIXED: return v + FIXED[tn] <= end
        if tn in VAR:
            if v + 4 > end: return False
            n = int.from_bytes(b[v:v + 4], 'little', signed=True)
            return n >= 0 and v + 4 + n <= end
        return False


def documents(L):
    """(title, bytes, address of the judged element, size of the file or None)"""
    I = L.item
    T = {n: v for v, n in L.types.items()}
    plain = I()
    yield 'a plain element', plain, 0, None
    # position and header
    two = I() + I(name=2)
    for at in (-4, 0, 1, 2, 3, 4, 8, 12, len(plain), len(two) - 16, len(two) - 12, len(two) - 11, len(two) - 8, len(two) - 4, len(two), len(two) + 4, len(two) + 4096): yield 'an element at %d of %d bytes' % (at, len(two)), two, at, None
    for at in (len(plain), 4 * len(plain)): yield 'an element in the middle', plain * 4 + I(name=2) + plain, at, None
    for ln in (-1, -2147483648, 0, 1, 11, 12, 13, 14, 15, 16, 17, 20, 2147483647, 2147483632):
        for n in (0, 16): yield 'length %d of %d bytes' % (ln, 16 + n), I(length=ln) + bytes(n), 0, None
    for sz in (1, 4, 11, 12, 13, 15): yield 'a file of %d bytes' % sz, I()[:sz] + bytes(0), 0, sz
    for nm in (-32768, -13, -12, -11, -10, -9, -1, 0, NTAG - 1, NTAG, NTAG + 1, 32767): yield 'tag name %d' % nm, I(name=nm), 0, None
    for pc in (-32768, -1, 0, 1, 2, 3, 4, 32767):
        b = I(params=[(1, T['INT32'], 5)] * 2, extra=bytes(3)); L.header(b, 0, paramcount=pc)
        yield 'an attribute count of %d' % pc, b, 0, None
    for cc in (-2147483648, -1, 0, 1, 2, 3, 4, 5, 0x3fffffff, 0x40000000, 0x7fffffff):
        b = I(kids=[I(name=2), I(name=3)]); L.header(b, 0, childcount=cc)
        yield 'a child count of %d' % cc, b, 0, None
    b = I(value=b'', params=[(1, T['INT32'], 1)], extra=b''); yield 'tables without a value', b, 0, None
    # attributes
    for nm in (-32768, -13, -12, -11, -10, -9, -1, 0, NPAR - 1, NPAR, 32767):
        for n in (1, 3):
            for j in range(n): yield 'attribute name %d' % nm, I(params=[(nm if i == j else 1, T['INT32'], 7) for i in range(n)]), 0, None
    for t in range(256):
        tn = L.types.get(t)
        for d in (0, 7, -1, 2147483647): yield 'an attribute of type %s with the value %d' % (tn or t, d), I(params=[(1, t, d)], extra=bytes(15)), 0, None
        if tn is None or tn in INLINE or tn in ('NULL', 'UNKNOWN', 'LAST', 'VARIANT'): continue
        for n in (1, 2):
            for j in range(n):
                def el(d, tail, after=b''):
                    return I(params=[(1, t, d) if i == j else (2, T['INT32'], -5) for i in range(n)], extra=tail, pad=1) + after
                base = L.head + n * L.pd + 1
                pad = bytes(-base % 8); o = base + len(pad)
                if tn == 'STRING':
                    for tail in (b'\0', b'abc\0', b'abc', b'a\0c', b'', b'x'): yield 'an attribute of type %s over %s' % (tn, tail), el(o, pad + tail, b'\0\0\0\0'), 0, None
                elif tn in FIXED:
                    for k in (-9, -8, -4, -1, 0, 1, 8): yield 'an attribute of type %s with %d spare bytes' % (tn, k), el(o, pad + bytes(max(0, FIXED[tn] + k)), bytes(64)), 0, None
                else:
                    for size, have in ((0, 4), (0, 3), (0, 5), (1, 5), (1, 4), (9, 13), (9, 12), (9, 14), (-1, 40), (-4, 40), (-2147483648, 40), (2147483647, 40), (2147483643, 40), (40, 4), (0, 1), (0, 0)):
                        yield 'an attribute of type %s of %d bytes in %d bytes' % (tn, size, have), el(o, pad + (struct.pack('<i', size) + bytes(64))[:have], bytes(64)), 0, None
                for d in (-1, -8, -2147483648, o + 64, o + 63, 2147483647, 2147483640): yield 'an attribute of type %s at %d' % (tn, d), el(d, pad + bytes(64), bytes(64)), 0, None
    # the own value
    for t in range(256):
        tn = L.types.get(t)
        for np in (0, 1, 2):
            for nk in (0, 1):
                if np == 2 and nk: continue
                kids = [I(name=2)] * nk
                o = L.head + np * L.pd + 4 * nk + 1
                w = 8 if tn in W8 else 1 if tn == 'STRING' else 4
                al = -o % w

                def el(tail, after=bytes(64)):
                    """the value ends with the element"""
                    b = bytearray(I(params=[(1, T['INT32'], 3)] * np, kids=[b''] * nk, value=bytes([t]), extra=tail, pad=1)) 
                    n = len(b)
                    while len(b) % 4: b += b'\0'
                    if nk:
                        L.put(b, L.head + np * L.pd, 4, len(b) + 64); b += bytes(64) + kids[0]
                    L.header(b, 0, length=n)
                    return b + after
                if tn is None or tn in ('UNKNOWN', 'LAST', 'VARIANT'):
                    yield 'a value of type %s' % (tn or t), el(bytes(40)), 0, None
                elif tn == 'NULL': yield 'a value of type NULL', el(b''), 0, None
                elif tn == 'STRING':
                    for tail in (b'\0', b'ab\0', b'ab', b'', b'a\0b'): yield 'a value of type %s over %s' % (tn, tail), el(tail), 0, None
                elif tn in VAR:
                    for size, have in ((0, 4), (0, 3), (1, 5), (1, 4), (17, 21), (17, 20), (17, 22), (-1, 40), (-4, 40), (-2147483648, 40), (2147483647, 40), (0, 0)):
                        yield 'a value of type %s of %d bytes in %d bytes' % (tn, size, have), el(bytes(al) + (struct.pack('<i', size) + bytes(64))[:have]), 0, None
                    yield 'a value of type %s in the padding' % tn, el(bytes(max(0, al - 1))), 0, None
                else:
                    n = 4 if tn in INLINE else FIXED[tn]
                    for k in (-n, -5, -4, -1, 0, 1): yield 'a value of type %s with %d spare bytes' % (tn, k), el(bytes(al) + bytes(max(0, n + k))), 0, None
                    yield 'a value of type %s in the padding' % tn, el(bytes(max(0, al - 1))), 0, None
    # children
    for n in (1, 2, 3):
        for j in range(n):
            b0 = I(kids=[I(name=2)] * n) + bytes(16)
            for r in (-4, -12, -2147483648, len(b0) - 12, len(b0) - 11, len(b0) - 8, len(b0), len(b0) + 4, 2147483647, 2147483644):
                b = bytearray(b0); L.put(b, L.head + 4 * j, 4, r)
                yield 'a child at %d' % r, b, 0, None
            for bad in (dict(name=NTAG), dict(name=-11), dict(length=4), dict(length=2147483647), dict(paramcount=-1), dict(childcount=-1), dict(paramcount=1), dict(childcount=1)):
                b = I(kids=[I(name=2, **({} if True else {})) for i in range(n)])
                L.header(b, int.from_bytes(b[L.head + 4 * j:L.head + 4 * j + 4], 'little'), **bad)
                yield 'a child with %s' % bad, b, 0, None
    deep = I(name=3, params=[(1, T['STRING'], 20)], extra=bytes(3) + b'abc\0')
    for where in range(3):
        for bad in (None, dict(name=NTAG), dict(length=8), dict(childcount=99)):
            leafs = [bytearray(deep) for i in range(2)]
            mid = I(name=2, kids=leafs)
            top = I(kids=[I(name=4), mid, I(name=4)])
            m = int.from_bytes(top[L.head + 4:L.head + 8], 'little')
            l0 = m + int.from_bytes(mid[L.head:L.head + 4], 'little'); l1 = m + int.from_bytes(mid[L.head + 4:L.head + 8], 'little')
            if bad: L.header(top, (m, l0, l1)[where], **bad)
            yield 'a node below with %s' % bad, top, 0, None
    # a subtree that is used twice (merged by the packer) and one in front of its parent
    a = I(name=2)
    b = I(kids=[a, a]); L.put(b, L.head + 4, 4, int.from_bytes(b[L.head:L.head + 4], 'little'))
    yield 'a child used twice', b, 0, None
    b = bytearray(a) + I(name=3, kids=[a]); L.put(b, len(a) + L.head, 4, -len(a))
    yield 'a child in front of its parent', b, len(a), None
    L.header(b, 0, name=NTAG); yield 'an invalid child in front of its parent', b, len(a), None


def memory(L, b, size, ntag=NTAG, npar=NPAR, at=0):
    P = L.P; mem = {}
    for i, x in enumerate(b): mem[None, DOC + at + i, 1] = ('c', sx(x, 8), 8)
    for m, v in (('doc', DOC), ('size', size), ('verbosity', 0)):
        o, z = field(P, 'XB_reader', m); mem[None, RD + o, z] = ('c', v, 8 * z)
    for t, n in (('tag_symbols', ntag), ('param_symbols', npar)):
        o = field(P, 'XB_reader', t)[0]; c = field(P, '_XB_symbol_table', 'count')
        mem[None, RD + o + c[0], c[1]] = ('c', n, 8 * c[1])
    return mem


def outside(ev, lo, hi):
    """reads that leave the mapped file"""
    for x in ev:
        if x[0] in ('load', 'load?') and x[2] is not None and x[2][0] is None and 0x10000 <= x[2][1] < FRAME:
            a = x[2][1]
            if RD <= a < RD + 0x10000 or USERTAB <= a < USERTAB + 0x1000: continue
            if not (lo <= a and a + x[3] <= hi): yield x[1], a - lo, x[3]
        elif x[0] == 'load' and x[2] is not None and x[2][0] is None and 0 <= x[2][1] < 0x10000: yield x[1], x[2][1], x[3]
        elif x[0] == 'call' and x[2] in ('strlen', 'strnlen', 'memchr', 'strcmp') and x[3] and x[3][0] is not None and x[3][0][0] == 'c':
            a = x[3][0][1]
            n = x[4][1] if x[4] is not None and x[4][0] == 'c' else None
            if x[2] == 'memchr' and n is not None: n = n - a if n else x[3][2][1] if x[3][2] else None
            if n is None or not (lo <= a and a + n <= hi): yield x[1], a - lo, -1


def run(K):
    P = K.prog
    K.rule('The validation of an element is interpreted on elements that deviate from valid ones in one place, at and around each boundary: every header field, every attribute and value type with every extent, every child reference. '
           'The answer must be the one of an independent specification, and no byte outside of the file may be read. The same is done for the loading of symbol tables.')
    K.assume('file contents do not change while they are validated')
    L = Layout(P)
    F = P.fn('XML_Item::Check')
    no = lambda I, n, av, T, mem: [(av[0] if av else None, None)] if n and (n.startswith('_ZNSo') or n.startswith('_ZSt')) else None
    T = Trace(P, calls=no, limit=200000, depth=2000)
    more = {i: C(0) for i in range(3, 8)}
    seen = set()
    for title, b, at, size in documents(L):
        if size is None: size = len(b)
        for rec in (False, True):
            key = '%s:%d:%s' % (title, rec, hash((bytes(b), at, size)))
            if (bytes(b), at, size, rec) in seen: continue
            seen.add((bytes(b), at, size, rec))
            want = L.judge(b, at, size, rec)
            mem = memory(L, b, size)
            K.count('elements judged')
            if want is None: K.count('elements outside of the specification')
            what = '%s%s' % (title, ' (recursively)' if rec else '')
            kk = '%s:%s' % ('rec' if rec else 'node', title)
            for e in T.run(F, {0: A(DOC + at), 1: A(RD), 2: ('c', -1 if rec else 0, 1), **more}, mem):
                for I, o, n in outside(e.ev, DOC, DOC + size):
                    K.ob('validation reads inside of the file only', kk + ':reads', False, I.where, 'validating %s reads %s bytes at %d of a file of %d bytes' % (what, n if n >= 0 else 'text', o, size))
                got = e.ret[1] & 1 if e.kind == 'ret' and e.ret is not None and e.ret[0] == 'c' else None
                if want is False: K.ob('what reaches outside is rejected', kk, got == 0, e.where, '%s is %s' % (what, 'accepted' if got else 'not rejected for sure'))
                elif want is True: K.ob('valid elements are accepted', kk, got == 1, e.where, '%s is rejected although it is valid' % what)
    # elements behind 4 GB
    FAR = 0x140000000
    for title, b, at, size in documents(L):
        if at < 0 or size is not None or title.startswith('a child') or title.startswith('a node') or not title.startswith(('an element', 'length', 'tag', 'a plain')) and sum(b) % 7: continue
        want = L.judge(b, at, len(b), False)
        if want is None: continue
        K.count('elements behind 4 GB')
        for e in T.run(F, {0: A(DOC + FAR + at), 1: A(RD), 2: C(0, 1), **more}, memory(L, b, FAR + len(b), at=FAR)):
            got = e.ret[1] & 1 if e.kind == 'ret' and e.ret is not None and e.ret[0] == 'c' else None
            for I, o, n in outside(e.ev, DOC, DOC + FAR + len(b)): K.ob('validation reads inside of the file only', 'far:' + title + ':reads', False, I.where, 'validating %s behind 4 GB reads outside of the file' % title)
            K.ob('what reaches outside is rejected' if not want else 'valid elements are accepted', 'far:' + title, got == int(want), e.where, '%s behind 4 GB is %s' % (title, 'accepted' if got else 'rejected'))
    for nm, a in (('a missing element', {0: A(0), 1: A(RD)}), ('a missing reader', {0: A(DOC), 1: A(0)})):
        for e in T.run(F, {**a, 2: C(0), **more}, memory(L, L.item(), 16)):
            K.ob('missing objects are rejected', nm, e.kind == 'ret' and e.ret is not None and e.ret[0] == 'c' and not e.ret[1], e.where, '%s is accepted' % nm)
            for I, o, n in outside(e.ev, DOC, DOC + 16): K.ob('validation reads inside of the file only', nm + ':reads', False, I.where, 'validation of %s touches it' % nm)
    K.minimum('elements judged', 1500)
    symbols(K, P, L)


def symbols(K, P, L):
    F = P.fn('_XB_symbol_table::Load')
    T = Trace(P, limit=6000)
    tf = {m: field(P, '_XB_symbol_table', m) for m in ('count', 'type_count', 'item_container', 'reference_array', 'type_array')}
    Ty = {n: v for v, n in L.types.items()}
    NULL = -2147483648
    container = L.container

    N = ['alpha', 'b', 'gamma', '']
    good = []
    for n in range(0, 5):
        for t in (None, 0, 1, n, n + 3):
            for sw in (False, True): good.append(('%d names with %s types' % (n, t), container(n, t, N[:n], swap=sw), n, t))
    for n in (1, 2, 4): good.append(('%d names with spare bytes' % n, container(n, n, N[:n], tail=b'\0\0\0'), n, n))
    bad = []
    for cnt in (None, -1, -5, NULL, NULL + 1): bad.append(('a count of %s' % cnt, container(cnt, 0, N[:2])))
    for cnt in (3, 4, 5, 100, 0x20000000, 0x3fffffff, 0x40000000, 2147483647): bad.append(('a count of %s for 2 names' % cnt, container(cnt, 0, N[:2])))
    for t in (-1, -7, NULL + 1): bad.append(('%d types' % t, container(2, t, N[:2])))
    for t in (9, 10, 64, 2147483647):
        b = container(2, 0, N[:2]); i = L.head + L.pd
        o, z = L.pf['data']; L.put(b[0], i + o, z, t); bad.append(('%d types behind the end' % t, b))
    for n in (1, 2, 3):
        for j in range(n):
            for nm, r in (('in front of the names', lambda a, e, d: a - 1), ('at the table', lambda a, e, d: d), ('at the element', lambda a, e, d: 0), ('negative', lambda a, e, d: -1), ('far in front', lambda a, e, d: -2147483648),
                          ('at the end', lambda a, e, d: e), ('behind the end', lambda a, e, d: e + 1), ('far behind', lambda a, e, d: 2147483647)):
                bad.append(('name %d of %d %s' % (j, n, nm), container(n, 2, N[:n], refs={j: r})))
    for n in (1, 3):
        for j in range(n): bad.append(('unterminated name %d of %d' % (j, n), container(n, 0, N[:n], tail=b'xyz', refs={j: lambda a, e, d: e - 3})))
    bad.append(('a last name without terminator', container(2, 0, N[:2], cut=1)))
    for k in (-1, -100): bad.append(('a block of %d bytes' % k, container(2, 0, N[:2], size=lambda s, k=k: k)))
    for k in (0, 1, 7, 8): bad.append(('a block of %d bytes for the table' % k, container(2, 0, N[:2], size=lambda s, k=k: k)))
    bad.append(('a block longer than the element', container(2, 0, N[:2], size=lambda s: s + 5)))
    bad.append(('a block far longer than the element', container(2, 0, N[:2], size=lambda s: 2147483647)))
    bad.append(('no block', container(2, 0, N[:2], blob=None)))
    for title, c, *exp in good + bad:
        b, data, area, end = c
        mem = memory(L, b, len(b))
        for m in tf: mem[None, USERTAB + tf[m][0], tf[m][1]] = ('c', 0, 8 * tf[m][1])
        K.count('symbol tables judged')
        for e in T.run(F, {0: A(USERTAB), 1: A(DOC)}, mem):
            got = e.ret[1] & 1 if e.kind == 'ret' and e.ret is not None and e.ret[0] == 'c' else None
            for I, o, n in outside(e.ev, DOC, DOC + len(b)):
                # the loader is handed a checked element; a block that lies about its size never passes the check
                K.ob('validation reads inside of the file only', 'table:' + title + ':reads', False, I.where, 'loading %s reads %s bytes at %d of an element of %d bytes' % (title, n if n >= 0 else 'text', o, len(b)))
            if not exp: K.ob('broken symbol tables are rejected', 'table:' + title, got == 0, e.where, 'a symbol table with %s is %s' % (title, 'accepted' if got else 'not rejected for sure'))
            else:
                n, t = exp
                K.ob('valid symbol tables are accepted', 'table:' + title, got == 1, e.where, 'a symbol table of %s is rejected' % title)
                val = lambda m: (lambda v: v[1] if v is not None and v[0] == 'c' else None)(load(e.mem, (None, USERTAB + tf[m][0]), tf[m][1]))
                K.ob('a loaded table gives the stored names', 'table:' + title + ':count', val('count') == n, e.where, 'a table of %d names is loaded with %s' % (n, val('count')))
                if n:
                    K.ob('a loaded table gives the stored names', 'table:' + title + ':place', val('item_container') == DOC and val('reference_array') == DOC + data, e.where, 'a table of %s is loaded from another place' % title)
                    K.ob('a loaded table gives the stored types', 'table:' + title + ':types', val('type_count') == (t or 0) and (not t or val('type_array') == DOC + data + 4 * n), e.where, 'the types of a table of %s are loaded wrongly: %s' % (title, val('type_count')))
    K.minimum('symbol tables judged', 100)
