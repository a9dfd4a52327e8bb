"""C20: converting a whole document into .xb stores each part once, or reports failure. (C28: the same for .xbw)"""
import hashlib, re, struct, time
from sa.types import *
from sa.trace import *
from sa import stream
from sa.libc import texts, put
from .c02 import Layout
from .c13 import PL
from .c16 import POOL, ELEMENT
from .c18 import Doc
from .c21 import Xml, PX, PJ, FILE, render, tree, nulls, JO, JA, JS, JP
from .c29 import Dest

CRE, HEAP, NAMES = 0x6400000, 0x40000000, 0x6500000
V8 = ('INT64', 'UINT64', 'DOUBLE', 'UNIX_TIME64_MSEC')
FOUR = ('INT32', 'INT32_DECI', 'INT32_CENTI', 'INT32_MILI', 'INT32_MICRO', 'INT32_NANO', 'FLOAT', 'UNIX_TIME', 'IPv4', 'UINT32', 'UNIX_DATE')
TIME = 1500000000
MAPPED = ('munmap', 'msync')


class World:
    """one conversion: what the system answers and what the program does with it"""

    def __init__(self, P, files, root=0, faults=False, room=None):
        self.P = P; self.files = files; self.root = root; self.faults = faults; self.room = room; self.blocks = []; self.fds = {}
        self.sha = {f.name for f in P.find('SHA1')}
        self.st = {n: field(P, 'stat', n) for n in ('st_size', 'st_mtim')} if 'stat' in getattr(P, 'structs', {}) else {'st_size': (48, 8), 'st_mtim': (88, 8)}

    def note(self, m, *what):
        l = m.get(('seen', 0, 0), ('list', ()))[1]
        m[('seen', 0, 0)] = ('list', l + (what,))

    def either(self, mem, ok, bad):
        """a request that succeeds, or fails when nothing failed before"""
        if not self.faults or ('fault', 0, 0) in mem: return [ok]
        def eff(m):
            m['fault', 0, 0] = ('n', 1)
            if bad[1]: bad[1](m)
        return [ok, (bad[0], eff)]

    def alloc(self, z):
        if z is None or z[0] != 'c': raise Lost('memory of unknown size is allocated', '?')
        a = HEAP + (len(self.blocks) << 24)
        self.blocks.append((a, z[1]))
        return a

    def beyond(self, mem):
        """something is stored outside of the allocated blocks"""
        return [k for k in mem if k[0] is None and HEAP <= k[1] < HEAP + (len(self.blocks) << 24) and k[1] - self.blocks[(k[1] - HEAP) >> 24][0] + k[2] > self.blocks[(k[1] - HEAP) >> 24][1]]

    def name(self, T, v, mem, I):
        s = T.text(v, mem) if v is not None else None
        if s is None: raise Lost('a file of unknown name is used', I.where)
        return s

    def calls(self, I, n, av, T, mem):
        r = stream.streams(I, n, av, T, mem)
        if r is not None: return r
        r = texts(I, n, av, T, mem)
        if r is not None: return r
        note = lambda *w: (lambda m: self.note(m, *w))
        if n in ('malloc', 'calloc', '_Znwm', '_Znam'):
            z = av[0] if n != 'calloc' else ('c', av[0][1] * av[1][1], 64)
            a = self.alloc(z)

            def new(m):
                self.note(m, 'new', a)
                if n == 'calloc' and z[1]: m[None, a, z[1]] = ('fill', 0)
            ok = (('c', a, 64), new)
            return [ok] if n.startswith('_Zn') else self.either(mem, ok, (('c', 0, 64), None))
        if n == 'realloc': raise Lost('memory is moved', I.where)
        if n in ('free', '_ZdaPv', '_ZdlPv', '_ZdlPvm', '_ZdaPvm'):
            a = av[0]
            if a == ('c', 0, 64): return [(None, None)]
            size = next((s for b, s in self.blocks if a is not None and a[0] == 'c' and b == a[1]), None)

            def gone(m):
                self.note(m, 'free', a[1] if size is not None else None)
                if size is not None:
                    for k in [k for k in m if k[0] is None and a[1] <= k[1] < a[1] + max(size, 1)]: m[k] = ('?',)
            return [(None, gone)]
        if n in ('stat', 'stat64', '__xstat', '__xstat64', 'fstat', 'fstat64', '__fxstat', '__fxstat64'):
            x = n.startswith('__')
            at = place(av[2 if x else 1])
            if 'fst' in n or 'fxst' in n: nm = self.fds.get(av[1 if x else 0][1]) if av[1 if x else 0] is not None else None
            else: nm = self.name(T, av[1 if x else 0], mem, I)
            if nm is None: raise Lost('an unknown file is asked for', I.where)
            z = self.files.get(nm, 0)
            if nm not in self.files and 'f' not in n[:4]: return [(C(-1), None)]
            z = 0 if ('emptied', nm, 0) in mem else len(z) if isinstance(z, str) else z

            def eff(m):
                for k, v in (('st_size', z), ('st_mtim', TIME)): store(m, (at[0], at[1] + self.st[k][0]), 8, ('c', v, 64))
            return self.either(mem, (C(0), eff), (C(-1), None)) if 'f' in n[:4] else [(C(0), eff)]
        if n in ('xmlReadFile', 'xmlParseFile'):
            nm = self.name(T, av[0], mem, I)
            if nm not in self.files: return [(('c', 0, 64), None)]
            return self.either(mem, (('s', '&DOC', 0), note('doc', nm)), (('c', 0, 64), None))
        if n == 'xmlDocGetRootElement': return [(('c', self.root, 64), None)]
        if n == 'xmlFreeDoc': return [(None, note('freedoc', av[0]))]
        if n == 'xmlNodeListGetString' and av[1] == ('c', 0, 64): return [(av[1], None)]           # an empty attribute
        if n in ('xmlCleanupParser', 'xmlCheckVersion'): return [(None, None)]
        if n in ('creat', 'creat64', 'open', 'open64'):
            nm = self.name(T, av[0], mem, I)
            if n[:4] == 'open' and nm not in self.files and av[1] is not None and av[1][0] == 'c' and not av[1][1] & 0x40: return [(C(-1), None)]
            fd = 10 + len(self.fds); self.fds[fd] = nm
            flags = 0x200 if n[0] == 'c' else av[1][1] if av[1] is not None and av[1][0] == 'c' else 0

            def opened(m):
                self.note(m, 'open', nm, fd)
                if flags & 0x200: m['emptied', nm, 0] = ('n', 1)
            return self.either(mem, (C(fd), opened), (C(-1), note('open', None, None)))
        if n == 'write':
            k = av[2][1] if av[2] is not None and av[2][0] == 'c' else None
            if k is None or av[0] is None: raise Lost('an unknown number of bytes is written', I.where)
            out = stream.piece(T, mem, av[1], k)
            full = (('c', k, 64), note('write', av[0][1], tuple(out)))
            L = self.either(mem, full, (('c', -1, 64), None))
            return L + self.either(mem, full, (('c', k // 2, 64), note('write', av[0][1], tuple(out[:k // 2]))))[1:]
        if n == 'close': return self.either(mem, (C(0), note('close', av[0] and av[0][1])), (C(-1), note('close', av[0] and av[0][1])))
        if n in ('mmap', 'mmap64'):
            fd = av[4][1] if av[4] is not None and av[4][0] == 'c' else None
            nm = self.fds.get(fd)
            if nm is None or av[1] is None: raise Lost('an unknown file is mapped', I.where)
            what = self.files.get(nm, 0)
            at = POOL if av[2] is None or av[2][0] != 'c' or av[2][1] & 2 else FILE         # a document which is written

            def pool(m):
                self.note(m, 'mmap', at, av[1][1])
                if at == FILE: put(m, (None, FILE), what if isinstance(what, str) else '')
                elif ('mapped', nm, 0) not in m and ('fill', 0) != m.get((None, POOL, 0x10000)):
                    old = '' if ('emptied', nm, 0) in m or not isinstance(what, str) else what
                    put(m, (None, POOL), old)
                    if len(old) < 0x10000: m[None, POOL + len(old), 0x10000 - len(old)] = ('fill', 0)
                    m['mapped', nm, 0] = ('n', 1)
            return self.either(mem, (('c', at, 64), pool), (('c', -1, 64), None))
        if n in MAPPED: return [(C(0), note(n, av[0] and av[0][1], av[1] and av[1][1]))]
        if n in ('ftruncate', 'ftruncate64'):
            if av[1] is None: raise Lost('a file gets an unknown size', I.where)
            if self.room is not None and av[1][1] > self.room: return [(C(-1), lambda m: m.__setitem__(('fault', 0, 0), ('n', 1)))]
            return self.either(mem, (C(0), note('truncate', av[0] and av[0][1], av[1][1])), (C(-1), None))
        if n in self.sha:
            b = stream.piece(T, mem, av[0], av[1][1]) if av[1] is not None and av[1][0] == 'c' else [None]
            if None in b or place(av[2]) is None: raise Lost('bytes which were never set are hashed', I.where)
            return [(av[2], lambda m: put(m, place(av[2]), hashlib.sha1(bytes(b)).digest().decode('latin1')))]
        if n == 'strerror': return [(('s', '&text', 0), None)]
        if n in ('fflush', 'perror'): return [(C(0), None)]
        return None


BUILTIN = {}


def builtin(P, f, i):
    """name which the library gives to a negative number"""
    if (f, i) not in BUILTIN:
        F = next(g for g in P.find(f) if not g.decl)
        T = Trace(P)
        T.mute = T.mute - {F.name}
        R = {T.text(e.ret, e.mem) for e in T.run(F, {0: ('c', i, 64)}, Mem())} if i < 0 else {None}
        BUILTIN[f, i] = R.pop() if len(R) == 1 else None
    return BUILTIN[f, i]


def text_of(ty, b, names=None):
    """the text a stored value stands for; None when there is none"""
    if ty == 'NULL': return None
    if ty == 'STRING': return b[:-1].decode('latin1') if b[-1:] == b'\0' else False
    if ty in ('INT32', 'INT64'): return str(int.from_bytes(b, 'little', signed=True))
    if ty in ('UINT32', 'UINT64'): return str(int.from_bytes(b, 'little'))
    for k, d in (('DECI', 1), ('CENTI', 2), ('MILI', 3), ('MICRO', 6), ('NANO', 9)):
        if ty == 'INT32_' + k:
            v = int.from_bytes(b, 'little', signed=True)
            return '%s%d.%0*d' % ('-' if v < 0 else '', abs(v) // 10 ** d, d, abs(v) % 10 ** d)
    if ty in ('FLOAT', 'DOUBLE'): return repr(struct.unpack('<f' if ty == 'FLOAT' else '<d', b)[0])
    if ty == 'UNIX_TIME64_MSEC': v = int.from_bytes(b, 'little', signed=True); return time.strftime('%Y-%m-%d %H:%M:%S', time.gmtime(v // 1000)) + '.%03d' % (v % 1000)
    if ty == 'GUID': x = b.hex(); return '-'.join((x[:8], x[8:12], x[12:16], x[16:20], x[20:]))
    if ty == 'UNIX_TIME': return time.strftime('%Y-%m-%d %H:%M:%S', time.gmtime(int.from_bytes(b, 'little')))
    if ty == 'UNIX_DATE': return time.strftime('%Y-%m-%d', time.gmtime(86400 * int.from_bytes(b, 'little', signed=True)))
    if ty == 'IPv4': return '.'.join(str(x) for x in b[::-1])
    if ty in ('BLOB', 'HEX', 'BLOB_STRING'): return b[4:].hex()
    if ty == 'SHA1': return b[:20].hex()
    return False


class Stored:
    """an .xb image, decoded"""

    def __init__(self, L, b):
        self.L = L; self.b = b; self.low = -1

    def num(self, o, z, signed=True):
        if o < 0 or o + z > len(self.b): raise ValueError('a part is outside of the file')
        return int.from_bytes(self.b[o:o + z], 'little', signed=signed)

    def head(self, at): return {m: self.num(at + o, z) for m, (o, z) in self.L.f.items()}

    def parts(self, at):
        """attributes and the places of the children"""
        h = self.head(at); L = self.L
        ps = []
        for i in range(h['paramcount']):
            p = at + L.head + i * L.pd
            ps.append(tuple(self.num(p + o, z) for o, z in (L.pf['name'], L.pf['type'], L.pf['data'])) + (p + L.pf['data'][0],))
        t = at + L.head + h['paramcount'] * L.pd
        return h, ps, [at + self.num(t + 4 * i, 4) for i in range(h['childcount'])], t + 4 * h['childcount']

    def value(self, o, ty, end):
        """bytes of a value"""
        if ty == 'NULL': return b''
        if ty == 'STRING':
            e = self.b.find(b'\0', o)
            if e < 0 or e >= end: raise ValueError('a text has no end')
            return self.b[o:e + 1]
        o += -o % (8 if ty in V8 else 4)
        n = 4 + self.num(o, 4) if ty in ('BLOB', 'HEX', 'BLOB_STRING') else {'SHA1': 20, 'GUID': 16, 'IPv6': 16}.get(ty, 8 if ty in V8 else 4)
        if n < 4 or o + n > end: raise ValueError('a value is outside of its element')
        return self.b[o:o + n]

    def symbols(self, at):
        h, ps, ks, v = self.parts(at)
        c = [d for n, t, d, _ in ps if n == enum(self.L.P, 'XPNR_COUNT')]; tc = [d for n, t, d, _ in ps if n == enum(self.L.P, 'XPNR_TYPE_COUNT')]
        if any(self.L.types.get(t) != 'INT32' for n, t, d, _ in ps if n in (enum(self.L.P, 'XPNR_COUNT'), enum(self.L.P, 'XPNR_TYPE_COUNT'))): raise ValueError('the number of symbols is no number')
        if tc and not 0 <= tc[0] <= (c or [0])[0]: raise ValueError('there are more types than symbols')
        if not c or ks or self.L.types.get(self.num(v, 1)) != 'BLOB': raise ValueError('no symbol table')
        o = v + 1; o += -o % 4
        z = self.num(o, 4); o += 4
        out = []
        for i in range(c[0]):
            p = at + self.num(o + 4 * i, 4)
            e = self.b.find(b'\0', p)
            if p < o + 4 * c[0] + (tc[0] if tc else 0) or e < 0 or e >= o + z or o + z > at + h['length']: raise ValueError('a name is outside of its table')
            out.append((self.b[p:e].decode('latin1'), self.L.types.get(self.num(o + 4 * c[0] + i, 1)) if tc else None))
        return out

    def element(self, at, tags, pars, deep=0):
        if deep > 30: raise ValueError('elements without end')
        h, ps, ks, v = self.parts(at)
        end = at + h['length']
        if end > len(self.b): raise ValueError('an element is outside of the file')
        nm = lambda l, i: l[i][0] if 0 <= i < len(l) else builtin(self.L.P, 'XPNR2str' if l is pars else 'XTNR2str', i) or i
        ats = []
        for n, t, d, p in ps:
            ty = self.L.types.get(t)
            inl = ty in FOUR
            ats.append((nm(pars, n), ty, text_of(ty, self.b[p:p + 4] if inl else b'' if ty == 'NULL' else self.value(at + d, ty, end))))
        ty = self.L.types.get(self.num(v, 1))
        return (nm(tags, h['name']) if h['name'] != enum(self.L.P, 'XTNR_NULL') else -1, ty, text_of(ty, self.value(v + 1, ty, end)), ats, [self.element(k, tags, pars, deep + 1) for k in ks])

    def document(self):
        """what the file says: name of the source, hash, time, names, the tree"""
        P = self.L.P
        h, ps, ks, v = self.parts(0)
        if h['name'] != enum(P, 'XTNR_META_ROOT') or not 0 <= len(self.b) - h['length'] < 4: raise ValueError('no document or wrong length')
        by = {n: (self.L.types.get(t), d) for n, t, d, _ in ps}
        kid = {self.num(k + self.L.f['name'][0], self.L.f['name'][1]): k for k in ks}
        if len(by) != len(ps) or len(kid) != len(ks): raise ValueError('a part of the document is there twice')
        tags = self.symbols(kid[enum(P, 'XTNR_TAG_SYMBOLS')]); pars = self.symbols(kid[enum(P, 'XTNR_PARAM_SYMBOLS')])
        pay = kid[enum(P, 'XTNR_PAYLOAD')]
        pk = self.parts(pay)[2]
        if len(pk) != 1: raise ValueError('no root')
        x = lambda n: by.get(enum(P, n), (None, None))
        nm = x('XPNR_NAME'); tm = x('XPNR_MODIFIED')
        return dict(name=text_of('STRING', self.value(nm[1], 'STRING', len(self.b))) if nm[0] == 'STRING' else None, time=tm, version=x('XPNR_FORMAT_VERSION'),
                    hash=x('XPNR_HASH')[0], tags=tags, params=pars, root=self.element(pk[0], tags, pars))


E = lambda n, *k, a=(), v=None: (n, list(a), v, list(k))


def xml(d):
    """the description of nodes of the XML library"""
    n, ats, v, kids = d
    return ('E', n, [(k, [('TEXT', x)] if x else []) for k, x in ats], ([('TEXT', v)] if v is not None else []) + [xml(k) for k in kids])


def length(d):
    """characters of the document as the shortest text"""
    n, ats, v, kids = d
    inner = len((v or '').encode()) + sum(map(length, kids))
    return len(n.encode()) + sum(len(k.encode()) + len(x.encode()) + 4 for k, x in ats) + (3 if not inner else inner + 5 + len(n.encode()))


def expected(d):
    n, ats, v, kids = d
    l = lambda s: s and s.encode().decode('latin1')
    return (l(n), l(v) or None, [(l(k), l(x) or None) for k, x in ats], [expected(k) for k in kids])


def json_expected(t): return (t[0] or -1, t[1] or None, [], [json_expected(k) for k in t[2]])


NUM = re.compile(r'-?[0-9]*\.?[0-9]*(E-?[0-9]+)?$')


def alike(x, y):
    """a stored text stands for the same value: equal, or equal as numbers (1.50 and 1.5, 7 and 007), or as a time"""
    if x == y: return True
    if not isinstance(x, str) or not isinstance(y, str): return False
    if NUM.match(x.replace('e', 'E')) and NUM.match(y):
        try: a, b = float(x), float(y)
        except ValueError: return False
        return a == b if '.' not in x or x.count('e') == 0 and len(x) < 12 else abs(a - b) <= 1e-6 * abs(b)
    return x.lower() == y.lower() if len(y) in (36, 40) and all(c in '0123456789abcdefABCDEF-' for c in y) else x == y.replace('T', ' ').rstrip('Z') if len(y) == 24 else False


def agrees(t, w):
    """a decoded element and what it was made of"""
    return t[0] == w[0] and alike(t[1], w[1]) and len(t[2]) == len(w[2]) and all(a[0] == b[0] and alike(a[1], b[1]) for a, b in zip(t[2], w[2])) and len(t[3]) == len(w[3]) and all(map(agrees, t[3], w[3]))


def plain(t):
    """a decoded element without types; empty texts are no texts"""
    n, ty, v, ats, kids = t
    return (n, v or None, [(k, x or None) for k, y, x in ats], [plain(k) for k in kids])


def number(d, i=None):
    """every element of a shape gets a value or attributes of its own"""
    i = i if i is not None else [0]
    i[0] += 1
    m = i[0]
    ats = [('x', str(m)), ('y', 'w%d' % m)][:m % 3]
    v = None if d[3] else 't%d' % m if m % 2 else str(1000 + m)
    return (d[0], ats, v, [number(k, i) for k in d[3]])


def shapes(n):
    """all ordered trees of n elements with names a and b"""
    def forests(n):
        if n == 0: yield []; return
        for k in range(1, n + 1):
            for t in trees(k):
                for r in forests(n - k): yield [t] + r

    def trees(n):
        for f in forests(n - 1):
            for nm in 'ab': yield (nm, [], None, f)
    return [number(t) for t in trees(n)]


VALUES = ['0', '7', '-1', '2147483647', '-2147483647', '2147483648', '-9000000000', '9223372036854775807', '1.5', '-0.25', '12.125', 'word', 'two words', 'a', 'é', '2015-03-01', '2016-02-29 12:30:45', '10.0.0.1', '255.255.255.254',
          '1.2.3', '1-2', '--', '12a', 'x12', '.', '-', '0001', '+5', '1 2', '10 20', '0x12', '0x1f', 'E12', '12E', '-E5', '1.5E2.5', 'Ed', 'ed', 'Fade', 'cafe01', '12-34', '1-', '-5-', '2026-03-20T15:51:55.773Z', '2021-06-15 22:41:40.125',
          'fcac7dbb-08c7-478d-bf97-7e595ca39aab', 'FCAC7DBB-08c7-478d-bf97-7e595ca39aab', '9b6aa6cc7c5a71c13fc7ee1011ef309c333a904c', '9B6AA6CC7C5A71C13FC7EE1011EF309C333A904C', '9223372036854775808', '18446744073709551615x', '4294967295', '123456789.5', '-0.5', '.5', '5.', '0x9b6aa6cc7c5a71c13fc7ee1011ef309c333a904c', '1e5', 'true', 'null', '"quoted" <&>', 'line\nline', ' lead', 'tail ', 'y' * 300]
MIXED = [('1', 'word'), ('word', '1'), ('1', '2147483648'), ('1.5', '2.25'), ('1', '1.5'), ('', '3'), ('3', ''), ('', 'word'), ('10.0.0.1', '7'), ('2015-03-01', '2016-02-29 12:30:45'), ('2015-03-01', 'x'), ('9223372036854775807', 'z')]
DOCS = {
    'single': E('a'),
    'value': E('a', v='text'),
    'attrs': E('doc', E('item', a=[('id', '1'), ('label', 'first')]), E('item', a=[('id', '2'), ('label', '')]), a=[('version', '10')]),
    'types': E('doc', E('n', v='-17'), E('big', v='12345678901'), E('t', v='some text'), E('d', v='2015-03-01'), E('ip', v='10.0.0.1'), E('c', v='1.5'),
               a=[('n', '42'), ('big', '98765432109'), ('t', 'x y'), ('d', '2016-02-29'), ('ip', '192.168.1.20'), ('c', '-2.25')]),
    'mixed': E('doc', E('v', v='1'), E('v', v='text'), E('v', v='3'), E('w', v='5', a=[('v', '7')]), E('w', a=[('v', 'word')]), E('w', a=[('v', '9')])),
    'deep': E('a', E('b', E('c', E('a', E('b', v='end'), a=[('b', '1')])), E('c')), E('b'), E('d', E('d', E('d')))),
    'order': E('z', E('m', a=[('q', '3'), ('a', '1'), ('m', '2')]), E('a'), E('z', v='last'), E('b'), E('m'), a=[('z', '26'), ('a', '0')]),
    'same': E('r', E('x', E('y', v='same'), a=[('k', 'v')]), E('x', E('y', v='same'), a=[('k', 'v')]), E('x', E('y', v='other'), a=[('k', 'v')])),
    'builtin': E('doc', E('count', v='5'), E('id', v='x'), a=[('count', '1'), ('id', '2'), ('name', 'n'), ('hash', 'h'), ('modified', 'm')]),
    'names': E('n0', *[E('n%d' % (i * 7 % 140 + 1), v=str(i)) for i in range(140)], a=[('p%d' % (i * 5 % 60), str(i)) for i in range(60)]),
    'wide': E('r', *[E('x', a=[('i', str(i))]) for i in range(70)], v='head'),
    'chain': None,
    'long': E('r', E('x', v='v' * 3000, a=[('p', 'q' * 2000)]), E('x', v='w' * 1001)),
}
x = E('leaf', v='end')
for i in range(14): x = E('l%d' % i, x, a=[('d', str(i))])
DOCS['chain'] = x
JSONS = {
    'object': JO(('a', JP('1')), ('b', JS('text')), ('c', JO(('d', JP('2')), ('a', JP('3'))))),
    'array': JO(('items', JA(JP('1'), JP('2'), JP('3'))), ('x', JA(JO(('a', JS('1'))), JO(('a', JS('u')), ('b', JP('true')))))),
    'empty': JO(('a', JO()), ('b', JA()), ('c', JS(''))),
}


def machine(P, W):
    T = Trace(P, calls=W.calls, limit=400000, depth=120, decided=24, loads=lambda I, a, mem: (('g', a[1], 0) if a[1] in ('xmlFree', 'xmlMalloc') else P.gload(a[1], a[2], I.raw['sz'], force=True)) if a[0] == 'g' else None)
    T.mute = T.mute - {f.name for n in ('XTNR2str', 'XPNR2str') for f in P.find(n)}
    return T


def steps(K, T, mem, key, calls):
    """runs functions one after another; [(answers, memory, last End)] and whether it was given up is the last answer"""
    S = [((), mem, None, False)]
    for F, args in calls:
        nx = []
        for ans, m, last, up_ in S:
            if up_: nx.append((ans, m, last, up_)); continue
            for e in T.run(F, args, m):
                x = nulls(e)
                K.ob('nothing is accessed through a null pointer', key + ':null', x is None, x[1].where if x else F.where, '%s follows a null pointer while %s is converted' % (F.short, key))
                if e.kind != 'ret': nx.append((ans, e.mem, e, True))
                else: nx.append((ans + (e.ret,), e.mem, e, False))
        S = nx
    return S


def bit(v): return v[1] & 1 if v is not None and v[0] == 'c' else None


def orderly(K, W, key, mem, where):
    """memory and files are given back once"""
    seen = mem.get(('seen', 0, 0), ('list', ()))[1]
    new = sorted(w[1] for w in seen if w[0] == 'new'); free = sorted((w[1] or 0) for w in seen if w[0] == 'free')
    K.ob('every memory block is given back once', key + ':memory', new == free, where, 'converting %s leaves %d of %d blocks behind or frees a block twice' % (key, len(set(new) - set(free)), len(new)))
    op = sorted(w[2] for w in seen if w[0] == 'open' and w[2] is not None); cl = sorted((w[1] or 0) for w in seen if w[0] == 'close')
    K.ob('every file is closed once', key + ':files', op == cl, where, 'converting %s opens %d files and closes %d' % (key, len(op), len(cl)))
    K.ob('every mapping ends once', key + ':maps', sorted(w[1:] for w in seen if w[0] == 'mmap') == sorted(w[1:] for w in seen if w[0] == 'munmap'), where, 'converting %s does not end its mappings' % key)
    K.ob('every document of the XML library is given back once', key + ':doc', sum(w[0] == 'doc' for w in seen) == sum(w[0] == 'freedoc' for w in seen), where, 'converting %s does not release the parsed document' % key)
    K.ob('everything fits into its memory', key + ':fits', not W.beyond(mem), where, 'converting %s writes behind an allocated block' % key)
    return seen


def names_in(t):
    return {t[0]}.union(*[names_in(k)[0] for k in t[3]]), {k for k, x in t[2]}.union(*[names_in(k)[1] for k in t[3]])


def stored_xb(K, L, key, seen, want, where, dst, src):
    """the file at the end is the document"""
    i = max([i for i, w in enumerate(seen) if w[0] == 'open' and w[1] == dst], default=None)
    bad = None
    if i is None: bad = 'the file is not made'
    else:
        fd = seen[i][2]
        b = [x for w in seen[i:] if w[0] == 'write' and w[1] == fd for x in w[2]]
        if any(x is None for x in b): bad = 'byte %d of %d was never set' % (b.index(None), len(b))
        else:
            try: d = Stored(L, bytes(b)).document()
            except (ValueError, KeyError) as x: bad = str(x)
            else:
                tg, pr = names_in(want)
                got = plain(d['root'])
                if not agrees(got, want): bad = 'it says %s instead of %s' % (str(got)[:300], str(want)[:300])
                elif d['name'] != src: bad = 'its source is named %r' % d['name']
                elif d['time'] != ('UNIX_TIME', TIME): bad = 'its time is %s' % (d['time'],)
                elif d['hash'] != 'SHA1' or d['version'][0] != 'INT32': bad = 'hash or version is missing'
                else:
                    for l, w, what in ((d['tags'], tg, 'element'), (d['params'], pr, 'attribute')):
                        nm = [x for x, t in l]
                        if len(set(nm)) != len(nm): bad = 'a name of %ss is there twice' % what
                        elif not set(nm) <= w: bad = 'the name %s of %ss is not used' % (sorted(set(nm) - w)[0], what)
                        elif any(t is None for x, t in l): bad = 'a type of %ss is missing' % what
    K.ob('the document is in the file once and completely', key, bad is None, where, 'converting %s into .xb: %s' % (key, bad))


def from_xml(P, d, name='dir/source.xml'):
    X = Xml(P); X.root = X.node(xml(d)); Xml.now = X
    mem = Mem(X.mem)
    put(mem, (None, NAMES), name + '\0'); put(mem, (None, NAMES + 64), 'out/target.any\0')
    return X.root, mem, {name: length(d)}


def from_json(P, d, sp=''):
    mem = Mem()
    put(mem, (None, NAMES), 'dir/source.json\0'); put(mem, (None, NAMES + 64), 'out/target.any\0')
    return 0, mem, {'dir/source.json': render(d, sp)}


SRC, DST, OUT = ('c', NAMES, 64), ('c', NAMES + 64, 64), NAMES + 512
TGT = {'xb': ('c', 0, 32), 'xbw': ('c', 1, 32)}
CREATOR, PLUGIN = ('c', CRE, 64), ('c', CRE + 0x1000, 64)


def way(P, how, plugin='Bin_xml_plugin', to='xb'):
    """calls of one conversion, the number of the call which answers"""
    ctor = lambda c, *w: next(f for f in P.find('%s::%s' % (c, c)) if not f.decl and all((x in f.name) == y for x, y in w))
    dtor = lambda c: next(f for f in P.find('%s::~%s' % (c, c)) if not f.decl and 'D0E' not in f.name)
    conv = lambda c, src: next(f for f in P.find(c + '::Convert') if ('Bin_src_plugin' in f.name) == src)
    src = ('Bin_src_plugin', how != 'names')
    C, Pk = 'Bin_xml_creator', 'Bin_xml_packer'
    do = (P.fn(C + '::DoAll'), {0: CREATOR})
    mk = (ctor(plugin), {0: PLUGIN, 1: SRC, 2: ('c', 0, 64)})
    if how == 'convert': return [(conv(C, False), {0: SRC, 1: DST})], 0
    if how == 'packer': return [(conv(Pk, False), {0: SRC, 1: DST})], 0
    if how == 'packer of source': return [mk, (conv(Pk, True), {0: PLUGIN, 1: DST}), (dtor(plugin), {0: PLUGIN})], 1
    if how == 'names': return [(ctor(C, src), {0: CREATOR, 1: SRC, 2: DST, 3: TGT[to]}), do, (dtor(C), {0: CREATOR})], 1
    if how == 'source': return [mk, (ctor(C, src, ('PKc', True)), {0: CREATOR, 1: PLUGIN, 2: DST, 3: TGT[to]}), do, (dtor(C), {0: CREATOR}), (dtor(plugin), {0: PLUGIN})], 2
    if how == 'source, no name': return [mk, (ctor(C, src, ('PKc', True)), {0: CREATOR, 1: PLUGIN, 2: ('c', 0, 64), 3: TGT[to]}), do, (dtor(C), {0: CREATOR}), (dtor(plugin), {0: PLUGIN})], 2
    if how == 'source only': return [mk, (ctor(C, src, ('PKc', False)), {0: CREATOR, 1: PLUGIN, 2: TGT[to]}), do, (dtor(C), {0: CREATOR}), (dtor(plugin), {0: PLUGIN})], 2
    if how == 'GetXB': return [(P.fn(Pk + '::GetXB'), {0: SRC, 1: ('c', OUT, 64), 2: ('c', OUT + 512, 64)})], 0
    raise KeyError(how)


def refused(K, P, to, ways):
    """sources which cannot be read"""
    doc = from_xml(P, DOCS['attrs'])
    for key, name, files, root in (('other', 'dir/source.txt', {'dir/source.txt': 10}, 0), ('no-dot', 'source', {'source': 10}, 0), ('missing', 'dir/source.xml', {}, doc[0]), ('no-root', 'dir/source.xml', {'dir/source.xml': 10}, 0),
                                   ('missing-json', 'dir/source.json', {}, 0), ('empty-json', 'dir/source.json', {'dir/source.json': ''}, 0), ('broken-json', 'dir/source.json', {'dir/source.json': '{"a":['}, 0)):
        mem = Mem(doc[1])
        put(mem, (None, NAMES), name + '\0')
        for how in ways:
            calls, which = way(P, how, to=to)
            for r, e, seen in outcomes(K, P, 'refused:%s:%s:%s' % (to, key, how), (root, Mem(mem), files), calls, which, want=0): pass


def outcomes(K, P, key, source, calls, which, faults=False, room=None, want=1):
    """(succeeded, End, what was done) for every trace which is not given up"""
    root, mem, files = source
    W = World(P, files, root, faults, room)
    K.count('conversions')
    F = calls[which][0]
    for ans, m, e, up_ in steps(K, machine(P, W), mem, key, calls):
        fault = ('fault', 0, 0) in m
        K.count('ends')
        if up_:
            K.ob('a conversion does not give up', key + ':up', fault, e.where, 'converting %s stops the program' % key); continue
        r = bit(ans[which])
        K.ob('a conversion succeeds unless something failed', key + ':answer', r == want or r == 0 and fault, F.where, 'converting %s answers %s although %s' % (key, r, 'nothing failed' if want else 'the source cannot be read'))
        yield r, e, orderly(K, W, key, m, F.where)


def whole(K, P, L, key, source, want, how, faults=False, name='dir/source.xml', plugin='Bin_xml_plugin', dst='out/target.xb'):
    """from the name of the source to the name of the result"""
    calls, which = way(P, how, plugin)
    F = calls[which][0]
    for r, e, seen in outcomes(K, P, key, source, calls, which, faults):
        if r == 1: stored_xb(K, L, key, seen, want, F.where, dst, name)
        if r == 1 and how == 'GetXB':
            t = Trace(P).text(('c', OUT, 64), e.mem)
            K.ob('the answered name is the name of the file', key + ':name', t == dst, F.where, 'GetXB answers %r for %r, the file is %r' % (t, name, dst))


def run(K):
    P = K.prog
    L = Layout(P)
    K.rule('Abstract interpretation of complete conversions from the name of the source to the closed result: the tree of the XML library, the text of a JSON file or the memory of a writable document is given, the system is modelled (every request may '
           'fail once on a trace of its own), all bytes given to write are decoded independently and compared with the source; memory, files and mappings have to be given back once on every trace.')
    K.assume('the XML library answers the tree of the source; write stores the bytes it reports')
    one = lambda key, d, how='convert', **kw: whole(K, P, L, key, from_xml(P, d, kw.get('name', 'dir/source.xml')), expected(d), how, **kw)
    for k, d in DOCS.items():
        one('xml:' + k, d)
        if k not in ('names', 'wide', 'long', 'chain'): one('packed:' + k, d, 'packer')
    for n in (1, 2, 3, 4):
        for i, d in enumerate(shapes(n)): one('xml:shape%d.%d' % (n, i), d)
    for v in VALUES:
        vv = v if v.strip() == v else 'x'                 # blanks around the text of an element are not stored
        one('xml:value:' + v[:20], E('r', E('v', v=vv), E('v', v='x', a=[('p', v)]), a=[('p', v)]))
        one('xml:only:' + v[:20], E('r', E('v', v=vv), a=[('p', v)]))
    for v, w in MIXED: one('xml:mixed:%s:%s' % (v, w), E('r', E('v', v=v or None, a=[('p', v)]), E('v', v=w or None, a=[('p', w)])))
    for k in ('attrs', 'mixed'): one('faults:' + k, DOCS[k], faults=True)
    one('faults:packed', DOCS['same'], 'packer', faults=True)
    for k, d in JSONS.items():
        for sp in ('', ' ', '\n\t'): whole(K, P, L, 'json:%s:%d' % (k, len(sp)), from_json(P, d, sp), json_expected(tree(d)), 'convert', name='dir/source.json')
    whole(K, P, L, 'json:faults', from_json(P, JSONS['object']), json_expected(tree(JSONS['object'])), 'convert', faults=True, name='dir/source.json')
    for how in ('names', 'source', 'source, no name', 'source only', 'packer of source'):
        dst = 'dir/source.xb' if how in ('source, no name', 'source only') else 'out/target.xb'
        one('xml:' + how, DOCS['attrs'], how, dst=dst)
        one('xml:%s:faults' % how, DOCS['value'], how, dst=dst, faults=True)
        whole(K, P, L, 'json:' + how, from_json(P, JSONS['object'], ' '), json_expected(tree(JSONS['object'])), how, name='dir/source.json', plugin='Bin_json_plugin', dst=dst)
    for ext in ('xml', 'xsd', 'wsdl'): one('getxb:' + ext, DOCS['attrs'], 'GetXB', name='dir/source.' + ext, dst='dir/source.xb')
    refused(K, P, 'xb', ('convert', 'packer', 'names', 'GetXB'))
    K.minimum('conversions', 200)
