"""C15: typed read operations answer exactly the stored value, or nothing."""
import os, re, subprocess, tempfile
from sa.types import *
from sa.trace import *
from sa.build import CLANG, CXXFLAGS, REPO, BUILD
from .c16 import Heap, POOL, ptr

I0, RES, CUR, DST, SZ = 0x4000000, 0x5100000, 0x5200000, 0x5300000, 0x5400000
HDR = 24
NUM = ('atoi', 'atol', 'atoll', 'strtol', 'strtoll')


def A(v): return ('c', v, 64)


def mentions(v, x):
    """the label is built from x"""
    if v == x: return True
    return isinstance(v, tuple) and any(mentions(y, x) for y in v)


class Read:
    def __init__(self, P, T):
        self.P = P; self.T = T
        nm = lambda *l: {f.name for s in l for f in P.find(s)}
        self.tostr, self.chunk, self.scan = nm('XBT_ToString'), nm('XBT_ToStringChunk'), nm('ScanInt64', 'ScanInt64W')
        self.names = nm('BW_pool::getTagName', 'BW_pool::getAttrName', 'BW_element::getName')
        self.types = nm('BW_pool::getTagType', 'BW_pool::getAttrType', 'BW_element::getSymbolType')
        self.dtype = None

    def calls(self, I, n, av, T, mem):
        if n and n.replace('__isoc23_', '').replace('__isoc99_', '') in NUM: return [(('s', ('num', av[0]), 0), None)]
        if n in self.tostr: return [(('s', ('&text', av[0] and av[0][1], av[1]), 0), None)]
        if n in self.chunk:
            o = load(mem, place(av[2]), 4) if av[2] is not None else None
            return [(('s', ('chunk', av[0] and av[0][1], av[1], o, av[3], av[4]), 0), None)]
        if n in self.scan:
            p, v = (load(mem, place(av[0]), 8), place(av[1])) if av[0] is not None and av[1] is not None else (None, None)
            if p is None or v is None: return None
            return [(('c', -1, 1), lambda m: store(m, v, 8, ('s', ('num', p), 0))), (('c', 0, 1), None)]
        if n in self.names: return [(('s', '&name', 0), None)]
        if n in self.types and self.dtype is not None: return [(C(self.dtype), None)]
        if n in ('strlen',) and av[0] is not None and av[0][0] == 's': return [(('s', ('len', av[0]), 0), None)]
        if n and (n.startswith('_ZNSo') or n.startswith('_ZSt') or n.startswith('_ZNKSt')): return [(None, None)]
        return None


def fields(P, cls): return {m['n']: (m['o'], m['bits'] // 8) for m in layout(P, cls)['m']}


def nothing(v): return v == A(0)


def run(K):
    P = K.prog; T = Types(P)
    K.rule('Every typed read operation is evaluated by abstract interpretation for each stored type, each number of attributes and children before the value and each residue of its address. '
           'The answer must be the place of the value of exactly this element (or what the conversion makes of this place), and nothing for a type the operation does not serve.')
    R = Read(P, T)
    TR = Trace(P, calls=R.calls)

    def stores(e): return [x for x in e.ev if x[0] in ('store', 'store?') and not (x[2] is not None and (x[2][0] is not None and x[2][0][0] == 'g' or x[2][0] is None and RES <= x[2][1] < RES + 64 or x[2] == (None, SZ)))]

    def go(F, args, mem):
        K.count('cases')
        return TR.run(F, args, mem)

    z = {e.ret for e in TR.run(P.fn('XML_Item::getInt'), {0: A(0)}, {})}
    K.need(len(z) == 1 and None not in z, 'the null value is not determined')
    n32 = sx(z.pop()[1], 32)
    dref = fields(P, 'XML_Binary_Data_Ref')
    item = sizeof(P, 'XML_Item'); pdsz = sizeof(P, 'XML_Param_Description'); pd = fields(P, 'XML_Param_Description')

    def conv32(e, addr):
        """the result points to a number converted in this call from the text at addr"""
        at = place(e.ret)
        v = load(e.mem, at, 4) if at is not None and e.ret != A(0) else None
        return v is not None and v[0] == 's' and mentions(v[1], ('num', A(addr)))

    def text_ok(v, t, lo, hi): return v is not None and v[0] == 's' and v[1][0] == '&text' and v[1][1] == t and v[1][2] is not None and v[1][2][0] == 'c' and lo <= v[1][2][1] <= hi

    def judge_data(e, t, place_, size, key, what):
        g = lambda n: load(e.mem, (None, RES + dref[n][0]), dref[n][1])
        ty, da, s = g('type'), g('data'), g('size')
        ok = e.kind == 'ret' and ty is not None and ty[0] == 'c' and ty[1] == t and da is not None and (da == A(place_) or size == 0) and s is not None and s[0] == 'c' and s[1] == size
        K.ob('the description of a value states its type, place and size', key, ok and not stores(e), e.where, 'the description of %s is type %s at %s with %s bytes, stored are %d bytes at %s of type %d' % (what, ty, da, s, size, A(place_), t))

    WORD = 'xyz'

    def content(mem, t, at):
        """a value of the type at its place; answers its stored size"""
        nm = T.names[t]
        if nm == 'STRING':
            for i, ch in enumerate(WORD + '\0'): mem[None, at + i, 1] = ('c', ord(ch), 8)
            return len(WORD) + 1
        if nm == 'NULL': return 0
        if nm in T.VAR:
            mem[None, at, 4] = C(7); return 11
        if nm not in T.FIXED: return None
        n = T.FIXED[nm]
        for i in range(0, n, 4 if n % 8 else 8): store(mem, (None, at + i), 4 if n % 8 else 8, ('s', ('VALUE', i), 0))
        return n

    al = lambda t: {'STRING': 1}.get(T.names[t], 8 if T.FIXED.get(T.names[t]) == 8 else 4)
    usable = [t for t in T.all if T.names[t] in T.FIXED or T.names[t] in T.VAR or T.names[t] in ('STRING', 'NULL')]
    K.need(len(usable) >= 20, 'only %d value types' % len(usable))
    # ---- the value of an element ------------------------------------------------------------------------
    iff = fields(P, 'XML_Item')
    M = {n: P.fn('XML_Item::' + n) for n in ('getString', 'getStringChunk', 'getBinary', 'getInt', 'getIntPtr', 'getInt64Ptr', 'getData')}
    for t in usable:
        nm = T.names[t]
        for base in (I0, I0 + 4):
            for p, c in ((0, 0), (1, 0), (0, 1), (3, 2)):
                mem = {}
                for n, v in (('name', 5), ('paramcount', p), ('childcount', c), ('length', 400)): mem[None, base + iff[n][0], iff[n][1]] = ('c', v, iff[n][1] * 8)
                ty = base + item + p * pdsz + c * 4
                mem[None, ty, 1] = ('c', t, 8)
                p1 = ty + 1; at = up(p1, al(t))
                size = content(mem, t, at)
                mem[None, CUR, 4] = ('s', 'OFFSET', 0)
                key = lambda n: '%s:%s:%d/%d/%d' % (n, nm, p, c, base & 7)
                for e in go(M['getString'], {0: A(base)}, mem):
                    ok = e.ret == A(p1) if nm == 'STRING' else text_ok(e.ret, t, p1, at) or nm == 'NULL' and nothing(e.ret)
                    K.ob('text of an element is made from its own value', key('getString'), ok and not stores(e), e.where, 'the text of an element of type %s is %s, its value is at %#x' % (nm, e.ret, at))
                for e in go(M['getStringChunk'], {0: A(base), 1: A(CUR), 2: A(DST), 3: C(77)}, mem):
                    v = e.ret
                    ok = v is not None and v[0] == 's' and v[1][:2] == ('chunk', t) and v[1][2] is not None and p1 <= v[1][2][1] <= at and v[1][3:] == (('s', 'OFFSET', 0), A(DST), C(77)) or nm == 'NULL' and v == C(0)
                    K.ob('text of an element is made from its own value', key('getStringChunk'), ok and not stores(e), e.where, 'the part of the text of an element of type %s is %s' % (nm, v))
                for withsize in (True, False):
                    for e in go(M['getBinary'], {0: A(base), 1: A(SZ if withsize else 0)}, mem):
                        v = e.ret; s = load(e.mem, (None, SZ), 4)
                        if nm == 'STRING': ok = v == A(p1) and (not withsize or s == C(len(WORD)))
                        elif nm in T.VAR: ok = v == A(at + 4) and (not withsize or s == C(7)) or nm != 'BLOB' and nothing(v)
                        else: ok = nothing(v)
                        K.ob('binary content is the block behind its length', key('getBinary'), ok and not stores(e), e.where, 'the block of an element of type %s is %s with %s bytes' % (nm, v, s))
                for e in go(M['getInt'], {0: A(base)}, mem):
                    v = e.ret
                    if nm == 'INT32': ok = v == ('s', ('VALUE', 0), 0)
                    elif nm == 'STRING': ok = v is not None and v[0] == 's' and mentions(v[1], ('num', A(p1)))
                    else: ok = v is not None and v[0] == 'c' and v[1] == n32
                    K.ob('a number is the stored value or the null value', key('getInt'), ok and not stores(e), e.where, 'the number of an element of type %s is %s' % (nm, v))
                for e in go(M['getIntPtr'], {0: A(base)}, mem):
                    ok = e.ret == A(at) if nm == 'INT32' else conv32(e, p1) if nm == 'STRING' else nothing(e.ret)
                    K.ob('the place of a number is the place of the stored value', key('getIntPtr'), ok and not stores(e), e.where, 'the place of the number of an element of type %s is %s, or does not contain the number of its text' % (nm, e.ret))
                for e in go(M['getInt64Ptr'], {0: A(base)}, mem):
                    failed = any(x[0] == 'call' and x[4] == ('c', 0, 1) for x in e.ev)
                    ok = e.ret == A(at) if nm == 'INT64' else (nothing(e.ret) if failed else conv64(e, p1)) if nm == 'STRING' else nothing(e.ret)
                    K.ob('the place of a number is the place of the stored value', key('getInt64Ptr'), ok and not stores(e), e.where, 'the place of the number of an element of type %s is %s, or does not contain the number of its text' % (nm, e.ret))
                for e in go(M['getData'], {0: A(RES), 1: A(base)}, mem): judge_data(e, t, at, size, key('getData'), 'an element of type %s' % nm)
    # ---- attributes -------------------------------------------------------------------------------------
    M = {n: P.fn('XML_Param_Description::' + n) for n in ('getIntPtr', 'getInt32Ptr', 'getInt64Ptr', 'getString', 'getStringChunk', 'getData')}
    g = P.find('XML_Param_Description::getInt', False)
    if g: M['getInt'] = g[0]
    at8 = I0 + 160
    for t in usable:
        nm = T.names[t]
        inl = T.FIXED.get(nm) == 4
        for D, X in ((I0 + item, I0), (I0 + item + 2 * pdsz, I0), (I0 + item + 4, I0 + 4)):
            out = X + (160 if X == I0 else 156)           # place of an out-of-line value
            mem = {}
            mem[None, D + pd['name'][0], 2] = ('c', 9, 16)
            mem[None, D + pd['type'][0], 1] = ('c', t, 8)
            da = D + pd['data'][0]
            if inl: mem[None, da, 4] = ('s', ('VALUE', 0), 0); at = da; size = 4
            elif nm == 'NULL': mem[None, da, 4] = C(0); at = X; size = 0
            else:
                mem[None, da, 4] = C(out - X); at = out
                size = content(mem, t, out)
            mem[None, CUR, 4] = ('s', 'OFFSET', 0)
            key = lambda n: 'attribute %s:%s:%d/%d' % (n, nm, D - X, X & 7)
            if 'getInt' in M:
                for e in go(M['getInt'], {0: A(D), 1: A(X)}, mem):
                    v = e.ret
                    if nm == 'INT32': ok = v == ('s', ('VALUE', 0), 0)
                    elif nm == 'STRING': ok = v is not None and v[0] == 's' and mentions(v[1], ('num', A(at)))
                    else: ok = v is not None and v[0] == 'c' and v[1] == n32
                    K.ob('a number is the stored value or the null value', key('getInt'), ok and not stores(e), e.where, 'the number of an attribute of type %s is %s' % (nm, v))
            def pick(e): return e.ret == A(at) if nm == 'INT32' else conv32(e, at) if nm == 'STRING' else nothing(e.ret)
            for e in go(M['getIntPtr'], {0: A(D), 1: A(X)}, mem):
                K.ob('the place of a number is the place of the stored value', key('getIntPtr'), pick(e) and not stores(e), e.where, 'the place of the number of an attribute of type %s is %s, or does not contain the number of its text' % (nm, e.ret))
            for t2 in usable:
                if T.FIXED.get(T.names[t2]) != 4: continue
                for e in go(M['getInt32Ptr'], {0: A(D), 1: A(X), 2: C(t2)}, mem):
                    ok = e.ret == A(da) if t2 == t else conv32(e, at) if nm == 'STRING' else nothing(e.ret)
                    K.ob('the place of a number is the place of the stored value', key('getInt32Ptr') + ':' + T.names[t2], ok and not stores(e), e.where, 'the place of the %s of an attribute of type %s is %s, or does not contain the number of its text' % (T.names[t2], nm, e.ret))
            for e in go(M['getInt64Ptr'], {0: A(D), 1: A(X)}, mem):
                failed = any(x[0] == 'call' and x[4] == ('c', 0, 1) for x in e.ev)
                ok = e.ret == A(at) if nm == 'INT64' else (nothing(e.ret) if failed else conv64(e, at)) if nm == 'STRING' else nothing(e.ret)
                K.ob('the place of a number is the place of the stored value', key('getInt64Ptr'), ok and not stores(e), e.where, 'the place of the 64-bit number of an attribute of type %s is %s (stored at %#x), or does not contain the number of its text' % (nm, e.ret, at))
            for e in go(M['getString'], {0: A(D), 1: A(X)}, mem):
                ok = e.ret == A(at) if nm == 'STRING' else text_ok(e.ret, t, at, at) or nm == 'NULL' and (nothing(e.ret) or text_ok(e.ret, t, X, X + 4096))
                K.ob('text of an attribute is made from its own value', key('getString'), ok and not stores(e), e.where, 'the text of an attribute of type %s is %s, its value is at %#x' % (nm, e.ret, at))
            for e in go(M['getStringChunk'], {0: A(D), 1: A(X), 2: A(CUR), 3: A(DST), 4: C(77)}, mem):
                v = e.ret
                ok = v is not None and v[0] == 's' and v[1][:2] == ('chunk', t) and (v[1][2] == A(at) or nm == 'NULL') and v[1][3:] == (('s', 'OFFSET', 0), A(DST), C(77)) or nm == 'NULL' and v == C(0)
                K.ob('text of an attribute is made from its own value', key('getStringChunk'), ok and not stores(e), e.where, 'the part of the text of an attribute of type %s is %s, its value is at %#x' % (nm, v, at))
            for e in go(M['getData'], {0: A(RES), 1: A(D), 2: A(X)}, mem): judge_data(e, t, at, size, key('getData'), 'an attribute of type %s' % nm)
    # ---- elements of writable documents -----------------------------------------------------------------
    E = 0x3000
    natural = {'getInt32': 'INT32', 'getFloat': 'FLOAT', 'getTime': 'UNIX_TIME', 'getInt64': 'INT64', 'getUInt64': 'UINT64', 'getGUID': 'GUID'}
    also = {'getInt64': ('UNIX_TIME64_MSEC',)}
    for n, want in natural.items():
        F = P.find('BW_element::' + n, False)
        if not F: continue
        for t in usable:
            nm = T.names[t]
            R.dtype = t
            H = Heap(P); H.el(E, value_type=t)
            store(H.mem, (None, POOL + field(P, 'BW_pool', 'file_size')[0]), 4, C(0x10000))
            for e in go(F[0], {0: ptr(E)}, H.mem):
                if nm == want or nm in also.get(n, ()): ok = e.ret == ptr(E + HDR)
                elif T.FIXED.get(nm) == T.FIXED[want] and al(t) == al(T.id[want]): ok = e.ret in (ptr(E + HDR), A(0))
                else: ok = nothing(e.ret)
                K.ob('a typed value of an element is answered exactly for its type', 'writable %s:%s' % (n, nm), ok and not stores(e), e.where, 'the %s of an element of type %s is %s' % (n[3:], nm, e.ret))
    for n in ('getStr', 'getData'):
        F = P.fn('BW_element::' + n)
        for t in usable:
            nm = T.names[t]; R.dtype = t
            H = Heap(P); H.el(E, value_type=t)
            size = content(H.mem, t, POOL + E + HDR)
            for e in go(F, {0: ptr(E)} if n == 'getStr' else {0: A(RES), 1: ptr(E)}, H.mem):
                if n == 'getStr':
                    ok = e.ret == (ptr(E + HDR) if nm == 'STRING' else ptr(E + HDR + 4) if nm == 'BLOB_STRING' else A(0))
                    K.ob('a typed value of an element is answered exactly for its type', 'writable %s:%s' % (n, nm), ok and not stores(e), e.where, 'the text of an element of type %s is %s' % (nm, e.ret))
                else:
                    judge_data(e, t, POOL + E + HDR, size, 'writable getData:' + nm, 'an element of type %s' % nm)
                    co, cs = (load(e.mem, (None, RES + dref[x][0]), dref[x][1]) for x in ('content', 'content_size'))
                    pre = 4 if nm in T.VAR else 0
                    K.ob('the content of a value is its data without the length', 'writable content:' + nm, nm == 'NULL' or co == ptr(E + HDR + pre) and cs is not None and cs[0] == 'c' and cs[1] == size - pre, e.where,
                         'the content of an element of type %s is %s with %s bytes' % (nm, co, cs))
    # retyping of a stored value
    F = P.fn('BW_element::retype')
    vt = field(P, 'BW_element', 'value_type')
    stored = lambda nm: ('fix', T.FIXED[nm]) if nm in T.FIXED else ('var',) if nm in T.VAR else (nm,)
    for t in usable:
        for t2 in usable:
            a, b = T.names[t], T.names[t2]
            for text in (('abc', 'ab\0') if a in T.VAR else ('abc',)):
                H = Heap(P); H.el(E, value_type=t)
                if a in T.VAR:
                    H.mem[None, POOL + E + HDR, 4] = C(len(text))
                    for i, ch in enumerate(text + 'XX'): H.mem[None, POOL + E + HDR + 4 + i, 1] = ('c', ord(ch), 8)
                else: content(H.mem, t, POOL + E + HDR)
                for e in go(F, {0: ptr(E), 1: C(t2)}, H.mem):
                    now = load(e.mem, (None, POOL + E + vt[0]), vt[1])
                    only = all(x[2] == (None, POOL + E + vt[0]) for x in stores(e))
                    done = e.ret == ptr(E) and now is not None and now[0] == 'c' and now[1] == t2
                    refused = e.ret == A(0) and now is not None and now[0] == 'c' and now[1] == t
                    if t == t2: ok = done
                    elif stored(a) != stored(b): ok = refused
                    elif b == 'BLOB_STRING' and a != b and '\0' not in text: ok = refused
                    else: ok = done or refused
                    K.ob('a stored value is retyped only to a type stored alike, nothing else changes', 'retype:%s:%s:%d' % (a, b, '\0' in text), e.kind == 'ret' and ok and only, e.where,
                         'retyping %s%s to %s answers %s, the type is %s now%s' % (a, ' with terminator' if '\0' in text else '', b, e.ret, now, '' if only else ' and something else is stored'))
    for e in go(F, {0: A(0), 1: C(T.id['INT32'])}, {}):
        K.ob('a stored value is retyped only to a type stored alike, nothing else changes', 'retype:none', e.kind == 'ret' and e.ret == A(0) and not stores(e), e.where, 'retyping no element answers %s' % (e.ret,))
    # by name
    for n, head, want in (('tagGetInt32', 'first_child', 'INT32'), ('tagGetStr', 'first_child', 'STRING'), ('findAttrInt32', 'first_attribute', 'INT32')):
        F = P.fn('BW_element::' + n)
        R.dtype = T.id[want]
        for k in (None, 0, 1):
            H = Heap(P); L = [0x3000, 0x3040]; H.ring(L, flags=1 if head == 'first_child' else 0, value_type=T.id[want])
            for i, o in enumerate(L): H.set(o, identification=51 if k == i else 40)
            H.ring([0x3100, 0x3140], identification=51, flags=0 if head == 'first_child' else 1, value_type=T.id[want])
            store(H.mem, (None, POOL + field(P, 'BW_pool', 'file_size')[0]), 4, C(0x10000))
            H.el(0x2000, identification=51, **{head: L[0], ('first_attribute' if head == 'first_child' else 'first_child'): 0x3100})
            for e in go(F, {0: ptr(0x2000), 1: ('c', 51, 16)}, H.mem):
                K.ob('a value by name is the value of the member with this name', 'writable %s:%s' % (n, k), e.ret == (A(0) if k is None else ptr(L[k] + HDR)) and not stores(e), e.where,
                     'the value of %s is %s' % ('an absent member' if k is None else 'member %d' % k, e.ret))
    R.dtype = None
    # ---- width of the answered places -------------------------------------------------------------------
    width_witness(K, P, T, [(n, 'BW_element', 'BW_element', w) for n, w in natural.items()] + [('getIntPtr', 'XML_Item', 'XML_Item', 'INT32'), ('getInt64Ptr', 'XML_Item', 'XML_Item', 'INT64')])
    K.minimum('cases', 1500)


def conv64(e, addr):
    at = place(e.ret)
    v = load(e.mem, at, 8) if at is not None and e.ret != A(0) else None
    return v is not None and v[0] == 's' and mentions(v[1], ('num', A(addr)))


def width_witness(K, P, T, L):
    """the compiler states the size of the type behind the answered address"""
    L = [x for x in L if P.find('%s::%s' % (x[1], x[0]), False)]
    src = '#include "binary_xml/bin_xml.h"\n#include "binary_xml/bin_write_plugin.h"\n#include <utility>\nusing namespace pklib_xml;\n'
    for n, c, _, w in L: src += 'extern "C" { extern const unsigned long witness_%s_%s = sizeof(*std::declval<%s&>().%s()); }\n' % (c, n, c, n)
    d = tempfile.mkdtemp(prefix='wit', dir=BUILD)
    try:
        with open(os.path.join(d, 'w.cpp'), 'w') as f: f.write(src)
        r = subprocess.run([CLANG] + CXXFLAGS + ['-O0', '-DBIN_WRITE_PLUGIN', '-w', '-I/usr/include/libxml2', '-I' + REPO + '/include', '-S', '-emit-llvm', '-o', '-', os.path.join(d, 'w.cpp')], capture_output=True, text=True)
    finally:
        for f in os.listdir(d): os.unlink(os.path.join(d, f))
        os.rmdir(d)
    K.need(r.returncode == 0, 'the width witness does not compile: ' + r.stderr[-500:])
    got = {m.group(1): int(m.group(2)) for m in re.finditer(r'@witness_(\w+) = .*constant i64 (\d+)', r.stdout)}
    for n, c, _, w in L:
        s = got.get('%s_%s' % (c, n))
        K.need(s is not None, 'no width for %s' % n)
        K.count('witnesses')
        K.ob('a typed place has the width of the stored value', 'width:%s::%s' % (c, n), s == T.FIXED[w], P.fn('%s::%s' % (c, n)).where, 'a place of %d bytes is answered, %d bytes are stored' % (s, T.FIXED[w]))
