"""C03: accessors of missing elements and attributes answer nothing and touch no memory."""
from sa.types import *
from sa.trace import *
from sa.sccp import C
from .c26 import Doc, I0, RD, CUR, A

# the read interface of an element and of an attribute of a document, and the whole interface of an element of a writable document
ITEM = ['Check', 'getParamByIndex', 'getParamByName', 'getChildren', 'getChildByIndex', 'getChildByName', 'getNextChild', 'ForAllChildrenRecursively',
        'ForAllChildrenRecursively_PostOrder', 'ForAllChildrenRecursively_PostOrderA', 'getString', 'getStringChunk', 'getBinary', 'getInt', 'getIntPtr', 'getInt64Ptr', 'getData', 'write']
PARAM = ['getInt', 'getIntPtr', 'getInt32Ptr', 'getInt64Ptr', 'getString', 'getStringChunk', 'getData']
BW = ['attrGet', 'tagGet', 'tagGetInt32', 'tagGetStr', 'getInt32', 'getFloat', 'getTime', 'getInt64', 'getUInt64', 'getGUID', 'getStr', 'getData', 'findChildByTag', 'findChildByParam',
      'findAttr', 'findAttrInt32', 'NextChild', 'PrevChild']
MAKE = ['add', 'remove', 'replace', 'retype', 'tag', 'attrNull', 'attrStr', 'attrStr2', 'attrHexStr', 'attrBLOB', 'attrHEX', 'attrInt32', 'attrInt64', 'attrUInt32', 'attrUInt64', 'attrFloat', 'attrDouble', 'attrGUID',
        'attrSHA1', 'attrTime', 'attrTime64', 'attrIPv4', 'attrIPv6', 'attrData', 'attrCopy', 'tagSetInt32', 'tagSetInt64', 'tagSetString', 'tagSetSHA1', 'tagSetTime']
LOW = 1 << 16
RES, REC = 0x5600000, 0x5700000
INDEX = [-(1 << 31), -(1 << 31) + 1, -0x20000000, -0x10000000, -65536, -4, -2, -1, 0x10000, 0x10000000, 0x1fffffff, 0x20000000, 0x20000001, 0x3fffffff, 0x40000000, 0x40000001, 0x7ffffffe, 0x7fffffff]


def low(ev):
    """accesses through a null based address"""
    for x in ev:
        if x[0] in ('load', 'store', 'load?', 'store?') and x[2] is not None and x[2][0] is None and -LOW < x[2][1] < LOW: return x[1], 'reads' if x[0].startswith('load') else 'writes'
        if x[0] == 'call' and x[2] in DEREF:
            for v in x[3][:DEREF[x[2]]]:
                if v is not None and v[0] == 'c' and -LOW < v[1] < LOW and not (len(x[3]) > 2 and x[3][2] == C(0, 64)): return x[1], 'hands an address based on null to %s' % x[2]
    return None


DEREF = {'strlen': 1, 'strcmp': 2, 'strncmp': 2, 'strcpy': 2, 'strncpy': 2, 'memcpy': 2, 'memmove': 2, 'memset': 1, 'memcmp': 2, 'strchr': 1, 'strrchr': 1, 'atoi': 1, 'atol': 1, 'atoll': 1, 'strtol': 1, 'strtod': 1, 'strnlen': 1, 'memchr': 1}


def sret(F): return 1 if F.rt == 'void' and F.short.endswith('::getData') else 0


def kind(F, i):
    t = F.args[i]
    return t.get('t') if isinstance(t, dict) else t


def cases(F, first):
    """values of the other arguments"""
    n = len(F.args)
    ints = [i for i in range(first, n) if kind(F, i) != 'ptr']
    base = {i: ('s', '&arg%d' % i, 0) for i in range(first, n) if kind(F, i) == 'ptr'}
    yield dict(base, **{i: None for i in ints}) if not ints else {**base, **{i: None for i in ints}}
    for v in (-1, 0, 1, 7):
        if ints: yield {**base, **{i: C(v, width(kind(F, i)) or 64) for i in ints}}


def run(K):
    P = K.prog
    K.rule('Every accessor is interpreted with a missing handle (and an attribute with a missing element, for every type): no access may use an address based on null, nothing unknown may be called, and the answer must be "nothing". '
           'Indexes at and far outside of the bounds, names that are absent and appended records which are not valid must answer nothing and read nothing outside of the tables.')
    no = lambda I, n, av, T, mem: [(av[0] if av else None, None)] if n and (n.startswith('_ZNSo') or n.startswith('_ZSt')) else None
    T = Trace(P, calls=no, limit=20000, depth=20)
    null = nothing_int(P, K)
    for cls, l in (('XML_Item', ITEM), ('XML_Param_Description', PARAM), ('BW_element', BW + MAKE)):
        for nm in l:
            for F in P.by_short.get('%s::%s' % (cls, nm), []):
                if F.decl: continue
                s = sret(F)
                if len(F.args) <= s: continue
                K.count('accessors')
                for a in cases(F, s + 1):
                    args = {**a, s: C(0, 64)}
                    if s: args[0] = A(RES)
                    judge(K, P, F, T, '%s:handle' % F.short, 'a missing handle', args, {}, null)
                if cls != 'XML_Param_Description': continue
                for v, t in sorted((v, k[4:]) for k, v in P.enums.items() if k.startswith('XBT_') and not k.endswith('CONVERTABLE')):
                    mem = {}
                    for m, x in (('name', 3), ('type', v), ('data', 64)):
                        o, z = field(P, 'XML_Param_Description', m); mem[None, REC + o, z] = ('c', x, 8 * z)
                    for a in cases(F, s + 2):
                        args = {**a, s: A(REC), s + 1: C(0, 64)}
                        if s: args[0] = A(RES)
                        judge(K, P, F, T, '%s:element:%s' % (F.short, t), 'an attribute of type %s of a missing element' % t, args, mem, null, t in ('STRING', 'BLOB', 'HEX', 'INT64', 'UINT64', 'DOUBLE', 'UNIX_TIME64_MSEC', 'GUID', 'SHA1', 'IPv6', 'BLOB_STRING'))
    for F in P.find('XB_reader::getRoot'):
        for e in T.run(F, {0: C(0, 64)}):
            K.ob('a missing handle answers nothing', 'XB_reader::getRoot', e.ret == C(0, 64) and not low(e.ev), F.where, 'root of a missing reader is read')
    bounds(K, P, null)
    K.minimum('accessors', 60)


def judge(K, P, F, T, key, what, args, mem, null, strict=True):
    m = dict(mem); s = sret(F)
    if s: m[None, RES, sizeof(P, 'XML_Binary_Data_Ref')] = ('fill', 0xdb)
    K.count('evaluations')
    for e in T.run(F, args, m):
        K.count('traces')
        b = low(e.ev)
        K.ob('a missing handle is never dereferenced', key + ':access', b is None, b[0].where if b else F.where, '%s of %s %s address 0' % (F.short, what, b[1] if b else ''))
        K.ob('a missing handle is answered', key + ':ends', e.kind == 'ret', e.where, '%s of %s ends the program' % (F.short, what))
        for x in e.ev:
            if x[0] == 'call' and x[2] is None: K.ob('a missing handle is never dereferenced', key + ':call', False, x[1].where, '%s of %s calls an unknown function' % (F.short, what))
            elif x[0] == 'call' and x[2] and x[4] is None and x[3] and F.short.split('::')[1] in MAKE: K.ob('a missing handle changes nothing', key + ':effect', False, x[1].where, '%s of %s calls %s' % (F.short, what, x[2]))
        if e.kind != 'ret': continue
        if s:
            for x, want in (('data', 0), ('size', 0), ('type', enum(P, 'XBT_UNKNOWN'))):
                o, z = field(P, 'XML_Binary_Data_Ref', x)
                v = load(e.mem, (None, RES + o), z)
                got = v[1] if v is not None and v[0] == 'c' else None
                if not strict: continue
                K.ob('a missing handle answers nothing', '%s:result:%s' % (key, x), got == want, F.where, '%s of %s answers %s for %s' % (F.short, what, got, x))
        elif F.rt != 'void' and strict:
            want = null if F.short.endswith('::getInt') else 0
            v = e.ret
            K.ob('a missing handle answers nothing', key + ':result', v is not None and v[0] == 'c' and v[1] == want, F.where, '%s of %s answers %s' % (F.short, what, v))


def nothing_int(P, K):
    """the integer null value: what an element without a number answers"""
    T = Trace(P, limit=20000)
    D = Doc(P); D.item(I0)
    vs = {e.ret for e in T.run(P.fn('XML_Item::getInt'), {0: A(I0)}, D.mem)}
    K.need(len(vs) == 1, 'the integer null value is not unique')
    v = vs.pop()
    K.need(v is not None and v[0] == 'c' and v[1] < -1000000, 'XML_Item::getInt has no null value')
    return v[1]


def bounds(K, P, null):
    fn = lambda n: P.fn('XML_Item::' + n)
    check = {f.name for f in P.find('XML_Item::Check')}
    valid = {}

    def calls(I, n, av, T, mem):
        if n in check: return [(('c', -1 if valid.get(av[0][1] if av[0] is not None and av[0][0] == 'c' else None) else 0, 1), None)]
        return None
    T = Trace(P, calls=calls, limit=60000)

    def outside(e, lo, hi):
        for x in e.ev:
            if x[0] in ('load', 'load?', 'store', 'store?') and x[2] is not None and x[2][0] is None and x[2][1] < FRAME and not (lo <= x[2][1] and x[2][1] + x[3] <= hi or CUR <= x[2][1] < CUR + 8 or RD <= x[2][1] < RD + 4096): return x[1]
        return None
    for np in (0, 1, 2, 5):
        for nk in (0, 1, 3):
            D = Doc(P)
            kids = [I0 + 0x400 + 0x40 * i for i in range(nk)]
            D.item(I0, params=list(range(5, 5 + np)), children=kids)
            for i, k in enumerate(kids): D.item(k, name=20 + i)
            tables = I0 + D.hdr + np * D.pd + 4 * nk
            for f, n, what in (('getParamByIndex', np, 'attribute'), ('getChildByIndex', nk, 'child')):
                for i in sorted(set(INDEX + [n, n + 1, n + 2])):
                    for e in T.run(fn(f), {0: A(I0), 1: C(i)}, D.mem):
                        K.count('indexes')
                        K.ob('an index outside of the table answers nothing', '%s:%d of %d' % (f, i, n), e.kind == 'ret' and e.ret == C(0, 64), e.where, '%s %d of %d answers %s' % (what, i, n, e.ret))
                        b = outside(e, I0, tables)
                        K.ob('an index outside of the table reads nothing', '%s:%d of %d:reads' % (f, i, n), b is None, b.where if b else e.where, '%s %d of %d reads outside of the tables' % (what, i, n))
                for i in range(n):
                    for e in T.run(fn(f), {0: A(I0), 1: C(i)}, D.mem):
                        want = D.param(I0, i) if f == 'getParamByIndex' else kids[i]
                        K.ob('the answer is the indexed entry', '%s:%d of %d/%d' % (f, i, np, nk), e.ret == A(want), e.where, '%s %d of %d answers %s' % (what, i, n, e.ret))
            for f, names in (('getParamByName', list(range(5, 5 + np))), ('getChildByName', list(range(20, 20 + nk)))):
                for code in (0, 1, -1, -32768, 32767, 4, 5 + np, 19, 20 + nk):
                    for e in T.run(fn(f), {0: A(I0), 1: C(code)}, D.mem):
                        K.count('absent names')
                        K.ob('nothing is answered for a name which is absent', '%s:%d:%d' % (f, code, len(names)), code in names or e.kind == 'ret' and e.ret == C(0, 64), e.where, '%s answers %s for a missing name' % (f, e.ret))
                for j, code in enumerate(names):
                    for e in T.run(fn(f), {0: A(I0), 1: C(code)}, D.mem):
                        want = D.param(I0, j) if f == 'getParamByName' else kids[j]
                        K.ob('the answer has the requested name', '%s:present:%d/%d/%d' % (f, j, np, nk), e.ret == A(want), e.where, '%s answers %s for entry %d' % (f, e.ret, j))
    # iteration
    for np in (0, 2):
        for nk in (0, 1, 3):
            D = Doc(P); D.item(I0, params=[5] * np, children=[I0 + 0x400 + 0x40 * i for i in range(nk)])
            for i in range(nk): D.item(I0 + 0x400 + 0x40 * i)
            for m, v in (('doc', I0), ('size', 0x10000), ('verbosity', 0)):
                o, z = field(P, 'XB_reader', m); D.mem[None, RD + o, z] = ('c', v, 8 * z)
            for i in [x for x in INDEX if x >= 0] + [nk, nk + 1]:
                mem = {**D.mem, (None, CUR, 4): C(i)}
                for e in T.run(fn('getNextChild'), {0: A(I0), 1: A(RD), 2: A(CUR)}, mem):
                    K.count('indexes')
                    K.ob('iteration stays inside the child table', 'getNextChild:%d of %d' % (i, nk), e.kind == 'ret' and e.ret == C(0, 64), e.where, 'position %d of %d answers %s' % (i, nk, e.ret))
    # appended records: used only when they are valid and inside of the file
    D = Doc(P); D.item(I0, length=0x400, children=[I0 + 0x100]); D.item(I0 + 0x100, name=enum(P, 'XTNR_ET_TECERA'), length=16)
    for a in range(I0 + 0x400, I0 + 0x700, 0x20): D.item(a, name=2, length=0x20)
    for size in (0x3f0, 0x400, 0x404, 0x408, 0x400 + D.hdr - 1, 0x400 + D.hdr, 0x420, 0x7c0):
        for good in (False, True):
            for pos in (0, -0x400, -0x420, -0x404):
                for m, v in (('doc', I0), ('size', size), ('verbosity', 0)):
                    o, z = field(P, 'XB_reader', m); D.mem[None, RD + o, z] = ('c', v, 8 * z)
                at = I0 + (0x400 if pos == 0 else -pos)
                valid.clear(); valid[at] = good
                for e in T.run(fn('getNextChild'), {0: A(I0), 1: A(RD), 2: A(CUR)}, {**D.mem, (None, CUR, 4): C(pos)}):
                    K.count('appended records')
                    key = 'getNextChild:appended:%d:%d:%s' % (size, pos, good)
                    fits = at + D.hdr <= I0 + size
                    if not good or not fits: K.ob('appended records are used only after they were validated', key, e.kind == 'ret' and e.ret == C(0, 64), e.where, 'a record at %#x of %#x bytes that is %s is answered' % (at - I0, size, 'valid' if good else 'not valid'))
                    else: K.ob('appended records are used only after they were validated', key, e.kind == 'ret' and e.ret == A(at), e.where, 'a valid record at %#x of %#x bytes is answered as %s' % (at - I0, size, e.ret))
                    b = outside(e, I0, I0 + size) if size >= 0x400 else None
                    K.ob('appended records are read inside of the file only', key + ':reads', b is None or good and fits, b.where if b else e.where, 'walking reads behind the end of the file')
