"""C17: an existing writable document is opened only when its header is consistent."""
from sa.types import *
from sa.trace import *
from .c13 import PL, ptr0
from .c16 import POOL
from .c18 import Doc, TABLES, lists

ID = 'binary_xml.pksoft.org'
ST_SIZE = 48                                         # offset of st_size (x86-64 Linux)


class File(Doc):
    def __init__(self, P, size=0x4000, mmap=0x100000, n=3):
        L = lists()
        Doc.__init__(self, P, L[:n], L[5:5 + n])
        o, s = field(P, 'BW_pool', 'binary_xml_write_type_info')
        for i in range(s): self.mem[None, POOL + o + i, 1] = ('c', ord(ID[i]) if i < len(ID) else 0, 8)
        self.info = POOL + o
        self.f['pool_format_version'] = field(P, 'BW_pool', 'pool_format_version')
        self.head('pool_format_version', None)
        self.head('file_size', size); self.head('allocator_limit', size); self.head('mmap_size', mmap); self.head('size', sizeof(P, 'BW_pool'))
        self.head('root', self.end); self.head('allocator', self.end + 64)

    def head(self, n, v):
        o, s = self.f[n]
        store(self.mem, (None, POOL + o), s, ('c', v, s * 8) if v is not None else None)


def version(K, P):
    """the format version that creation writes"""
    D = Doc(P, [], [], room=0x1000)
    F = P.fn('BW_plugin::InitEmptyFile')
    o, s = field(P, 'BW_pool', 'pool_format_version')
    for e in Trace(P, calls=lambda I, n, av, T, m: [(C(0), None)] if n in ('ftruncate', 'ftruncate64') else None).run(F, {0: ('c', PL, 64)}, D.mem):
        if e.kind == 'ret' and e.ret[1] & 1:
            v = load(e.mem, (None, POOL + o), s)
            t = ''.join(chr(load(e.mem, (None, POOL + field(P, 'BW_pool', 'binary_xml_write_type_info')[0] + i), 1)[1] & 255) for i in range(len(ID) + 1))
            K.ob('creation writes the identification that opening expects', 'identification', t == ID + '\0', e.where, 'a created file is identified as %r' % t)
            return v[1]
    K.need(False, 'a document cannot be created')


def run(K):
    P = K.prog
    K.rule('Abstract interpretation of opening for each single deviation of a header field from a consistent header (identification, version, sizes, limits, used space, root, symbol tables), for all relations of file, mapped and requested size, '
           'and for each failing system call: a deviation or failure must be answered by failure and leave the document unusable, a consistent header by success in check mode.')
    K.assume('elements inside the used space are written by the same library and are not validated on opening')
    ver = version(K, P)
    szp, szE = sizeof(P, 'BW_pool'), sizeof(P, 'BW_element')
    gp = {f.name for f in P.find('BW_plugins::getPlugin')}
    F = P.fn('BW_plugin::CheckExistingFile')
    oc, sc = field(P, 'BW_plugin', 'check_only')

    def base(**kw):
        D = File(P, **kw)
        D.head('pool_format_version', ver)
        D.mem[None, PL + field(P, 'BW_plugin', 'max_pool_size')[0], 4] = ('c', 0x100000, 32)
        return D

    def calls(I, n, av, TR, mem):
        if n in gp: return [(('c', PL, 64), None)]
        return None

    def check(D, key, good, what, size=0x4000):
        K.count('cases')
        E = [e for e in Trace(P, calls=calls, limit=20000).run(F, {0: ('c', PL, 64), 1: C(size)}, D.mem)]
        E = [e for e in E if e.kind == 'ret']
        K.need(E, 'CheckExistingFile does not return')
        for e in E:
            ok = e.ret[1] & 1 if e.ret is not None and e.ret[0] == 'c' else None
            co = load(e.mem, (None, PL + oc), sc)
            bad = None
            if ok is None: bad = 'is not decided'
            elif good and not ok: bad = 'is refused'
            elif not good and ok: bad = 'is accepted'
            elif good and (co is None or co[1] != 1): bad = 'is not opened in check mode'
            elif good:
                for k in TABLES:
                    r = D.decode(e.mem, k)
                    if isinstance(r, str): bad = 'has %s: %s' % (k, r)
            elif any(x[0] == 'store' and x[2][0] is None and POOL <= x[2][1] < POOL + szp for x in e.ev): bad = 'is changed'
            K.ob('only a consistent header is accepted', 'header:' + key, bad is None, e.where, 'a document with %s %s' % (what, bad))
    check(base(), 'consistent', True, 'a consistent header')
    D = base(); D.head('root', 0); check(D, 'no root', True, 'a consistent header without root')
    for n in (0, 1, 130): check(base(n=n), 'symbols:%d' % n, True, '%d symbols' % n)
    for i in list(range(0, len(ID), 4)) + [len(ID) - 1, len(ID)]:
        D = base(); D.mem[None, D.info + i, 1] = ('c', 0x23, 8); check(D, 'info:%d' % i, False, 'a wrong identification at character %d' % i)
    D = base(); D.mem[None, D.info + 6, 1] = ('c', 0, 8); check(D, 'info:short', False, 'a shorter identification')
    for v in (ver + 1, ver - 1, -1): D = base(); D.head('pool_format_version', v); check(D, 'version:%+d' % (v - ver), False, 'another version of the format')
    for v in (0x3000, 0x5000, 0x3fff, 0, -1): D = base(); D.head('file_size', v); D.head('allocator_limit', v); check(D, 'file_size:%d' % v, False, 'a recorded size of %d bytes and a file of 16384 bytes' % v)
    check(base(), 'real size', False, 'a file of 20480 bytes and a recorded size of 16384 bytes', 0x5000)
    check(base(), 'cut', False, 'a file of 12288 bytes and a recorded size of 16384 bytes', 0x3000)
    for v in (0xff000, 0x101000, 0, -1): D = base(); D.head('mmap_size', v); check(D, 'mmap_size:%d' % v, False, 'another mapped size')
    for v in (0x3000, 0x3ffc, 0x4004, 0x5000, 0, -4): D = base(); D.head('allocator_limit', v); D.head('allocator', min(D.end + 64, max(v, 92))); check(D, 'limit:%d' % v, False, 'a limit of allocations of %d bytes in a file of 16384 bytes' % v)
    for v in (0, 4, szp - 4, -4, 0x4004, 0x7ffffffc): D = base(); D.head('allocator', v); D.head('root', 0); check(D, 'allocator:%d' % v, False, 'used space that ends at %d' % v)
    for v in (0, 4, szp - 4, szp - 1, -4, 0x4004, 0x7ffffffc): D = base(n=0); D.head('allocator', v); D.head('root', 0); check(D, 'allocator:empty:%d' % v, False, 'a document without symbols whose used space ends at %d' % v)
    for v in (szp, szp + 4, 0x4000): D = base(n=0); D.head('allocator', v); D.head('root', 0); check(D, 'allocator:empty:good:%d' % v, True, 'a document without symbols whose used space ends at %d' % v)
    for v in (1, 4, szp - 4, -8, base().end + 64, base().end + 64 - szE + 4, 0x4000, 0x7ffffff0): D = base(); D.head('root', v); check(D, 'root:%d' % v, False, 'a root at %d, which is outside of used space' % v)
    for k in TABLES:
        for v in (0, 4, szp - 4, -4, 0x3ff8, 0x7ffffffc): D = base(); D.put(k, 'names_offset', v); check(D, '%s names:%d' % (k, v), False, '%s at %d, which is outside of used space' % (k, v))
        for v in (4, szp - 4, -4, base().end + 64, base().end + 64 - 8, 0x3ff8, 0x7ffffff0): D = base(); D.put(k, 'index', v); check(D, '%s index:%d' % (k, v), False, 'an index of %s at %d, which is outside of used space' % (k, v))
        for v in (-2, 0x8000, 0x7fffffff): D = base(); D.put(k, 'max_id', v); check(D, '%s max:%d' % (k, v), False, '%d as the greatest ID of %s' % (v, k))
        # a wrong entry of the index: the index is not used
        for i in (0, 2):
            for v in (0, 8, -4, 0x3000):
                D = base(); D.mem[None, POOL + D.val(D.mem, k, 'index') + 4 * i, 4] = ('c', v, 32)
                K.count('cases')
                for e in Trace(P, calls=calls, limit=20000).run(F, {0: ('c', PL, 64), 1: C(0x4000)}, D.mem):
                    if e.kind != 'ret': continue
                    ok = e.ret[1] & 1
                    K.ob('an index with an entry outside of the names is not used', 'entry:%s:%d:%d' % (k, i, v), not ok or D.val(e.mem, k, 'index') == 0, e.where, 'entry %d of the index of %s leads to %d and is used' % (i, k, v))

    # ---- opening
    F = P.fn('BW_plugin::Initialize')
    K.count('functions', 2)
    fl = enum_or(P, 'BIN_WRITE_CFG_ALWAYS_CREATE_NEW', 1)
    off = {n: field(P, 'BW_plugin', n) for n in ('max_pool_size', 'config_flags', 'initialized', 'pool', 'fd')}
    fn_o, fn_s = field(P, 'Bin_src_plugin', 'filename')

    def attempt(key, size, D, req, flags, fail, good, what, created=None, remap=None):
        """fail: the system call that fails"""
        K.count('cases')
        for n, v in (('max_pool_size', req), ('config_flags', flags), ('initialized', 0), ('pool', 0), ('fd', -1)):
            o, s = off[n]; store(D.mem, (None, PL + o), s, ('c', v, s * 8))
        D.mem[None, PL + fn_o, fn_s] = ('s', '&file', 0)
        seen = []

        def sys(I, n, av, TR, mem):
            n = (n or '').replace('64', '')
            if n == 'open': return [(C(-1 if fail == 'open' else 5), None)]
            if n == 'fstat':
                at = place(av[1])
                return [(C(-1), None)] if fail == 'fstat' else [(C(0), lambda m: store(m, (at[0], at[1] + ST_SIZE), 8, ('c', size, 64)))]
            if n == 'mmap': return [(('c', -1, 64), None)] if fail == 'mmap' else [(('c', POOL, 64), None)]
            if n == 'munmap': return [(C(0), None)]
            if n == 'ftruncate': return [(C(-1 if fail == 'ftruncate' else 0), None)]
            return calls(I, n, av, TR, mem)
        for e in Trace(P, calls=sys, limit=20000).run(F, {0: ('c', PL, 64)}, D.mem):
            if e.kind != 'ret': continue
            ok = e.ret[1] & 1 if e.ret is not None and e.ret[0] == 'c' else None
            g = lambda n: (load(e.mem, (None, PL + off[n][0]), off[n][1]) or (0, None))[1]
            maps = [x for x in e.ev if x[0] == 'call' and (x[2] or '').replace('64', '') == 'mmap']
            trunc = [x for x in e.ev if x[0] == 'call' and (x[2] or '').replace('64', '') == 'ftruncate']
            bad = None
            if ok is None: bad = 'is not decided'
            elif good and not ok: bad = 'is refused'
            elif not good and ok: bad = 'is opened'
            elif bool(ok) != bool(g('initialized')): bad = 'is marked as %sinitialised' % ('' if g('initialized') else 'not ')
            elif ok and (not maps or maps[-1][3][1] is None or maps[-1][3][1][1] != g('max_pool_size')): bad = 'is mapped with another size than remembered'
            elif ok and load(e.mem, (None, POOL + D.f['mmap_size'][0]), 4)[1] != g('max_pool_size'): bad = 'is mapped with another size than recorded'
            elif created is not None and created != bool(trunc): bad = 'is %screated as new' % ('' if trunc else 'not ')
            elif remap is not None and g('max_pool_size') != remap: bad = 'is mapped with %s bytes' % g('max_pool_size')
            elif not ok and created is None and fail is None and (trunc or any(x[0] in ('store', 'store?') and x[2] is not None and x[2][0] is None and POOL <= x[2][1] < POOL + 0x100000 for x in e.ev)): bad = 'is refused and changed'
            K.ob('opening succeeds only completely', 'open:' + key, bad is None, e.where, '%s %s' % (what, bad))
    new = dict(created=True)
    for fail in (None, 'open', 'fstat', 'mmap', 'ftruncate'):
        attempt('empty:%s' % fail, 0, base(), 0x100000, 0, fail, fail is None, 'an empty file%s' % (' with failing ' + fail if fail else ''), **(new if fail is None else {}))
        if fail != 'ftruncate': attempt('existing:%s' % fail, 0x4000, base(), 0x100000, 0, fail, fail is None, 'an existing file%s' % (' with failing ' + fail if fail else ''), **(dict(created=False) if fail is None else {}))
    attempt('stub', szp - 1, base(), 0x100000, 0, None, True, 'a file shorter than a header', **new)
    attempt('recreate', 0x4000, base(), 0x100000, fl, None, True, 'a file that is always created', **new)
    attempt('remap', 0x4000, base_mm(base, 0x200000), 0x100000, 0, None, True, 'a file with a greater mapped size', created=False, remap=0x200000)
    attempt('remap less', 0x4000, base_mm(base, 0x80000), 0x100000, 0, None, True, 'a file with a smaller mapped size', created=False, remap=0x80000)
    D = base_mm(base, 0x3000); attempt('mapped less', 0x4000, D, 0x100000, 0, None, False, 'a file bigger than its mapped size')
    D = base(); D.head('pool_format_version', ver + 1); attempt('version', 0x4000, D, 0x100000, 0, None, False, 'a file of another version')
    attempt('size', 0x5000, base(), 0x100000, 0, None, False, 'a file of another size than recorded')
    # the size of the mapping is fixed while it is used
    S = P.find('BW_plugin::setMaxPoolSize', False)
    for init in (0, 1):
        mem = {}
        for n, v in (('max_pool_size', 0x40000), ('initialized', init)): store(mem, (None, PL + off[n][0]), off[n][1], ('c', v, off[n][1] * 8))
        for e in Trace(P, calls=calls).run(S[0], {0: ('c', PL, 64), 1: C(0x90000)}, mem) if S else []:
            if e.kind != 'ret': continue
            now = load(e.mem, (None, PL + off['max_pool_size'][0]), 4)
            ok = e.ret is not None and e.ret[0] == 'c' and e.ret[1] & 1
            K.ob('the size of a mapping changes only before it is made', 'setMaxPoolSize:%d' % init, bool(ok) == (not init) and now == C(0x40000 if init else 0x90000), e.where,
                 'the size of a document %s is set with answer %s to %s' % ('in use' if init else 'not yet open', e.ret, now))
        if init:
            mem[None, PL + off['pool'][0], 8] = ('c', POOL, 64); mem[None, PL + fn_o, fn_s] = ('s', '&file', 0)
            for e in Trace(P, calls=calls).run(F, {0: ('c', PL, 64)}, mem):
                if e.kind != 'ret': continue
                sysc = [x[2] for x in e.ev if x[0] == 'call' and (x[2] or '').replace('64', '') in ('open', 'mmap', 'munmap', 'ftruncate')]
                st = [x for x in e.ev if x[0] in ('store', 'store?') and x[2] is not None and x[2][0] is None and PL <= x[2][1] < PL + 4096]
                K.ob('the size of a mapping changes only before it is made', 'again', e.ret[1] & 1 and not sysc and not st, e.where, 'opening a document in use again answers %s and does %s' % (e.ret, sysc or st))
    K.minimum('cases', 80)


def base_mm(base, v):
    D = base(); D.head('mmap_size', v)
    return D


def enum_or(P, name, d):
    try: return enum(P, name)
    except AnalysisBroken: return d
