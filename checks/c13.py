"""C13: space of a writable document is handed out once, zeroed, aligned and inside the file."""
from sa.types import *
from sa.trace import *
from sa.lin import Analysis, atom
from sa.sccp import Sccp
from .c16 import Heap, POOL, ptr

PL = 0x5000000
IMAX = 0x7fffffff


class Pool:
    def __init__(self, P, allocator, limit, mmap=0x100000, without=()):
        self.P = P
        self.f = {n: field(P, 'BW_pool', n) for n in ('allocator', 'allocator_limit', 'file_size', 'mmap_size', 'size', 'root')}
        self.mem = {}
        for n, v in (('allocator', allocator), ('allocator_limit', limit), ('file_size', limit), ('mmap_size', mmap), ('root', 0)):
            if n in without: continue                            # any value
            o, s = self.f[n]; store(self.mem, (None, POOL + o), s, ('c', v, 32))
        o, s = field(P, 'BW_plugin', 'pool'); self.mem[None, PL + o, s] = ('c', POOL, 64)
        o, s = field(P, 'BW_plugin', 'fd'); self.mem[None, PL + o, s] = ('c', 5, 32)
        o, s = field(P, 'BW_plugin', 'max_pool_size'); self.mem[None, PL + o, s] = ('c', mmap, 32)
        self.mem[None, PL, 8] = ('g', '_ZTVN9pklib_xml9BW_pluginE', 16)

    def get(self, mem, n):
        o, s = self.f[n]
        v = load(mem, (None, POOL + o), s)
        return v[1] if v is not None and v[0] == 'c' else None


def zeroed(e, lo, n):
    """the block is zeroed behind its allocation (by the cells or by the events)"""
    for x in e.ev:
        if x[0] == 'call' and x[2] and (x[2] == 'memset' or x[2].startswith('llvm.memset')):
            d, c, k = x[3][0], x[3][1], x[3][2]
            if d is not None and d[0] == 'c' and k is not None and k[0] == 'c' and c is not None and c[1] == 0 and d[1] <= lo and lo + n <= d[1] + k[1]: return True
    return n <= 4096 and all((load(e.mem, (None, lo + i), 1) or (0, 1))[:2] == ('c', 0) for i in range(n))


def hook(extra=None):
    def calls(I, n, av, T, mem):
        if n in ('ftruncate', 'ftruncate64'): return [(C(0), None), (C(-1), None)]
        return extra(I, n, av, T, mem) if extra else None
    return calls


def truncs(e): return [x for x in e.ev if x[0] == 'call' and x[2] in ('ftruncate', 'ftruncate64')]


def blocks(K, P):
    for short, al in (('BW_pool::allocate', 4), ('BW_pool::allocate8', 8)):
        F = P.fn(short)
        K.count('functions')
        for limit, pos in ((0x4000, (1000, 1004, 0x3f00, 0x3ff0, 0x3ff4, 0x3ff8, 0x3ffc, 0x4000)), (0x7ffff000, (0x7fffe000, 0x7fffeffc, 0x7ffff000))):
            for a in pos:
                room = limit - (a + al - 1) // al * al
                for size in sorted({-IMAX - 1, -1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 15, 16, 17, 40, room - 9, room - 8, room - 7, room - 4, room - 3, room - 1, room, room + 1, room + 4, room + 8,
                                    limit, IMAX - 8, IMAX - 7, IMAX - 4, IMAX - 3, IMAX - 1, IMAX}):
                    M = Pool(P, a, limit, IMAX, ('root',))
                    K.count('cases')
                    key = '%s:%d:%d:%d' % (short, limit, a, size)
                    up2 = (size + al - 1) // al * al
                    fits = 0 < size and up2 <= room
                    E = [e for e in Trace(P).run(F, {0: ptr0(), 1: C(size)}, M.mem) if e.kind == 'ret']
                    K.need(E, short + ' does not return')
                    for e in E:
                        na, bad = M.get(e.mem, 'allocator'), None
                        st = [x for x in e.ev if x[0] == 'store' and x[2][0] is None and POOL <= x[2][1] < POOL + M.f['allocator'][0]]
                        if e.ret is None or e.ret[0] != 'c': bad = 'the answer is not determined'
                        elif e.ret[1] == 0:
                            if fits: bad = 'a block that fits is refused'
                            elif na is None or na < a or na > max(a, limit): bad = 'a refused block moves the end of the used space to %s' % na
                        else:
                            o = e.ret[1] - POOL
                            if size <= 0: bad = 'a block of %d bytes is handed out' % size
                            elif o % al: bad = 'the block is not aligned to %d bytes' % al
                            elif o < a: bad = 'the block starts inside the used space'
                            elif na is None or na < o + size: bad = 'the block of %d bytes is not reserved completely (offset %d, used space ends at %s)' % (size, o, na)
                            elif na % 4: bad = 'the next block is not aligned'
                            elif na > limit: bad = 'the block reaches %d bytes behind the limit' % (na - limit)
                            elif na - o >= size + al or o - a >= al: bad = 'more space than necessary is used'
                            elif not zeroed(e, POOL + o, size): bad = 'the block is not cleared'
                            elif any(M.get(e.mem, n) != M.get(M.mem, n) for n in ('allocator_limit', 'file_size', 'mmap_size')): bad = 'sizes of the file are changed'
                        K.ob('a block is fresh, aligned, cleared and below the limit', key, bad is None, e.where, '%s of %d bytes at %d with limit %d: %s' % (short, size, a, limit, bad))
        # for every size: the moved end of used space is bounded by the limit
        r = Sccp(P).run(F, {})
        A = Analysis(F, r)
        this = atom(('arg', 0))
        lims = [A.T(('v', J.id)) for J in F.insts() if J.op == 'load' and J.raw['sz'] == 4 and A.T(J.a[0]) == this + field(P, 'BW_pool', 'allocator_limit')[0]]
        n = 0
        for I in F.insts():
            if I.op != 'call' or I.callee is None or not (I.callee == 'memset' or I.callee.startswith('llvm.memset')) or I.block not in r.blocks: continue
            n += 1
            end = A.T(I.a[0]) - this + A.T(I.a[2])
            K.ob('every handed out block ends below the limit', short + ':limit', any(A.implied(x - end, A.at(I.block, I)) for x in lims), I.where, '%s clears and hands out a block without comparing its end with the limit' % short)
        K.need(n, short + ' clears nothing')


def ptr0(): return ('c', POOL, 64)


def growth(K, P):
    F = P.fn('BW_plugin::makeSpace')
    K.count('functions')
    for mm in (0x4000, 0x9000, 0x9800, 0x100000, 0x7ffff000):
        for fs, a in ((0x4000, 92), (0x4000, 0x1000), (0x4000, 0x3ffc), (0x4000, 0x4000), (0x9000, 0x8ffc)):
            if fs > mm: continue
            for size in sorted({-IMAX - 1, -1, 0, 1, 4, 0x1000, fs - a - 1, fs - a, fs - a + 1, fs - a + 4, 0x4000, 0x5000, mm - a - 4096, mm - a - 4095, mm - a - 1, mm - a, mm - a + 1, mm, IMAX - 4096, IMAX - 1, IMAX}):
                M = Pool(P, a, fs, mm, ('root',))
                key = 'makeSpace:%x:%x:%x:%d' % (mm, fs, a, size)
                K.count('cases')
                E = [e for e in Trace(P, calls=hook()).run(F, {0: ('c', PL, 64), 1: C(size)}, M.mem) if e.kind == 'ret']
                K.need(E, 'makeSpace does not return')
                for e in E:
                    tr = truncs(e)
                    lim, nf, na = M.get(e.mem, 'allocator_limit'), M.get(e.mem, 'file_size'), M.get(e.mem, 'allocator')
                    lost = any(x[4] is not None and x[4][1] != 0 for x in tr)
                    bad = None
                    good = e.ret is not None and e.ret[0] == 'c' and e.ret[1] & 1
                    if e.ret is None or e.ret[0] != 'c': bad = 'the answer is not determined'
                    elif na != a: bad = 'the used space is changed'
                    elif good:
                        if size < 0: bad = 'a negative size is accepted'
                        elif nf is None or nf < a + size: bad = 'the file has %s bytes and %d are needed' % (nf, a + size)
                        elif nf > mm: bad = 'the file grows to %d bytes and only %d are mapped' % (nf, mm)
                        elif lim != nf: bad = 'the limit of allocations is %s and the file has %s bytes' % (lim, nf)
                        elif nf < fs: bad = 'the file is shortened'
                        elif nf % 4: bad = 'the limit is not aligned'
                        elif lost: bad = 'success is answered although the file was not extended'
                        elif nf != fs and not any(x[3][1] is not None and x[3][1][1] == nf for x in tr): bad = 'the file is not extended to the recorded size'
                        elif any(x[3][1] is None or x[3][1][1] != nf for x in tr): bad = 'the file is extended to another size than recorded'
                    else:
                        if (lim, nf) != (fs, fs): bad = 'a failure changes the sizes'
                        elif 0 <= size and a + size <= fs and not lost: bad = 'space that is available is refused'
                        elif not lost and 0 <= size and (a + size + 4095) // 4096 * 4096 <= mm: bad = 'a growth inside the mapped size is refused'
                    K.ob('growth keeps file, limit and mapping consistent', key, bad is None, e.where, 'growing by %d bytes at %d of %d (mapped %d): %s' % (size, a, fs, mm, bad))


def creation(K, P):
    F = P.fn('BW_plugin::InitEmptyFile')
    K.count('functions')
    szp = sizeof(P, 'BW_pool')
    t = {(k, n): (field(P, 'BW_pool', k)[0] + field(P, 'BW_symbol_table_16B', n)[0], 4) for k in ('tags', 'params') for n in ('max_id', 'names_offset', 'index', 'flags')}
    for mm in (0, 0x1000, 0x3fff, 0x4000, 0x4800, 0x200000):
        M = Pool(P, 0x1234, 0x99000, mm)
        for k in list(M.mem):
            if POOL <= (k[1] or 0) < POOL + szp: M.mem[k] = ('?',)
        K.count('cases')
        for e in Trace(P, calls=hook()).run(F, {0: ('c', PL, 64)}, M.mem):
            if e.kind != 'ret': continue
            tr = truncs(e)
            lost = any(x[4] is not None and x[4][1] != 0 for x in tr)
            good = e.ret is not None and e.ret[0] == 'c' and e.ret[1] & 1
            bad = None
            g = lambda n: M.get(e.mem, n)
            if e.ret is None or e.ret[0] != 'c': bad = 'the answer is not determined'
            elif good:
                if lost or not tr: bad = 'the file was not created with its size'
                elif g('file_size') is None or any(x[3][1] is None or x[3][1][1] != g('file_size') for x in tr): bad = 'the file has another size than recorded'
                elif g('file_size') > mm: bad = 'the file of %d bytes is bigger than the mapped memory of %d bytes' % (g('file_size'), mm)
                elif g('mmap_size') != mm: bad = 'the mapped size is recorded as %s' % g('mmap_size')
                elif g('allocator') is None or g('allocator') < szp or g('allocator') % 4: bad = 'the used space ends at %s' % g('allocator')
                elif g('allocator') > szp + 8: bad = 'space is lost'
                elif g('allocator_limit') != g('file_size'): bad = 'the limit of allocations is %s' % g('allocator_limit')
                elif g('root') != 0: bad = 'the root is %s' % g('root')
                else:
                    for (k, n), (o, s) in t.items():
                        v = load(e.mem, (None, POOL + o), s)
                        w = -1 if n == 'max_id' else 0
                        if v is None or v[0] != 'c' or v[1] != w: bad = '%s.%s of an empty document is %s' % (k, n, v and v[1])
            elif not lost and mm >= 0x10000: bad = 'creation is refused'
            K.ob('an empty document is completely initialised', 'InitEmptyFile:%x%s' % (mm, ':lost' if lost else ''), bad is None, e.where, 'creating with %d mapped bytes: %s' % (mm, bad))


def elements(K, P):
    F = P.fn('BW_pool::new_element')
    T = Types(P)
    K.count('functions')
    H = Heap(P)
    szE = sizeof(P, 'BW_element')
    gp = {f.name for f in P.find('BW_plugins::getPlugin')}
    K.need(gp, 'BW_plugins::getPlugin')
    for t in T.all:
        n = T.names[t]
        for size in (0, 1, 5, 8, 100, -1, IMAX - 3, IMAX):
            n2 = T.size2(t, size)
            if n2 is None: continue                              # not folded (size found by iteration)
            for a in (1000, 1004, 0x4000 - 60, 0x3ff8, 0x3ffc, 0x4000):
                for mm in (0x100000, 0x4000):
                    M = Pool(P, a, 0x4000, mm, ('root',))
                    K.count('cases')
                    key = 'new_element:%s:%d:%x:%x' % (n, size, a, mm)
                    def calls(I, nm, av, TR, mem):
                        if nm in gp: return [(('c', PL, 64), None), (ptr(0), None)]
                        return None
                    E = [e for e in Trace(P, calls=hook(calls)).run(F, {0: ptr0(), 1: C(t), 2: C(size)}, M.mem) if e.kind == 'ret']
                    K.need(E or n2 is None or n2 < 0, 'new_element does not return')
                    al = T.align(t) or 4
                    st = (a + al - 1) // al * al
                    inside = n2 is not None and n2 >= 0 and st + (szE + n2 + al - 1) // al * al <= 0x4000
                    for e in E:
                        bad = None
                        lost = any(x[0] == 'call' and (x[2] in gp and x[4] is not None and x[4][1] == 0 or x[2] in ('ftruncate', 'ftruncate64') and x[4] is not None and x[4][1] != 0) for x in e.ev)
                        na, lim = M.get(e.mem, 'allocator'), M.get(e.mem, 'allocator_limit')
                        if e.ret is None or e.ret[0] != 'c': bad = 'the answer is not determined'
                        elif e.ret[1] == 0:
                            if inside: bad = 'it is refused although it fits'
                            elif n2 is not None and 0 <= n2 < 4096 and not lost and mm > 0x4000: bad = 'it is refused although the document can grow'
                        else:
                            o = e.ret[1] - POOL
                            if n2 is None or n2 < 0: bad = 'a type without a size is created'
                            elif o < a: bad = 'it overlaps the used space'
                            elif (o + szE) % al: bad = 'its value is not aligned to %d bytes' % al
                            elif na is None or na < o + szE + n2: bad = '%d bytes are needed and %s reserved' % (szE + n2, na and na - o)
                            elif lim is None or na > lim or lim > mm: bad = 'it reaches behind the limit of the file'
                            elif lost and not inside: bad = 'it is created although the document could not grow'
                            elif H.get(e.mem, o, 'offset') != o: bad = 'its own offset is %s' % H.get(e.mem, o, 'offset')
                            elif H.rings_ok(e.mem, [o]): bad = 'it is not linked to itself'
                            elif H.get(e.mem, o, 'value_type') != t: bad = 'its type is %s' % H.get(e.mem, o, 'value_type')
                            elif H.get(e.mem, o, 'first_child') != 0 or H.get(e.mem, o, 'first_attribute') != 0: bad = 'it has children or attributes'
                            elif n in ('BLOB', 'HEX', 'BLOB_STRING'):
                                v = load(e.mem, (None, POOL + o + szE), 4)
                                if v is None or v[1] != n2 - 4: bad = 'the stored size is %s for %d bytes of content' % (v and v[1], n2 - 4)
                            elif n2 and not zeroed(e, POOL + o + szE, n2): bad = 'its value is not cleared'
                        K.ob('a new element is complete, aligned and inside the file', key, bad is None, e.where, 'new element of type %s and size %d at %d: %s' % (n, size, a, bad))


def run(K):
    P = K.prog
    K.rule('Abstract interpretation of the allocation functions over all positions relative to the limit, of growth over all relations of needed, file and mapped size, with every system call answered by success or failure; '
           'for all sizes the end of a handed out block is entailed to be below the limit by the facts of the preceding comparisons.')
    blocks(K, P)
    growth(K, P)
    creation(K, P)
    elements(K, P)
    K.minimum('cases', 500)
    K.minimum('functions', 5)
