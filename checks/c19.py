"""C19: elements count as written only after their whole record was appended."""
from sa.types import *
from sa.trace import *
from .c13 import PL, Pool
from .c16 import Heap, POOL, ELEMENT, WRITTEN, OFF, ptr

CR, DATA = 0x6000000, 0x7000000
O_APPEND, O_TRUNC, O_CREAT, ST_SIZE = 0o2000, 0o1000, 0o100, 48


def listed(K, P):
    """writing of a list"""
    F = P.fn('BW_plugin::Write')
    ap = {f.name for f in P.find('Bin_xml_creator::Append')}
    oc, sc = field(P, 'BW_plugin', 'bin_xml_creator'); os_, _ = field(P, 'Bin_xml_creator', 'src')
    K.count('functions')
    for n in (1, 2, 3, 5):
        for first in range(n):
            for flags in (ELEMENT, ELEMENT | WRITTEN):
                for creator, src in ((CR, PL), (CR, PL + 8), (CR, 0), (0, PL)):
                    H = Heap(P); H.mem.update(Pool(P, 0x2000, 0x4000).mem); L = OFF[:n]; H.ring(L, flags=flags)
                    H.mem[None, PL + field(P, 'BW_plugin', 'pool')[0], 8] = ('c', POOL, 64)
                    H.mem[None, PL + oc, 8] = ('c', creator, 64)
                    H.mem[None, CR + os_, 8] = ('c', src, 64)
                    L = L[first:] + L[:first]
                    done = []

                    def calls(I, nm, av, T, mem):
                        if nm in ap: return [(('c', -1, 1), None), (('c', 0, 1), None)]
                        return None
                    K.count('cases')
                    key = 'list:%d:%d:%d:%x:%x' % (n, first, flags, creator, src)
                    E = [e for e in Trace(P, calls=calls, limit=20000).run(F, {0: ('c', PL, 64), 1: ptr(L[0])}, H.mem)]
                    E = [e for e in E if e.kind == 'ret']
                    K.need(E, 'BW_plugin::Write does not return')
                    usable = creator and src == PL
                    seen_all = False
                    for e in E:
                        app = [x for x in e.ev if x[0] == 'call' and x[2] in ap]
                        r = e.ret[1] & 1 if e.ret is not None and e.ret[0] == 'c' else None
                        who = [x[3][1][1] - POOL if x[3][1] is not None and x[3][1][0] == 'c' else None for x in app]
                        good = [w for w, x in zip(who, app) if x[4][1]]
                        if not usable:
                            K.ob('a list is written only to the file of this document', key, r == 0 and not app, e.where, 'a list of a document without linked output is %s' % ('written' if r else 'appended'))
                            continue
                        allok = len(good) == len(app)
                        K.ob('each element of the list is appended once and in order', key + ':%d' % len(good), who == L[:len(who)] and (allok or len(app) == len(good) + 1) and (not allok or len(who) == n), e.where,
                             'elements %s of a list of %d are appended' % ([L.index(w) if w in L else '?' for w in who], n))
                        K.ob('success is reported when all elements were appended', key + ':ret%d' % len(good), r == (1 if allok else 0), e.where,
                             '%s is reported when %d of %d elements were appended' % ('success' if r else 'failure' if r == 0 else 'nothing determined', len(good), n))
                        bad = None
                        for w in L:
                            fl = H.get(e.mem, w, 'flags')
                            want = flags | WRITTEN if w in good else flags
                            if fl != want: bad = 'element %d of %d has flags %s, expected %d' % (L.index(w), n, fl, want)
                        K.ob('just appended elements are marked as written', key + ':mark%d' % len(good), bad is None, e.where, 'after %d successful appends of %d, %s' % (len(good), n, bad))
                        bad = H.rings_ok(e.mem, OFF[:n])
                        K.ob('writing keeps the list', key + ':ring%d' % len(good), bad is None, e.where, 'writing of a list: %s' % bad)
                        # the mark comes after the append of its element
                        seen = set(); bad = None
                        o, s = H.f['flags']
                        for x in e.ev:
                            if x[0] == 'call' and x[2] in ap and x[4][1] and x[3][1] is not None: seen.add(x[3][1][1] - POOL)
                            elif x[0] == 'store' and x[2][0] is None:
                                for w in L:
                                    if x[2][1] == POOL + w + o and w not in seen: bad = L.index(w)
                        K.ob('an element is marked after it was appended', key + ':order%d' % len(good), bad is None, e.where, 'element %s is marked before it is appended' % bad)


def run(K):
    P = K.prog
    K.rule('Abstract interpretation of writing of a list on circular lists of one to five elements with each outcome of each append, and of one append for each alignment of the end of the file, state of the buffer, outcome of serialisation '
           'and outcome of each system call: success exactly when all bytes of the record, and nothing else, were passed to one write at the end of the file.')
    K.assume('a write that reports n bytes has stored the first n bytes; nobody else extends the file meanwhile')
    listed(K, P)
    F = P.fn('Bin_xml_creator::Append')
    K.count('functions')
    f = {n: field(P, 'Bin_xml_creator', n) for n in ('dst_file', 'data', 'data_size_allocated', 'src', 'dst', 'total_node_count', 'total_param_count')}
    node = {x.name for x in P.find('Bin_xml_creator::WriteNode')}
    size = {x.name for x in P.find('Bin_src_plugin::getFileSize')}
    upd = {x.name for x in P.find('Bin_src_plugin::updateFileSize')}
    EL = POOL + 0x1000
    BIG = 1 << 20

    def case(end, opened, buf, length, fsize):
        mem = {}
        def put(n, v):
            o, s = f[n]; mem[None, CR + o, s] = ('c', v, s * 8)
        put('dst_file', 9 if opened else -1); put('data', DATA if buf else 0); put('data_size_allocated', buf); put('src', PL); put('total_node_count', 12345); put('total_param_count', 12345)
        o, s = f['dst']; mem[None, CR + o, s] = ('s', '&dst', 0)
        mem[None, PL, 8] = ('g', '_ZTVN9pklib_xml9BW_pluginE', 16)
        st = {}

        def calls(I, n, av, T, m):
            if n in ('open', 'open64'): return [(C(11), None), (C(-1), None)]
            if n in ('fstat', 'fstat64', '__fxstat', '__fxstat64'):
                b = place(av[1 if n.startswith('f') else 2])
                return [(C(0), lambda m: store(m, (b[0], b[1] + ST_SIZE), 8, ('c', end, 64))), (C(-1), None)]
            if n in node:
                at = place(av[1])
                w = load(m, at, 8)
                good = lambda m: store(m, at, 8, ('c', w[1] + length, 64))
                return [(('s', '&node', 0), good), (('c', 0, 64), None), (('c', 0, 64), lambda m: store(m, at, 8, ('c', 0, 64))), (('c', 0, 64), good)]
            if n == 'malloc': return [(('c', DATA + 0x4000000, 64), None), (('c', 0, 64), None)]
            if n in ('write', 'pwrite', 'pwrite64'):
                k = av[2]
                if k is None or k[0] != 'c': return [(('s', 'written', 0), None)]
                return [(('c', x, 64), None) for x in sorted({k[1], k[1] - 1, 1, 0, -1})]
            if n in ('ftruncate', 'ftruncate64'): return [(C(0), None)]
            if n in size: return [(C(fsize), None)]
            if n in upd: return [(None, None)]
            if n is None or 'ForAllChildrenRecursively' in n: return [(None, None)]
            return None
        return mem, calls

    for end in list(range(1000, 1016)) + [0, 16, 0x7fff1234]:
        for opened in (True, False):
            for buf in (0, BIG, 64):
                for length in (20, 24, 5000):
                    mem, calls = case(end, opened, buf, length, 3000)
                    K.count('cases')
                    key = '%d:%d:%d:%d' % (end, opened, buf, length)
                    E = [e for e in Trace(P, calls=calls, limit=20000).run(F, {0: ('c', CR, 64), 1: ('c', EL, 64)}, mem)]
                    E = [e for e in E if e.kind == 'ret']
                    K.need(E, 'Append does not return')
                    won = 0
                    for i, e in enumerate(E):
                        r = e.ret[1] & 1 if e.ret is not None and e.ret[0] == 'c' else None
                        C_ = [x for x in e.ev if x[0] == 'call']
                        op = [x for x in C_ if x[2] in ('open', 'open64', 'creat')]
                        nd = [x for x in C_ if x[2] in node]
                        wr = [x for x in C_ if x[2] in ('write', 'pwrite', 'pwrite64', 'lseek')]
                        fs = [x for x in C_ if x[2] in ('fstat', 'fstat64', '__fxstat', '__fxstat64')]
                        tr = [x for x in C_ if x[2] in ('ftruncate', 'ftruncate64')]
                        fd = 9 if opened else 11
                        k2 = key + ':%d' % i
                        for x in op:
                            fl = x[3][1]
                            K.ob('the file is opened for appending', k2 + ':open', x[2] != 'creat' and not opened and fl is not None and fl[0] == 'c' and fl[1] & O_APPEND and not fl[1] & O_TRUNC, x[1].where, 'the file is opened with flags %s' % (fl[1] if fl else '?'))
                        failed = any(x[4][1] < 0 for x in op + fs) or any(x[4][:2] == ('c', 0) for x in nd) or any(x[2] == 'malloc' and x[4][1] == 0 for x in C_)
                        if failed:
                            K.ob('nothing is appended after a failure', k2 + ':failed', r == 0 and not wr, e.where, 'after a failure of %s, %s' % ('opening' if any(x[4][1] < 0 for x in op) else 'serialisation' if nd else 'preparation', 'success is reported' if r else 'data are written'))
                            continue
                        ok = len(nd) == 1 and len(wr) == 1 and wr[0][2] == 'write' and len(fs) == 1
                        K.ob('an element is serialised and written once', k2 + ':once', ok, e.where, 'an element is serialised %d times and written %d times' % (len(nd), len(wr)))
                        if not ok: continue
                        x, a = nd[0], wr[0][3]
                        K.ob('the element passed is serialised', k2 + ':element', x[3][2] == ('c', EL, 64), x[1].where, 'another element is serialised')
                        # where the node starts: the value of *_wp before the call
                        at = place(x[3][1])
                        wend = load(e.mem, at, 8)
                        start = wend[1] - length if wend is not None and wend[0] == 'c' else None
                        val = all(v is not None and v[0] == 'c' for v in a[:3]) and start is not None
                        K.ob('the written bytes are determined', k2 + ':det', val, wr[0][1].where, 'the written bytes are not determined')
                        if not val: continue
                        base = DATA if buf and not any(y[2] == 'malloc' for y in C_) else DATA + 0x4000000
                        alloc = [y[3][0][1] for y in C_ if y[2] == 'malloc']
                        cap = alloc[-1] if alloc else buf
                        K.ob('an element keeps its alignment in the file', k2 + ':align', (start - a[1][1]) >= 0 and (end + start - a[1][1]) % 4 == 0 and (end + (start - a[1][1]) - start) % 4 == 0 and start - a[1][1] < 16, wr[0][1].where,
                             'at the end %d of the file, the element starts %d bytes behind the begin of the write' % (end, start - a[1][1]))
                        K.ob('alignment to 16 bytes is kept in the file', k2 + ':align16', (end - a[1][1]) % 16 == 0, wr[0][1].where, 'the end of the file %d is represented by a position of alignment %d' % (end, a[1][1] % 16))
                        K.ob('the whole record is written', k2 + ':whole', a[0][1] == fd and a[1][1] + a[2][1] == wend[1] and a[1][1] >= base, wr[0][1].where,
                             'a record of %d bytes is written as %d bytes%s' % (wend[1] - a[1][1], a[2][1], '' if a[0][1] == fd else ' to another file'))
                        ms = [y for y in C_ if y[2] and 'memset' in y[2] and y[3][0] == ('c', base, 64)] + [y for y in C_ if y[2] == 'calloc']
                        K.ob('the buffer is cleared before the element is serialised', k2 + ':clear', bool(ms) and e.ev.index(ms[-1]) < e.ev.index(x) and ms[-1][3][1][:2] == ('c', 0) and ms[-1][3][2][1] >= wend[1] - base, x[1].where, 'bytes of an earlier document can be written')
                        full = wr[0][4][1] == a[2][1]
                        K.ob('success is reported when the whole record was written', k2 + ':short%d' % wr[0][4][1], r == (1 if full else 0), e.where, '%s is reported when %d of %d bytes were written' % ('success' if r else 'failure', wr[0][4][1], a[2][1]))
                        won += full
                        if not full and wr[0][4][1] > 0:
                            K.ob('an incomplete record is removed from the file', k2 + ':torn%d' % wr[0][4][1], any(y[3][0] == C(fd) and y[3][1] is not None and y[3][1][1] == end for y in tr), wr[0][1].where, 'the first %d of %d bytes of a record stay in the file' % (wr[0][4][1], a[2][1]))
                        elif full: K.ob('a complete record stays in the file', k2 + ':kept', not tr, e.where, 'the file is cut behind a complete record')
                    K.ob('an append can succeed', key + ':can', won > 0, F.blocks[0][0].where, 'an append cannot succeed')
    # a document that grew needs a bigger buffer
    for fsize in (0, 100, 1 << 20, 0x1fff0000 // 4, 0x7fffffff):
        mem, calls = case(1000, True, 4096, 20, fsize)
        K.count('cases')
        for e in Trace(P, calls=calls, limit=20000).run(F, {0: ('c', CR, 64), 1: ('c', EL, 64)}, mem):
            if e.kind != 'ret': continue
            alloc = [y[3][0][1] for y in e.ev if y[0] == 'call' and y[2] == 'malloc']
            nd = [x for x in e.ev if x[0] == 'call' and x[2] in node]
            if not nd: continue
            cap = alloc[-1] if alloc else 4096
            o, s = f['data_size_allocated']
            v = load(e.mem, (None, CR + o), s)
            K.ob('the buffer is as big as the document requires', 'buffer:%d' % fsize, cap >= 4 * fsize and v is not None and v[1] == cap and v[1] > 0, e.where, 'for a document of %d bytes, a buffer of %d bytes is used as %s bytes' % (fsize, cap, v[1] if v else '?'))
    K.minimum('cases', 200)
