"""C16: the circular sibling lists of a writable document stay linked."""
from sa.util import *
from sa.trace import *

POOL = 0x1000000
OFF = [0x1000, 0x1040, 0x10a0, 0x1118, 0x1200, 0x1300]
ELEMENT, WRITTEN, DELETED = 1, 4, 8


class Heap:
    def __init__(self, P):
        self.P = P
        self.f = {n: field(P, 'BW_element', n) for n in ('offset', 'identification', 'flags', 'value_type', 'next', 'prev', 'first_child', 'first_attribute')}
        self.mem = {}

    def set(self, o, **kw):
        for k, v in kw.items():
            a, s = self.f[k]
            store(self.mem, (None, POOL + o + a), s, ('c', v, s * 8))

    def el(self, o, **kw):
        d = dict(offset=o, identification=7, flags=ELEMENT, value_type=0, next=o, prev=o, first_child=0, first_attribute=0)
        d.update(kw)
        self.set(o, **d)

    def ring(self, l, **kw):
        for i, o in enumerate(l): self.el(o, next=l[(i + 1) % len(l)], prev=l[i - 1], **kw)

    def get(self, mem, o, k):
        a, s = self.f[k]
        v = load(mem, (None, POOL + o + a), s)
        return v[1] if v is not None and v[0] == 'c' else None

    def rings_ok(self, mem, l):
        """why the elements do not form the circle l"""
        for i, o in enumerate(l):
            n, p = self.get(mem, o, 'next'), self.get(mem, o, 'prev')
            if n != l[(i + 1) % len(l)]: return 'the successor of the element at position %d of %d is %s' % (i, len(l), who(n, l))
            if p != l[i - 1]: return 'the predecessor of the element at position %d of %d is %s' % (i, len(l), who(p, l))


def who(o, l):
    if o is None: return 'not determined'
    return 'element %d' % l.index(o) if o in l else 'no element of the list'


def ptr(o): return ('c', POOL + o if o else 0, 64)


def run(K):
    P = K.prog
    K.rule('Shape analysis of the list primitives: each is evaluated by abstract interpretation on every alias shape of the affected links (lists of one, two, three and more elements, '
           'affected element first, inner or last), and the links of the resulting heap must be exactly the circle the operation promises. '
           'The primitives only touch an element, its neighbours and the head of its owner, so these shapes cover all lists.')
    T = Trace(P)

    def ends(F, args, mem, key):
        K.count('shapes')
        E = [e for e in T.run(F, args, mem) if e.kind == 'ret']
        K.ob('the operation ends', key + ':ends', bool(E), F.where, 'the operation cannot end on this shape')
        return E

    # join
    F = P.fn('BW_element::join')
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            H = Heap(P); A, B = OFF[:n], OFF[3:3 + m]
            H.ring(A); H.ring(B)
            for e in ends(F, {0: ptr(A[0]), 1: ptr(B[0])}, H.mem, 'join:%d+%d' % (n, m)):
                bad = H.rings_ok(e.mem, A + B)
                K.ob('joined circles form one circle in order', 'join:%d+%d' % (n, m), not bad, e.where, 'after joining circles of %d and %d elements %s' % (n, m, bad))
    # add
    F = P.fn('BW_element::add')
    X = 0x2000
    for flag, mine, other in ((ELEMENT, 'first_child', 'first_attribute'), (0, 'first_attribute', 'first_child')):
        for n in (0, 1, 2, 3):
            H = Heap(P); A = OFF[:n]; B = OFF[3:4]; O = OFF[4:6]
            H.ring(A, flags=flag); H.ring(B, flags=flag); H.ring(O, flags=1 - flag)
            H.el(X, **{mine: A[0] if A else 0, other: O[0]})
            key = 'add:%s:%d' % (mine, n)
            for e in ends(F, {0: ptr(X), 1: ptr(B[0])}, H.mem, key):
                bad = H.rings_ok(e.mem, A + B) or (H.rings_ok(e.mem, O) and 'the other list is changed')
                h, h2 = H.get(e.mem, X, mine), H.get(e.mem, X, other)
                if not bad and h != (A + B)[0]: bad = 'the head of the list is %s' % who(h, A + B)
                if not bad and h2 != O[0]: bad = 'the head of the other list is changed'
                if not bad and e.ret != ptr(X): bad = 'the owner is not returned'
                K.ob('an added element becomes the last one of its list', key, not bad, e.where, 'after adding to %d elements %s' % (n, bad))
    H = Heap(P); H.ring(OFF[:2]); H.el(X, first_child=OFF[0])
    for e in ends(F, {0: ptr(X), 1: ptr(0)}, H.mem, 'add:nothing'):
        K.ob('adding nothing changes nothing', 'add:nothing', not stores(e) and e.ret == ptr(X), e.where, 'adding no element changes the list or does not return the owner')
    # remove
    F = P.fn('BW_element::remove')
    for flag, mine, other in ((ELEMENT, 'first_child', 'first_attribute'), (0, 'first_attribute', 'first_child')):
        for n in (1, 2, 3, 4):
            for k in range(n):
                H = Heap(P); A = OFF[:n]; O = OFF[4:6]
                H.ring(A, flags=flag | WRITTEN); H.ring(O, flags=1 - flag)
                H.el(X, **{mine: A[0], other: O[0]})
                key = 'remove:%s:%d/%d' % (mine, k, n)
                rest = [o for o in A if o != A[k]]
                for e in ends(F, {0: ptr(X), 1: ptr(A[k])}, H.mem, key):
                    bad = H.rings_ok(e.mem, rest) or H.rings_ok(e.mem, [A[k]]) or (H.rings_ok(e.mem, O) and 'the other list is changed')
                    h = H.get(e.mem, X, mine)
                    if not bad and h != (rest[0] if rest else 0): bad = 'the head of the list is %s' % ('kept at the removed element' if h == A[k] else who(h, rest))
                    if not bad and H.get(e.mem, X, other) != O[0]: bad = 'the head of the other list is changed'
                    fl = H.get(e.mem, A[k], 'flags')
                    if not bad and (fl is None or fl != flag | WRITTEN | DELETED): bad = 'the removed element is not marked as deleted (flags %s)' % fl
                    K.ob('a removed element leaves a closed circle', key, not bad, e.where, 'after removing element %d of %d %s' % (k, n, bad))
    for nm, a in (('nothing', 0), ('unlisted', OFF[3])):
        H = Heap(P); H.el(OFF[3]); H.el(X)
        for e in ends(F, {0: ptr(X), 1: ptr(a)}, H.mem, 'remove:' + nm):
            K.ob('removing from an empty list changes nothing', 'remove:' + nm, H.get(e.mem, X, 'first_child') == 0 and H.get(e.mem, X, 'first_attribute') == 0, e.where, 'removing changes an empty list')
    # replace
    F = P.fn('BW_element::replace')
    for flag, mine, other in ((ELEMENT, 'first_child', 'first_attribute'), (0, 'first_attribute', 'first_child')):
        for n in (1, 2, 3, 4):
            for k in range(n):
                H = Heap(P); A = OFF[:n]; O = OFF[4:5]; N = OFF[5]
                H.ring(A, flags=flag); H.ring(O, flags=1 - flag); H.el(N, flags=flag)
                H.el(X, **{mine: A[0], other: O[0]})
                key = 'replace:%s:%d/%d' % (mine, k, n)
                want = [N if o == A[k] else o for o in A]
                for e in ends(F, {0: ptr(X), 1: ptr(A[k]), 2: ptr(N)}, H.mem, key):
                    bad = H.rings_ok(e.mem, want) or H.rings_ok(e.mem, [A[k]]) or (H.rings_ok(e.mem, O) and 'the other list is changed')
                    if not bad and H.get(e.mem, X, mine) != want[0]: bad = 'the head of the list is %s' % who(H.get(e.mem, X, mine), want)
                    if not bad and H.get(e.mem, X, other) != O[0]: bad = 'the head of the other list is changed'
                    fl = H.get(e.mem, A[k], 'flags')
                    if not bad and (fl is None or fl != flag | DELETED): bad = 'the replaced element is not marked as deleted'
                    K.ob('a replacing element takes the place of the old one', key, not bad, e.where, 'after replacing element %d of %d %s' % (k, n, bad))
    H = Heap(P); H.ring(OFF[:2]); H.el(X, first_child=OFF[0])
    for nm, a, b in (('no old', 0, OFF[3]), ('no new', OFF[0], 0)):
        H.el(OFF[3])
        for e in ends(F, {0: ptr(X), 1: ptr(a), 2: ptr(b)}, H.mem, 'replace:' + nm):
            K.ob('replacing with nothing changes nothing', 'replace:' + nm, not stores(e) and e.ret == ptr(0), e.where, 'replacing %s element changes a list or is not refused' % nm)
    # init: a new element is a circle of its own without children and attributes
    F = P.fn('BW_element::init')
    pf = field(P, 'BW_pool', 'file_size')
    H = Heap(P); store(H.mem, (None, POOL + pf[0]), pf[1], ('c', 0x4000, 32))
    for fl in (ELEMENT, 0):
        for e in ends(F, {0: ptr(OFF[1]), 1: ('c', POOL, 64), 2: ('c', 0x123, 16), 3: ('c', 5, 8), 4: ('c', fl, 8)}, H.mem, 'init:%d' % fl):
            bad = H.rings_ok(e.mem, [OFF[1]])
            for k, v in (('offset', OFF[1]), ('identification', 0x123), ('value_type', 5), ('flags', fl), ('first_child', 0), ('first_attribute', 0)):
                if not bad and H.get(e.mem, OFF[1], k) != v: bad = 'its %s is %s' % (k, H.get(e.mem, OFF[1], k))
            K.ob('a new element stands alone', 'init:%d' % fl, not bad, e.where, 'a new element is wrong: %s' % bad)
    # iteration
    cur = 0x3000000
    for name, step in (('NextChild', 1), ('PrevChild', -1)):
        F = P.fn('BW_element::' + name)
        for n in (0, 1, 2, 3):
            H = Heap(P); A = OFF[:n]; H.ring(A); H.el(X, first_child=A[0] if A else 0, first_attribute=OFF[4]); H.ring(OFF[4:6], flags=0)
            order = A if step == 1 else A[::-1]
            for k in range(n + 1):
                H.mem[None, cur, 4] = ('c', order[k - 1] if k else 0, 32)
                want = order[k] if k < n else 0
                key = '%s:%d/%d' % (name, k, n)
                for e in ends(F, {0: ptr(X), 1: ('c', cur, 64)}, H.mem, key):
                    ok = e.ret == ptr(want)
                    if want: ok = ok and load(e.mem, (None, cur), 4) == ('c', want, 32)
                    K.ob('iteration visits each child once in order', key, ok, e.where, 'step %d over %d children does not answer %s' % (k, n, 'the next child' if want else 'the end'))
    # lookups
    for name, head in (('attrGet', 'first_attribute'), ('findAttr', 'first_attribute'), ('tagGet', 'first_child'), ('findChildByTag', 'first_child')):
        F = P.fn('BW_element::' + name)
        for n in (0, 1, 2, 3):
            for k in list(range(n)) + [None]:
                H = Heap(P); A = OFF[:n]; H.ring(A, flags=1 if head == 'first_child' else 0)
                for i, o in enumerate(A): H.set(o, identification=50 + (i >= k if k is not None else 0))
                H.el(X, identification=51, **{head: A[0] if A else 0, ('first_attribute' if head == 'first_child' else 'first_child'): OFF[4]}); H.ring(OFF[4:6], identification=51)
                key = '%s:%s/%d' % (name, k, n)
                for e in ends(F, {0: ptr(X), 1: ('c', 51, 16)}, H.mem, key):
                    K.ob('a lookup answers the first match of its own list', key, e.ret == ptr(A[k] if k is not None else 0) and not stores(e), e.where,
                         'looking up %s of %d does not answer it' % ('element %d' % k if k is not None else 'an absent element', n))
    # iteration for the serialiser
    for name, head in (('ForAllChildren', 'first_child'), ('ForAllChildrenRecursively', 'first_child'), ('ForAllBinParams', 'first_attribute'), ('ForAllParams', 'first_attribute')):
        F = P.fn('BW_plugin::' + name)
        for n in (0, 1, 2, 3):
            H = Heap(P); A = OFF[:n]; H.ring(A, flags=1 if head == 'first_child' else 0, value_type=enum(P, 'XBT_INT32'))
            H.el(X, **{head: A[0] if A else 0, ('first_attribute' if head == 'first_child' else 'first_child'): OFF[4]}); H.ring(OFF[4:6])
            PL = 0x5000000; o, s = field(P, 'BW_plugin', 'pool'); H.mem[None, PL + o, s] = ('c', POOL, 64); H.mem[None, PL, 8] = ('g', '_ZTVN9pklib_xml9BW_pluginE', 16); H.mem[None, POOL + pf[0], pf[1]] = ('c', 0x4000, 32)
            key = '%s:%d' % (name, n)
            got = []

            def calls(I, nme, av, T_, mem):
                if nme == 'CALLBACK': return [(None, None)]
                if nme in names: return [(('s', '&name', 0), None)]
                if nme and nme.startswith('_ZNSt') or nme and nme.startswith('_ZStls'): return [(None, None)]
            names = {f.name for s_ in ('BW_pool::getTagName', 'BW_pool::getAttrName', 'BW_element::getName') for f in P.find(s_)}
            T2 = Trace(P, calls=calls)
            K.count('shapes')
            args = {0: ('c', PL, 64), 1: ('g', 'CALLBACK', 0), 2: ptr(X), 3: ('s', '&user', 0)}
            want = [ptr(o) for o in A]; deep = None
            if name == 'ForAllChildrenRecursively':
                args[4] = ('c', 3, 32); want = [ptr(X)] + want; deep = [3] + [4] * n
                if n == 3:                                   # grandchildren follow their parent
                    H.ring([0x2100, 0x2140]); H.set(A[1], first_child=0x2100)
                    want[3:3] = [ptr(0x2100), ptr(0x2140)]; deep[3:3] = [5, 5]
            for e in T2.run(F, args, H.mem):
                cb = [x[3] for x in e.ev if x[0] == 'call' and x[2] == 'CALLBACK']
                if head == 'first_child':
                    ok = [a[0] for a in cb] == want and all(a[1] == ('s', '&user', 0) for a in cb)
                    if deep: ok = ok and [a[2] for a in cb] == [('c', d, 32) for d in deep]
                elif name == 'ForAllParams': ok = len(cb) == n and all(a[2] == ptr(X) and a[3] == ('s', '&user', 0) for a in cb)
                else: ok = [a[3] for a in cb] == [ptr(o + sizeof(P, 'BW_element')) for o in A] and all(a[5] == ('s', '&user', 0) for a in cb) and all(a[1] == ('c', 7, 32) for a in cb)
                ok = ok and e.kind == 'ret'
                K.ob('the serialiser is handed every member of the list once in order', key, ok, e.where, 'with %d members %d calls are made, or not with the members in order' % (n, len(cb)))
    K.minimum('shapes', 100)


def stores(e): return [x for x in e.ev if x[0] in ('store', 'store?')]
