"""C24: the registry of open writable documents finds exactly the documents that exist."""
from itertools import product
from sa.types import *
from sa.trace import *
from .c13 import PL
from .c16 import POOL

MAX = 32


def run(K):
    P = K.prog
    K.rule('Abstract interpretation of histories of the registry (creation, registration, removal, lookup), with documents at constant addresses: after each step of each history, the lookup of each pool must return exactly the document '
           'that is registered for it, and nothing for a pool of no registered document. Construction and destruction of a document are interpreted on registries of each fill and must add, or remove, just this document.')
    K.assume('documents are created and destroyed by one thread')
    reg, unreg, get = (P.fn('BW_plugins::' + n) for n in ('registerPlugin', 'unregisterPlugin', 'getPlugin'))
    ctor = P.fn('BW_plugins::BW_plugins')
    G = [n for n in P.globals if n.endswith('pklib_xml7pluginsE')]
    K.need(G, 'no registry of documents')
    R = ('g', G[0], 0)
    op, sp = field(P, 'BW_plugin', 'pool')
    pl = lambda i: PL + i * 0x1000
    po = lambda i: POOL + i * 0x100000

    def one(F, args, mem, what):
        K.count('cases')
        E = [e for e in Trace(P, limit=20000).run(F, args, mem)]
        K.need(E, '%s does not return' % F.short)
        if len(E) != 1: K.ob('%s is determined' % what, 'determined:' + what, False, E[0].where, '%d outcomes' % len(E))
        return E[0]

    def fresh(n):
        mem = {}
        for i in range(n):
            mem[None, pl(i) + op, 8] = ('c', po(i), 64)
            mem[None, pl(i), 8] = ('g', '_ZTVN9pklib_xml9BW_pluginE', 16)
        e = one(ctor, {0: R}, mem, 'creation of the registry')
        return e.mem

    def look(mem, live, n, hist):
        for i in range(n):
            e = one(get, {0: R, 1: ('c', po(i), 64)}, mem, 'lookup')
            want = pl(i) if i in live else 0
            got = e.ret[1] if e.kind == 'ret' and e.ret is not None and e.ret[0] == 'c' else None
            ok = got == want
            K.ob('the lookup of a pool returns just its document', 'lookup:%s:%d' % (hist, i), ok, e.where,
                 'after %s, the lookup of pool %d returns %s' % (hist, i, 'nothing' if got == 0 else 'another document' if got is not None else 'something undetermined'))
            if not ok: return False
        return True

    moved = []

    def hist(ops, n):
        """ops: (kind, document)"""
        mem, live = fresh(n), []
        name = ''.join(('+%d' if k == '+' else '-%d') % i for k, i in ops) or 'nothing'
        if not ops: look(mem, live, n, name)
        for j, (k, i) in enumerate(ops):
            e = one(reg if k == '+' else unreg, {0: R, 1: ('c', pl(i), 64)}, mem, 'registration' if k == '+' else 'removal')
            good = e.kind == 'ret' and (len(live) < MAX if k == '+' else i in live)
            r = e.ret[1] & 1 if e.kind == 'ret' and e.ret is not None and e.ret[0] == 'c' else None
            K.ob('registration and removal report their success', 'result:%s:%d' % (name, j), r == (1 if good else 0), e.where,
                 '%s of document %d in %s %s' % ('registration' if k == '+' else 'removal', i, name, 'is not determined' if r is None else 'fails' if not r else 'succeeds'))
            if r is None: return
            big = [x for x in e.ev if x[0] == 'call' and x[2] and x[2].split('.')[-1 if x[2][:5] != 'llvm.' else 1].startswith('mem') and x[3][2] is not None and x[3][2][0] == 'c' and not 0 <= x[3][2][1] <= 8 * MAX]
            K.ob('entries are moved inside the registry', 'move:%s:%d' % (name, j), not big, e.where, 'the last step of %s moves %d bytes' % (name, big[0][3][2][1] if big else 0))
            if big: moved.append(1); return
            if good:
                if k == '+': live.append(i)
                else: live.remove(i)
            mem = e.mem
        look(mem, live, n, name)

    def all_hist(n, depth):
        def rec(ops, live):
            hist(ops, n)
            if len(ops) == depth: return
            for i in range(n):
                if i in live: rec(ops + [('-', i)], live - {i})
                elif i not in live:
                    rec(ops + [('+', i)], live | {i})
                    if len(ops) < 3: rec(ops + [('-', i)], live)          # removal of a document that is not registered
        rec([], frozenset())
    all_hist(3, 4)
    # full registry
    full = [('+', i) for i in range(MAX)]
    hist(full, MAX + 1)
    hist(full + [('+', MAX)], MAX + 1)
    for i in (0, 1, 15, 30, 31):
        hist(full + [('-', i)], MAX + 1)
        hist(full + [('-', i), ('+', MAX)], MAX + 1)
    hist(full + [('-', i) for i in range(MAX)], MAX)
    hist(full + [('-', i) for i in reversed(range(MAX))], MAX)
    e = one(reg, {0: R, 1: ('c', 0, 64)}, fresh(1), 'registration of nothing')
    K.ob('nothing is not registered', 'null', e.kind == 'ret' and not e.ret[1] & 1 and look(e.mem, [], 1, 'registration of nothing'), e.where, 'registration of an absent document succeeds')

    if moved: return
    # construction and destruction of a document
    C1 = [F for F in P.find('BW_plugin::BW_plugin') if not F.decl]
    D1 = [F for F in P.find('BW_plugin::~BW_plugin') if not F.decl]
    K.need(C1 and D1, 'no construction or destruction of documents')

    def calls(I, n, av, T, mem):
        if n in ('malloc', '_Znwm', '_Znam', 'strdup', 'realloc'): return [(('s', '&heap', 0), None)]
        if n and n.startswith('_ZdlPv'): return [(None, None)]
        return None

    for n in (0, 1, 2, MAX - 1):
        for F in C1:
            if not any(F.name.endswith(x) or x in F.name for x in ('C1', 'C2')): continue
            mem = fresh(n + 2)
            for i in range(n): mem = one(reg, {0: R, 1: ('c', pl(i), 64)}, mem, 'registration').mem
            this = ('c', pl(n), 64)
            args = {0: this, 1: ('s', '&file', 0), 2: ('s', 'creator', 0), 3: C(0x100000), 4: C(0)}
            K.count('cases')
            E = [e for e in Trace(P, calls=calls, limit=40000, depth=20, enter=lambda n: "plugin" in n).run(F, args, mem) if e.kind == 'ret']
            K.need(E, 'construction does not return')
            for e in E:
                m = dict(e.mem); v = load(e.mem, (None, pl(n) + op), 8)
                K.ob('a new document has no pool', 'ctor pool:%d' % n, v is not None and v[:2] == ('c', 0), e.where, 'the pool of a new document is not empty')
                m = Mem(e.mem); store(m, (None, pl(n) + op), 8, ('c', po(n), 64))
                look(m, list(range(n + 1)), n + 2, 'construction of document %d' % n)
    for n in (1, 2, 3, MAX):
        for k in sorted({0, n // 2, n - 1}):
            for F in D1:
                if F.name.endswith('D0Ev'): continue
                mem = fresh(n)
                for i in range(n): mem = one(reg, {0: R, 1: ('c', pl(i), 64)}, mem, 'registration').mem
                o, s = field(P, 'BW_plugin', 'fd'); mem[None, pl(k) + o, s] = ('c', 5, 32)
                K.count('cases')
                E = [e for e in Trace(P, calls=calls, limit=40000, depth=20, enter=lambda n: "plugin" in n).run(F, {0: ('c', pl(k), 64)}, mem) if e.kind == 'ret']
                K.need(E, 'destruction does not return')
                for e in E:
                    store(e.mem, (None, pl(k) + op), 8, ('c', po(k), 64))          # were it still registered, it would be found
                    look(e.mem, [i for i in range(n) if i != k], n, 'destruction of document %d of %d' % (k, n))
    K.count('functions', 4 + len(C1) + len(D1))
    K.minimum('cases', 500)
