"""C34: the stack which is used does not grow with the document."""
import os
from sa.util import *
from sa.sccp import Sccp, C
from sa.trace import *
from .c02 import Layout
from .c20 import from_xml, from_json, way, steps, machine, World, bit, DOCS, E, JSONS

MB = 1 << 20
FRAME_MAX, STACK = MB, 8 * MB
SELFTEST = ('XBT_TestType',)
HUGE = 1 << 19
# recursion which consumes something bounded; everything else has to be guarded by the depth
WALKERS = {
    'XML_Item::ForAllChildrenRecursively': 'a checked document', 'XML_Item::ForAllChildrenRecursively_PostOrder': 'a checked document', 'XML_Item::ForAllChildrenRecursively_PostOrderA': 'a checked document',
    'XML_Item::write': 'a checked document', 'BW_plugin::CopyAll': 'a checked document', 'Bin_xml_packer::PackNode': 'a converted document', 'Bin_xml_creator::WriteNode': 'a document whose depth was looked at',
    'Bin_xml_creator::XBWStoreChildrenEvent': 'a document whose depth was looked at', 'Bin_xml_creator::XStoreChildrenEvent': 'a document whose depth was looked at', 'Bin_xml_creator::XStore2XBWEvent': 'a document whose depth was looked at',
    'Bin_json_plugin::ForAllChildrenRecursively': 'a parsed JSON text, limited by jsmn_prepare_total_size', 'Bin_xml_plugin::ForAllChildrenRecursively': 'the tree of the XML library, which limits its depth',
    'AdvEqual': 'the asterisks of a mask', 'qsort_r2': 'half of the items'}
GUARDED = ('XML_Item::Check', 'jsmn_prepare_total_size', 'BW_plugin::ForAllChildrenRecursively')


class Bounds:
    """largest unsigned value of an operand, None when it depends on the input"""

    def __init__(self, P): self.P = P

    def of(self, F, o, at, seen=()):
        if o[0] == 'c': return o[1] & (1 << 64) - 1 if o[1] >= 0 else None
        if (F.name, o) in seen or len(seen) > 40: return None
        seen = seen + ((F.name, o),)
        go = lambda x: self.of(F, x, at, seen)
        known = self.compared(F, o, at)
        if known is not None: return known
        if o[0] == 'a':
            if not F.local: return None
            L = [(G, J) for G in self.P.repo_funcs for J in G.calls() if J.callee == F.name]
            V = [self.of(G, J.a[o[1]], J.block, seen) if len(J.a) > o[1] else None for G, J in L]
            return max(V) if V and None not in V else None
        if o[0] != 'v': return None
        I = F.inst[o[1]]
        if I.op == 'zext':
            v = go(I.a[0])
            w = self.bits(F, I.a[0])
            return v if v is not None else (1 << w) - 1 if w and w <= 16 else None
        if I.op in ('sext', 'trunc', 'freeze'): return go(I.a[0])
        if I.op in ('phi', 'select'):
            V = [go(x) for x in (I.a[1:] if I.op == 'select' else I.a)]
            return max(V) if None not in V else None
        if I.op in ('add', 'mul', 'and', 'or', 'shl', 'lshr', 'udiv', 'urem'):
            a, b = go(I.a[0]), go(I.a[1])
            if I.op == 'and': return min([x for x in (a, b) if x is not None], default=None)
            if I.op == 'urem' and b: return b - 1
            if I.op in ('lshr', 'udiv'): return a
            if a is None or b is None: return None
            return {'add': a + b, 'mul': a * b, 'or': a + b, 'shl': a << min(b, 64)}[I.op]
        if I.op == 'call' and I.callee and I.callee.startswith('llvm.umin'): return min([x for x in map(go, I.a) if x is not None], default=None)
        if I.op == 'call' and I.callee == 'strlen': 
            try: s = self.P.cstr(I.a[0])
            except Exception: s = None
            return len(s) if s is not None else None
        return None

    def bits(self, F, o):
        if o[0] == 'v':
            t = F.inst[o[1]].t
            if isinstance(t, str) and t[0] == 'i' and t[1:].isdigit(): return int(t[1:])
        return None

    def compared(self, F, o, at):
        """a comparison with a constant which dominates the block"""
        best = None
        for b, L in enumerate(F.blocks):
            T = L[-1] if L else None
            if T is None or T.op != 'br' or not T.a or T.a[0][0] != 'v': continue
            I = F.inst[T.a[0][1]]
            if I.op != 'icmp': continue
            for x, y, p in ((I.a[0], I.a[1], I.pred), (I.a[1], I.a[0], {'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule', 'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle'}.get(I.pred, I.pred))):
                if x != o or y[0] != 'c' or y[1] < 0: continue
                for k, s in enumerate(T.raw['s']):
                    if len(F.preds[s]) != 1 or not F.dominates(s, at): continue
                    q = p if k == 0 else {'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult', 'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt', 'eq': 'ne', 'ne': 'eq'}[p]
                    v = {'ult': y[1] - 1, 'ule': y[1], 'slt': y[1] - 1, 'sle': y[1], 'eq': y[1]}.get(q)
                    if v is not None and (best is None or v < best): best = v
        return best


def cyclic(F):
    """block -> loop number for blocks in cycles"""
    out = {}
    for c in sccs(range(len(F.blocks)), lambda b: F.succ[b]):
        if len(c) > 1 or c[0] in F.succ[c[0]]:
            for b in c: out[b] = frozenset(c)
    return out


def sccs(nodes, succ):
    """Tarjan, without recursion"""
    num, low, on, st, out = {}, {}, set(), [], []
    for r in nodes:
        if r in num: continue
        todo = [(r, iter(succ(r)))]
        num[r] = low[r] = len(num); st.append(r); on.add(r)
        while todo:
            v, it = todo[-1]
            for w in it:
                if w not in num:
                    num[w] = low[w] = len(num); st.append(w); on.add(w)
                    todo.append((w, iter(succ(w)))); break
                if w in on: low[v] = min(low[v], num[w])
            else:
                todo.pop()
                if todo: low[todo[-1][0]] = min(low[todo[-1][0]], low[v])
                if low[v] == num[v]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w == v: break
                    out.append(c)
    return out


def trips(F, L):
    """iterations of a loop which counts from a constant to a constant"""
    best = None
    for b in L:
        for I in F.blocks[b]:
            if I.op != 'phi': continue
            start = [x for x, p in I.raw['in'] if p not in L]; inner = [x for x, p in I.raw['in'] if p in L]
            if len(start) != 1 or start[0][0] != 'c' or not inner: continue
            nx = {x for x in inner}
            if len(nx) != 1: continue
            n = nx.pop()
            N = F.inst.get(n[1]) if n[0] == 'v' else None
            if N is None or N.op != 'add' or ('v', I.id) not in N.a: continue
            c = [x for x in N.a if x != ('v', I.id)]
            if not c or c[0][0] != 'c' or c[0][1] == 0: continue
            for e in L:
                T = F.blocks[e][-1]
                if T.op != 'br' or not T.a or all(s in L for s in T.raw['s']) or T.a[0][0] != 'v': continue
                J = F.inst[T.a[0][1]]
                if J.op != 'icmp' or J.a[1][0] != 'c' or J.a[0] not in (('v', I.id), n): continue
                k = abs(J.a[1][1] - start[0][1]) // abs(c[0][1]) + 1
                best = k if best is None else min(best, k)
    return best


def frames(K, P):
    """size of the stack frame of every function"""
    B = Bounds(P); out = {}
    for F in P.repo_funcs:
        if F.decl or F.short in SELFTEST: continue
        loops = cyclic(F); sizes = []
        for I in F.insts():
            if I.op != 'alloca': continue
            K.count('local areas')
            n = B.of(F, I.a[0], I.block) if I.a else 1
            ok = n is not None
            K.ob('the size of a local area does not depend on the input', 'area:%s:%s' % (F.short, I.raw.get('at', '?')) if not ok else 'areas', ok, I.where, '%s puts an area on the stack whose size is not bounded by a constant' % F.short)
            z = I.raw.get('sz', 0) * (n or 0)
            if I.block in loops:
                k = trips(F, loops[I.block])
                K.ob('an area on the stack is not made in a loop of unknown length', 'loop:%s' % F.short, k is not None, I.where, '%s makes an area on the stack in a loop whose length depends on the input' % F.short)
                z *= k or 0
            sizes.append(z)
        K.count('functions')
        total = sum(sizes)
        K.ob('a stack frame is at most 1 MB', 'frame:%s' % F.short if total > FRAME_MAX else 'frames', total <= FRAME_MAX, F.where, '%s needs %d bytes of stack' % (F.short, total))
        big = sorted(sizes)
        # compilers give areas of separate scopes the same place: the largest array and everything small
        out[F.name] = (big[-1] if big else 0) + sum(x for x in big[:-1] if x < 1024) + 256
    return out


def graph(P):
    G = {}
    by = {F.name: F for F in P.repo_funcs if not F.decl}
    for F in by.values():
        S = G.setdefault(F.name, set())
        for J in F.calls():
            if J.callee:
                if J.callee in by: S.add(J.callee)
            else: S |= {t if isinstance(t, str) else t.name for t in virtual_targets(P, F, J)} & set(by)
        for I in F.insts():
            for o in I.a:
                if o[0] in 'fg' and o[1] in by and not (I.op in ('call', 'invoke') and I.callee == o[1]): S.add(o[1])      # handed over as a callback
    return G, by


def recursion(K, P, fr):
    G, by = graph(P)
    S = Sccp(P)
    limits, args = {}, {}
    for c in sccs(sorted(G), lambda n: sorted(G[n])):
        if len(c) == 1 and c[0] not in G[c[0]]: continue
        Fs = [by[n] for n in c]
        names = sorted({F.short for F in Fs})
        if all('~' in n for n in names): continue
        K.count('recursions')
        key = 'recursion:' + names[0]
        core = [F for F in Fs if '~' not in F.short]
        if any(n in WALKERS for n in names) and not any(n in GUARDED for n in names): continue
        if set(names) <= {'BW_pool::getDocTypeName', 'BW_symbol_table_16B::getName', 'BW_pool::getTagName', 'BW_pool::getAttrName'}: continue       # looked at below
        # one function of the cycle counts the depth, in an argument or in memory, and stops
        found = None
        for F in core:
            for run_, calls in counters(P, S, F, core, c):
                down = lambda d: calls_in(P, run_(d), F, c)
                if down(1 << 20) or not down(1): continue
                lo, hi = 1, 1 << 20
                while hi - lo > 1:
                    m = (lo + hi) // 2
                    if down(m): lo = m
                    else: hi = m
                if found is None or all(u for _, u in calls[0]) and not all(u for _, u in found[2]): found = (F, lo, calls[0], calls[1])
        ok = found is not None
        if ok:
            F, limit, L, i = found
            for J, up in L:
                K.count('recursive calls')
                K.ob('the depth grows with every recursive call', key + ':grows', up, J.where, '%s calls %s without a greater depth' % (J.fn.short, F.short))
            limits[F.short] = limit
            args[F.name] = i
        K.ob('recursion stops at a depth', key, ok, Fs[0].where, '%s is recursive and no depth ends it' % ', '.join(names))
        if ok:
            need = (limit + 2) * sum(fr[n] for n in c)
            K.ob('the deepest recursion fits into the stack', key + ':fits', need <= STACK, Fs[0].where, '%s needs %d bytes of stack at depth %d' % (', '.join(names), need, limit))
    R = limits.get('XML_Item::Check')
    if R is None: return None
    for n in GUARDED: K.need(n in limits or any(o[1].startswith('recursion:') and not o[2] for o in K.obligations), 'the recursion of %s' % n)
    for F in P.repo_funcs:                      # walkers over documents as deep as a reader accepts
        if F.short in WALKERS and 'depth was' in WALKERS[F.short] or WALKERS.get(F.short) in ('a checked document', 'a converted document'):
            K.ob('the deepest recursion fits into the stack', 'walker:' + F.short, (R + 2) * fr[F.name] <= STACK, F.where, '%s needs %d bytes of stack in a document of depth %d' % (F.short, (R + 2) * fr[F.name], R))
    # where the recursion starts
    for n in GUARDED:
        for F in P.find(n):
            i = args.get(F.name)
            if i is None: continue
            for g in P.repo_funcs:
                for J in g.calls():
                    if J.callee == F.name and g.name not in {F.name} and J.a[i][0] == 'c':
                        K.ob('a recursion starts at depth zero', 'start:%s:%s' % (n, g.short), 0 <= J.a[i][1] <= 2, J.where, '%s starts %s at depth %d' % (g.short, n, J.a[i][1]))
    return R


def counters(P, S, F, core, c):
    """what may count the depth: (run with a depth, ([(recursive call, counts)], number of the argument))"""
    for i in range(len(F.args)):
        L = growth(P, F, i, core)
        yield (lambda d, i=i: S.run(F, {i: C(d)})), (L, i)
    cells = {}
    for I in F.insts():
        if I.op == 'load' and I.raw['sz'] in (2, 4, 8):
            s = shape(F, I.a[0])
            if s[0] == 'a' or s[0] == 'gep' and s[1][0] == 'a' and not s[3]: cells.setdefault((s, I.raw['sz']), I)
    for (s, z), I in cells.items():
        at = s[2] if s[0] == 'gep' else 0
        where = lambda f, o: (lambda t: t[2] if t[0] == 'gep' and not t[3] else 0 if t[0] in ('a', 'v', 'ld') else None)(shape(f, o))
        ups = []
        for f in core:
            for J in f.insts():
                if J.op != 'store' or J.raw['sz'] != z or where(f, J.a[1]) != at or J.a[0][0] != 'v': continue
                A = f.inst[J.a[0][1]]
                if A.op == 'add' and any(x[0] == 'c' and x[1] > 0 for x in A.a): ups.append(J)
        L = [(J, any(u.fn is not f or f.inst_dominates(u, J) for u in ups)) for f in core for J in f.calls() if stays(P, f, J, c)]
        yield (lambda d, s=s, z=z: S.run(F, {}, loads=lambda I, a, R: C(d, 8 * z) if I.fn is F and I.raw['sz'] == z and shape(F, I.a[0]) == s else None)), (L, None)


def growth(P, F, i, core):
    """[(recursive call, the depth grows)]: the argument is followed through all functions of the cycle"""
    by = {f.name: f for f in core}
    edges = [(f, J, g) for f in core for J in f.calls() for g in ([J.callee] if J.callee else sorted(t if isinstance(t, str) else t.name for t in virtual_targets(P, f, J))) if g in by]
    idx = {F.name: i}

    def given(f, v):
        """(number of the argument, what is added)"""
        if v[0] == 'a': return v[1], 0
        I = f.inst.get(v[1]) if v[0] == 'v' else None
        if I is not None and I.op == 'add':
            for x, y in ((I.a[0], I.a[1]), (I.a[1], I.a[0])):
                if y[0] == 'c':
                    r = given(f, x)
                    if r: return r[0], r[1] + y[1]
        if I is not None and I.op in ('sext', 'zext', 'trunc'): return given(f, I.a[0])
        return None
    more = True
    while more:
        more = False
        for f, J, g in edges:
            if g in idx and f.name not in idx and idx[g] < len(J.a):
                r = given(f, J.a[idx[g]])
                if r: idx[f.name] = r[0]; more = True
    for f in core:                                  # other functions told the same way (overridden methods)
        if f.name not in idx and len(f.args) == len(F.args): idx[f.name] = i
    L, same = [], {}
    for f, J, g in edges:
        r = given(f, J.a[idx[g]]) if g in idx and idx[g] < len(J.a) else None
        ok = r is not None and r[1] >= 0 and idx.get(f.name) == r[0]
        L.append((J, ok))
        if ok and r[1] == 0: same.setdefault(f.name, set()).add(g)
    for c in sccs(sorted(by), lambda n: sorted(same.get(n, ()))):
        if len(c) > 1 or c[0] in same.get(c[0], ()): L = [(J, u and not (J.fn.name in c and set(c) & ({J.callee} if J.callee else set(by)))) for J, u in L]
    return L


def stays(P, F, I, cycle):
    return I.callee in cycle or any(x[0] in 'fg' and x[1] in cycle for x in I.a) or I.callee is None and bool({t if isinstance(t, str) else t.name for t in virtual_targets(P, F, I)} & set(cycle))


def calls_in(P, R, F, cycle):
    """reachable calls which stay in the cycle"""
    return [I for I in R.insts() if I.op in ('call', 'invoke') and stays(P, F, I, cycle)]


def replace(m, n):
    for k in list(m): m.pop(k, None)
    m.update(n)


class Deeper(World):
    """the source tells its elements at a greater depth"""
    offset = 0

    def calls(self, I, n, av, T, mem):
        if n and n.endswith('i') and 'ForAllChildrenRecursively' in n and len(av) >= 5 and av[4] is not None and av[4][0] == 'c' and av[4][1] == 0 and self.offset:
            args = dict(enumerate(av)); args[4] = C(self.offset)
            out = []
            for e in T.run_(self.P.funcs[n], args, mem, 10, None):
                def eff(m, e=e): replace(m, e.mem)
                if e.kind != 'ret': out.append((None, 'end')); continue
                out.append((e.ret, eff))
            return out
        return super().calls(I, n, av, T, mem)


def conversions(K, P, R):
    """what is deeper than a reader accepts is refused before anything is written"""
    single = E('a', v='7')
    for to in ('xb', 'xbw'):
        for kind in ('xml', 'json'):
            src = from_xml(P, single) if kind == 'xml' else from_json(P, JSONS['empty'])
            plugin = 'Bin_xml_plugin' if kind == 'xml' else 'Bin_json_plugin'
            extra = 0 if kind == 'xml' else 1                 # depth of the JSON text below its root
            if kind == 'json' and to == 'xbw': continue       # never converted
            for d, want in ((R - 2 - extra, 1), (R - 1 - extra, 0), (R, 0), (3 * R, 0)):
                root, mem, files = src
                W = Deeper(P, files, root); W.offset = d
                calls, which = way(P, 'source', plugin, to)
                F = calls[which][0]
                key = 'convert:%s:%s:%s' % (kind, to, {R - 2 - extra: 'accepted', R - 1 - extra: 'first', R: 'limit'}.get(d, 'deep'))
                K.count('conversions')
                for ans, m, e, up_ in steps(K, machine(P, W), Mem(mem), key, calls):
                    r = None if up_ else bit(ans[which])
                    made = [w for w in m.get(('seen', 0, 0), ('list', ()))[1] if w[0] in ('open', 'truncate') and w[1] not in files]
                    if want == 0: K.ob('nothing is written of a document which is refused', key + ':nothing', not made, F.where, 'a document which is refused is started: %s' % (made[:1],))
                    K.ob('a document deeper than a reader accepts is refused', key, r == want, e.where if up_ else F.where, 'an element of depth %d (a reader accepts %d) is %s' % (d + 2 + extra, R, 'converted' if r else 'refused' if r == 0 else 'not answered'))


def appending(K, P, R):
    """an element deeper than a reader accepts is not appended"""
    POOL, PL, CR, DATA, EL = 0x1000000, 0x5000000, 0x6000000, 0x7000000, 0x1001000
    F = P.fn('Bin_xml_creator::Append')
    node = {x.name for x in P.find('Bin_xml_creator::WriteNode')}
    size = {x.name for n in ('Bin_src_plugin::getFileSize', 'Bin_src_plugin::updateFileSize') for x in P.find(n)}
    virt = {f.name for f in P.repo_funcs if f.short.endswith('_plugin::ForAllChildrenRecursively')}
    quiet = {f.name for f in P.repo_funcs if f.short.startswith('BW_plugin::') and f.short.split('::')[1] in ('getNodeName', 'getNodeValue', 'getNodeBinValue', 'getNodeIdx', 'ForAllBinParams', 'ForAllParams', 'ForAllChildren', 'getSymbolTableTypes', 'getTagName', 'getParamName')}
    for d, want in ((0, True), (R - 2, True), (R - 1, False), (R, False), (3 * R, False)):
        m = Mem()
        put = lambda c, at, n, v: (lambda f: store(m, (None, at + f[0]), f[1], ('c', v, 8 * f[1])))(field(P, c, n))
        for n, v in (('dst_file', 9), ('data', DATA), ('data_size_allocated', 1 << 20), ('src', PL), ('total_node_count', 5), ('total_param_count', 5)): put('Bin_xml_creator', CR, n, v)
        m[None, PL, 8] = ('g', '_ZTVN9pklib_xml9BW_pluginE', 16)

        def calls(I, n, av, T, mem):
            if n in node: return [(('s', '&node', 0), lambda m: store(m, place(av[1]), 8, ('c', load(m, place(av[1]), 8)[1] + 24, 64)))]
            if n in ('fstat', 'fstat64', '__fxstat', '__fxstat64'):
                b = place(av[2 if n[0] == '_' else 1])
                return [(C(0), lambda m: store(m, (b[0], b[1] + 48), 8, ('c', 1000, 64)))]
            if n in ('write', 'pwrite', 'pwrite64'): return [(av[2], None)]
            if n in size: return [(C(3000), None)]
            if n in quiet: return [(('c', 0, 64), None)]
            if n in virt:
                g = av[1]
                f = P.funcs.get(g[1]) if g is not None and g[0] == 'g' else None
                if f is None: raise Lost('an unknown function is called for every element', I.where)
                out = []
                for e in T.run_(f, {0: ('c', EL, 64), 1: av[3], 2: C(av[4][1] + d)}, mem, 10, None):
                    out.append((None, (lambda m, e=e: replace(m, e.mem)) if e.kind == 'ret' else 'end'))
                return out
            return None
        K.count('conversions')
        key = 'append:%s' % {0: 'root', R - 2: 'accepted', R - 1: 'first', R: 'limit'}.get(d, 'deep')
        for e in Trace(P, calls=calls, limit=20000).run(F, {0: ('c', CR, 64), 1: ('c', EL, 64)}, m):
            r = bit(e.ret) if e.kind == 'ret' else None
            wr = [x for x in e.ev if x[0] == 'call' and x[2] in node | {'write', 'pwrite', 'pwrite64'}]
            K.ob('an element deeper than a reader accepts is not appended', key, r == (1 if want else 0) and bool(wr) == want, F.where, 'an element of depth %d (a reader accepts %d) is %s' % (d + 2, R, 'appended' if r else 'refused' if not wr else 'written and refused'))


def sorting(K, P):
    """sorting halves its items, whatever they are: an adversary answers the comparisons as bad as possible"""
    ARR = 0x2000000
    for F in [f for n in ('qsort_r2', 'mergesort_r2') for f in P.find(n) if not f.decl]:
        for n in (2, 3, 8, 16, 32, 48):
            for how in ('adversary', 'ordered', 'reverse', 'equal'):
                m = Mem()
                for i in range(n): store(m, (None, ARR + 8 * i), 8, ('c', i, 64))
                st = dict(deep=0, most=0, solid={}, candidate=None)

                def compare(x, y):
                    if how != 'adversary': return {'ordered': x - y, 'reverse': y - x, 'equal': 0}[how]
                    s = st['solid']
                    if x not in s and y not in s: s[x if x == st['candidate'] else y] = len(s)
                    if x not in s: st['candidate'] = x
                    elif y not in s: st['candidate'] = y
                    return s.get(x, 1 << 20) - s.get(y, 1 << 20)

                def calls(I, f, av, T, mem):
                    if f == F.name:
                        st['deep'] += 1; st['most'] = max(st['most'], st['deep'])
                        E_ = T.run_(F, dict(enumerate(av)), mem, 1, None)
                        st['deep'] -= 1
                        return [(e.ret, (lambda m, e=e: replace(m, e.mem)) if e.kind == 'ret' else 'end') for e in E_]
                    if f is not None or not I.raw.get('fp'): return None
                    v = [load(mem, place(p), 8) for p in av[:2]]
                    if None in v: raise Lost('no item is compared', I.where)
                    d = compare(v[0][1], v[1][1])
                    return [(C((d > 0) - (d < 0)), None)]
                K.count('sorted arrays')
                try: E_ = Trace(P, calls=calls, limit=200000, depth=60, decided=0).run(F, {0: ('c', ARR, 64), 1: C(n), 2: C(8), 3: ('s', '&compare', 0), 4: ('c', 0x3000000, 64)}, m); why = None
                except Lost as x: E_ = []; why = str(x)
                K.ob('sorting needs stack for the logarithm of its items', 'sort:%s' % F.short, not why and bool(E_) and st['most'] <= n.bit_length(), F.where, 'sorting %d items (%s) calls %s %d times inside of itself%s' % (n, how, F.short, st['most'], ': ' + why if why else ''))


def names(K, P):
    """the message of a failed check ends although the root cannot be named"""
    POOL, ROOT, NAMES, ALLOC = 0x1000000, 0x200, 0x100, 0x300
    for fn, arg in (('BW_pool::getDocTypeName', None), ('BW_pool::getTagName', 0), ('BW_pool::getTagName', 1), ('BW_pool::getTagName', 99), ('BW_pool::getAttrName', 99), ('BW_pool::getTagType', 99), ('BW_pool::getAttrType', 99)):
        F = P.fn(fn)
        for ident in (0, 1, 2, 77, 32767, -1, -2, -500, -32768):
            for flags in (0x00, 0xff, 0x01):
                for max_id in (-1, 0, 1):
                    m = Mem()
                    m[None, POOL, 0x1000] = ('fill', 0)
                    put = lambda c, at, n, v: (lambda f: store(m, (None, POOL + at + f[0]), f[1], ('c', v, 8 * f[1])))(field(P, c, n))
                    for n, v in (('size', 0x1000), ('pool_format_version', 1), ('file_size', 0x1000), ('mmap_size', 0x1000), ('root', ROOT), ('allocator', ALLOC), ('allocator_limit', 0x1000)): put('BW_pool', 0, n, v)
                    for n, v in (('max_id', max_id), ('names_offset', NAMES)): put('BW_symbol_table_16B', field(P, 'BW_pool', 'tags')[0], n, v); put('BW_symbol_table_16B', field(P, 'BW_pool', 'params')[0], n, v)
                    for n, v in (('identification', ident), ('flags', flags - 256 if flags > 127 else flags)): put('BW_element', ROOT, n, v)
                    for i, b in enumerate(b'\0\0\0a\0\0\0\0\1\0\0b\0\0\0\0'): m[None, POOL + NAMES + i, 1] = ('c', b, 8)

                    def calls(I, n, av, T, mem):
                        f = P.funcs.get(n) if n else None
                        if f is not None and f.short == 'BW_plugins::getPlugin': return [(('c', 0, 64), None)]
                        return None
                    T = Trace(P, calls=calls, limit=20000, depth=24)
                    T.mute = T.mute - {f.name for f in P.find('BW_pool::getDocTypeName')}
                    key = 'name:%s' % fn
                    K.count('messages')
                    try: E_ = T.run(F, {0: ('c', POOL, 64), 1: C(arg or 0)}, m); why = None
                    except Lost as x: E_ = []; why = str(x)
                    rec = {f.name for f in P.find('BW_pool::getDocTypeName')}
                    if any(sum(x[0] == 'enter' and x[2] in rec for x in e.ev) > 3 for e in E_): why = 'it asks again and again for the name of the root'
                    K.ob('the message of a failed check ends', key if why else 'names', why is None and bool(E_), F.where, '%s does not end when the root has the number %d and %d names are known: %s' % (fn, ident, max_id + 1, why))


def run(K):
    P = K.prog
    K.rule('Every local area of every function has a size bounded by a constant (dataflow over its size, its loop and the callers), every cycle of the call graph (direct, virtual and callback edges) is ended by a depth which grows with every call, or follows a '
           'structure whose depth was limited before; a conversion is interpreted with elements told at the depth of the limit. The depth times the frame has to fit into a stack of 8 MB.')
    K.assume('the XML library limits the depth of a document as long as it is not asked to accept huge ones; a library function called here needs a bounded stack')
    fr = frames(K, P)
    R = recursion(K, P, fr)
    if R is not None: conversions(K, P, R); appending(K, P, R)
    sorting(K, P)
    names(K, P)
    for F in P.repo_funcs:
        for J in F.calls():
            if J.callee in ('xmlReadFile', 'xmlReadMemory', 'xmlReadFd', 'xmlCtxtReadFile', 'xmlReadDoc'):
                o = J.a[-1]
                K.count('parsers')
                K.ob('the XML library limits the depth', 'huge:' + F.short, o[0] == 'c' and not o[1] & HUGE, J.where, '%s asks the XML library to accept any depth' % F.short)
    K.minimum('functions', 300); K.minimum('recursions', 10); K.minimum('parsers', 1); K.minimum('conversions', 8 if R is not None else 0)
