"""Exploration of all paths behind one call."""
from .build import AnalysisBroken
from .sccp import binop, icmp, sx, ux, width
from .util import shape

ABORT = ('abort', '_exit', 'exit', '__assert_fail', '__cxa_throw', '_ZSt9terminatev')
END = ('end',)


class Paths:
    """Follows every path from one call whose result is assumed: values that are determined by it (and by constants on
    the path) are tracked, also through memory cells of equal address shape; branches on anything else go both ways.
    Subclasses override step() (END ends the path; otherwise the next value of the path state) and at_ret()."""

    def __init__(self, F, base, fail, LIMIT=60000, state=None):
        self.F = F; self.base = base; self.fail = fail; self.LIMIT = LIMIT
        self.bad = []; self.n = 0; self.state0 = state
        self.backedges = back_edges(F)

    def val(self, env, o):
        if o[0] == 'c': return o
        if o[0] == 'v':
            v = env.get(o[1])
            if v is not None: return v
        v = self.base.val(o)
        return v if v is not None and v[0] in ('c', 'g') else None

    def ev(self, env, mem, I):
        op, A = I.op, I.a
        if I.id in self.fail: return self.fail[I.id]
        v = lambda k: self.val(env, A[k])
        if op == 'icmp':
            a, b = v(0), v(1)
            if A[0] in self.pos and b is not None and b[0] == 'c' and a is None:
                k, p = b[1], I.pred
                if k <= 0 and p in ('sgt', 'sle'): return ('c', -1 if p == 'sgt' else 0, 1)
                if k <= 1 and p in ('sge', 'slt'): return ('c', -1 if p == 'sge' else 0, 1)
                if k <= 0 and p in ('eq', 'ne'): return ('c', -1 if p == 'ne' else 0, 1)
            if a is not None and b is not None and a[0] == 'c' and b[0] == 'c':
                return ('c', -1 if icmp(I.pred, a[1], b[1], max(a[2], b[2])) else 0, 1)
            if a is not None and b is not None and {a[0], b[0]} == {'c', 'g'} and I.pred in ('eq', 'ne'):
                return ('c', 0 if I.pred == 'eq' else -1, 1)
            p = I.pred
            for x, y, q in ((a, b, p), (b, a, {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'eq': 'eq', 'ne': 'ne'}.get(p))):
                # a short or failed transfer differs from the (unknown, positive) requested size
                if x is not None and len(x) > 3 and y is None and q in ('eq', 'ne', 'slt', 'sge', 'sgt', 'sle'):
                    return ('c', -1 if q in ('ne', 'slt', 'sle') else 0, 1)
            return None
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            a = v(0)
            if a is None: return None
            if a[0] == 'g': return a
            w = width(I.t)
            if w is None: return None
            return ('c', sx(ux(a[1], a[2]) if op == 'zext' else sx(a[1], a[2]), w), w) + tuple(a[3:])
        if op == 'select':
            c = v(0)
            if c is not None and c[0] == 'c': return v(1 if c[1] & 1 else 2)
            a, b = v(1), v(2)
            return a if a is not None and a == b else None
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = v(0), v(1)
            if a is not None and b is not None and a[0] == 'c' and b[0] == 'c': return binop(op, a[1], b[1], I.bw or 64)
            for x, y in ((a, b), (b, a)):
                if x is not None and x[0] == 'c' and I.bw == 1:
                    if op == 'and' and x[1] == 0: return x
                    if op == 'or' and x[1] & 1: return x
            return None
        if op == 'getelementptr':
            a = v(0)
            if a is not None and a[0] == 'c':
                off = I.raw['o']
                for x, s in I.raw['vix']:
                    y = self.val(env, x)
                    if y is None or y[0] != 'c': return ('c', 1, 64, 'nullish') if a[1] == 0 else None
                    off += sx(y[1], y[2]) * s
                return ('c', a[1] + off, 64)
            return None
        if op == 'load':
            return mem.get((shape(self.F, A[0]), I.raw['sz']))
        return None

    def step(self, J, env, mem, state):
        return state

    def at_ret(self, T, env, mem, state):
        pass

    def pure(self, n):
        """external function that does not change memory of this program"""
        g = self.F.prog.funcs.get(n)
        return g is None or g.decl

    def local(self, s):
        while s[0] == 'gep': s = s[1]
        return s[0] == 'v' and self.F.inst[s[1]].op == 'alloca'

    def keeps(self, v):
        """constants kept over a back edge and in memory"""
        return False

    def run(self, I):
        F = self.F
        self.pos = set()
        if I.callee in ('malloc', 'calloc', 'realloc'):
            # only a request for some bytes can fail: the factors of the size are positive
            st = [I.a[-1]]
            while st:
                o = st.pop()
                if o[0] != 'v' or o in self.pos: continue
                self.pos.add(o); X = F.inst[o[1]]
                if X.op in ('sext', 'zext', 'trunc', 'freeze') or (X.op in ('mul', 'shl') and X.a[1][0] == 'c'): st.append(X.a[0])
                elif X.op == 'mul' and X.a[0][0] == 'c': st.append(X.a[1])
        start = (I.block, None, I.idx, {}, {}, self.state0)
        st = [start]; seen = set()
        live = self.liveness()
        while st:
            b, p, idx, env, mem, state = st.pop()
            self.n += 1
            if self.n > self.LIMIT: raise AnalysisBroken('too many paths behind %s in %s' % (I.callee, F.short))
            env = dict(env); mem = dict(mem)
            new = {}
            ended = False
            for J in F.blocks[b][idx:]:
                if J.op == 'phi':
                    for x, pb in J.raw['in']:
                        if pb == p:
                            v = self.val(env, x)
                            if (p, b) in self.backedges and v is not None and x[0] == 'v' and v != env.get(J.id) and not self.keeps(v): v = None
                            new[J.id] = v
                    continue
                for k, v in new.items():
                    if v is None: env.pop(k, None)
                    else: env[k] = v
                new = {}
                if J.op in ('br', 'switch', 'ret', 'unreachable'): continue
                state = self.step(J, env, mem, state)
                if state is END: ended = True; break
                if J.op == 'store':
                    a = self.val(env, J.a[1])
                    if a is not None and a[0] == 'c' and -65536 < a[1] < 65536: ended = True; break
                    k = shape(F, J.a[1]); v = self.val(env, J.a[0])
                    for q in list(mem):
                        if q[0] != k and self.may(q[0], k) and not (self.keeps(mem[q]) and self.local(q[0]) and not self.local(k)): del mem[q]
                    for q in list(mem):
                        if q[0] == k: del mem[q]
                    if v is not None and (v[0] == 'c' or self.keeps(v)): mem[k, J.raw['sz']] = v
                    continue
                elif J.op == 'load':
                    a = self.val(env, J.a[0])
                    if a is not None and a[0] == 'c' and -65536 < a[1] < 65536: ended = True; break
                elif J.op in ('call', 'invoke'):
                    n = J.callee or ''
                    if n in ABORT: ended = True; break
                    if (n.startswith('llvm.mem') or n in ('memcpy', 'strcpy', 'memset', 'memmove', 'strlen')):
                        a = self.val(env, J.a[0])
                        if a is not None and a[0] == 'c' and -65536 < a[1] < 65536: ended = True; break
                    g = F.prog.funcs.get(n)
                    if not n.startswith('llvm.dbg') and not n.startswith('llvm.lifetime') and not n.startswith('_ZNSo') and not n.startswith('_ZStls') and not self.pure(n):
                        for q in list(mem):
                            if not (self.keeps(mem[q]) and self.local(q[0])): del mem[q]
                v = self.ev(env, mem, J)
                if v is None: env.pop(J.id, None)
                else: env[J.id] = v
            for k, v in new.items():
                if v is None: env.pop(k, None)
                else: env[k] = v
            if ended: continue
            T = F.blocks[b][-1]
            if T.op == 'unreachable': continue
            if T.op == 'ret':
                self.at_ret(T, env, mem, state)
                continue
            if T.op not in ('br', 'switch', 'invoke'): continue
            succ = F.succ[b]
            c = None
            if T.op == 'br' and T.a:
                c = self.val(env, T.a[0])
                if c is not None and c[0] == 'c': succ = [T.raw['s'][0 if c[1] & 1 else 1]]
                elif T.a[0][0] == 'v':
                    for s, t in ((T.raw['s'][0], -1), (T.raw['s'][1], 0)):
                        e2 = dict(env); e2[T.a[0][1]] = ('c', t, 1)
                        self.push(st, seen, live, b, s, e2, mem, state)
                    continue
            elif T.op == 'switch':
                c = self.val(env, T.a[0])
                if c is not None and c[0] == 'c':
                    succ = [T.raw['d']]
                    for v, t in T.raw['cs']:
                        if ux(v, c[2]) == ux(c[1], c[2]): succ = [t]
            for s in set(succ): self.push(st, seen, live, b, s, env, mem, state)

    def push(self, st, seen, live, b, s, env, mem, state):
        if (b, s) not in self.base.edges: return
        env = {k: v for k, v in env.items() if k in live[s]}
        key = (s, b if self.F.blocks[s][0].op == 'phi' else None, frozenset(env.items()), frozenset(mem.items()), state)
        if key in seen: return
        seen.add(key)
        st.append((s, b, 0, env, mem, state))

    def may(self, a, b):
        """two address shapes may denote the same cell"""
        if a[0] == b[0] == 'gep' and a[1] == b[1] and a[3] == b[3]: return abs(a[2] - b[2]) < 8

        def root(x): return (x[1], x[2]) if x[0] == 'gep' and not x[3] else (x, 0)
        ra, rb = root(a), root(b)
        if ra[0] == rb[0] and not (a[0] == 'gep' and a[3]) and not (b[0] == 'gep' and b[3]): return ra[1] == rb[1]
        la, lb = ra[0], rb[0]
        while la[0] == 'gep': la = la[1]
        while lb[0] == 'gep': lb = lb[1]
        if la[0] == 'v' and lb[0] == 'v' and la != lb and self.F.inst[la[1]].op == 'alloca' and self.F.inst[lb[1]].op == 'alloca': return False
        for x, y in ((la, lb), (lb, la)):
            if x[0] == 'v' and self.F.inst[x[1]].op == 'alloca' and y[0] == 'a': return False
        return True

    def liveness(self):
        """values used in or behind a block"""
        F = self.F
        use = [set() for _ in F.blocks]; own = [set() for _ in F.blocks]
        for b, blk in enumerate(F.blocks):
            for J in blk:
                for o in list(J.a) + [x for x, _ in J.raw.get('in', ())] + [x for x, _ in (J.raw.get('vix') or ())]:
                    if isinstance(o, tuple) and o[0] == 'v' and (o[1] not in own[b] or J.op == 'phi'): use[b].add(o[1])
                if 'fp' in J.raw and J.raw['fp'][0] == 'v' and J.raw['fp'][1] not in own[b]: use[b].add(J.raw['fp'][1])
                own[b].add(J.id)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for b in reversed(range(len(F.blocks))):
                n = len(live[b])
                for s in F.succ[b]: live[b] |= live[s] - own[b]
                if len(live[b]) != n: ch = True
        return live


def reachable(F, b):
    seen = set(); st = list(F.succ[b])
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st += F.succ[x]
    return seen


def back_edges(F):
    out = set(); color = {}
    st = [(0, iter(F.succ[0]))]; color[0] = 1
    while st:
        b, it = st[-1]
        for s in it:
            if color.get(s) == 1: out.add((b, s))
            elif s not in color:
                color[s] = 1; st.append((s, iter(F.succ[s]))); break
        else:
            color[b] = 2; st.pop()
    return out
