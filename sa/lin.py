"""Linear must-facts dataflow over the exported IR.

Values are mapped to linear terms over atoms (arguments, loads, calls, phis, opaque operations).  The dataflow collects
the linear inequalities established by the branch conditions on *every* path to a point (join = keep what both sides
imply).  Facts are discharged by exact Fourier-Motzkin elimination over the facts relevant to the goal."""
from fractions import Fraction
from .sccp import sx, ux

INF = None


class Lin:
    __slots__ = ('c', 'k', '_h')

    def __init__(self, c=None, k=0):
        self.c = c or {}
        self.k = k
        self._h = None

    def key(self):
        if self._h is None:
            self._h = (tuple(sorted(self.c.items(), key=repr)), self.k)
        return self._h

    def __eq__(self, o): return isinstance(o, Lin) and self.c == o.c and self.k == o.k
    def __hash__(self): return hash(frozenset(self.c.items())) ^ hash(self.k)

    def __add__(self, o):
        if isinstance(o, int): return Lin(self.c, self.k + o)
        c = dict(self.c)
        for a, x in o.c.items():
            y = c.get(a, 0) + x
            if y: c[a] = y
            else: c.pop(a, None)
        return Lin(c, self.k + o.k)

    def __neg__(self): return self * -1

    def __sub__(self, o):
        if isinstance(o, int): return Lin(self.c, self.k - o)
        return self + (o * -1)

    def __mul__(self, n):
        if n == 0: return Lin()
        return Lin({a: x * n for a, x in self.c.items()}, self.k * n)

    def is_const(self): return not self.c

    def atoms(self): return self.c.keys()

    def __repr__(self):
        return ' + '.join(['%s*%s' % (x, show_atom(a)) if x != 1 else show_atom(a) for a, x in self.c.items()] + ([str(self.k)] if self.k or not self.c else []))


def show_atom(a):
    if a[0] == 'arg': return 'arg%d' % a[1]
    if a[0] == 'ld': return '[%s]%d' % (a[1], a[2])
    if a[0] in ('v', 'phi', 'call'): return '%%%d' % a[1]
    if a[0] == 'g': return '@' + a[1]
    return '%s(%s)' % (a[0], ','.join(map(repr, a[1:])))


def atom(a): return Lin({a: 1})
def const(k): return Lin({}, k)


def mentions(a, pred):
    """does atom a (recursively) contain an atom satisfying pred"""
    if pred(a): return True
    for x in a[1:]:
        if isinstance(x, Lin):
            for y in x.c:
                if mentions(y, pred): return True
    return False


# ---------------------------------------------------------------------------------------------------------------------
# constraint sets: facts are ('ge', Lin)  meaning Lin >= 0 ; ('ne', Lin)

def norm(l):
    """canonical integer constraint l>=0: divide by gcd and floor the constant"""
    from math import gcd
    g = 0
    for x in l.c.values(): g = gcd(g, abs(x))
    if g > 1: return Lin({a: x // g for a, x in l.c.items()}, l.k // g)
    return l


def fm_unsat(cons, limit=400):
    """True when the conjunction of l>=0 is unsatisfiable over the rationals (with integer tightening)"""
    cs = set()
    for l in cons:
        l = norm(l)
        if l.is_const():
            if l.k < 0: return True
            continue
        cs.add(l)
    while True:
        # drop dominated
        best = {}
        for l in cs:
            key = frozenset(l.c.items())
            if key not in best or l.k < best[key].k: best[key] = l
        cs = set(best.values())
        if not cs: return False
        # choose variable with the fewest products
        pos, neg = {}, {}
        for l in cs:
            for a, x in l.c.items():
                (pos if x > 0 else neg).setdefault(a, []).append(l)
        bestv, bc = None, None
        for a in set(pos) | set(neg):
            n = len(pos.get(a, ())) * len(neg.get(a, ()))
            if bc is None or n < bc: bestv, bc = a, n
        a = bestv
        P, N = pos.get(a, []), neg.get(a, [])
        rest = {l for l in cs if a not in l.c}
        if len(P) * len(N) + len(rest) > limit: return False
        for p in P:
            for n in N:
                l = norm(p * (-n.c[a]) + n * p.c[a])
                if l.is_const():
                    if l.k < 0: return True
                    continue
                if len(l.c) <= 10: rest.add(l)
        cs = rest


_deep = {}


def deep_atom(a):
    """atoms an atom is arithmetically related to (its unsigned/divided operand)"""
    r = _deep.get(a)
    if r is None:
        r = {a}
        if a[0] in ('zx', 'op', 'tr'):
            for x in a[1:]:
                if isinstance(x, Lin): r |= deep(x)
        _deep[a] = r
    return r


def deep(l):
    out = set()
    for a in l.c: out |= deep_atom(a)
    return out


def relevant(goal, facts, rounds=4):
    """facts connected with the goal through shared atoms"""
    at = deep(goal)
    out = set()
    for _ in range(rounds):
        add = {f for f in facts if f not in out and not at.isdisjoint(deep(f))}
        if not add: break
        out |= add
        for f in add: at |= deep(f)
        if len(out) > 90: break
    return out


class Analysis:
    """facts for one function; `res` optionally an sccp Result restricting the executable edges and fixing values"""

    def __init__(self, F, res=None, modset=None, extra=None, max_iter=40, strong_join=True):
        self.F = F; self.prog = F.prog
        self.res = res
        self.modset = modset
        self.tcache = {}
        self.rcache = {}
        self.ax = {}
        self.ind = {}
        self.strong_join = strong_join
        self.extra = extra or []
        self._stored = None
        self.loops()
        self.solve(max_iter)

    # ---- terms ----------------------------------------------------------------------------------------------------
    raw_mode = False

    def raw(self, o):
        """term with every load opaque (used to decide which loads are stable)"""
        sv, self.tcache, self.raw_mode = self.tcache, self.rcache, True
        try: return self.T(o)
        finally: self.tcache, self.raw_mode = sv, False

    def T(self, o):
        """signed linear term of an operand"""
        k = o[0]
        if k == 'c': return const(o[1])
        if k == 'a':
            if self.res is not None:
                v = self.res.val(o)
                if v and v[0] == 'c': return const(v[1])
            return atom(('arg', o[1]))
        if k == 'g': return Lin({('g', o[1]): 1}, o[2])
        if k == 'v':
            if o[1] not in self.tcache:
                self.tcache[o[1]] = atom(('v', o[1]))     # cut cycles
                self.tcache[o[1]] = self._term(self.F.inst[o[1]])
            return self.tcache[o[1]]
        return atom(('x', repr(o)))

    def U(self, o, w):
        """unsigned view of an operand of width w"""
        t = self.T(o)
        if t.is_const(): return const(ux(t.k, w))
        if o[0] == 'v' and self.nonneg_struct(self.F.inst[o[1]]): return t
        if w == 64 and self.is_ptr(o): return t
        return atom(('zx', t, w))

    def is_ptr(self, o):
        if o[0] == 'g': return True
        if o[0] == 'a': return self.F.args[o[1]]['t'] == 'ptr'
        if o[0] == 'v':
            I = self.F.inst[o[1]]
            return I.t == 'ptr' or I.op == 'ptrtoint'
        return False

    def nonneg_struct(self, I):
        if I.op == 'zext': return True
        if I.op == 'and':
            return any(x[0] == 'c' and x[1] >= 0 for x in I.a)
        if I.op in ('lshr', 'urem') and I.a[1][0] == 'c' and I.a[1][1] > 0: return True
        if I.op in ('add', 'mul') and (I.bw or 0) == 64:
            return all((x[0] == 'c' and x[1] >= 0) or (x[0] == 'v' and self.nonneg_struct(self.F.inst[x[1]])) for x in I.a)
        if I.op in ('call',) and I.callee in ('strlen', 'strnlen', 'fread', 'fwrite'): return True
        return False

    def _term(self, I):
        if self.res is not None:
            v = self.res.vals.get(I.id)
            if v is not None and v[0] == 'c': return const(v[1])
        op = I.op; A = I.a
        me = atom(('v', I.id))
        if op == 'phi':
            x = self.single(I)
            return self.T(x) if x is not None else me
        if op == 'add': return self.T(A[0]) + self.T(A[1])
        if op == 'sub': return self.T(A[0]) - self.T(A[1])
        if op in ('mul', 'shl'):
            a, b = self.T(A[0]), self.T(A[1])
            if op == 'shl':
                if b.is_const() and 0 <= b.k < 63: return a * (1 << b.k)
                return me
            if b.is_const(): return a * b.k
            if a.is_const(): return b * a.k
            return me
        if op == 'or' and A[1][0] == 'c' and False: return me
        if op in ('sext', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'): 
            if op == 'sext' and I.raw.get('st') == 'i1': return me
            return self.T(A[0])
        if op == 'zext':
            st = I.raw.get('st', '')
            w = int(st[1:]) if st.startswith('i') else 64
            if w == 1: return me
            return self.U(A[0], w)
        if op == 'trunc':
            # value kept when it fits: treated as the same mathematical value (documented assumption for >= 32 bits)
            if (I.bw or 0) >= 32: return self.T(A[0])
            return atom(('tr', self.T(A[0]), I.bw))
        if op == 'getelementptr':
            t = self.T(A[0]) + I.raw['o']
            for x, s in I.raw['vix']: t = t + self.T(x) * s
            return t
        if op == 'load':
            if self.raw_mode: return me
            if self.load_stable(I, self.raw(A[0]), self.ptr_tag(A[0])):
                return atom(('ld', self.T(A[0]), I.raw['sz']))
            return me
        if op in ('and', 'udiv', 'sdiv', 'lshr', 'ashr', 'urem', 'srem'):
            a, b = self.T(A[0]), self.T(A[1])
            if a.is_const() and b.is_const(): return me
            return atom(('op', op, a, b, I.bw))
        if op == 'select': return me
        return me

    def ptr_tag(self, o):
        """(struct type, const offset) of an access path, None for raw memory"""
        if o[0] == 'v':
            I = self.F.inst[o[1]]
            if I.op == 'getelementptr':
                st = I.raw['st']
                if st.startswith('%') and I.raw['nops'] > 1 and not any(True for _ in []):
                    return (st, I.raw['o'] if not I.raw['vix'] else I.raw['o'])
                return None
        return None

    def single(self, I):
        """the only operand a phi can take on executable edges"""
        xs = {x for x, pb in I.raw['in'] if self.edge_ok(pb, I.block) and x[0] != 'undef'}
        if len(xs) == 1 and self.res is not None:
            x = next(iter(xs))
            if x != ('v', I.id): return x
        return None

    # ---- memory ---------------------------------------------------------------------------------------------------
    def stores(self):
        if self._stored is None:
            L = []
            for I in self.F.insts():
                if I.op == 'store': L.append((self.raw(I.a[1]), I.raw['sz'], self.ptr_tag(I.a[1]), I))
            self._stored = L
        return self._stored

    def may_alias(self, p, sz, tag, q, qs, qtag):
        d = p - q
        if d.is_const(): return -sz < d.k < qs
        if tag != qtag and (tag is not None and qtag is not None): return False
        if (tag is None) != (qtag is None):
            t = tag or qtag
            if t[1] != 0: return False
            if sz != qs: return False
        if sz != qs and (tag is not None or qtag is not None): return False
        for x in (p, q):
            for a in x.c:
                if a[0] == 'v' and self.F.inst[a[1]].op == 'alloca':
                    y = q if x is p else p
                    if a not in y.c and not any(b[0] == 'v' for b in y.c): return False
        return True

    def load_stable(self, I, p, tag):
        """the location is not modified between any two reads in this function"""
        sz = I.raw['sz']
        if any(self.may_alias(p, sz, tag, q, qs, qt) for q, qs, qt, _ in self.stores()): return False
        for c in self.F.calls():
            sv, self.tcache, self.raw_mode = self.tcache, self.rcache, True
            try:
                if self.call_may_modify(c, p, sz, tag): return False
            finally: self.tcache, self.raw_mode = sv, False
        return True

    def call_may_modify(self, c, p, sz, tag):
        return modsets(self.prog).may_modify(self, c, p, sz, tag)

    # ---- loops / induction ----------------------------------------------------------------------------------------
    def loops(self):
        F = self.F
        self.headers = {}
        dom = F.dom()
        for b in F.rpo():
            for s in F.succ[b]:
                if s in dom and F.dominates(s, b): self.headers.setdefault(s, []).append(b)
        self.body = {}
        for h, latches in self.headers.items():
            S = {h}; st = list(latches)
            while st:
                b = st.pop()
                if b in S: continue
                S.add(b)
                st.extend(p for p in F.preds[b] if p in dom)
            self.body[h] = S

    def induction(self, I):
        """(init term list, step const) for an induction phi in a loop header, else None"""
        if I.id in self.ind: return self.ind[I.id]
        r = None
        if I.op == 'phi' and I.block in self.headers:
            inits, steps = [], set()
            ok = True
            me = atom(('v', I.id))
            for x, pb in I.raw['in']:
                if not self.edge_ok(pb, I.block): continue
                t = self.T(x)
                if pb in self.body[I.block]:
                    d = self._steps(x, I, set())
                    if d is None: ok = False
                    else: steps |= d
                else: inits.append(t)
            if ok and steps and inits: r = (inits, steps)
        self.ind[I.id] = r
        return r

    def _steps(self, x, phi, seen):
        """set of constant increments the back-edge value adds to the phi (looking through phis/selects)"""
        me = atom(('v', phi.id))
        d = self.T(x) - me
        if d.is_const(): return {d.k}
        if x[0] == 'v':
            I = self.F.inst[x[1]]
            if I.id in seen: return set()
            seen.add(I.id)
            if I.op == 'phi' and I.block in self.body[phi.block]:
                out = set()
                for y, pb in I.raw['in']:
                    if not self.edge_ok(pb, I.block): continue
                    s = self._steps(y, phi, seen)
                    if s is None: return None
                    out |= s
                return out
            if I.op == 'select':
                a, b = self._steps(I.a[1], phi, seen), self._steps(I.a[2], phi, seen)
                return None if a is None or b is None else a | b
            if I.op in ('add', 'getelementptr'):
                # phi2 + const
                t = self.T(x)
                vs = [a for a in t.c]
                if len(vs) == 1 and t.c[vs[0]] == 1 and vs[0][0] == 'v' and vs[0][1] != I.id:
                    s = self._steps(('v', vs[0][1]), phi, seen)
                    return None if s is None else {k + t.k for k in s}
        return None

    # ---- axioms of atoms ------------------------------------------------------------------------------------------
    def axioms(self, a):
        if a in self.ax: return self.ax[a]
        out = []
        self.ax[a] = out
        me = atom(a)
        k = a[0]
        if k == 'ld':
            out += self._range(a, me)
        elif k == 'zx':
            out += [me, const((1 << a[2]) - 1) - me]
        elif k == 'tr':
            if a[2] and a[2] <= 16: out += [me + (1 << (a[2] - 1)), const((1 << (a[2])) - 1) - me]
        elif k == 'op':
            op, x, y = a[1], a[2], a[3]
            if op == 'and':
                for z in (x, y):
                    if z.is_const() and z.k >= 0: out += [me, const(z.k) - me]
            if y.is_const() and y.k > 0:
                if op in ('urem',): out += [me, const(y.k - 1) - me]
                if op == 'srem': out += [me + (y.k - 1), const(y.k - 1) - me]
                d = y.k if op in ('udiv', 'sdiv') else (1 << y.k if op in ('lshr', 'ashr') else None)
                if d and op == 'ashr': out += [x - me * d, me * d + (d - 1) - x]
        elif k == 'v':
            I = self.F.inst[a[1]]
            if I.bw == 8 and I.op == 'load': out += [me + 128, const(255) - me]
            elif I.bw == 16 and I.op == 'load': out += [me + 32768, const(65535) - me]
            if I.op == 'zext' and I.raw.get('st') == 'i1': out += [me, const(1) - me]
            if I.op == 'call':
                if I.callee in ('strlen', 'strnlen'): out += [me]
                if I.callee == 'strnlen': out.append(self.T(I.a[1]) - me)
                if I.callee in ('read', 'write', 'open', 'close'): out.append(me + 1)
                if I.callee == 'read' or I.callee == 'write': out.append(self.T(I.a[2]) - me)
            if I.op == 'phi':
                r = self.induction(I)
                if r:
                    inits, steps = r
                    if len(inits) == 1:
                        if all(s >= 0 for s in steps): out.append(me - inits[0])
                        if all(s <= 0 for s in steps): out.append(inits[0] - me)
                    else:
                        if all(s >= 0 for s in steps) and all(i.is_const() for i in inits): out.append(me - min(i.k for i in inits))
            if I.op == 'select':
                c = I.a[0]
                if c[0] == 'v':
                    K = self.F.inst[c[1]]
                    if K.op == 'icmp':
                        t1, t2 = self.T(I.a[1]), self.T(I.a[2])
                        for f in self.cond(c, True):
                            if f[0] == 'ge' and f[1] in (t2 - t1, t2 - t1 - 1): out += [t1 - me, t2 - me]
                            if f[0] == 'ge' and f[1] in (t1 - t2, t1 - t2 - 1): out += [me - t1, me - t2]
                t1, t2 = self.T(I.a[1]), self.T(I.a[2])
                if t1.is_const() and t2.is_const(): out += [me - min(t1.k, t2.k), const(max(t1.k, t2.k)) - me]
        return out

    def _range(self, a, me):
        sz = a[2]
        if sz == 1: return [me + 128, const(255) - me]
        if sz == 2: return [me + 32768, const(65535) - me]
        return []

    # ---- conditions -----------------------------------------------------------------------------------------------
    def cond(self, o, val, depth=0):
        """facts implied by boolean operand o having value val"""
        if o[0] != 'v' or depth > 8: return []
        I = self.F.inst[o[1]]
        if I.op == 'icmp':
            p = I.pred
            w = 64
            for x in I.a:
                if x[0] == 'v' and self.F.inst[x[1]].bw: w = self.F.inst[x[1]].bw
                elif x[0] == 'a':
                    t = self.F.args[x[1]]['t']
                    if t.startswith('i'): w = int(t[1:])
                elif x[0] == 'c' and x[2]: w = min(w, x[2]) if w == 64 else w
            if not val:
                p = {'eq': 'ne', 'ne': 'eq', 'ugt': 'ule', 'uge': 'ult', 'ult': 'uge', 'ule': 'ugt', 'sgt': 'sle', 'sge': 'slt', 'slt': 'sge', 'sle': 'sgt'}[p]
            if p in ('eq', 'ne'):
                a, b = self.T(I.a[0]), self.T(I.a[1])
                out = [('ge', a - b), ('ge', b - a)] if p == 'eq' else [('ne', a - b)]
                # boolean tests of zext'ed conditions
                for x, y in ((I.a[0], I.a[1]), (I.a[1], I.a[0])):
                    if y[0] == 'c' and x[0] == 'v':
                        J = self.F.inst[x[1]]
                        if J.op == 'zext' and J.raw.get('st') == 'i1' and y[1] in (0, 1):
                            out += self.cond(J.a[0], (p == 'eq') == (y[1] == 1), depth + 1)
                        if J.bw == 1 and y[2] == 1:
                            out += self.cond(x, (p == 'eq') == (y[1] != 0), depth + 1)
                return out
            if p[0] == 's': a, b = self.T(I.a[0]), self.T(I.a[1])
            else: a, b = self.U(I.a[0], w), self.U(I.a[1], w)
            return [('ge', {'gt': a - b - 1, 'ge': a - b, 'lt': b - a - 1, 'le': b - a}[p[1:]])]
        if I.op in ('and', 'or') and I.bw == 1:
            if (I.op == 'and') == val:
                return self.cond(I.a[0], val, depth + 1) + self.cond(I.a[1], val, depth + 1)
            return []
        if I.op == 'xor' and I.bw == 1:
            for x, y in ((I.a[0], I.a[1]), (I.a[1], I.a[0])):
                if y[0] == 'c' and y[1] & 1: return self.cond(x, not val, depth + 1)
            return []
        if I.op == 'select' and I.bw == 1:
            c, t, f = I.a
            if f[0] == 'c' and not f[1] and val: return self.cond(c, True, depth + 1) + self.cond(t, True, depth + 1)
            if t[0] == 'c' and t[1] and not val: return self.cond(c, False, depth + 1) + self.cond(f, False, depth + 1)
            return [('b', ('v', I.id), val)]
        if I.op in ('freeze',): return self.cond(I.a[0], val, depth + 1)
        if I.op == 'trunc' and I.bw == 1: return self.cond(I.a[0], val, depth + 1)
        if I.op == 'zext' and I.raw.get('st') == 'i1': return self.cond(I.a[0], val, depth + 1)
        if I.op == 'phi':
            x = self.single(I)
            if x is not None: return self.cond(x, val, depth + 1)
            alts = []
            for x, pb in I.raw['in']:
                if not self.edge_ok(pb, I.block) or x[0] == 'undef': continue
                if x[0] == 'c':
                    if bool(x[1] & 1) != val: continue
                    cf = []
                else: cf = self.cond(x, val, depth + 1)
                if pb not in getattr(self, 'out', {}): continue
                if I.block in self.headers: cf = []; alts.append(set()); continue
                alts.append(set(cf) | self.kill_block(set(self.out[pb]) | set(self.edge_facts(pb, I.block)), I.block))
            out = [('b', ('v', I.id), val)]
            if alts: out += list(set.intersection(*alts) if len(alts) > 1 else alts[0])
            return out
        return [('b', ('v', I.id), val)]

    # ---- dataflow -------------------------------------------------------------------------------------------------
    def edge_ok(self, p, b):
        if self.res is None: return True
        return (p, b) in self.res.edges

    def block_ok(self, b):
        return self.res is None or b in self.res.blocks

    def edge_facts(self, p, b):
        """facts generated by traversing p->b"""
        I = self.F.term(p)
        out = []
        if I.op == 'br' and I.a and len(set(I.raw['s'])) == 2:
            out += self.cond(I.a[0], I.raw['s'][0] == b)
            out.append(('b', I.a[0], I.raw['s'][0] == b))
        elif I.op == 'switch':
            t = self.T(I.a[0])
            vs = [v for v, s in I.raw['cs'] if s == b]
            if b != I.raw['d']:
                if len(vs) == 1: out += [('ge', t - vs[0]), ('ge', const(vs[0]) - t)]
                elif vs: out += [('ge', t - min(vs)), ('ge', const(max(vs)) - t)]
            else:
                for v, s in I.raw['cs']:
                    if s != b: out.append(('ne', t - v))
        return [f for f in out if not (f[0] == 'ge' and f[1].is_const())]

    def kill_block(self, facts, b):
        """facts about values (re)defined in b die at its entry"""
        ids = {I.id for I in self.F.blocks[b] if I.t != 'void'}
        out = set()
        for f in facts:
            if f[0] == 'b':
                if f[1][0] == 'v' and f[1][1] in ids: continue
                out.add(f); continue
            if f[0] == 'm':
                if any(mentions(a, lambda y: y[0] == 'v' and y[1] in ids) for l in (f[1], f[3]) for a in l.c): continue
                out.add(f); continue
            if any(mentions(a, lambda y: y[0] == 'v' and y[1] in ids) for a in f[1].c): continue
            out.add(f)
        return out

    def phi_facts(self, facts, p, b):
        """facts for the phis of b coming over edge p->b (copied from the incoming value)"""
        out = set()
        for I in self.F.blocks[b]:
            if I.op != 'phi': break
            for x, pb in I.raw['in']:
                if pb != p: continue
                me = atom(('v', I.id))
                if x[0] == 'undef': continue
                t = self.T(x)
                if I.bw == 1 or (x[0] == 'v' and self.F.inst[x[1]].bw == 1):
                    # boolean phi: carry the condition
                    continue
                if any(mentions(a, lambda y: y[0] == 'v' and self.F.inst[y[1]].block == b) for a in t.c): 
                    continue
                out.add(('ge', me - t)); out.add(('ge', t - me))
                if len(t.c) == 1 and list(t.c.values())[0] == 1:
                    at = next(iter(t.c))
                    for f in facts:
                        if f[0] in ('ge', 'ne') and at in f[1].c:
                            n = f[1].c[at]
                            out.add((f[0], f[1] - t * n + me * n))
        return out

    def transfer(self, b, facts):
        """runs the block: remembered memory contents turn loads into equalities"""
        out = set(facts)
        mem = {f for f in out if f[0] == 'm'}
        if mem: out -= mem
        for I in self.F.blocks[b]:
            if I.op == 'store':
                p = self.T(I.a[1]); sz = I.raw['sz']; tag = self.ptr_tag(I.a[1])
                mem = {m for m in mem if not self.may_alias(m[1], m[2], m[4], p, sz, tag)}
                if I.a[0][0] != 'undef' and sz <= 8: mem.add(('m', p, sz, self.T(I.a[0]), tag))
            elif I.op == 'load' and I.raw['sz'] <= 8:
                v = self.T(('v', I.id))
                p = self.T(I.a[0]); hit = False
                if v.c.keys() == {('v', I.id)}:
                    for m in mem:
                        if m[1] == p and m[2] == I.raw['sz']:
                            hit = True
                            if m[3] != v:
                                out.add(('ge', v - m[3])); out.add(('ge', m[3] - v))
                    if not hit: mem.add(('m', p, I.raw['sz'], v, self.ptr_tag(I.a[0])))
            elif I.op in ('call', 'invoke') and mem:
                mem = {m for m in mem if not self.call_may_modify(I, m[1], m[2], m[4])}
        return out | mem

    def solve(self, max_iter):
        F = self.F
        order = [b for b in F.rpo() if self.block_ok(b)]
        self.inn = {0: set(self.extra)}
        self.out = {}
        changed = True
        it = 0
        while changed and it < max_iter:
            changed = False; it += 1
            for b in order:
                if b != 0:
                    ins = []
                    back = False
                    for p in F.preds[b]:
                        if not self.block_ok(p) or not self.edge_ok(p, b): continue
                        if p not in self.out: back = True; continue
                        fs = set(self.out[p]) | set(self.edge_facts(p, b))
                        ph = self.phi_facts(fs, p, b)
                        fs = self.kill_block(fs, b) | ph
                        ins.append(fs)
                    if not ins: continue
                    new = self.join(ins)
                    if b in self.inn:
                        # monotone: only shrink
                        old = self.inn[b]
                        new = {f for f in new if f in old} if it > 2 else new
                        if new == old: continue
                    self.inn[b] = new
                    changed = True
                elif b in self.out: continue
                self.out[b] = self.transfer(b, self.inn[b])
        self.iterations = it

    def join(self, ins):
        if len(ins) == 1: return ins[0]
        base = set.intersection(*ins)
        if not self.strong_join: return base
        cand = set().union(*ins) - base
        cand = [f for f in cand if f[0] == 'ge' and len(f[1].c) <= 4]
        if len(cand) > 160: cand = cand[:160]
        for f in cand:
            if all(f in s or self.implied(f[1], s) for s in ins): base.add(f)
        return base

    # ---- queries --------------------------------------------------------------------------------------------------
    def expand(self, goal, facts, strict=False):
        """ge-constraints relevant to goal, with the axioms of their atoms"""
        ge = [f[1] for f in facts if f[0] == 'ge']
        pool = set(ge)
        rel = relevant(goal, pool)
        seen = set()
        out = set(rel)
        work = set(goal.c)
        for l in rel: work |= set(l.c)
        for _ in range(3):
            new = set()
            for a in work - seen:
                seen.add(a)
                for x in self.axioms(a):
                    if x not in out:
                        out.add(x)
                        new |= set(x.c)
                        for y in relevant(x, pool, 1):
                            if y not in out: out.add(y); new |= set(y.c)
            work = new
            if not work: break
        # unsigned views equal the signed value when that is known to be non-negative
        zs = [a for l in list(out) + [goal] for a in l.c if a[0] == 'zx']
        for a in set(zs):
            t = a[1]
            sub = relevant(t, pool, 3)
            if self._nonneg(t, sub):
                out.add(atom(a) - t); out.add(t - atom(a))
        for a in {a for l in list(out) + [goal] for a in l.c if a[0] == 'op' and a[1] in ('udiv', 'sdiv', 'lshr') and a[3].is_const() and a[3].k > 0}:
            x = a[2]; d = a[3].k if a[1] != 'lshr' else 1 << a[3].k
            sub = relevant(x, pool, 3)
            if self._nonneg(x, sub):
                out.add(x - atom(a) * d); out.add(atom(a) * d + (d - 1) - x)
        return out

    def _nonneg(self, t, facts):
        cons = set(facts)
        for l in list(facts) + [t]:
            for a in l.c: cons.update(self.axioms(a))
        return fm_unsat(list(cons) + [const(-1) - t])

    def implied(self, goal, facts):
        """facts |= goal >= 0"""
        if goal.is_const(): return goal.k >= 0
        if ('ge', goal) in facts: return True
        cons = self.expand(goal, facts)
        neg = const(-1) - goal
        if fm_unsat(list(cons) + [neg]): return True
        # use disequalities at the border: goal-1>=0 not provable, but goal>=-1.. with ne
        nes = [f[1] for f in facts if f[0] == 'ne']
        if nes:
            cons2 = set(cons)
            ch = True; n = 0
            while ch and n < 4:
                ch = False; n += 1
                for l in nes:
                    for s in (1, -1):
                        m = l * s
                        if (m - 1) in cons2: continue
                        if not (set(m.c) & set().union(*[set(x.c) for x in cons2 | {goal}])): continue
                        if fm_unsat(list(cons2) + [const(-1) - m]):
                            cons2.add(m - 1); ch = True
            if cons2 != cons and fm_unsat(list(cons2) + [neg]): return True
        return False

    def at(self, b, I=None):
        """facts in block b (SSA facts hold in the whole block, memory facts at its end)"""
        return self.out.get(b, None)

    def on_edge(self, p, b):
        return set(self.out.get(p, ())) | set(self.edge_facts(p, b))

    def proves(self, b, goal): 
        f = self.at(b)
        return f is None or self.implied(goal, f)

    def proves_edge(self, p, b, goal):
        if p not in self.out: return True
        return self.implied(goal, self.on_edge(p, b))


# ---------------------------------------------------------------------------------------------------------------------
PURE = {'strlen', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'strchr', 'strrchr', 'strstr', 'memcmp', 'memchr', 'atoi', 'atol',
        'strnlen', 'isspace', 'isdigit', 'isxdigit', 'isalpha', 'fprintf', 'printf', 'puts', 'putchar', 'fflush', 'fputc', 'fputs',
        'strerror', 'perror', '__errno_location', '__assert_fail', 'free', 'malloc', 'calloc', 'close', 'munmap', 'open', 'msync', 'fclose',
        'fopen', '_exit', 'exit', 'abort', 'time', 'sysconf', 'write', 'fwrite', 'toupper', 'tolower', '_Znwm', '_Znam', '_ZdlPv', '_ZdaPv',
        '_ZdlPvm', '_ZdaPvm', 'ftruncate', 'lseek', 'unlink', '__ctype_b_loc', 'pthread_self', 'getpid', 'fsync', 'flock'}


def is_pure(n):
    return n in PURE or n.startswith(('_ZStls', '_ZNSo', '_ZSt4endl', '_ZNSt8ios_base', '_ZSt4setw', '_ZSt7setfill', 'llvm.dbg', 'llvm.lifetime',
                                      'llvm.expect', 'llvm.abs', 'llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin', 'llvm.va_', 'llvm.fmul', 'llvm.fabs'))


class ModSets:
    """interprocedural set of written locations, by access path (struct type, offset); None = raw memory"""

    def __init__(self, prog):
        self.prog = prog
        self.m = {}
        direct = {}
        edges = {}
        for f in prog.funcs.values():
            if f.decl: continue
            s = set(); e = set()
            for I in f.insts():
                if I.op == 'store':
                    if self.local(f, I.a[1]): continue
                    s.add((self.tag(f, I.a[1]), I.raw['sz']))
                elif I.op in ('call', 'invoke'):
                    n = I.callee
                    if n is None: s.add('any'); continue
                    if n in prog.funcs and not prog.funcs[n].decl: e.add(n); continue
                    if is_pure(n): continue
                    s.add((None, None))
            direct[f.name] = s; edges[f.name] = e
        self.m = direct
        ch = True
        while ch:
            ch = False
            for n in direct:
                for e in edges[n]:
                    if not self.m[e] <= self.m[n]:
                        self.m[n] |= self.m[e]; ch = True

    def tag(self, f, o):
        if o[0] == 'v':
            I = f.inst[o[1]]
            if I.op == 'getelementptr' and I.raw['st'].startswith('%') and I.raw['nops'] > 1: return (I.raw['st'], I.raw['o'])
        return None

    def local(self, f, o):
        while o[0] == 'v':
            I = f.inst[o[1]]
            if I.op == 'alloca': return True
            if I.op in ('getelementptr', 'bitcast'): o = I.a[0]; continue
            return False
        return False

    def root_alloca(self, A, p):
        for a in p.c:
            if a[0] == 'v' and A.F.inst[a[1]].op == 'alloca': return a[1]
        return None

    def may_modify(self, A, c, p, sz, tag):
        n = c.callee
        al = self.root_alloca(A, p)
        args = [A.T(x) for x in c.a if x[0] in ('v', 'a', 'g')]
        if al is not None:
            # a local object changes only through a pointer to it
            if not any(('v', al) in t.c for t in args) and not self.escapes(A.F, al): return False
            if not any(('v', al) in t.c for t in args): return n is None or (not is_pure(n))
        if n is None: return True
        if n in self.prog.funcs and not self.prog.funcs[n].decl:
            for e in self.m[n]:
                if e == 'any': return True
                t, s = e
                if t is None:
                    if tag is None: return True
                    if tag[1] == 0 and (s is None or s == sz): return True
                    continue
                if tag is None:
                    if t[1] == 0 and s == sz: return True
                    if al is not None: return True
                    continue
                if t == tag: return True
            return False
        if is_pure(n): return False
        if n in ('memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'snprintf', 'sprintf', 'strcat') or n.startswith('llvm.mem'):
            q = A.T(c.a[0])
            size = None
            if n.startswith(('mem', 'llvm.mem', 'strncpy')): 
                t = A.T(c.a[2]); size = t.k if t.is_const() else None
            if n == 'snprintf':
                t = A.T(c.a[1]); size = t.k if t.is_const() else None
            d = p - q
            if d.is_const() and size is not None: return -sz < d.k < size
            ra, rq = al, self.root_alloca(A, q)
            if (ra is None) != (rq is None) or (ra is not None and ra != rq): return False
            if tag is not None and rq is None and not d.is_const(): return tag[1] == 0 and False or self.same_root(p, q)
            return True
        # unknown external function: through its pointer arguments
        return any(self.same_root(p, t) for t in args) if (tag is not None or al is not None) else True

    def same_root(self, p, q):
        return any(a in q.c for a in p.c)

    def escapes(self, F, al):
        for u in F.users().get(('v', al), ()):
            if u.op == 'store' and u.a[0] == ('v', al): return True
            if u.op in ('phi', 'select', 'ptrtoint'): return True
        return False


def modsets(prog):
    if getattr(prog, '_modsets', None) is None: prog._modsets = ModSets(prog)
    return prog._modsets
