"""Helpers shared by the checks: struct layouts, success paths, loop coverage, must-pass queries."""
from .build import AnalysisBroken
from .lin import Lin, atom, const, Analysis
from .sccp import Sccp, C


def layout(prog, cls):
    t = prog.types.get(cls)
    if not t or not t['m']: raise AnalysisBroken('type %s not found' % cls)
    return t


def field(prog, cls, name):
    """(offset, size) of a member, looking through base classes"""
    for m in layout(prog, cls)['m']:
        if m['n'] == name and not m['inh']: return m['o'], m['bits'] // 8
    for m in layout(prog, cls)['m']:
        if m['inh']:
            try:
                o, s = field(prog, m['n'], name)
                return m['o'] + o, s
            except AnalysisBroken:
                pass
    raise AnalysisBroken('member %s::%s not found' % (cls, name))


def sizeof(prog, cls): return layout(prog, cls)['sz']


def ld(base, off, sz): return atom(('ld', base + off, sz))


def fld(prog, base, cls, name):
    o, s = field(prog, cls, name)
    return ld(base, o, s)


def enum(prog, name):
    if name not in prog.enums: raise AnalysisBroken('enumerator %s not found' % name)
    return prog.enums[name]


def ret_edges(F, res=None):
    """[(pred, block, operand)] for every way a value reaches a return: pred->block edge on which operand is selected
    (pred None: the whole block)"""
    out = []

    def ok_edge(p, b): return res is None or (p, b) in res.edges

    def go(o, p, b, seen):
        if o[0] == 'v':
            I = F.inst[o[1]]
            if I.op == 'phi' and (I.block == b or p is None) and I.id not in seen:
                for x, pb in I.raw['in']:
                    if ok_edge(pb, I.block): go(x, pb, I.block, seen | {I.id})
                return
            if I.op == 'phi' and p is not None and I.block == p and I.id not in seen and all(
                    J.op in ('phi', 'br') or J.op == 'switch' for J in F.blocks[p]):
                for x, pb in I.raw['in']:
                    if ok_edge(pb, I.block): go(x, pb, I.block, seen | {I.id})
                return
        out.append((p, b, o))

    for b, blk in enumerate(F.blocks):
        if res is not None and b not in res.blocks: continue
        I = blk[-1] if blk else None
        if I is not None and I.op == 'ret' and I.a:
            go(I.a[0], None, b, frozenset())
    return out


def nonzero_rets(F, res=None):
    """return edges on which the result can be different from 0/false/null"""
    out = []
    for p, b, o in ret_edges(F, res):
        v = res.val(o) if res is not None else (o if o[0] == 'c' else None)
        if v is not None and v[0] == 'c' and v[1] == 0: continue
        out.append((p, b, o))
    return out


def facts_ret(A, p, b, o, truth=True):
    """facts holding when the return happens over this edge with operand o being non-zero"""
    f = set(A.on_edge(p, b)) if p is not None else set(A.out.get(b, ()))
    if o[0] == 'v' and A.F.inst[o[1]].bw == 1: f |= set(A.cond(o, truth))
    return f


def ret_cases(A, res=None):
    """[(facts, operand, block)] for every way a value is returned; selects are split into their two cases"""
    out = []

    def go(o, facts, b):
        if o[0] == 'v' and A.F.inst[o[1]].op == 'select':
            I = A.F.inst[o[1]]
            for x, t in ((I.a[1], True), (I.a[2], False)): go(x, facts | set(A.cond(I.a[0], t)), b)
        else: out.append((facts, o, b))
    for p, b, o in ret_edges(A.F, res):
        go(o, set(A.on_edge(p, b)) if p is not None else set(A.out.get(b, ())), b if p is None else p)
    return out


def loop_cover(A, facts, lo, hi):
    """some induction value that starts at lo, steps by a constant step>0 (any step) and is >= hi under `facts`
    (or runs down from hi-step to below lo): returns (phi inst, step) or None.  lo/hi are linear terms; a step other
    than 1 is accepted for pointers (hi-lo must then be a multiple by construction)"""
    F = A.F
    for h in A.headers:
        for I in F.blocks[h]:
            if I.op != 'phi': break
            r = A.induction(I)
            if not r or len(r[1]) != 1: continue
            inits, steps = r
            s = next(iter(steps))
            me = atom(('v', I.id))
            if s > 0 and all((i - lo).is_const() and (i - lo).k == 0 for i in inits):
                if A.implied(me - hi, facts) or A.implied(hi - me, facts) and A.implied(me - hi, facts): return I, s
            if s < 0:
                # counts down: inits == hi (pre-decrement test) or hi+s ; ends below lo / at lo
                if all((i - hi).is_const() and (i - hi).k in (0, s) for i in inits):
                    k = (inits[0] - hi).k
                    if k == s and A.implied(lo - 1 - me, facts): return I, s
                    if k == 0 and A.implied(lo - me, facts): return I, s
    return None


def must_pass(F, blocks, target, res=None):
    """every path entry->target goes through one of `blocks`"""
    blocks = set(blocks)
    if target in blocks: return True
    if 0 in blocks: return True
    seen = {0}; st = [0]
    while st:
        b = st.pop()
        if b == target: return False
        for s in F.succ[b]:
            if res is not None and (b, s) not in res.edges: continue
            if s in blocks or s in seen: continue
            seen.add(s); st.append(s)
    return True


def calls_to(F, prog, short):
    """calls in F whose callee's short name matches"""
    names = {f.name for f in prog.by_short.get(short, [])}
    return [c for c in F.calls() if c.callee in names]


def in_loop(A, b):
    return [h for h in A.body if b in A.body[h]]


def shape(F, o, depth=12):
    """structural form of an address or value: two operands of equal shape denote the same place as long as the
    memory they are read through is not changed in between"""
    if o[0] != 'v' or depth == 0: return o
    I = F.inst[o[1]]
    if I.op in ('bitcast', 'freeze', 'zext', 'sext', 'trunc'): return shape(F, I.a[0], depth - 1)
    if I.op == 'load': return ('ld', I.raw['sz'], shape(F, I.a[0], depth - 1))
    if I.op == 'getelementptr':
        off = I.raw['o']; parts = []
        b = shape(F, I.a[0], depth - 1)
        for x, s in I.raw['vix']: parts.append((s, shape(F, x, depth - 1)))
        if b[0] == 'gep': off += b[2]; parts = list(b[3]) + parts; b = b[1]
        return ('gep', b, off, tuple(sorted(parts, key=repr)))
    return o


def shape_has(s, pred):
    if pred(s): return True
    return isinstance(s, tuple) and any(shape_has(x, pred) for x in s if isinstance(x, tuple))


class Peval:
    """Partial evaluation of one function by constant propagation: pointer arguments are bound to symbolic constant
    bases (disjoint integer ranges), selected memory cells to constants; everything else stays unknown.  Cells of the
    bound regions are tracked through stores with known addresses (stores through unknown addresses are assumed not to
    hit the bound regions); each round only relies on the over-approximation computed by the round before."""

    def __init__(self, prog, F, args, mem=None, calls=None, loads=None, effects=None):
        self.F = F; self.mem = mem or {}; self.user_loads = loads; self.effects = effects
        S = Sccp(prog)
        stsz = {I.raw['sz'] for I in F.insts() if I.op == 'store'}
        prev = None; sig = None
        for it in range(8):
            def ld_(I, a, R, prev=prev):
                if a is not None and a[0] == 'c':
                    if prev is None:
                        if I.raw['sz'] not in stsz: return self.init(a[1], I.raw['sz'])
                    elif I.block in prev.blocks:
                        v = self.back(prev, I, a[1], I.raw['sz'])
                        if v is not None: return v
                if loads: return loads(I, a, R)
                return None
            R = S.run(F, args, loads=ld_, calls=calls)
            ns = (frozenset(R.edges), frozenset((k, v) for k, v in R.vals.items()))
            if ns == sig: break
            sig = ns; prev = R
        self.R = R

    def init(self, a, sz):
        if (a, sz) in self.mem:
            v = self.mem[a, sz]
            return v if isinstance(v, tuple) else ('c', v, sz * 8)
        return None

    def back(self, R, I, addr, sz):
        """value of the cell before I, or None when unknown"""
        F = self.F
        UNK = ('unknown',)
        seen = set()

        def scan(b, upto):
            for J in reversed(F.blocks[b][:upto]):
                if J.op == 'store':
                    a = R.const(J.a[1])
                    if a is None: continue
                    if a == addr and J.raw['sz'] == sz:
                        v = R.val(J.a[0])
                        return v if v is not None and v[0] in ('c', 'g') else UNK
                    if a < addr + sz and addr < a + J.raw['sz']: return UNK
                elif J.op in ('call', 'invoke'):
                    if J.callee and (J.callee.startswith('llvm.dbg') or J.callee.startswith('llvm.lifetime')): continue
                    if self.effects:
                        e = self.effects(J, [R.val(x) for x in J.a], R)
                        if e is not None:
                            if (addr, sz) in e:
                                v = e[addr, sz]
                                return UNK if v is None else v if isinstance(v, tuple) else ('c', v, sz * 8)
                            if any(a < addr + sz and addr < a + n for a, n in e): return UNK
                            continue
                    for x in J.a:
                        if R.const(x) is not None and abs(R.const(x)) >= 0x10000 and R.const(x) == addr: return UNK
            out = None
            if b == 0:
                v = self.init(addr, sz)
                out = v if v is not None else UNK
            for p in F.preds[b]:
                if (p, b) not in R.edges or p in seen: continue
                seen.add(p)
                v = scan(p, len(F.blocks[p]))
                if v is None: continue
                if out is None: out = v
                elif out != v: return UNK
            return out
        v = scan(I.block, I.idx)
        return None if v is None or v == UNK else v

    def at_return(self, addr, sz):
        """set of values the cell can have when the function returns (None for unknown)"""
        out = set()
        for I in self.R.returns():
            out.add(self.back(self.R, I, addr, sz))
        return out

    def loads(self):
        """executable loads: (inst, constant address or None, size)"""
        return [(I, self.R.const(I.a[0]), I.raw['sz']) for I in self.R.insts() if I.op == 'load']

    def stores(self):
        """executable stores: (inst, constant address or None, size, constant value or None)"""
        return [(I, self.R.const(I.a[1]), I.raw['sz'], self.R.const(I.a[0])) for I in self.R.insts() if I.op == 'store']

    def calls(self):
        return [(I, [self.R.const(x) for x in I.a]) for I in self.R.insts() if I.op in ('call', 'invoke')]


def vtables(prog):
    """{class dn: {slot offset (from the address point): function name}} of the primary vtables"""
    if hasattr(prog, '_vt'): return prog._vt
    out = {}
    for n, g in prog.globals.items():
        if not n.startswith('_ZTV') or not g.get('init'): continue
        agg = g['init'].get('agg')
        if not agg: continue
        first = agg[0][1].get('agg') or []
        out[g.get('dn', n).replace('vtable for ', '').replace('pklib_xml::', '')] = {o - 16: v.get('g') for o, v in first if o >= 16}
    prog._vt = out
    return out


def virtual_targets(prog, F, J, classes=None):
    """names of functions an indirect call through a vtable may reach (empty: not a virtual call)"""
    fp = J.raw.get('fp')
    if J.callee is not None or not fp: return set()
    s = shape(F, tuple(fp))
    if s[0] != 'ld': return set()
    a = s[2]; off = 0
    if a[0] == 'gep':
        if a[3]: return set()
        off = a[2]; a = a[1]
    if a[0] != 'ld': return set()
    return {t[off] for c, t in vtables(prog).items() if (classes is None or c in classes) and t.get(off)}


class Terms:
    """Linear terms in which a load from a local slot that is written once stands for the written value."""

    def __init__(self, A):
        self.A = A; self.F = A.F
        self.busy = set()
        w = {}
        for I in A.F.insts():
            if I.op == 'store':
                t = A.T(I.a[1])
                if len(t.c) == 1:
                    a = next(iter(t.c))
                    if a[0] == 'v' and A.F.inst[a[1]].op == 'alloca': w.setdefault(t, []).append(I)
        self.once = {t: I[0] for t, I in w.items() if len(I) == 1}

    def __getattr__(self, n): return getattr(self.A, n)

    def T(self, o): return self.norm(self.A.T(o))

    def norm(self, t):
        out = Lin({}, t.k)
        for a, v in t.c.items():
            if len(a) > 1 and a[0] in ('v', 'call') and a[0] == 'v' and self.F.inst[a[1]].op == 'load':
                s = self.once.get(self.A.T(self.F.inst[a[1]].a[0]))
                if s is not None and s.raw['sz'] == self.F.inst[a[1]].raw['sz']:
                    out = out + self.T(s.a[0]) * v
                    continue
            if len(a) > 1 and a[0] in ('v', 'phi') and self.F.inst[a[1]].op == 'phi':
                x = self.web(a[1])
                if x is not None:
                    out = out + x * v
                    continue
            out = out + atom(a) * v
        return out

    def web(self, i):
        """the one value of a web of phis"""
        if i in self.busy: return None
        self.busy.add(i)
        leaves = set(); seen = {i}; st = [i]
        while st:
            for x, _ in self.F.inst[st.pop()].raw['in']:
                t = self.A.T(x)
                b = next(iter(t.c)) if len(t.c) == 1 and t.k == 0 and list(t.c.values()) == [1] else None
                if b and len(b) > 1 and b[0] in ('v', 'phi') and self.F.inst[b[1]].op == 'phi':
                    if b[1] not in seen: seen.add(b[1]); st.append(b[1])
                else: leaves.add(self.norm(t))
            if len(leaves) > 1: break
        self.busy.discard(i)
        if len(leaves) == 1:
            t = next(iter(leaves))
            if not any(len(b) > 1 and b[0] in ('v', 'phi') and b[1] in seen for b in t.atoms()): return t
        return None

    def opaque(self, a):
        """(address term, width) of a value atom that is a load"""
        if a[0] == 'ld': return self.norm(a[1]), a[2]
        if a[0] == 'v' and self.F.inst[a[1]].op == 'load':
            L = self.F.inst[a[1]]
            return self.T(L.a[0]), L.raw['sz']
        return None
