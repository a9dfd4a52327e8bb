"""Sparse conditional constant propagation over the exported IR, with assumptions.

Abstract values: TOP (not yet known), ('c',v,w) integer/null constants, ('g',name,off) addresses of globals, BOT.
Nothing is executed: values are joined over all executable edges until a fixed point is reached."""
TOP = None
BOT = ('bot',)


def sx(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if w and v >> (w - 1) else v


def ux(v, w): return v & ((1 << w) - 1)


def binop(op, a, b, w):
    ua, ub, sa, sb = ux(a, w), ux(b, w), sx(a, w), sx(b, w)
    if op == 'add': r = ua + ub
    elif op == 'sub': r = ua - ub
    elif op == 'mul': r = ua * ub
    elif op == 'and': r = ua & ub
    elif op == 'or': r = ua | ub
    elif op == 'xor': r = ua ^ ub
    elif op == 'shl': r = ua << ub if ub < w else None
    elif op == 'lshr': r = ua >> ub if ub < w else None
    elif op == 'ashr': r = sa >> ub if ub < w else None
    elif op == 'udiv': r = ua // ub if ub else None
    elif op == 'urem': r = ua % ub if ub else None
    elif op == 'sdiv':
        r = None if sb == 0 else (abs(sa) // abs(sb)) * (1 if (sa < 0) == (sb < 0) else -1)
    elif op == 'srem':
        r = None if sb == 0 else (abs(sa) % abs(sb)) * (-1 if sa < 0 else 1)
    else: return None
    return None if r is None else ('c', sx(r, w), w)


def icmp(p, a, b, w):
    ua, ub, sa, sb = ux(a, w), ux(b, w), sx(a, w), sx(b, w)
    return {'eq': ua == ub, 'ne': ua != ub, 'ugt': ua > ub, 'uge': ua >= ub, 'ult': ua < ub, 'ule': ua <= ub,
            'sgt': sa > sb, 'sge': sa >= sb, 'slt': sa < sb, 'sle': sa <= sb}[p]


def width(t):
    if t.startswith('i') and t[1:].isdigit(): return int(t[1:])
    if t == 'ptr': return 64
    return None


CTYPE = {'isspace': lambda c: c in (32, 9, 10, 11, 12, 13), 'isdigit': lambda c: 48 <= c <= 57,
         'isxdigit': lambda c: 48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102,
         'isalpha': lambda c: 65 <= c <= 90 or 97 <= c <= 122,
         'isalnum': lambda c: 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122,
         'isupper': lambda c: 65 <= c <= 90, 'islower': lambda c: 97 <= c <= 122, 'isprint': lambda c: 32 <= c <= 126, 'isgraph': lambda c: 33 <= c <= 126,
         'iscntrl': lambda c: c < 32 or c == 127, 'isblank': lambda c: c in (32, 9), 'isascii': lambda c: c < 128,
         'ispunct': lambda c: 33 <= c <= 47 or 58 <= c <= 64 or 91 <= c <= 96 or 123 <= c <= 126}
CTYPE_BITS = {0x100: 'isupper', 0x200: 'islower', 0x4000: 'isprint', 0x8000: 'isgraph', 1: 'isblank', 2: 'iscntrl', 4: 'ispunct', 0x2000: 'isspace', 0x0800: 'isdigit', 0x1000: 'isxdigit', 0x0400: 'isalpha', 0x0008: 'isalnum'}


def const_alloca(F, I):
    """('g',name,off) when the local array is a read-only copy of a constant global"""
    src = None
    st = [('v', I.id)]; seen = set()
    while st:
        o = st.pop()
        if o in seen: continue
        seen.add(o)
        for u in F.users().get(o, ()):
            if u.op == 'getelementptr' and u.a[0] == o and not any(x == o for x, _ in u.raw['vix']): st.append(('v', u.id))
            elif u.op == 'load': pass
            elif u.op == 'call' and u.callee and u.callee.startswith('llvm.memcpy') and u.a[0] == ('v', I.id) and u.a[1][0] == 'g' and src is None \
                    and F.prog.globals.get(u.a[1][1], {}).get('const'): src = u.a[1]
            elif u.op == 'call' and u.callee and u.callee.startswith('llvm.lifetime'): pass
            else: return None
    return src


class Result:
    def __init__(self, F, prog):
        self.F = F; self.prog = prog
        self.vals = {}
        self.blocks = set()
        self.edges = set()
        self.argv = {}

    def val(self, o):
        k = o[0]
        if k in ('c', 'g'): return o
        if k == 'v': return self.vals.get(o[1], TOP)
        if k == 'a': return self.argv.get(o[1], BOT)
        if k == 'undef': return TOP
        return BOT

    def const(self, o):
        v = self.val(o)
        return v[1] if v is not None and v[0] == 'c' else None

    def insts(self):
        for b in self.F.rpo():
            if b in self.blocks:
                for I in self.F.blocks[b]: yield I

    def returns(self):
        return [I for I in self.insts() if I.op == 'ret']

    def ret(self):
        """joined return value"""
        out = TOP
        for I in self.returns():
            v = self.val(I.a[0]) if I.a else BOT
            out = meet(out, v)
        return out

    def ret_values(self):
        """set of values a return can yield, looking through phis on executable edges (BOT for unknown)"""
        out = set()
        seen = set()
        def go(o, blk):
            v = self.val(o)
            if v is not None and v[0] in ('c', 'g'): out.add(v); return
            if o[0] == 'v':
                I = self.F.inst[o[1]]
                if I.id in seen: return
                seen.add(I.id)
                if I.op == 'phi':
                    for x, pb in I.raw['in']:
                        if (pb, I.block) in self.edges: go(x, pb)
                    return
                if I.op == 'select':
                    go(I.a[1], blk); go(I.a[2], blk); return
            if v is TOP and o[0] != 'undef': return
            out.add(BOT if o[0] != 'v' else ('v', o[1]))
        for I in self.returns():
            if I.a: go(I.a[0], I.block)
        return out


def meet(a, b):
    if a is TOP: return b
    if b is TOP: return a
    return a if a == b else BOT


class Sccp:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.depth = 0

    def run(self, F, args=None, assume=None, loads=None, calls=None, interproc=True, globals_const=()):
        """args: {argno: value}, assume: {inst id: value}; loads: callback(I, addr value, R)->value or None;
        calls: callback(I, argvals, R) -> value or None"""
        R = Result(F, self.prog)
        for k, v in (args or {}).items(): R.argv[k] = v
        assume = assume or {}
        work_b = [(None, 0)]
        users = F.users()
        import collections
        wi = collections.deque()

        def setv(I, v):
            old = R.vals.get(I.id, TOP)
            v = meet(old, v)
            if v != old:
                R.vals[I.id] = v
                for u in users.get(('v', I.id), ()):
                    if u.block in R.blocks: wi.append(u)

        def ev(I):
            if I.id in assume: return assume[I.id]
            op = I.op
            A = I.a
            if op == 'phi':
                v = TOP
                for x, pb in I.raw['in']:
                    if (pb, I.block) in R.edges: v = meet(v, R.val(x))
                return v
            if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
                a, b = R.val(A[0]), R.val(A[1])
                if op == 'and':
                    for x in (a, b):
                        if x is not None and x[0] == 'c' and x[1] == 0: return ('c', 0, I.bw)
                if op == 'or' and I.bw == 1:
                    for x in (a, b):
                        if x is not None and x[0] == 'c' and x[1] & 1: return ('c', -1, 1)
                if op == 'mul':
                    for x in (a, b):
                        if x is not None and x[0] == 'c' and x[1] == 0: return ('c', 0, I.bw)
                if a is TOP or b is TOP: return TOP
                if a[0] == 'c' and b[0] == 'c':
                    r = binop(op, a[1], b[1], I.bw or 64)
                    return r if r is not None else BOT
                return BOT
            if op == 'icmp':
                a, b = R.val(A[0]), R.val(A[1])
                if a is TOP or b is TOP: return TOP
                if a[0] == 'c' and b[0] == 'c':
                    return ('c', -1 if icmp(I.pred, a[1], b[1], max(a[2], b[2])) else 0, 1)
                if {a[0], b[0]} == {'c', 'g'} and (a[1] == 0 or b[1] == 0) and I.pred in ('eq', 'ne'):
                    return ('c', 0 if I.pred == 'eq' else -1, 1)
                if a[0] == b[0] == 'g' and I.pred in ('eq', 'ne') and a[1] == b[1]:
                    return ('c', -1 if (a == b) == (I.pred == 'eq') else 0, 1)
                return BOT
            if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
                a = R.val(A[0])
                if a is TOP: return TOP
                if a[0] == 'c':
                    w = width(I.t)
                    if w is None: return BOT
                    return ('c', sx(ux(a[1], a[2]) if op == 'zext' else sx(a[1], a[2]), w), w)
                if a[0] == 'g' and op in ('bitcast', 'freeze'): return a
                return BOT
            if op == 'select':
                c = R.val(A[0])
                if c is TOP: return TOP
                if c[0] == 'c': return R.val(A[1] if c[1] & 1 else A[2])
                return meet(R.val(A[1]), R.val(A[2]))
            if op == 'getelementptr':
                b = R.val(A[0])
                if b is TOP: return TOP
                off = I.raw['o']
                for x, s in I.raw['vix']:
                    v = R.val(x)
                    if v is TOP: return TOP
                    if v[0] != 'c': return BOT
                    off += sx(v[1], v[2]) * s
                if b[0] == 'g': return ('g', b[1], b[2] + off)
                if b[0] == 'c' : return ('c', b[1] + off, 64)
                return BOT
            if op == 'alloca':
                g = const_alloca(F, I)
                return g if g is not None else BOT
            if op == 'load':
                a = R.val(A[0])
                if loads:
                    r = loads(I, a, R)
                    if r is not None: return r
                if a is TOP: return TOP
                if a[0] == 'g':
                    r = self.prog.gload(a[1], a[2], I.raw['sz'], a[1] in globals_const)
                    if r is not None: return r
                return BOT
            if op in ('call', 'invoke'):
                av = [R.val(x) for x in A]
                if calls:
                    r = calls(I, av, R)
                    if r is not None: return r
                n = I.callee
                if n in CTYPE and av[0] is not None and av[0][0] == 'c':
                    return ('c', 1 if CTYPE[n](av[0][1] & 255) else 0, 32)
                if n in ('isspace', 'isdigit'):
                    return TOP if av[0] is TOP else BOT
                if n and n.startswith('llvm.expect'): return av[0]
                if n and n.startswith('llvm.abs') and av[0] is not None and av[0][0] == 'c': return ('c', abs(av[0][1]), av[0][2])
                if any(x is TOP for x in av): 
                    return TOP
                if n == 'strlen' and av[0][0] == 'g':
                    s = self.prog.gstring(av[0][1], av[0][2]) if self.prog.globals.get(av[0][1], {}).get('const') else None
                    if s is not None: return ('c', len(s), 64)
                if interproc and n and n in self.prog.funcs and not self.prog.funcs[n].decl and self.depth < 4 \
                        and any(x[0] in ('c', 'g') for x in av):
                    key = (n, tuple(av))
                    if key not in self.memo:
                        self.memo[key] = BOT
                        self.depth += 1
                        try:
                            r2 = self.run(self.prog.funcs[n], {i: v for i, v in enumerate(av) if v[0] in ('c', 'g')})
                            v = r2.ret()
                            self.memo[key] = v if v is not TOP else BOT
                        finally:
                            self.depth -= 1
                    return self.memo[key]
                return BOT
            return BOT

        def edge(b, s):
            if (b, s) not in R.edges:
                R.edges.add((b, s))
                work_b.append((b, s))

        def term(I):
            b = I.block
            if I.op == 'br':
                if not I.a:
                    edge(b, I.raw['s'][0]); return
                c = R.val(I.a[0])
                if c is TOP: return
                s = I.raw['s']
                if c[0] == 'c': edge(b, s[0] if c[1] & 1 else s[1])
                else:
                    edge(b, s[0]); edge(b, s[1])
            elif I.op == 'switch':
                c = R.val(I.a[0])
                if c is TOP: return
                if c[0] == 'c':
                    for v, t in I.raw['cs']:
                        if ux(v, c[2]) == ux(c[1], c[2]): edge(b, t); return
                    edge(b, I.raw['d'])
                else:
                    for s in I.raw['s']: edge(b, s)
            elif I.op in ('invoke',):
                for s in F.succ[b]: edge(b, s)

        def visit(I):
            if I.op in ('br', 'switch', 'ret', 'unreachable'): term(I)
            elif I.op == 'store': pass
            else: setv(I, ev(I))

        while work_b or wi:
            while work_b:
                p, b = work_b.pop()
                first = b not in R.blocks
                R.blocks.add(b)
                for I in F.blocks[b]:
                    if first or I.op == 'phi': visit(I)
                    elif not first and I.op != 'phi': break
            while wi:
                I = wi.popleft()
                if I.block in R.blocks: visit(I)
        return R


def C(v, w=32): return ('c', v, w)
