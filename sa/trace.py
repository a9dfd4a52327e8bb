"""Abstract interpretation with trace partitioning over the domain of constants and provenance labels.

A value is a constant ('c',v,w), the address of a global ('g',name,off), a labelled value ('s',label,off) (an opaque
value that is only moved, cut or displaced), or unknown (None).  Memory cells are keyed by (region, offset, size); a
region is None for constant addresses, a global, or a label.  Branches on unknown conditions split the trace, calls of
library functions with a body are entered, calls of anything else are answered by the hook or are unknown.  Nothing is
executed and no condition is solved: a cell or a value that is not determined by the constants stays unknown."""
import struct
from .build import AnalysisBroken
from .sccp import binop, icmp, sx, ux, width, CTYPE

ABORT = {'abort', '_exit', 'exit', '__assert_fail', '__cxa_throw', '_ZSt9terminatev', '_Exit', 'quick_exit'}
FRAME = 1 << 46
HEAP = ('_Znam', '_Znwm', '_ZnamRKSt9nothrow_t', '_ZnwmRKSt9nothrow_t', 'malloc', 'calloc')
FREE = ('_ZdaPv', '_ZdlPv', '_ZdaPvm', '_ZdlPvm', 'free')


class Lost(AnalysisBroken):
    """an evaluation does not end, or goes to an address that was never stored"""

    def __init__(self, text, where='?'):
        AnalysisBroken.__init__(self, text)
        self.where = where


class End:
    """one way a call ends"""
    __slots__ = ('ret', 'mem', 'ev', 'where', 'kind')

    def __init__(self, kind, ret, mem, ev, where):
        self.kind = kind; self.ret = ret; self.mem = mem; self.ev = ev; self.where = where

    def cell(self, region, off, sz): return load(self.mem, (region, off), sz)


def place(v):
    """(region, offset) of an address value"""
    if v is None: return None
    if v[0] == 'c': return (None, v[1])
    if v[0] in ('g', 's'): return (v[:2], v[2])
    return None


def become(other):
    """effect: the memory becomes another one"""
    def eff(m):
        if m is other: return
        x = Mem(other)
        dict.clear(m); m.big.clear()
        m.update(x)
    return eff


SIZES = (1, 2, 4, 8)


class ONE:
    """stands for the load of one byte"""
    raw = {'sz': 1}


def moved_by(v, n): return ('c', v[1] + n, v[2]) if v[0] == 'c' else (v[0], v[1], v[2] + n)


def real(v):
    """number of an IEEE bit pattern"""
    return struct.unpack('<f', struct.pack('<I', ux(v[1], 32)))[0] if v[2] == 32 else struct.unpack('<d', struct.pack('<Q', ux(v[1], 64)))[0]


def floating(x, w):
    try: return ('c', struct.unpack('<i', struct.pack('<f', x))[0], 32) if w == 32 else ('c', struct.unpack('<q', struct.pack('<d', x))[0], 64)
    except OverflowError: return None


def converted(op, v, t):
    if op in ('fptrunc', 'fpext'): return floating(real(v), 32 if t == 'float' else 64)
    if op in ('sitofp', 'uitofp'): return floating(float(sx(v[1], v[2]) if op == 'sitofp' else ux(v[1], v[2])), 32 if t == 'float' else 64)
    x = real(v)
    w = width(t)
    if x != x or abs(x) >= 1 << 64 or w is None: return None
    return ('c', sx(int(x), w), w)


class Mem(dict):
    """memory that remembers its areas (cells of another size than a scalar)"""
    __slots__ = ('big',)

    def __init__(self, m=()):
        dict.__init__(self, m)
        self.big = set(m.big) if isinstance(m, Mem) else {k for k, v in self.items() if v[0] == 'fill' or k[2] not in SIZES}

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)
        if v[0] == 'fill' or k[2] not in SIZES: self.big.add(k)
        else: self.big.discard(k)

    def pop(self, k, *d):
        self.big.discard(k)
        return dict.pop(self, k, *d)

    def update(self, o):
        for k, v in o.items(): self[k] = v


def areas(mem): return mem.big if isinstance(mem, Mem) else [k for k, v in mem.items() if v[0] == 'fill' or k[2] not in SIZES]


def load(mem, at, sz):
    if at is None: raise Lost('undefined data is handed over')
    reg, off = at
    v = mem.get((reg, off, sz))
    if v is not None and v[0] != 'fill': return v if v[0] != '?' else None
    # pieces of a wider constant
    for w in (8, 4, 2):
        if w <= sz: continue
        for o in range(off - w + sz, off + 1):
            v = mem.get((reg, o, w))
            if v is not None and v[0] == 'c':
                return ('c', sx((v[1] & ((1 << 8 * w) - 1)) >> (8 * (off - o)), sz * 8), sz * 8)
    # zeroed or filled areas
    for k in areas(mem):
        r, o, n = k
        v = mem[k]
        if r == reg and v[0] == 'fill' and o <= off and off + sz <= o + n:
            x = 0
            for i in range(sz): x |= (v[1] & 255) << (8 * i)
            return ('c', sx(x, sz * 8), sz * 8)
    # composed of narrower constants
    if sz == 1: return None
    x = 0
    for i in range(sz):
        v = mem.get((reg, off + i, 1))
        if v is None: v = load(mem, (reg, off + i), 1)
        if v is None or v[0] != 'c': break
        x |= (v[1] & 255) << (8 * i)
    else:
        if sz > 1: return ('c', sx(x, sz * 8), sz * 8)
    return None


def overlapping(mem, reg, off, n):
    if n <= 4096:
        for w in SIZES:
            for o in range(off - w + 1, off + n):
                if (reg, o, w) in mem: yield (reg, o, w)
        for k in areas(mem):
            if k[0] == reg and k[1] < off + n and off < k[1] + k[2] and k[2] not in SIZES: yield k
    else:
        for k in mem:
            if k[0] == reg and k[1] < off + n and off < k[1] + k[2]: yield k


def kill(mem, reg, off, n):
    if off is None: raise Lost('undefined data is handed over')
    for k in list(overlapping(mem, reg, off, n)):
        v = mem.pop(k)
        if v[0] == 'fill':
            if k[1] < off: mem[reg, k[1], off - k[1]] = v
            if off + n < k[1] + k[2]: mem[reg, off + n, k[1] + k[2] - off - n] = v


def store(mem, at, sz, v):
    if at is None: raise Lost('undefined data is handed over')
    kill(mem, at[0], at[1], sz)
    mem[at[0], at[1], sz] = v if v is not None else ('?',)


def push(ev, x): return (ev, x, ev[2] + 1 if ev else 1)


def listed(ev):
    out = []
    while ev: out.append(ev[1]); ev = ev[0]
    return tuple(reversed(out))


class Trace:
    """calls(I, name, args, T, mem) -> None (default) or list of (value, effect) alternatives; effect is None or a function
    applied to the memory of that trace.  enter(name) tells whether a library function is entered (default: yes)."""

    def __init__(self, prog, calls=None, enter=None, limit=4000, depth=12, loads=None, decided=None):
        self.P = prog; self.decided = decided; self.hook = calls; self.enter = enter or (lambda n: True); self.limit = limit; self.maxdepth = depth
        self.n = 0; self.frames = 0; self.splits = 0; self.areas = 0; self.loads = loads; self.stack = {}
        # names for messages
        self.mute = {f.name for s in ('BW_pool::getDocTypeName', 'XBT2STR', 'XTNR2str', 'XPNR2str', 'LogEx', 'Log') for f in prog.by_short.get(s, [])}

    # ---- one function -----------------------------------------------------------------------------------
    def run(self, F, args, mem=None, depth=0, ev=None):
        """list of End"""
        if depth == 0:
            self.n = self.splits = 0
            out = self.run_(F, args, mem, 0, None)
            for e in out: e.ev = listed(e.ev)
            return out
        return self.run_(F, args, mem, depth, ev)

    def run_(self, F, args, mem, depth, ev):
        out = []
        self.frames += 1
        frame = FRAME + (self.frames << 24)
        env0 = {}
        todo = [(0, None, 0, env0, Mem(mem or {}), ev)]
        split = False
        seen = {}
        while todo:
            b, p, idx, env, mem, ev = todo.pop()
            while True:
                blk = F.blocks[b]
                if idx == 0:
                    self.n += 1
                    if self.n > self.limit: raise Lost("%s does not end within %d steps" % (F.short, self.limit), F.blocks[b][0].where)
                    # phis read their inputs simultaneously
                    new = {}
                    for I in blk:
                        if I.op != 'phi': break
                        for x, pb in I.raw['in']:
                            if pb == p: new[I.id] = self.val(F, env, args, x); break
                    env.update(new)
                    if split or self.n > self.limit // 2 and (len(mem) < 2000 or self.n % 64 == 0):
                        # a deterministic trace that comes back to the same state never ends
                        sig = hash((b, p, tuple(sorted((k, v) for k, v in env.items() if v is not None)), frozenset(mem.items()), (ev[2] if ev else 0) if split else -1))
                        if sig in seen: break
                        seen[sig] = 1
                stop = False
                for I in blk[idx:]:
                    op = I.op
                    if op == 'phi': continue
                    if op in ('call', 'invoke'):
                        alts = self.call(F, I, env, args, mem, ev, depth, frame)
                        if alts is None: continue
                        nxt = I.idx + 1
                        split = split or len(alts) > 1
                        for k, (kind, v, m2, ev2) in enumerate(alts):
                            if kind == 'end':
                                out.append(End('abort', None, m2, ev2, I.where)); continue
                            e2 = dict(env); e2[I.id] = v
                            todo.append((b, p, nxt, e2, m2, ev2))
                        stop = True
                        break
                    if op == 'store':
                        a = place(self.val(F, env, args, I.a[1])); v = self.val(F, env, args, I.a[0])
                        if a is None: ev = push(ev, ('store?', I, None, I.raw['sz'], v))
                        else:
                            store(mem, a, I.raw['sz'], v)
                            if not (a[0] is None and a[1] >= FRAME): ev = push(ev, ('store', I, a, I.raw['sz'], v))
                    elif op == 'load':
                        a = self.val(F, env, args, I.a[0]); env[I.id] = self.load(I, a, mem)
                        at = place(a)
                        if not (at is not None and at[0] is None and at[1] >= FRAME): ev = push(ev, ('load', I, at, I.raw['sz'], a))
                    elif op == 'alloca':
                        if b == 0 and I.raw.get('sz', 0) <= 4096 and not (I.raw.get('a') and I.raw['a'][0].get('c') != 1): env[I.id] = ('c', frame + (I.id << 12), 64); self.stack[frame + (I.id << 12)] = I.raw.get('sz', 0)
                        else:
                            self.areas += 1          # large, variable or repeated: a new area each time
                            env[I.id] = ('c', 2 * FRAME + (self.areas << 24), 64)
                            c = I.raw['a'][0].get('c') if I.raw.get('a') else 1
                            if c is not None: self.stack[env[I.id][1]] = I.raw.get('sz', 0) * c
                    elif op == 'br':
                        s = I.raw['s']
                        if not I.a: nx = [s[0]]
                        else:
                            c = self.val(F, env, args, I.a[0])
                            if c is not None and c[0] == 'c': nx = [s[0] if c[1] & 1 else s[1]]
                            else:
                                nx = []
                                for t, x in ((True, s[0]), (False, s[1])):
                                    e2 = dict(env); self.assume(F, e2, args, I.a[0], t)
                                    nx.append((x, e2))
                        split = self.go(todo, nx, b, env, mem, ev, I.where) or split
                        stop = True
                    elif op == 'switch':
                        c = self.val(F, env, args, I.a[0])
                        if c is not None and c[0] == 'c':
                            nx = [next((t for v, t in I.raw['cs'] if ux(v, c[2]) == ux(c[1], c[2])), I.raw['d'])]
                        else: nx = [(x, dict(env)) for x in dict.fromkeys(I.raw['s'])]
                        split = self.go(todo, nx, b, env, mem, ev, I.where) or split
                        stop = True
                    elif op == 'ret':
                        out.append(End('ret', self.val(F, env, args, I.a[0]) if I.a else None, mem, ev, I.where))
                        stop = True
                    elif op == 'unreachable':
                        stop = True
                    else: env[I.id] = self.ev(F, env, args, I)
                    if stop: break
                break
        return out

    def go(self, todo, nx, b, env, mem, ev, where='?'):
        """tells whether the trace was split"""
        if len(nx) == 1 and not isinstance(nx[0], tuple): todo.append((nx[0], b, 0, env, mem, ev)); return False
        if self.decided is not None and self.splits >= self.decided: raise Lost('an unknown value decides how to go on', where)
        for x, e2 in nx: todo.append((x, b, 0, e2, Mem(mem), ev))
        self.splits += 1
        return True

    def assume(self, F, env, args, o, t):
        """remember the outcome of an unknown condition on this trace"""
        if o[0] != 'v': return
        env[o[1]] = ('c', -1 if t else 0, 1)
        I = F.inst[o[1]]
        if I.op == 'icmp' and (I.pred == 'eq') == t and I.pred in ('eq', 'ne'):
            for x, y in ((I.a[0], I.a[1]), (I.a[1], I.a[0])):
                v = self.val(F, env, args, y)
                if x[0] == 'v' and v is not None and self.val(F, env, args, x) is None: env[x[1]] = v

    def load(self, I, a, mem):
        at = place(a)
        if at is None: return None
        v = load(mem, at, I.raw['sz'])
        if v is None and (at[0], at[1], I.raw['sz']) not in mem and a[0] == 'g':
            v = self.P.gload(a[1], a[2], I.raw['sz'])
        if v is None and self.loads: v = self.loads(I, a, mem)
        return v

    # ---- calls ------------------------------------------------------------------------------------------
    def call(self, F, I, env, args, mem, ev, depth, frame):
        """None: handled, continue in place; else list of (kind, value, mem, ev)"""
        n = I.callee
        av = [self.val(F, env, args, x) for x in I.a]
        fp = None
        if n is None and I.raw.get('fp'):
            fp = self.val(F, env, args, tuple(I.raw['fp']))
            if fp is not None and fp[0] == 'g' and fp[2] == 0: n = self.actual(fp[1])
        if n and (n.startswith('llvm.dbg') or n.startswith('llvm.lifetime') or n in ('llvm.assume', 'llvm.stacksave', 'llvm.stackrestore')): return None
        if self.hook:
            try: r = self.hook(I, n, av, self, mem)
            except Lost as x:
                if x.where == '?': x.where = I.where
                raise
            if r is not None:
                out = []
                for v, eff in r:
                    m2 = mem if len(r) == 1 else Mem(mem)
                    if eff == 'end': out.append(('end', None, m2, push(ev, ('call', I, n, av, None)))); continue
                    if eff: eff(m2)
                    out.append(('ret', v, m2, push(ev, ('call', I, n, av, v))))
                return out
        if self.hook and n in SYNONYMS:
            r = self.synonym(I, n, av, mem, ev)
            if r is not None: return r
        if n in self.mute: return [('ret', ('s', '&text', 0), mem, ev)]
        if n in ABORT: return [('end', None, mem, push(ev, ('call', I, n, av, None)))]
        b = self.builtin(n, av, mem, I)
        if b is not None:
            env[I.id] = b[0]
            return [('ret', b[0], mem, push(ev, ('call', I, n, av, b[0])))]
        G = self.P.funcs.get(n) if n else None
        if G is not None and not G.decl and self.enter(n) and depth < self.maxdepth and self.P.in_repo(G):
            out = []
            for e in self.run(G, {i: v for i, v in enumerate(av)}, mem, depth + 1, push(ev, ('enter', I, n, av, None))):
                out.append(('end' if e.kind == 'abort' else 'ret', e.ret, e.mem, e.ev))
            return out
        if n in HEAP and (G is None or G.decl):
            # memory nobody else knows: a new area
            self.areas += 1
            a = 2 * FRAME + (self.areas << 24)
            k = av[0][1] if av and av[0] is not None and av[0][0] == 'c' else None
            if n == 'calloc': k = k * av[1][1] if k is not None and av[1] is not None and av[1][0] == 'c' else None
            if k is not None: self.stack[a] = k
            if n == 'calloc': mem[(None, a, k if k is not None else 1 << 23)] = ('fill', 0)
            env[I.id] = ('c', a, 64)
            return [('ret', env[I.id], mem, push(ev, ('call', I, n, av, env[I.id])))]
        if n in FREE and (G is None or G.decl): return [('ret', None, mem, push(ev, ('call', I, n, av, None)))]
        # unknown: everything it is handed the address of is unknown afterwards
        for x in av:
            at = place(x)
            if at is None or (at[0] is None and abs(at[1]) < 0x10000): continue
            if at[0] is not None and at[0][0] == 'g' and self.P.globals.get(at[0][1], {}).get('const'): continue
            if n in PURE: continue
            for k in [k for k in mem if k[0] == at[0] and (k[1] == at[1] or (at[0] is None and at[1] >= FRAME and k[1] >> 12 == at[1] >> 12))]:
                v = mem[k]
                mem[k] = ('?',)
        return [('ret', None, mem, push(ev, ('call', I, n, av, None)))]

    def one(self, I, n, av, mem):
        """outcomes of a function given by name: (value, memory)"""
        r = self.hook(I, n, av, self, mem)
        if r is None:
            m2 = Mem(mem); b = self.builtin(n, av, m2, I)
            return None if b is None else [(b[0], m2)]
        out = []
        for v, eff in r:
            if eff == 'end': continue
            m2 = Mem(mem)
            if eff: eff(m2)
            out.append((v, m2))
        return out

    def synonym(self, I, n, av, mem, ev):
        """functions of the library which a check does not know itself, by those it knows"""
        if any(x is None for x in av): return None
        def then(L, n2, args, ev):
            out = []
            for v, m in L:
                r = self.one(I, n2, args(v), m)
                if r is None: return None
                out += [(v2, m2, push(ev, ('call', I, n2, args(v), v2))) for v2, m2 in r]
            return out
        if n == 'calloc':
            if av[0][0] != 'c' or av[1][0] != 'c': return None
            k = ('c', av[0][1] * av[1][1], 64)
            L = then([(None, mem)], 'malloc', lambda v: [k], ev)
            if L is None: return None
            out = []
            for v, m, e in L:
                if v is None or v[:2] == ('c', 0): out.append(('ret', v, m, e)); continue
                z = self.one(I, 'llvm.memset.p0.i64', [v, ('c', 0, 8), k, ('c', 0, 1)], m)
                for _, m2 in z or [(None, m)]: out.append(('ret', v, m2, push(e, ('call', I, 'llvm.memset.p0.i64', [v, ('c', 0, 8), k, ('c', 0, 1)], v))))
            return out
        if n in ('stpcpy', 'mempcpy'):
            k = None
            if n == 'stpcpy':
                z = self.one(I, 'strlen', [av[1]], mem)
                k = z[0][0] if z and len(z) == 1 else None
            else: k = av[2]
            if k is None or k[0] != 'c': return None
            L = then([(None, mem)], 'strcpy' if n == 'stpcpy' else 'memcpy', lambda v: av, ev)
            return None if L is None else [('ret', moved_by(av[0], k[1]), m, e) for v, m, e in L]
        if n == 'strdup':
            z = self.one(I, 'strlen', [av[0]], mem)
            k = z[0][0] if z and len(z) == 1 else None
            if k is None or k[0] != 'c': return None
            L = then([(None, mem)], 'malloc', lambda v: [('c', k[1] + 1, 64)], ev)
            if L is None: return None
            out = []
            for v, m, e in L:
                if v is None or v[:2] == ('c', 0): out.append(('ret', v, m, e)); continue
                L2 = then([(v, m)], 'strcpy', lambda v: [v, av[0]], e)
                if L2 is None: return None
                out += [('ret', v, m2, e2) for _, m2, e2 in L2]
            return out
        if n == 'realloc' and av[0][:2] == ('c', 0):
            L = then([(None, mem)], 'malloc', lambda v: [av[1]], ev)
            return None if L is None else [('ret', v, m, e) for v, m, e in L]
        return None

    def actual(self, n):
        """complete constructors and destructors are other names of the base ones"""
        if n in self.P.funcs: return n
        for a, b in (('C1E', 'C2E'), ('D1E', 'D2E')):
            i = n.rfind(a)
            if i > 0 and n[:i] + b + n[i + 3:] in self.P.funcs: return n[:i] + b + n[i + 3:]
        return n

    def builtin(self, n, av, mem, I):
        if n is None: return None
        if n.startswith('llvm.expect'): return (av[0],)
        if n.startswith('llvm.abs') and av[0] is not None and av[0][0] == 'c': return (('c', abs(av[0][1]), av[0][2]),)
        if n.startswith('llvm.umin') or n.startswith('llvm.smin') or n.startswith('llvm.umax') or n.startswith('llvm.smax'):
            if all(x is not None and x[0] == 'c' for x in av[:2]):
                f = (lambda x: ux(x[1], x[2])) if n[5] == 'u' else (lambda x: x[1])
                return ((min if n.endswith('min') or 'min' in n else max)(av[:2], key=f),)
        if n in CTYPE and av and av[0] is not None and av[0][0] == 'c': return (('c', 1 if CTYPE[n](av[0][1] & 255) else 0, 32),)
        base = n.split('.')[1] if n.startswith('llvm.mem') else n
        if base in ('memset', 'memcpy', 'memmove'):
            d, nn = place(av[0]), av[2]
            if d is None: return (av[0],)
            cnt = ux(nn[1], 64) if nn is not None and nn[0] == 'c' else None
            if cnt is None or cnt > 1 << 30:
                for k in [k for k in mem if k[0] == d[0] and k[1] + k[2] > d[1]]: mem[k] = ('?',)
                return (av[0],)
            if base == 'memset':
                kill(mem, d[0], d[1], cnt)
                if av[1] is not None and av[1][0] == 'c' and cnt: mem[d[0], d[1], cnt] = ('fill', av[1][1] & 255)
                return (av[0],)
            s = place(av[1])
            moved = {}
            if s is not None:
                for k, v in mem.items():
                    if k[0] == s[0] and k[1] >= s[1] and k[1] + k[2] <= s[1] + cnt: moved[d[0], k[1] - s[1] + d[1], k[2]] = v
                    elif k[0] == s[0] and v[0] == 'fill' and k[1] < s[1] + cnt and s[1] < k[1] + k[2]:
                        lo = max(k[1], s[1]); hi = min(k[1] + k[2], s[1] + cnt)
                        moved[d[0], lo - s[1] + d[1], hi - lo] = v
                if av[1][0] == 'g' and self.P.globals.get(av[1][1], {}).get('const') and cnt <= 4096:
                    i = 0
                    while i < cnt:
                        for w in (8, 4, 2, 1):
                            if i % w or i + w > cnt: continue
                            v = self.P.gload(av[1][1], av[1][2] + i, w)
                            if v is not None and v[0] == 'c': moved[d[0], d[1] + i, w] = v; break
                        i += w
            kill(mem, d[0], d[1], cnt)
            mem.update(moved)
            return (av[0],)
        if n in ('strcpy', 'stpcpy') and av[0] is not None and av[1] is not None:
            s, d = self.text(av[1], mem), place(av[0])
            if s is None or d is None: return None
            kill(mem, d[0], d[1], len(s) + 1)
            for i, ch in enumerate(s + '\0'): mem[d[0], d[1] + i, 1] = ('c', sx(ord(ch), 8), 8)
            return (av[0] if n == 'strcpy' else moved_by(av[0], len(s)),)
        if n == 'strncpy' and all(x is not None for x in av[:3]) and av[2][0] == 'c':
            d, cnt = place(av[0]), ux(av[2][1], 64)
            if d is None or cnt > 1 << 20: return None
            s = self.text(av[1], mem, cnt)
            if s is None: return None
            kill(mem, d[0], d[1], cnt)
            s = s[:cnt]
            for i, ch in enumerate(s): mem[d[0], d[1] + i, 1] = ('c', sx(ord(ch), 8), 8)
            if cnt > len(s): mem[d[0], d[1] + len(s), cnt - len(s)] = ('fill', 0)
            return (av[0],)
        if n == 'strlen' and av[0] is not None:
            s = self.text(av[0], mem)
            if s is not None: return (('c', len(s), 64),)
        if n.startswith('llvm.umul.with.overflow.') or n.startswith('llvm.smul.with.overflow.') or n.startswith('llvm.uadd.with.overflow.') or n.startswith('llvm.sadd.with.overflow.'):
            if all(x is not None and x[0] == 'c' for x in av[:2]):
                w = int(n[n.rindex('.') + 2:])
                a, b = (ux(x[1], w) if n[5] == 'u' else sx(x[1], w) for x in av[:2])
                r = a * b if n[6:9] == 'mul' else a + b
                cut = sx(r, w)
                return (('pair', ('c', cut, w), ('c', -1 if (ux(cut, w) if n[5] == 'u' else cut) != r else 0, 1)),)
        if n in ('memcmp', 'bcmp') and all(x is not None for x in av[:3]) and av[2][0] == 'c' and ux(av[2][1], 64) <= 4096:
            x, y = place(av[0]), place(av[1])
            if x is None or y is None: return None
            for i in range(ux(av[2][1], 64)):
                a, b = load(mem, (x[0], x[1] + i), 1), load(mem, (y[0], y[1] + i), 1)
                if a is None or b is None or a[0] != 'c' or b[0] != 'c': return None
                if a[1] & 255 != b[1] & 255: return (('c', -1 if a[1] & 255 < b[1] & 255 else 1, 32),)
            return (('c', 0, 32),)
        if n == 'strcmp' and av[0] is not None and av[1] is not None:
            a, b = self.text(av[0], mem), self.text(av[1], mem)
            if a is not None and b is not None: return (('c', (a > b) - (a < b), 32),)
        if n in ('strnlen', 'memchr') and all(x is not None for x in av) and av[-1][0] == 'c':
            if n == 'memchr' and av[1][0] != 'c': return None
            find = 0 if n == 'strnlen' else av[1][1] & 255
            cnt = min(ux(av[-1][1], 64), 70000)
            for i in range(cnt):
                v = self.load(ONE, moved_by(av[0], i), mem)
                if v is None or v[0] != 'c': return None
                if v[1] & 255 == find: return (('c', i, 64) if n == 'strnlen' else moved_by(av[0], i),)
            return (('c', cnt if n == 'strnlen' else 0, 64),)
        if n in ('strncmp', 'strcasecmp', 'strncasecmp', 'strstr', 'strspn', 'strcspn', 'strpbrk') and all(x is not None for x in av):
            a, b = self.text(av[0], mem), self.text(av[1], mem)
            if a is None or b is None or len(av) > 2 and av[2][0] != 'c': return None
            if n == 'strstr' or n == 'strpbrk':
                i = a.find(b) if n == 'strstr' else min([i for i, c in enumerate(a) if c in b], default=-1)
                return (moved_by(av[0], i) if i >= 0 else ('c', 0, 64),)
            if n in ('strspn', 'strcspn'): return (('c', next((i for i, c in enumerate(a) if (c in b) != (n == 'strspn')), len(a)), 64),)
            if len(av) > 2: a, b = a[:ux(av[2][1], 64)], b[:ux(av[2][1], 64)]
            if 'case' in n: a, b = a.lower(), b.lower()
            return (('c', (a > b) - (a < b), 32),)
        if n in ('strchr', 'strrchr', 'index', 'rindex') and av[0] is not None and av[1] is not None and av[1][0] == 'c':
            a = self.text(av[0], mem)
            if a is None: return None
            c = chr(av[1][1] & 255)
            i = len(a) if c == '\0' else a.find(c) if n in ('strchr', 'index') else a.rfind(c)
            return (moved_by(av[0], i) if i >= 0 else ('c', 0, 64),)
        if n in ('toupper', 'tolower') and av[0] is not None and av[0][0] == 'c':
            x = sx(av[0][1], 32)
            return (('c', ord(getattr(chr(x), n[2:])()) if 0 <= x < 128 else x, 32),)
        if n in ('abs', 'labs', 'llabs') and av[0] is not None and av[0][0] == 'c':
            w = 32 if n == 'abs' else 64
            return (('c', sx(abs(sx(av[0][1], w)), w), w),)
        if n in ('strcat', 'strncat') and all(x is not None for x in av):
            a, b = self.text(av[0], mem), self.text(av[1], mem) if n == 'strcat' else self.text(av[1], mem, ux(av[2][1], 64)) if av[2][0] == 'c' else None
            d = place(av[0])
            if a is None or b is None or d is None: return None
            kill(mem, d[0], d[1] + len(a), len(b) + 1)
            for i, ch in enumerate(b + '\0'): mem[d[0], d[1] + len(a) + i, 1] = ('c', sx(ord(ch), 8), 8)
            return (av[0],)
        if n == '__errno_location': return (('g', 'errno', 0),)
        return None

    def text(self, v, mem, limit=None):
        """a text in memory; no more than limit bytes of it are looked at"""
        if v[0] == 'g' and self.P.globals.get(v[1], {}).get('const'):
            s = self.P.gstring(v[1], v[2])
            return s if s is None or limit is None else s[:limit]
        at = place(v)
        if at is None: return None
        out = []
        for i in range(70000 if limit is None else min(limit, 70000)):
            x = load(mem, (at[0], at[1] + i), 1)
            if x is None or x[0] != 'c': return None
            if x[1] == 0: return ''.join(out)
            out.append(chr(x[1] & 255))
        return None if limit is None else ''.join(out)

    # ---- values -----------------------------------------------------------------------------------------
    def val(self, F, env, args, o):
        k = o[0]
        if k == 'c' or k == 'g': return o
        if k == 'v': return env.get(o[1])
        if k == 'a': return args.get(o[1])
        if k == 'ce':
            ops = [self.val(F, env, args, x) for x in o[2]]
            if o[1] in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'): return ops[0]
        return None

    def ev(self, F, env, args, I):
        op = I.op
        v = [self.val(F, env, args, x) for x in I.a]
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = v
            if a is not None and b is not None:
                if a[0] == 'c' and b[0] == 'c': return binop(op, a[1], b[1], I.bw or 64)
                if op == 'add' and (I.bw or 64) == 64:
                    for x, y in ((a, b), (b, a)):
                        if x[0] in ('g', 's') and y[0] == 'c': return (x[0], x[1], x[2] + y[1])
                if op == 'sub' and (I.bw or 64) == 64:
                    if a[0] in ('g', 's') and b[0] == 'c': return (a[0], a[1], a[2] - b[1])
                    if a[0] == b[0] and a[0] in ('g', 's') and a[1] == b[1]: return ('c', a[2] - b[2], 64)
            for x in (a, b):
                if x is not None and x[0] == 'c':
                    if op in ('and', 'mul') and x[1] == 0: return ('c', 0, I.bw)
                    if op == 'or' and I.bw == 1 and x[1] & 1: return ('c', -1, 1)
            return None
        if op == 'icmp':
            a, b = v
            if a is None or b is None: return None
            if a[0] == 'c' and b[0] == 'c': return ('c', -1 if icmp(I.pred, a[1], b[1], max(a[2], b[2])) else 0, 1)
            if a[0] == b[0] and a[0] in ('g', 's') and a[1] == b[1]: return ('c', -1 if icmp(I.pred, a[2], b[2], 64) else 0, 1)
            if {a[0], b[0]} == {'c', 'g'} or {a[0], b[0]} == {'c', 's'} and any(x[0] == 's' and str(x[1]).startswith('&') for x in (a, b)):
                if 0 in (a[1], b[1]) and I.pred in ('eq', 'ne'): return ('c', 0 if I.pred == 'eq' else -1, 1)
            return None
        if op == 'fcmp':
            a, b = v
            if a is None or b is None or a[0] != 'c' or b[0] != 'c': return None
            x, y = real(a), real(b)
            nan = x != x or y != y
            k = I.pred
            if k in ('ord', 'uno'): return ('c', -1 if nan == (k == 'uno') else 0, 1)
            if k in ('true', 'false'): return ('c', -1 if k == 'true' else 0, 1)
            r = nan if k[0] == 'u' else False
            if not nan: r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y}[k[1:]]
            return ('c', -1 if r else 0, 1)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            a = v[0]
            if a is None: return None
            if a[0] == 'c':
                w = width(I.t)
                if w is None: return None
                return ('c', sx(ux(a[1], a[2]) if op == 'zext' else sx(a[1], a[2]), w), w)
            if op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr'): return a
            if a[0] == 's': return ('s', (op, width(I.t), a[1], a[2]), 0)
            return None
        if op in ('fptrunc', 'fpext', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            if v[0] is not None and v[0][0] == 'c': return converted(op, v[0], I.t)
            return ('s', (op, I.t, v[0][1], v[0][2]), 0) if v[0] is not None and v[0][0] == 's' else None
        if op in ('fadd', 'fsub', 'fmul', 'fneg') and all(x is not None and x[0] == 'c' for x in v):
            x = [real(y) for y in v]
            return floating(-x[0] if op == 'fneg' else x[0] + x[1] if op == 'fadd' else x[0] - x[1] if op == 'fsub' else x[0] * x[1], v[0][2])
        if op == 'select':
            c = v[0]
            if c is not None and c[0] == 'c': return v[1] if c[1] & 1 else v[2]
            return v[1] if v[1] is not None and v[1] == v[2] else None
        if op == 'getelementptr':
            a = v[0]
            if a is None: return None
            off = I.raw['o']
            for x, s in I.raw['vix']:
                y = self.val(F, env, args, x)
                if y is None or y[0] != 'c': return None
                off += sx(y[1], y[2]) * s
            if a[0] == 'c': return ('c', a[1] + off, 64)
            if a[0] in ('g', 's'): return (a[0], a[1], a[2] + off)
            return None
        if op == 'extractvalue': return v[0][1 + I.raw['ix'][0]] if v[0] is not None and v[0][0] == 'pair' and len(I.raw['ix']) == 1 else None
        if op == 'insertvalue': return None
        return None


SYNONYMS = {'calloc', 'stpcpy', 'mempcpy', 'strdup', 'realloc'}
PURE = {'strlen', 'strcmp', 'strncmp', 'memcmp', 'strcasecmp', 'strchr', 'strrchr', 'strstr', 'printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fputc', 'fwrite', 'free', 'close', 'munmap',
        'ftruncate', 'open', 'unlink', 'atoi', 'atol', 'strnlen', 'memchr', 'fflush', 'perror', 'strerror', 'fsync', 'write'}
