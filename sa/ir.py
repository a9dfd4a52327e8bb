"""In-memory model of the exported program."""
import re
from .build import AnalysisBroken, REPO


def conv(o):
    if 'c' in o: return ('c', o['c'], o['w'])
    if 'v' in o: return ('v', o['v'])
    if 'a' in o: return ('a', o['a'])
    if 'null' in o: return ('c', 0, 64)
    if 'g' in o: return ('g', o['g'], o.get('go', 0))
    if 'f' in o: return ('f', o['f'])
    if 'bb' in o: return ('bb', o['bb'])
    if 'undef' in o: return ('undef',)
    if 'ce' in o:
        ops = tuple(conv(x) for x in o['ops'])
        if o['ce'] == 'inttoptr' and len(ops) == 1 and ops[0][0] == 'c': return ('c', ops[0][1], 64)
        return ('ce', o['ce'], ops)
    return ('x', str(o))


def is_c(v): return v[0] == 'c'


class Inst:
    __slots__ = ('id', 'op', 't', 'line', 'file', 'a', 'raw', 'block', 'fn', 'bw', 'callee', 'idx')

    def __repr__(self):
        return '%%%d=%s %s %s' % (self.id, self.op, self.callee or '', self.a)

    @property
    def pred(self): return self.raw.get('p')

    @property
    def where(self):
        return '%s:%d' % (self.fn.prog.relfile(self.file), self.line) if self.line else self.fn.where


class Func:
    def __init__(self, prog, name, j):
        self.prog = prog
        self.name = name
        self.j = j
        self.dn = j['dn']
        self.decl = j['decl']
        self.local = j['local']
        self.rt = j['rt']
        self.noreturn = j['nr']
        self.line = j.get('l', 0)
        self.file = j.get('f')
        self.cls = j.get('cls')
        self.base = j.get('name')
        self.dit = j.get('dit', [])
        self.pn = j.get('pn', [])
        self.args = j['args']
        self.has_this = j.get('this_first', 0)
        self.blocks = []
        self.inst = {}
        self._cfg = None
        if self.decl:
            return
        for bi, b in enumerate(j['blocks']):
            L = []
            for k, r in enumerate(b):
                I = Inst()
                I.id = r['i']; I.op = r['op']; I.t = r['t']; I.line = r.get('l', 0); I.file = r.get('f')
                I.raw = r; I.block = bi; I.fn = self; I.bw = r.get('bw'); I.callee = r.get('fn'); I.idx = k
                if I.op == 'getelementptr':
                    I.a = [conv(r['b'])]
                    r['vix'] = [(conv(x), s) for x, s in r['vix']]
                    r['ax'] = [(n, es, conv(x), o) for n, es, x, o in r['ax']]
                elif I.op == 'phi':
                    r['in'] = [(conv(x), blk) for x, blk in r['in']]
                    I.a = [x for x, _ in r['in']]
                elif I.op in ('br', 'switch'):
                    I.a = [conv(r['c'])] if 'c' in r else []
                else:
                    I.a = [conv(x) for x in r.get('a', [])]
                if 'fp' in r: r['fp'] = conv(r['fp'])
                L.append(I)
                self.inst[I.id] = I
            self.blocks.append(L)
        n = len(self.blocks)
        self.succ = [list(b[-1].raw.get('s', [])) if b else [] for b in self.blocks]
        self.preds = [[] for _ in range(n)]
        for b in range(n):
            for s in self.succ[b]:
                if b not in self.preds[s]: self.preds[s].append(b)

    @property
    def where(self):
        return '%s:%d' % (self.prog.relfile(self.file), self.line)

    @property
    def short(self):
        dn = self.dn.replace('(anonymous namespace)', 'anon')
        if '::$_' in dn or '::{lambda' in dn: return re.sub(r'\([^()]*\)', '', dn).replace('pklib_xml::', '')   # a function inside of a function
        s = re.sub(r'\(.*$', '', dn)
        return s.replace('pklib_xml::', '')

    def insts(self):
        for b in self.blocks:
            for I in b: yield I

    def calls(self):
        for I in self.insts():
            if I.op in ('call', 'invoke'): yield I

    def term(self, b): return self.blocks[b][-1]

    def __repr__(self): return '<%s>' % self.short

    # ---- CFG ---------------------------------------------------------------
    def rpo(self):
        if getattr(self, '_rpo', None) is None:
            seen = set(); out = []
            st = [(0, iter(self.succ[0]))]; seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); st.append((s, iter(self.succ[s]))); break
                else:
                    out.append(b); st.pop()
            self._rpo = out[::-1]
        return self._rpo

    def dom(self):
        """immediate dominators"""
        if getattr(self, '_idom', None) is None:
            self._idom = idoms(0, self.rpo(), self.preds)
        return self._idom

    def dominates(self, a, b):
        d = self.dom()
        if b not in d: return False
        while True:
            if a == b: return True
            if b == 0: return False
            b = d[b]

    def reachable(self, frm, avoid=()):
        seen = set(); st = [frm]
        while st:
            b = st.pop()
            if b in seen or b in avoid: continue
            seen.add(b); st.extend(self.succ[b])
        return seen

    def users(self):
        if getattr(self, '_users', None) is None:
            u = {}
            for I in self.insts():
                ops = list(I.a)
                if I.op == 'getelementptr': ops += [x for x, _ in I.raw['vix']]
                if 'fp' in I.raw: ops.append(I.raw['fp'])
                for o in ops:
                    if o[0] in ('v', 'a'): u.setdefault(o, []).append(I)
            self._users = u
        return self._users

    def inst_dominates(self, A, B):
        if A.block == B.block: return A.idx < B.idx
        return self.dominates(A.block, B.block)


def idoms(entry, rpo, preds):
    num = {b: i for i, b in enumerate(rpo)}
    idom = {entry: entry}
    changed = True
    while changed:
        changed = False
        for b in rpo:
            if b == entry: continue
            ps = [p for p in preds[b] if p in idom and p in num]
            if not ps: continue
            n = ps[0]
            for p in ps[1:]:
                a, c = n, p
                while a != c:
                    while num[a] > num[c]: a = idom[a]
                    while num[c] > num[a]: c = idom[c]
                n = a
            if idom.get(b) != n:
                idom[b] = n; changed = True
    return idom


class Program:
    def __init__(self, j):
        self.j = j
        self.files = j['files']
        self.globals = j['globals']
        self.inlined = j['inlined']
        self.types = {}
        for t in j['types']:
            if t['name'] and (t['name'] not in self.types or t['m']): self.types.setdefault(t['name'], t)
        self.funcs = {n: Func(self, n, f) for n, f in j['functions'].items()}
        self.by_short = {}
        for f in self.funcs.values():
            self.by_short.setdefault(f.short, []).append(f)
        self.repo_funcs = [f for f in self.funcs.values() if not f.decl and self.in_repo(f)]
        self.callers_of = {}
        for f in self.funcs.values():
            if f.decl: continue
            for c in f.calls():
                if c.callee: self.callers_of.setdefault(c.callee, []).append(c)
        self.enums = {}
        for t in j['types']:
            if 'enumeration' in t['tag']:
                for m in t['m']:
                    self.enums.setdefault(m['n'], m['ev'])
        if len(self.repo_funcs) < 250:
            raise AnalysisBroken('only %d functions of the repository were resolved' % len(self.repo_funcs))

    def in_repo(self, f):
        return f.file is not None and self.files[f.file].startswith(REPO + '/')

    def relfile(self, i):
        if i is None: return '?'
        p = self.files[i]
        import os
        p = os.path.normpath(p)
        return p[len(REPO) + 1:] if p.startswith(REPO + '/') else p

    def find(self, short, required=True, nargs=None):
        L = [f for f in self.by_short.get(short, []) if not f.decl]
        L = [f for f in L if ')::' not in f.dn] or L        # not the members of classes local to it
        if nargs is not None: L = [f for f in L if len(f.args) == nargs]
        if not L and required:
            raise AnalysisBroken('anchor function %s not found' % short)
        return L

    def fn(self, short, required=True, pick=None):
        L = self.find(short, required)
        if pick: L = [f for f in L if pick(f)]
        if not L:
            if required: raise AnalysisBroken('anchor function %s not found' % short)
            return None
        if len(L) > 1: raise AnalysisBroken('anchor function %s is ambiguous: %s' % (short, [f.dn for f in L]))
        return L[0]

    # ---- constant memory ---------------------------------------------------
    def gbytes(self, g):
        """byte image of a constant global (pointers as markers) -> dict offset->(kind,val,size)"""
        G = self.globals[g]
        if '_img' in G: return G['_img']
        img = {}
        def rec(c, off):
            if 'hex' in c:
                b = bytes.fromhex(c['hex'])
                for i, x in enumerate(b): img[off + i] = ('c', x, 8)
            elif 'el' in c:
                for i, x in enumerate(c['el']): img[off + i * c['es']] = ('c', x, c['es'] * 8)
            elif 'agg' in c:
                for o, x in c['agg']: rec(x, off + o)
            elif 'zero' in c:
                img[('z', off)] = c.get('sz', 0)
            else:
                img[off] = conv(c)
        if 'init' in G: rec(G['init'], 0)
        G['_img'] = img
        return img

    def gload(self, g, off, size, force=False):
        """constant loaded from global g at off, or None"""
        G = self.globals.get(g)
        if G is None or 'init' not in G: return None
        if not (G['const'] or force): return None
        img = self.gbytes(g)
        if off in img:
            v = img[off]
            if v[0] != 'c': return v
            if v[2] == size * 8: return v
            if v[2] == 8 and size > 1:
                x = 0
                for i in range(size):
                    b = img.get(off + i)
                    if b is None or b[0] != 'c' or b[2] != 8: return None
                    x |= (b[1] & 255) << (8 * i)
                if x >= 1 << (size * 8 - 1): x -= 1 << (size * 8)
                return ('c', x, size * 8)
            return None
        for k, sz in img.items():
            if isinstance(k, tuple) and k[1] <= off and off + size <= k[1] + sz: return ('c', 0, size * 8)
        return None

    def gstring(self, g, off=0):
        img = self.gbytes(g)
        out = bytearray(); i = off
        while i in img and img[i][0] == 'c' and img[i][2] == 8:
            x = img[i][1] & 255
            if x == 0: return out.decode('latin1')
            out.append(x); i += 1
        if i not in img:
            for k, sz in img.items():
                if isinstance(k, tuple) and k[1] <= i < k[1] + sz: return out.decode('latin1')
        return None

    def cstr(self, v):
        """constant C string denoted by an operand"""
        if v[0] == 'g' and v[1] in self.globals:
            return self.gstring(v[1], v[2])
        return None
