"""C10: descriptors, mappings and memory that are acquired are released exactly once with the matching call."""
from sa.util import *
from sa.sccp import Sccp
from sa.paths import Paths, END, reachable
from sa.build import AnalysisBroken

ACQ = {'open': 'descriptor', 'open64': 'descriptor', 'creat': 'descriptor', 'creat64': 'descriptor', 'fopen': 'FILE', 'fopen64': 'FILE', 'opendir': 'directory',
       'mmap': 'mapping', 'mmap64': 'mapping', 'malloc': 'malloc', 'calloc': 'malloc', 'strdup': 'malloc', 'strndup': 'malloc', '_Znam': 'new[]', '_Znwm': 'new',
       'xmlReadFile': 'xmlDoc'}
REL = {'close': 'descriptor', 'fclose': 'FILE', 'closedir': 'directory', 'munmap': 'mapping', 'free': 'malloc', '_ZdaPv': 'new[]', '_ZdaPvm': 'new[]', '_ZdlPv': 'new', '_ZdlPvm': 'new', 'xmlFreeDoc': 'xmlDoc'}
FD = 0x5eed01
PTR = ('g', '@resource', 0)


def token(kind): return ('c', FD, 32) if kind == 'descriptor' else PTR


class Own(Paths):
    """state: 'held', 'done' (released), ('member', key)"""

    def __init__(self, *a, **k):
        self.kind = k.pop('kind'); self.start = k.pop('start'); super().__init__(*a, state='new', **k)
        self.leaks = []; self.wrong = []; self.twice = []; self.stored = []; self.returned = False

    def keeps(self, v): return v == token(self.kind)

    def is_tok(self, env, o):
        v = self.val(env, o)
        return v is not None and v[:2] == token(self.kind)[:2] and (v[0] == 'c' or True)

    def step(self, J, env, mem, state):
        F = self.F
        if J.id == self.start and J.op in ('call', 'invoke'):
            # acquired once more in a loop
            if state == 'held': self.leaks.append(J)
            return 'held'
        if state == 'new': return state
        if J.op in ('call', 'invoke'):
            n = J.callee or ''
            if n in REL and J.a and self.is_tok(env, J.a[0]):
                if REL[n] != self.kind:
                    if REL[n] != 'descriptor' and not (self.kind == 'descriptor'): self.wrong.append((J, REL[n]))
                if state == 'done': self.twice.append((J, 'released again'))
                return 'done'
            if state == 'done' and not n.startswith('llvm.') and any(self.is_tok(env, o) for o in J.a):
                if self.kind == 'descriptor' and n.startswith('_ZNSo'): return state
                self.twice.append((J, 'used after its release'))
        if J.op == 'store':
            if self.is_tok(env, J.a[0]) and state == 'held':
                k = self.place(J.a[1])
                if k is not None:
                    if (J, k) not in self.stored: self.stored.append((J, k))
                    return ('member', k)
            if state == 'done' and self.is_tok(env, J.a[1]): self.twice.append((J, 'written after its release'))
        if J.op == 'load' and state == 'done' and self.is_tok(env, J.a[0]): self.twice.append((J, 'read after its release'))
        return state

    def place(self, o):
        """where the resource is kept: None for a local of this function"""
        s = shape(self.F, o)
        d = owner(s)
        if d[0] == 'local' and not escapes(self.F, d[1]): return None
        return d

    def at_ret(self, T, env, mem, state):
        if T.a and self.is_tok(env, T.a[0]):
            if state == 'held': self.returned = True
            if state == 'done': self.twice.append((T, 'returned after its release'))
            return
        if state == 'held': self.leaks.append(T)


def owner(s, depth=0):
    """('this',off,depth) member of the object (depth: loads between), ('arg',n), ('global',name), ('local',id)"""
    off = 0
    if s[0] == 'gep': off = s[2]; s = s[1]
    if s[0] == 'ld': return owner(s[2], depth + 1)
    if s[0] == 'a': return ('arg', s[1], off, depth)
    if s[0] == 'g': return ('global', s[1], s[2] + off, depth)
    if s[0] == 'v': return ('local', s[1], off, depth)
    return ('other', str(s)[:60], 0, depth)


def escapes(F, vid):
    return F.inst[vid].op != 'alloca'


def run(K):
    P = K.prog
    K.rule('Every call that acquires a descriptor, mapping, directory, FILE or memory is assumed to succeed and followed along every path: before the function returns the resource is '
           'released by the matching call, returned, or stored in an object; it is neither used nor released again after its release. '
           'Objects that keep resources release each of them with the matching call in their destructor (or Finalize) or before the storing function returns; a kept resource is replaced only after the old one was released or tested for absence.')
    K.assume('an object whose Initialize failed or is repeated is destroyed or finalized by its user; resources handed to an out parameter belong to the caller')
    S = Sccp(P)
    acq = dict(ACQ)
    members = {}
    done = set(); todo = [F for F in P.repo_funcs if not F.decl and F.file is not None]
    for rnd in range(4):
        new = {}
        for F in todo:
            base = None; order = {}
            for I in list(F.calls()):
                if I.callee not in acq or (F.name, I.id) in done: continue
                if I.t == 'void': continue
                kind = acq[I.callee]
                if base is None: base = S.run(F)
                if I.block not in base.blocks: continue
                done.add((F.name, I.id))
                tk = token(kind)
                X = Own(F, base, {I.id: tk}, kind=kind, start=I.id)
                X.run(I)
                nm = name_of(P, I.callee); order[nm] = order.get(nm, 0) + 1
                key = '%s:%s#%d' % (F.short, nm, order[nm])
                K.count('acquisitions'); K.count('paths followed', X.n)
                K.ob('acquired resource does not leak', key, not X.leaks, I.where, '%s from %s in %s is not released on a path to the return at %s' % (kind, nm, F.short, X.leaks and X.leaks[0].where))
                K.ob('released by the matching call', key, not X.wrong, I.where, '%s from %s is released as %s at %s' % (kind, nm, X.wrong and X.wrong[0][1], X.wrong and X.wrong[0][0].where))
                K.ob('not used after its release', key, not X.twice, I.where, '%s from %s is %s at %s' % (kind, nm, X.twice and X.twice[0][1], X.twice and X.twice[0][0].where))
                if X.returned and F.name not in acq: new[F.name] = kind
                for J, k in X.stored: members.setdefault((F.name, k, kind), []).append((J, key))
        if not new: break
        acq.update(new)
        K.count('functions returning an owned resource', len(new))
    else:
        K.need(False, 'owner functions did not reach a fixed point')
    K.minimum('acquisitions', 20)

    # kept resources
    rel = releases(P)
    stores = {}
    for (fn, k, kind), L in sorted(members.items(), key=str):
        F = P.funcs[fn]
        J, key = L[0]
        if k[0] == 'arg' and k[1] == 0 and F.has_this and k[3] > 0 and arg_member(P, F, k) is None:
            K.count('resources handed to another object'); continue
        if k[0] == 'arg' and not (k[1] == 0 and F.has_this):
            K.count('resources handed to the caller'); continue
        if k[0] in ('local', 'other'):
            K.count('resources handed to another object'); continue
        if k[0] == 'global':
            good = [r for r in rel if r[1][:3] == k[:3] and r[1][3] == k[3] + 1]
            where_ok = good
        else:
            fam = family(P, F.cls)
            cand = dtor_funcs(P, F.cls)
            good = [r for r in rel if r[1][0] == 'arg' and r[1][1] == 0 and r[1][2] == k[2] and r[1][3] == k[3] + 1 and r[0].has_this
                    and (r[0].cls in fam or F.cls in family(P, r[0].cls))]
            where_ok = [r for r in good if r[0].name in cand or (r[0].name == fn and must_follow(F, J, r[2]))]
        m = 'member at offset %s of %s' % (k[2], F.cls) if k[0] == 'arg' else str(k[1])
        m = member_name(P, F.cls, k[2]) or m
        K.count('kept resources')
        K.ob('kept resource is released with its owner', '%s:%s' % (key, m), bool([r for r in where_ok if r[3] == kind]), J.where, '%s kept in %s is never released by the destructor (or Finalize) of its owner' % (kind, m))
        bad = [r for r in good if r[3] != kind and r[3] is not None]
        # descriptors and memory kept in one member cannot mix
        K.ob('kept resource is released by the matching call', '%s:%s' % (key, m), not bad, J.where, '%s kept in %s is released as %s at %s' % (kind, m, bad and bad[0][3], bad and bad[0][2].where))
        a = shape(F, J.a[1])
        if k[0] == 'arg' and k[3] == 0 and not (a[0] == 'gep' and a[3]) and F.base not in (F.cls, 'Initialize'):
            again = {r[2].block for r in rel if r[0] is F and r[1] == k[:3] + (1,)}
            for I in F.insts():
                if I.op == 'icmp' and any(owner(shape(F, o)) == k[:3] + (1,) for o in I.a): again.add(I.block)
            own_end = any(r[0] is F and r[1] == k[:3] + (1,) and must_follow(F, J, r[2]) for r in rel)
            K.ob('kept resource does not replace another one', '%s:%s' % (key, m), own_end or must_pass(F, again, J.block), J.where, 'a resource already kept in %s is overwritten without its release' % m)
    K.minimum('kept resources', 8)

    # a member released outside the destructor is reset when the release succeeded
    for F, o, J, kind in rel:
        if o[0] != 'arg' or o[1] != 0 or not F.has_this or F.base.startswith('~'): continue
        if o[3] != 1: continue
        if reset_before(F, o, J): K.count('releases of members outside destructors'); continue
        X = Reset(F, S.run(F), {J.id: ('c', 0, 32)} if J.bw else {}, o=o)
        X.run(J)
        K.count('releases of members outside destructors')
        K.ob('released member is not left behind', '%s:%s' % (F.short, member_name(P, F.cls, o[2]) or o[2]), not X.bad, J.where, 'the released member keeps its old value at the return at %s' % (X.bad and X.bad[0].where))
    K.minimum('releases of members outside destructors', 4)


def reset_before(F, o, J):
    """the member was read, then overwritten, and then its old value is released"""
    x = J.a[0]
    while x[0] == 'v' and F.inst[x[1]].op in ('bitcast', 'freeze', 'sext', 'trunc'): x = F.inst[x[1]].a[0]
    if x[0] != 'v' or F.inst[x[1]].op != 'load': return False
    L = F.inst[x[1]]
    for S in F.insts():
        if S.op != 'store' or owner(shape(F, S.a[1])) != o[:3] + (0,) or S.a[0] == x: continue
        if S.block == L.block and S.idx < L.idx: continue
        if S.block != L.block and S.block not in reachable(F, L.block): continue
        if S.block == J.block and S.idx < J.idx or S.block != J.block and must_pass(F, {S.block}, J.block): return True
    return False


class Reset(Paths):
    def __init__(self, *a, **k):
        self.o = k.pop('o'); super().__init__(*a, state='dangling', **k)

    def step(self, J, env, mem, state):
        if J.op == 'store':
            d = owner(shape(self.F, J.a[1]))
            if d == self.o[:3] + (0,): return 'reset'
        return state

    def at_ret(self, T, env, mem, state):
        if state == 'dangling': self.bad.append(T)


def name_of(P, n):
    f = P.funcs.get(n)
    return {'_Znam': 'new[]', '_Znwm': 'new'}.get(n) or (f.short if f is not None and not f.decl else n)


def arg_member(P, F, k): return True


def releases(P):
    """[(F, owner of the released value, call, kind)]"""
    out = []
    for F in P.repo_funcs:
        if F.decl: continue
        for J in F.calls():
            if J.callee in REL and J.a:
                s = shape(F, J.a[0])
                out.append((F, owner(s), J, REL[J.callee]))
            elif J.callee is None and J.a and any(n.endswith('D0Ev') for n in virtual_targets(P, F, J)):
                out.append((F, owner(shape(F, J.a[0])), J, 'new'))
    return out


# classes whose users have to call Finalize (documented protocol, the destructor leaves the document mapped)
EXPLICIT = ('XB_reader',)


def family(P, cls):
    out = {cls}; st = [cls]
    while st:
        c = st.pop()
        t = P.types.get(c)
        for m in (t or {}).get('m', ()):
            if m['inh'] and m['n'] not in out: out.add(m['n']); st.append(m['n'])
    return out


def dtor_funcs(P, cls):
    """functions executed when an object of the class is destroyed"""
    fam = family(P, cls)
    roots = [F for F in P.repo_funcs if not F.decl and F.cls in fam and (F.base.startswith('~') or F.base == 'Finalize' and F.cls in EXPLICIT)]
    out = {F.name for F in roots}; st = list(roots)
    while st:
        F = st.pop()
        for c in F.calls():
            g = P.funcs.get(c.callee) if c.callee else None
            if g is not None and not g.decl and g.name not in out: out.add(g.name); st.append(g)
            for n in virtual_targets(P, F, c, fam):
                g = P.funcs.get(n)
                if g is not None and not g.decl and g.name not in out: out.add(g.name); st.append(g)
    return out


def must_follow(F, J, K_):
    """every path from J to a return passes K_"""
    if J.block == K_.block and J.idx < K_.idx: return True
    ends = {K_.block}
    me = shape(F, K_.a[0])
    for b in F.preds[K_.block]:
        # if (resource) release(resource)
        T = F.blocks[b][-1]
        if T.op == 'br' and T.a and T.a[0][0] == 'v':
            C_ = F.inst[T.a[0][1]]
            if C_.op == 'icmp' and C_.pred in ('eq', 'ne') and C_.a[1][0] == 'c' and shape(F, C_.a[0]) == me and T.raw['s'][0 if C_.pred == 'ne' else 1] == K_.block: ends.add(b)
    if J.block in ends and J.block != K_.block: return True
    seen = set(); st = list(F.succ[J.block])
    if not st: return False
    while st:
        b = st.pop()
        if b in ends or b in seen: continue
        seen.add(b)
        if F.blocks[b][-1].op == 'ret': return False
        st += F.succ[b]
    return True


def member_name(P, cls, off):
    for c in [cls]:
        t = P.types.get(c)
        for m in (t or {}).get('m', ()):
            if not m['inh'] and m['o'] <= off < m['o'] + max(1, m['bits'] // 8): return '%s::%s' % (cls, m['n'])
            if m['inh']:
                r = member_name(P, m['n'], off - m['o'])
                if r: return r
    return None
