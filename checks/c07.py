"""C07: combining value types is order independent."""
from sa.util import *
from sa.sccp import C
from sa.trace import Trace


def answer(ends):
    """the value every trace returns"""
    r = {e.ret for e in ends if e.kind == 'ret'}
    return r.pop() if len(r) == 1 else None


def join_table(P, K):
    J = P.fn('XBT_JoinTypes')
    S = Trace(P)
    T = list(range(enum(P, 'XBT_LAST') + 1))
    tab = {}
    for a in T:
        for b in T:
            v = answer(S.run(J, {0: C(a), 1: C(b)}))
            if v is None or v[0] != 'c': raise AnalysisBroken('the join of types %d and %d does not fold to a constant' % (a, b))
            tab[a, b] = v[1]
    return T, tab, J


def run(K):
    P = K.prog
    K.rule('The join function is interpreted (sa/trace.py) for every ordered pair of types; the resulting table is checked against the laws of a join, '
           'exhaustively over all pairs and triples. The detection wrapper is folded the same way with every detected type bound.')
    T, tab, J = join_table(P, K)
    e = lambda n: enum(P, n)
    neutral = {e('XBT_NULL'), e('XBT_UNKNOWN'), e('XBT_LAST')}
    dec = [e('XBT_INT32'), e('XBT_INT32_DECI'), e('XBT_INT32_CENTI'), e('XBT_INT32_MILI'), e('XBT_INT32_MICRO'), e('XBT_INT32_NANO')]
    num = [e('XBT_INT32'), e('XBT_FLOAT'), e('XBT_INT64'), e('XBT_DOUBLE')]
    top = [e('XBT_VARIANT'), e('XBT_STRING'), e('XBT_BLOB_STRING')]
    names = {v: k[4:] for k, v in P.enums.items() if k.startswith('XBT_') and isinstance(v, int) and v in T and k not in ('XBT_CONVERTABLE',) and not k.endswith('CONVERTABLE')}
    nm = lambda t: names.get(t, str(t))
    cl = lambda t: -1 if t in neutral else t
    join = lambda a, b: tab[a, b] if a != -1 and b != -1 else None
    w = J.where
    K.count('type pairs', len(tab))
    reps = [t for t in T if t not in neutral]
    rngI = lambda t: {num[0]: (31, 0), num[1]: (24, 1), num[2]: (63, 0), num[3]: (53, 1)}.get(t)
    for (a, b), r in sorted(tab.items()):
        k = '%s+%s' % (nm(a), nm(b))
        K.ob('combination yields a type', 'range:' + k, r in T, w, 'combining %s gives %d' % (k, r))
        if r not in T: continue
        K.ob('combining is commutative', 'comm:' + k, cl(r) == cl(tab[b, a]), w, '%s gives %s but %s+%s gives %s' % (k, nm(r), nm(b), nm(a), nm(tab[b, a])))
        if a in neutral: K.ob('an empty value changes nothing', 'neutral:' + k, cl(r) == cl(b), w, '%s gives %s' % (k, nm(r)))
        elif b in neutral: K.ob('an empty value changes nothing', 'neutral:' + k, cl(r) == cl(a), w, '%s gives %s' % (k, nm(r)))
        else:
            if a == b: K.ob('combining is idempotent', 'idem:' + k, r == a, w, '%s gives %s' % (k, nm(r)))
            rank = lambda t: top.index(t) if t in top else -1
            if max(rank(a), rank(b)) >= 0:
                K.ob('text and variant absorb everything', 'absorb:' + k, rank(r) >= max(rank(a), rank(b)), w, '%s gives %s' % (k, nm(r)))
            elif a != b and r not in top:
                ok = False
                if a in num and b in num and r in num:
                    fl = lambda t: t in (num[1], num[3]); wd = lambda t: t in (num[2], num[3])
                    ok = fl(r) >= max(fl(a), fl(b)) and wd(r) >= max(wd(a), wd(b))
                if a in dec and b in dec and r in dec: ok = dec.index(r) >= max(dec.index(a), dec.index(b))
                K.ob('the combined type represents both', 'upper:' + k, ok, w, '%s gives %s, which does not represent values of both types' % (k, nm(r)))
    bad = 0
    for a in reps:
        for b in reps:
            for c in reps:
                x, y = tab[a, b], tab[b, c]
                if x not in T or y not in T: continue
                l, r = cl(tab[x, c]), cl(tab[a, y])
                K.count('type triples')
                if l != r or not bad:
                    K.ob('combining is associative', 'assoc:%s+%s+%s' % (nm(a), nm(b), nm(c)), l == r, w, '(%s+%s)+%s and %s+(%s+%s) differ' % (nm(a), nm(b), nm(c), nm(a), nm(b), nm(c)))
                    bad = 1
    # detection wrapper: join of what was detected with what was expected
    D = P.fn('XBT_Detect2'); det = {f.name for f in P.find('XBT_Detect')}
    K.need(any(c.callee in det for c in D.calls()), 'XBT_Detect2 does not detect')
    for d in T:
        for x in T:
            v = answer(Trace(P, calls=lambda I, n, av, S, mem: [(C(d), None)] if n in det else None).run(D, {0: ('s', '&value', 0), 1: C(x)}))
            ok = v is not None and v[0] == 'c' and (cl(v[1]) == cl(tab[d, x]))
            K.ob('a detected value joins the expected type', 'detect:%s+%s' % (nm(d), nm(x)), ok, D.where, 'detected %s with expected %s does not give the combination of both' % (nm(d), nm(x)))
    # columns are only ever combined by the join
    for f in P.repo_funcs:
        for c in f.calls():
            if c.callee in {g.name for g in P.find('XBT_Detect2')} | {J.name}: K.count('combination sites')
    K.minimum('type pairs', 600)
    # a stored column type is always the combination with the type stored in the very same place before
    joins = {g.name for g in P.find('XBT_Detect2')} | {J.name}
    off, _ = field(P, 'Bin_xml_creator', 'symbol_table_types'); osz = layout(P, 'Bin_xml_creator')
    for f in P.repo_funcs:
        cs = [c for c in f.calls() if c.callee in joins]
        us = f.users()
        for n, c in enumerate(cs):
            st, seen, stores = [('v', c.id)], set(), []
            while st:
                o = st.pop()
                if o in seen: continue
                seen.add(o)
                for u in us.get(o, ()):
                    if u.op in ('trunc', 'zext', 'sext', 'bitcast', 'freeze', 'phi', 'select'): st.append(('v', u.id))
                    elif u.op == 'store' and u.a[0] == o and u.raw['sz'] == 1: stores.append(u)
            for s in stores:
                ad = shape(f, s.a[1])
                # only the tables of the creator: an array reached through a pointer member of its first argument
                if not shape_has(ad, lambda x: len(x) == 3 and x[0] == 'ld' and x[1] == 8 and shape_has(x[2], lambda y: y[:1] == ('gep',) and y[1] == ('a', 0) and off <= y[2] < off + 16)): continue
                src = []
                for x in c.a:
                    x = shape(f, x)
                    if x[0] == 'ld': src.append(x[2])
                K.count('column updates')
                K.ob('a column type is combined with its previous type', 'update:%s#%d' % (f.short, n), ad in src, s.where, 'the combined type is stored elsewhere than where its previous type was read')
    K.minimum('column updates', 2)
