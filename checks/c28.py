"""C28: converting a whole document into .xbw stores each part once, or reports failure; converting it back gives the same."""
from sa.types import *
from sa.trace import *
from sa.libc import put
from .c02 import Layout
from .c16 import POOL, ELEMENT
from .c18 import Doc
from .c20 import DOCS, VALUES, MIXED, JSONS, E, NAMES, from_xml, from_json, expected, json_expected, tree, agrees, names_in, orderly, outcomes, refused, shapes, stored_xb, text_of, way, alike, plain
from .c29 import Dest

NEW = 'out/target.xbw'


class Written:
    """the writable document at the end of a trace"""

    def __init__(self, P, mem):
        self.P = P; self.D = Doc(P, [], []); self.D.mem = mem; self.mem = mem; self.X = Dest(P, self.D)
        self.names = {v: k[4:] for k, v in P.enums.items() if k.startswith('XBT_') and not k.endswith('CONVERTABLE')}

    def symbols(self, k):
        l = self.D.decode(self.mem, k)
        return l if isinstance(l, str) else [(n.encode('latin1').decode('latin1'), self.names.get(t)) for n, t in l]

    def root(self):
        o, s = field(self.P, 'BW_pool', 'root')
        v = load(self.mem, (None, POOL + o), s)
        return v[1] if v is not None and v[0] == 'c' else None

    def named(self, t, tags, pars):
        if isinstance(t, str): raise ValueError(t)
        n, ty, b, ats, kids = t
        nm = lambda l, i: l[i][0] if i is not None and 0 <= i < len(l) else i
        if b is None or any(x is None for a, y, x in ats): raise ValueError('a value was never set')
        return (nm(tags, n), ty, text_of(ty, b), [(nm(pars, a), y, text_of(y, x)) for a, y, x in ats], [self.named(k, tags, pars) for k in kids])

    def image(self):
        """bytes of the file"""
        o, s = field(self.P, 'BW_pool', 'file_size')
        n = load(self.mem, (None, POOL + o), s)
        out = []
        for i in range(n[1]):
            v = load(self.mem, (None, POOL + i), 1)
            if v is None or v[0] != 'c': return None, i
            out.append(chr(v[1] & 255))
        return ''.join(out), None


def fits(ty, declared): return declared == ty or ty == 'NULL' or declared == 'VARIANT'


def typed(t, tags, pars):
    """every value has the type declared for its name"""
    dt, dp = dict(tags), dict(pars)
    if not fits(t[1], dt.get(t[0])): return 'a value of <%s> is %s, declared is %s' % (t[0], t[1], dt.get(t[0]))
    for a, y, x in t[3]:
        if not fits(y, dp.get(a)): return 'a value of %s= is %s, declared is %s' % (a, y, dp.get(a))
    return next((x for x in (typed(k, tags, pars) for k in t[4]) if x), None)


def stored_xbw(K, P, key, mem, seen, want, where, dst=NEW, old=0):
    bad = img = None
    if not any(w[0] == 'open' and w[1] == dst for w in seen): bad = 'the file is not made'
    else:
        try:
            X = Written(P, mem)
            tags, pars = X.symbols('tags'), X.symbols('params')
            if isinstance(tags, str) or isinstance(pars, str): raise ValueError('of names: %s, %s' % (tags, pars))
            r = X.root()
            if not r: raise ValueError('there is no root')
            t = X.named(X.X.tree(mem, r), tags, pars)
            tg, pr = names_in(want)
            if not agrees(plain(t), want): raise ValueError('it says %s instead of %s' % (str(plain(t))[:300], str(want)[:300]))
            for l, w, what in ((tags, tg, 'element'), (pars, pr, 'attribute')):
                nm = [x for x, y in l]
                if len(set(nm)) != len(nm) or set(nm) != w: raise ValueError('the names of %ss are %s' % (what, nm))
            x = typed(t, tags, pars)
            if x: raise ValueError(x)
            img, at = X.image()
            size = max((w[2] for w in seen if w[0] == 'truncate'), default=0)
            if img is None: raise ValueError('byte %d was never set' % at)
            if len(img) > max(size, old): raise ValueError('the file has %d bytes, the document %d' % (size, len(img)))
        except ValueError as x: bad = str(x)
    K.ob('the document is in the writable file once and completely', key, bad is None, where, 'converting %s into .xbw: %s' % (key, bad))
    return img if bad is None else None


def run(K):
    P = K.prog
    L = Layout(P)
    K.rule('Abstract interpretation of complete conversions into a writable document (construct, DoAll, destroy) with the model of the system of C20; the shared memory left at the end is decoded independently (names, types, rings of attributes and '
           'children, values) and compared with the source; every request of the system may fail once. The file is then given to the conversion into .xb, whose result has to say the same.')
    K.assume('the XML library answers the tree of the source; a shared mapping is the contents of the file')
    calls, which = way(P, 'names', to='xbw')
    F = calls[which][0]

    def one(key, d, back=(), bad=False, **kw):
        img = None
        for r, e, seen in outcomes(K, P, key, from_xml(P, d), calls, which, **kw):
            if r == 1: img = stored_xbw(K, P, key, e.mem, seen, expected(d), F.where)
        if not back or img is None: return img
        mem = Mem()
        put(mem, (None, NAMES), 'dir/source.xbw\0'); put(mem, (None, NAMES + 64), 'out/target.any\0')
        for how in back:
            c, w = way(P, how)
            for r, e, seen in outcomes(K, P, key + ':back:' + how, (0, Mem(mem), {'dir/source.xbw': img}), c, w, bad):
                if r == 1: stored_xb(K, L, key + ':back:' + how, seen, expected(d), c[w][0].where, 'out/target.xb', 'dir/source.xbw')
        return img

    def again(key, img, d):
        """the target is there already"""
        root, mem, files = from_xml(P, d)
        for r, e, seen in outcomes(K, P, key, (root, mem, {**files, NEW: img}), calls, which):
            if r == 1: stored_xbw(K, P, key, e.mem, seen, expected(d), F.where, old=len(img))
    BOTH = ('convert', 'packer')
    I = [(k, d, one('xbw:first:' + k, d)) for k, d in (('attrs', DOCS['attrs']), ('short', E('x', v='1')), ('same', DOCS['same']))]
    for k, d, img in I:
        for j, w, o in I:
            if img is not None: again('xbw:again:%s:%s' % (k, j), img, w)
    for k, d in DOCS.items(): one('xbw:' + k, d, BOTH if k in ('attrs', 'types', 'mixed', 'order', 'same') else ())
    for n in (1, 2, 3):
        for i, d in enumerate(shapes(n)): one('xbw:shape%d.%d' % (n, i), d, ('convert',) if n < 3 else ())
    for v in VALUES:
        vv = v if v.strip() == v else 'x'
        one('xbw:value:' + v[:20], E('r', E('v', v=vv), E('v', v='x', a=[('p', v)]), a=[('p', v)]))
        one('xbw:only:' + v[:20], E('r', E('v', v=vv), a=[('p', v)]), ('convert',))
    for v, w in MIXED: one('xbw:mixed:%s:%s' % (v, w), E('r', E('v', v=v or None, a=[('p', v)]), E('v', v=w or None, a=[('p', w)])), ('convert',))
    one('xbw:faults', DOCS['attrs'], faults=True)
    for v in ('7', 'word'): one('xbw:back:' + v, E('r', E('v', v=v), a=[('p', v)]), ('convert',), True)
    one('xbw:faults:types', DOCS['types'], faults=True)
    refused(K, P, 'xbw', ('names',))
    K.minimum('conversions', 200)
