"""C04: no reading operation stores into a document."""
from sa.util import *
from sa.lin import Lin, atom, const, Analysis
from sa.sccp import Sccp, C

# external functions that write through a pointer argument (positions); everything else outside the library only reads
WRITES = {'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'strcpy': (0,), 'strncpy': (0,), 'strcat': (0,), 'strncat': (0,), 'stpcpy': (0,), 'snprintf': (0,), 'sprintf': (0,),
          'vsnprintf': (0,), 'vsprintf': (0,), 'read': (1,), 'pread': (1,), 'fread': (0,), 'fgets': (0,), 'strtok': (0,), 'strtok_r': (0,), 'qsort': (0,), 'qsort_r': (0,), 'bzero': (0,),
          'gmtime_r': (1,), 'localtime_r': (1,), 'strftime': (0,), 'sscanf': (2, 3, 4, 5, 6, 7, 8, 9), 'free': (0,), 'realloc': (0,), 'swab': (1,), 'munmap': (), 'write': ()}
INTO = {'strchr', 'strrchr', 'strstr', 'memchr', 'strpbrk', 'strchrnul', 'rawmemchr', '__rawmemchr', 'memmem'}
FILE_WRITERS = {'ftruncate', 'truncate', 'unlink', 'rename', 'remove', 'creat', 'mprotect', 'msync', 'pwrite', 'pwrite64', 'fallocate', 'posix_fallocate', 'link', 'symlink', 'unlinkat', 'renameat', 'chmod', 'fchmod', 'ftruncate64', 'madvise'}
READERS = ('XML_Item', 'XML_Param_Description', 'XB_reader', '_XB_symbol_table')
DOC = ('XML_Item*', 'XML_Param_Description*')


def norm(n):
    if n.startswith('llvm.memcpy'): return 'memcpy'
    if n.startswith('llvm.memmove'): return 'memmove'
    if n.startswith('llvm.memset'): return 'memset'
    return n


def tyname(F, i):
    """debug type of argument i, without const and indirection"""
    d = F.dit[1:]
    sret = 1 if F.rt == 'void' and F.args and len(F.args) == len(d) + 1 else 0
    j = i - sret
    return d[j] if 0 <= j < len(d) else ''


def bare(t): return t.replace('const ', '').replace('*', '').replace('&', '').strip()


class Taint:
    """flow-insensitive, field based: which values may point into a document"""

    def __init__(self, P, roots, cells, cut):
        self.P = P; self.cells = set(cells); self.args = {}; self.ret = set(); self.vals = {}; self.cut = cut
        for F, a in roots: self.args.setdefault(F.name, set()).update(a)
        ch = True
        while ch:
            ch = False
            for n in list(self.args):
                if self.visit(P.funcs[n]): ch = True

    def cell(self, F, o):
        off = 0
        while o[0] == 'v':
            I = F.inst[o[1]]
            if I.op == 'getelementptr' and not I.raw['vix']: off += I.raw['o']; o = I.a[0]
            elif I.op == 'bitcast': o = I.a[0]
            else: return None
        if o[0] == 'a': return (bare(tyname(F, o[1])), off)
        if o[0] == 'g': return ('global', o[1], o[2] + off)
        return None

    def local(self, F, o):
        off = 0
        while o[0] == 'v':
            I = F.inst[o[1]]
            if I.op == 'getelementptr' and not I.raw['vix']: off += I.raw['o']; o = I.a[0]
            elif I.op == 'bitcast': o = I.a[0]
            elif I.op == 'alloca': return (F.name, I.id, off)
            else: return None
        return None

    def is_t(self, F, o):
        if o[0] == 'a': return o[1] in self.args.get(F.name, ())
        if o[0] == 'v': return o[1] in self.vals.get(F.name, ())
        return False

    def visit(self, F):
        V = self.vals.setdefault(F.name, set())
        changed = False
        again = True
        while again:
            again = False
            for I in F.insts():
                t = False
                if I.op in ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'freeze'): t = self.is_t(F, I.a[0])
                elif I.op in ('phi',): t = any(self.is_t(F, x) for x in I.a)
                elif I.op == 'select': t = self.is_t(F, I.a[1]) or self.is_t(F, I.a[2])
                elif I.op in ('add', 'and', 'or') and I.bw == 64: t = any(self.is_t(F, x) for x in I.a)
                elif I.op == 'load' and I.t == 'ptr':
                    c = self.cell(F, I.a[0]) or self.local(F, I.a[0])
                    t = c in self.cells
                elif I.op == 'store' and self.is_t(F, I.a[0]):
                    if F.inst and I.a[0][0] in 'va':
                        c = self.cell(F, I.a[1]) or self.local(F, I.a[1])
                        isp = I.a[0][0] == 'a' or F.inst[I.a[0][1]].t == 'ptr'
                        if c and isp and c not in self.cells: self.cells.add(c); changed = again = True
                elif I.op in ('call', 'invoke'):
                    n = I.callee
                    if n == 'mmap': t = F.cls in READERS
                    elif n in INTO: t = self.is_t(F, I.a[0])
                    elif n in self.P.funcs and not self.P.funcs[n].decl:
                        if n not in self.cut:
                            for k, x in enumerate(I.a):
                                if self.is_t(F, x) and k not in self.args.setdefault(n, set()): self.args[n].add(k); changed = True
                            if n in self.args and n not in self.vals: changed = True
                            t = n in self.ret and I.t == 'ptr'
                if t and I.id not in V: V.add(I.id); changed = again = True
        if F.name not in self.ret:
            for I in F.insts():
                if I.op == 'ret' and I.a and self.is_t(F, I.a[0]): self.ret.add(F.name); changed = True
        return changed


def run(K):
    P = K.prog
    K.rule('Interprocedural, field based pointer analysis from the document handles (elements, attributes, symbol tables, the mapped file) through every reading function of the library and everything it calls: '
           'no store and no writing library call may reach memory through such a pointer; the file is opened and mapped with constant read-only flags.')
    K.assume('functions outside the library write only through the arguments listed in the checker (the C library and std::ostream are trusted)')
    cut = {f.name for f in P.find('Bin_xml_packer::Convert')}
    roots = []
    reading = []
    for F in P.repo_funcs:
        if F.decl: continue
        doc = {i for i in range(len(F.args)) if bare(tyname(F, i)) in ('XML_Item', 'XML_Param_Description') and tyname(F, i).replace('const ', '').strip() in DOC}
        if F.cls in READERS and not F.base.startswith('~'): roots.append((F, doc)); reading.append(F)
        elif F.cls and (F.cls.startswith('BW_') or F.cls.startswith('Bin_src') or F.cls.startswith('Bin_xml_plugin')) and doc: roots.append((F, doc)); reading.append(F)
        elif F.base and F.base.startswith('operator<<') and any('XB_reader' in tyname(F, i) for i in range(len(F.args))): roots.append((F, set())); reading.append(F)
    K.need(len(reading) > 30, 'reading functions were not found')
    T = Taint(P, roots, {('XB_reader', field(P, 'XB_reader', 'doc')[0]), ('XB_reader', field(P, 'XB_reader', 'data')[0])}, cut)
    names = set(T.args)
    for n in sorted(names):
        F = P.funcs[n]
        K.count('functions')
        bad = None; k = 0
        for I in F.insts():
            if I.op == 'store':
                k += 1
                if T.is_t(F, I.a[1]): bad = (I, 'stores into the document'); break
            elif I.op in ('call', 'invoke') and I.callee:
                m = norm(I.callee)
                for a in WRITES.get(m, ()):
                    if a < len(I.a) and T.is_t(F, I.a[a]): bad = (I, 'lets %s write into the document' % m); break
            elif I.op in ('atomicrmw', 'cmpxchg'):
                if T.is_t(F, I.a[0]): bad = (I, 'stores into the document')
            if bad: break
        K.count('stores', k)
        K.ob('no store reaches a document', 'store:' + F.short, bad is None, bad[0].where if bad else F.where, '%s %s' % (F.short, bad[1] if bad else ''))
    # the file: constant read-only flags at every open and mmap reachable from the reading functions
    seen = set(); st = [F.name for F in reading]
    while st:
        n = st.pop()
        if n in seen or n in cut or n not in P.funcs or P.funcs[n].decl: continue
        seen.add(n)
        for I in P.funcs[n].calls():
            if I.callee: st.append(I.callee)
    opens = maps = 0
    S = Sccp(P)
    for n in sorted(seen):
        F = P.funcs[n]
        if F.cls and F.cls.startswith('BW_'): continue
        R = None
        for I in F.calls():
            if I.callee in ('open', 'open64', 'mmap', 'mmap64'):
                R = R or S.run(F)
                v = R.const(I.a[1 if I.callee.startswith('open') else 2])
                if I.callee.startswith('open'):
                    opens += 1
                    K.ob('the document is opened read-only', 'open:' + F.short, v is not None and v & 0o3 == 0 and not v & (0o100 | 0o1000 | 0o2000), I.where, 'the flags of open are %s' % v)
                else:
                    maps += 1
                    K.ob('the document is mapped read-only', 'mmap:' + F.short, v == 1, I.where, 'the protection of the mapping is %s' % v)
            elif I.callee in FILE_WRITERS or I.callee in ('fopen', 'fopen64') and writes_mode(P, I):
                K.ob('reading never changes files', 'file:%s:%s' % (F.short, I.callee), False, I.where, '%s calls %s' % (F.short, I.callee))
    K.need(opens and maps, 'the reader does not open or map anything')
    K.ob('reading never changes files', 'file:all', True, P.fn('XB_reader::Initialize').where)
    K.count('functions reachable from the reading interface', len(seen))
    K.minimum('functions', 40)


def writes_mode(P, I):
    m = I.a[1]
    s = P.cstr(m) if m[0] == 'g' else None
    return s is None or any(c in s for c in 'wa+')
