"""C35: the file helpers do what they report: whole files, real sizes, every directory, every entry, every failure told."""
from sa.types import *
from sa.trace import *
from sa.libc import texts, fmt, put

NAME, BUF, OUT, DIRP, ENT, FILEP, POOL, FD = 0x2000000, 0x2100000, 0x2200000, 0x2300000, 0x2400000, 0x2500000, 0x9000000, 5
NOENT, INTR, IO, ACCES, EXIST, NOTDIR, NAMETOOLONG, NOSPC = 2, 4, 5, 13, 17, 20, 36, 28
REGULAR, DIRECTORY = 0o100644, 0o40755
WRONLY, RDWR, CREAT, EXCL, TRUNC, APPEND = 1, 2, 0o100, 0o200, 0o1000, 0o2000
FIELD = {'st_mode': (24, 4), 'st_size': (48, 8), 'st_mtim': (88, 8)}
BIG = 5 << 30


class System:
    """what the operating system answers; everything it is asked for is noted in the memory of the trace"""

    def __init__(self, P, size=0, mode=REGULAR, mtime=0, text=b'', entries=(), fail=None, err=IO, short=None, answer=None, format=1):
        self.P = P; self.size = size; self.mode = mode; self.mtime = mtime; self.text = text; self.entries = entries; self.fail = fail or {}; self.err = err; self.short = short; self.answer = answer; self.format = format

    def errno(self, m, v): store(m, (('g', 'errno'), 0), 4, ('c', v, 32))

    def note(self, m, *what): m['seen', 0, 0] = ('list', m.get(('seen', 0, 0), ('list', ()))[1] + (what,))

    def number(self, mem, what): return sum(1 for x in seen_of(mem) if x[0] == what)

    def done(self, mem, what, ok, bad, eff, *note):
        """the n-th request of a kind succeeds, or fails with an error"""
        n = self.number(mem, what)
        f = self.fail.get(what)
        e = f(n, *note) if callable(f) else f

        def effect(m):
            self.note(m, what, *note)
            if e: self.errno(m, e)
            elif eff: eff(m)
        return [(bad if e else ok, effect)]

    def told(self, at):
        def eff(m):
            for k, v in (('st_mode', self.mode), ('st_size', self.size), ('st_mtim', self.mtime)):
                o, z = FIELD[k]
                store(m, (at[0], at[1] + o), z, ('c', v, 8 * z))
        return eff

    def calls(self, I, n, av, T, mem):
        text = lambda v: T.text(v, mem) if v is not None else None
        num = lambda v: v[1] if v is not None and v[0] == 'c' else None
        if n is None:
            if not I.raw.get('fp'): return None
            i = self.number(mem, 'told')
            go, e = self.answer(i) if self.answer else (1, None)
            what = (text(av[0]), text(av[1]), num(av[2]), None if num(av[3]) is None else num(av[3]) & 255)

            def called(m):
                self.note(m, 'told', *what)
                if e is not None: self.errno(m, e)
            return [(C(-go, 1), called)]
        n = n[:-2] if n.endswith('64') and n[:-2] in ('open', 'fopen', 'stat', 'fstat', 'readdir', 'mmap', 'lseek') else n
        if n in ('mkdir',): return self.done(mem, 'mkdir', C(0), C(-1), None, text(av[0]), num(av[1]))
        if n in ('stat', 'lstat', 'fstat'):
            return self.done(mem, 'stat', C(0), C(-1), self.told(place(av[1])), text(av[0]) if n != 'fstat' else num(av[0]), n)
        if n in ('access',): return self.done(mem, 'stat', C(0), C(-1), None, text(av[0]), n)
        if n == 'open': return self.done(mem, 'open', C(FD), C(-1), None, text(av[0]), num(av[1]))
        if n == 'close': return self.done(mem, 'close', C(0), C(-1), None, num(av[0]))
        if n == 'read':
            at, want = place(av[1]), num(av[2])
            pos = sum(x[2] for x in seen_of(mem) if x[0] == 'read')
            got = max(0, min(want or 0, len(self.text) - pos))
            if self.short: got = min(got, self.short)

            def filled(m):
                for i in range(got): store(m, (at[0], at[1] + i), 1, ('c', sx(self.text[pos + i], 8), 8))
            if self.fail.get('read'): got = 0
            return self.done(mem, 'read', C(got, 64), C(-1, 64), filled, num(av[0]), got, want, at)
        if n == 'mmap': return self.done(mem, 'mmap', C(POOL, 64), C(-1, 64), None, *[num(x) for x in av])
        if n == 'munmap': return self.done(mem, 'munmap', C(0), C(-1), None, num(av[0]), num(av[1]))
        if n == 'opendir': return self.done(mem, 'opendir', C(DIRP, 64), C(0, 64), None, text(av[0]))
        if n == 'closedir': return self.done(mem, 'closedir', C(0), C(-1), None, num(av[0]))
        if n == 'readdir':
            i = self.number(mem, 'readdir')
            if i >= len(self.entries): return self.done(mem, 'readdir', C(0, 64), C(0, 64), None)
            e = self.entries[i]

            def entry(m):
                m[None, ENT, 300] = ('fill', 0)
                store(m, (None, ENT + 18), 1, ('c', e[1], 8))
                put(m, (None, ENT + 19), e[0] + '\0')
            return self.done(mem, 'readdir', C(ENT, 64), C(0, 64), entry)
        if n == 'fopen': return self.done(mem, 'fopen', C(FILEP, 64), C(0, 64), None, text(av[0]), text(av[1]))
        if n in ('vfprintf', '__vfprintf_chk'): return self.done(mem, 'print', C(self.format), C(-1), None, num(av[0]), text(av[1 if n[0] == 'v' else 2]))
        if n == 'fclose': return self.done(mem, 'fclose', C(0), C(-1), None, num(av[0]))
        if n == 'ferror': return [(C(1 if self.fail.get('print') else 0), None)]
        if n == 'clock_gettime':
            at = place(av[1])

            def clock(m):
                for o, v in ((0, self.mtime), (8, self.size)): store(m, (at[0], at[1] + o), 8, ('c', v, 64))
            return self.done(mem, 'clock', C(0), C(-1), clock, num(av[0]))
        if n == 'time': return [(C(self.mtime, 64), None)]
        if n in ('fread', 'pread', 'pread64', 'openat', 'fdopen', 'unlink', 'rename', 'rmdir', 'write', 'ftruncate', 'fwrite', 'creat', 'lseek', 'fputs', 'fputc', 'mkdirat', 'remove'):
            return self.done(mem, n, None, None, None, *[num(x) for x in av])
        return texts(I, n, av, T, mem)


def seen_of(mem): return mem.get(('seen', 0, 0), ('list', ()))[1]


def named(m, at, s): put(m, (None, at), s + '\0'); return C(at, 64)


def whole(d):
    """a directory as the system names it"""
    while '//' in d: d = d.replace('//', '/')
    return d.rstrip('/') or '/'


def run(K):
    P = K.prog
    K.rule('Every helper is interpreted for every answer the system can give (success, each failure of each request, short reads, entries of a directory); what it asks for, in which order, what it answers and what it leaves in memory has to be what its name says.')
    K.assume('the system answers as documented; no other process changes the files meanwhile')
    if 'stat' in getattr(P, 'structs', {}): FIELD.update({k: field(P, 'stat', k) for k in ('st_mode', 'st_size', 'st_mtim')})

    def go(fn, S, args, mem=None):
        F = P.fn(fn)
        m = Mem(mem or {})
        S.errno(m, 0)
        E = Trace(P, calls=S.calls, limit=60000, depth=12).run(F, args(m), m)
        K.count('cases')
        K.need(E, '%s does not return' % fn)
        for e in E:
            if e.kind != 'ret': K.ob('a helper returns', fn + ':returns', False, e.where, '%s does not return but ends the program' % fn); continue
            yield F, e, seen_of(e.mem)

    def num(v): return v[1] if v is not None and v[0] == 'c' else None
    def bit(v): return None if num(v) is None else num(v) & 1
    def kinds(l, *k): return [x for x in l if x[0] in k]
    def raw(m, at, n):
        out = [load(m, (at[0], at[1] + i), 1) for i in range(n)]
        return None if any(num(x) is None for x in out) else bytes(x[1] & 255 for x in out)

    MODIFY = ('mkdir', 'unlink', 'rename', 'rmdir', 'write', 'ftruncate', 'fwrite', 'creat', 'remove', 'fopen', 'mkdirat')

    def reading(F, l, what):
        """a helper which answers a question does not change anything"""
        bad = kinds(l, *MODIFY) + [x for x in kinds(l, 'open') if x[2] is None or x[2] & (WRONLY | RDWR | CREAT | TRUNC | APPEND)]
        K.ob('asking changes nothing', F.short + ':changes', not bad, F.where, '%s changes something: %s' % (what, bad[:1]))

    def closed(F, l, what, key):
        got = [x[1] for x in kinds(l, 'close')]
        n = 0 if not kinds(l, 'open') or failed(l, 'open') else 1
        K.ob('what was opened is closed once', F.short + ':closed:' + key, got == [FD] * n, F.where, '%s closes %s after %d files were opened' % (what, got, n))
    state = {}
    def failed(l, what): return state.get('fail', {}).get(what) is not None

    # ---- sizes, times, existence
    for fn, byfd, dirs in (('file_getsize', False, True), ('FileGetSize', False, False), ('FileGetSizeByFd', True, False), ('file_gettime', False, True), ('file_exists', False, True)):
        for size, mtime in ((0, 0), (1, 1), (4095, 1700000000), (1 << 31, 1 << 31), (BIG, BIG)):
            for mode in (REGULAR, DIRECTORY):
                for err in (None, NOENT, ACCES, NOTDIR, NAMETOOLONG):
                    if err and size: continue
                    S = System(P, size=size, mode=mode, mtime=mtime, fail={'stat': err} if err else {})
                    for F, e, l in go(fn, S, lambda m: {0: C(FD) if byfd else named(m, NAME, 'some/file.xb')}):
                        what = '%s of a %s of %d bytes%s' % (fn, 'directory' if mode == DIRECTORY else 'file', size, ' when it cannot be asked (error %d)' % err if err else '')
                        reading(F, l, what)
                        st = kinds(l, 'stat')
                        if 'open' not in [x[0] for x in l]: K.ob('the named file is asked', fn + ':asked', [x[1] for x in st][:1] == [FD if byfd else 'some/file.xb'] and all(x[2] != 'lstat' for x in st), F.where, '%s asks for %s' % (what, st))
                        if fn == 'file_exists': K.ob('a file is reported to exist exactly if it does', fn + (':error' if err else ''), bit(e.ret) == (0 if err else 1), F.where, '%s answers %s' % (what, num(e.ret)))
                        elif fn == 'file_gettime': K.ob('the time of a file is its time of change', fn + (':error' if err else ''), num(e.ret) == (-1 if err else mtime), F.where, '%s answers %s instead of %d' % (what, num(e.ret), -1 if err else mtime))
                        elif mode == DIRECTORY and dirs and not err: pass
                        else:
                            want = -1 if err or mode == DIRECTORY else size
                            K.ob('the size of a file is told', fn + (':error' if err else ':directory' if mode == DIRECTORY else ''), num(e.ret) == want, F.where, '%s answers %s instead of %d' % (what, num(e.ret), want))
        if fn in ('file_gettime', 'file_exists'):
            for nm, a in (('no name', lambda m: {0: C(0, 64)}), ('an empty name', lambda m: {0: named(m, NAME, '')})):
                for F, e, l in go(fn, System(P, fail={'stat': NOENT}), a):
                    K.ob('without a name there is no file', fn + ':' + nm, (bit(e.ret) == 0) if fn == 'file_exists' else num(e.ret) == -1, F.where, '%s of %s answers %s' % (fn, nm, num(e.ret)))

    # ---- directories
    LONG = 'd' * 200
    paths = ['a', 'a/', 'a/b', 'a/b/', '/a/b/c.xml', '/', '/a', 'a/b/c/d/e/f', 'x//y/z', '', './a/b', '../a/b', '/'.join([LONG] * 20), '/'.join([LONG] * 21)[:4095], '/'.join([LONG] * 20) + '/' + 'e' * 74 + '/',  '/'.join(['q' * 8] * 50), '/'.join([LONG] * 21)[:4096], 'q/' * 2048, '/'.join([LONG] * 30)]
    for p in paths:
        want = []
        for i, ch in enumerate(p):
            if ch == '/' and i > 0 and whole(p[:i]) not in want: want.append(whole(p[:i]))
        for kind in ('all new', 'all there', 'first fails', 'last fails', 'new below the first'):
            f = {'all new': None, 'all there': lambda n, *a: EXIST, 'first fails': lambda n, *a: ACCES if n == 0 else None, 'last fails': lambda n, d, *a: NOSPC if whole(d or '') == want[-1] else EXIST,
                 'new below the first': lambda n, *a: EXIST if n == 0 else None}[kind]
            if kind in ('first fails', 'last fails') and not want or len(p) > 100 and kind not in ('all new', 'last fails'): continue
            S = System(P, fail={'mkdir': f} if f else {})
            for F, e, l in go('force_directory', S, lambda m: {0: named(m, NAME, p), 1: C(0o750)}):
                mk = []
                for x in kinds(l, 'mkdir'):
                    d = None if x[1] is None else whole(x[1])
                    if d != '/' and (not mk or mk[-1] != d): mk.append(d)
                need = [d for d in want if d != '/']
                show = repr(p if len(p) < 30 else p[:8] + '...') + ' of %d characters' % len(p)
                key = 'force_directory:' + kind
                if len(p) >= 4096:
                    K.ob('a name which is too long is refused', 'force_directory:long', bit(e.ret) == 0 and not mk, F.where, 'making the directories of %s: %s, answer %s' % (show, mk[:1], num(e.ret)))
                    continue
                if kind == 'first fails': need = need[:1]
                K.ob('every directory of the path is made, the outer ones first', key, mk == need, F.where, 'making the directories of %s (%s) makes %s instead of %s' % (show, kind, [x and x[-20:] for x in mk][:6], [x[-20:] for x in need][:6]))
                K.ob('directories are made with the access asked for', 'force_directory:mode', all(x[2] == 0o750 for x in kinds(l, 'mkdir')), F.where, 'a directory is made with another access')
                K.ob('success is told exactly if all directories exist', key + ':answer', bit(e.ret) == (0 if kind in ('first fails', 'last fails') else 1), F.where, 'making the directories of %s (%s) answers %s' % (show, kind, num(e.ret)))

    # ---- listing
    some = [('.', 4), ('..', 4), ('a.xml', 8), ('.hidden', 8), ('..x', 8), ('...', 4), ('.a', 10), ('b', 0), ('c.xb', 8), ('A' * 255, 8)]
    for title, ent in (('some entries', some), ('no entry', some[:2]), ('an empty list', []), ('dots at the end', some[2:] + some[:2])):
        real = [x for x in ent if x[0] not in ('.', '..')]
        for stop in [None] + list(range(len(real))):
            for noise in (None, NOENT):
                for fail in (None, 'opendir', 'closedir', 'readdir', 'first'):
                    if fail and (stop is not None or noise): continue
                    if stop not in (None, 0, 1, len(real) - 1): continue
                    at = len(ent) // 2
                    S = System(P, entries=ent, answer=lambda i: (0 if i == stop else 1, noise), fail={'readdir': (lambda n, *a: IO if n == (at if fail == 'readdir' else 0) else None)} if fail in ('readdir', 'first') else {fail: IO} if fail else {})
                    told = real[:len(real) if stop is None else stop + 1] if fail not in ('opendir', 'first') else []
                    if fail == 'readdir': told = [x for x in ent[:at] if x in real]
                    for F, e, l in go('scan_dir', S, lambda m: {0: named(m, NAME, 'base'), 1: C(0x77, 64), 2: ('s', '&callback', 0)}):
                        what = 'listing %s%s%s%s' % (title, '' if stop is None else ' until number %d' % stop, ' while every call leaves an error number' if noise else '', ' when %s fails' % fail if fail else '')
                        key = 'scan_dir:' + (fail or ('stop' if stop is not None else 'all') + (':errno' if noise else ''))
                        got = [x[1:] for x in kinds(l, 'told')]
                        K.ob('every entry but . and .. is told once', key, got == [('base', n, 0x77, t) for n, t in told], F.where, '%s tells %s instead of %s' % (what, [x[1] for x in got][:10], [x[0] for x in told][:10]))
                        K.ob('a listing fails exactly if the directory cannot be read', key + ':answer', bit(e.ret) == (0 if fail else 1), F.where, '%s answers %s' % (what, num(e.ret)))
                        K.ob('a directory which was opened is closed once', key + ':close', [x[1] for x in kinds(l, 'closedir')] == ([] if fail == 'opendir' else [DIRP]), F.where, '%s closes %s' % (what, kinds(l, 'closedir')))
                        reading(F, l, what)

    # ---- contents
    data = bytes(range(1, 120)) + b'\0' + bytes(range(120, 200))
    for n in (0, 1, 7, len(data)):
        t = data[:n]
        for size in (0, 1, n, n + 1, n + 50):
            for fail in (None, 'open', 'read', 'close'):
                S = System(P, size=n, text=t, fail={fail: IO} if fail else {})
                state['fail'] = S.fail
                def args(m):
                    for i in range(size): store(m, (None, BUF + i), 1, ('c', 0x55, 8))
                    return {0: named(m, NAME, 'some/file'), 1: C(BUF, 64), 2: C(size)}
                for F, e, l in go('file_get_contents', S, args):
                    what = 'reading %d bytes of a file of %d%s' % (size, n, ' when %s fails' % fail if fail else '')
                    bad = fail in ('open', 'read') or None
                    want = -1 if bad else min(n, size)
                    key = 'file_get_contents' + (':' + fail if fail else '')
                    K.ob('the number of bytes read is told', key, num(e.ret) == want, F.where, '%s answers %s instead of %d' % (what, num(e.ret), want))
                    if not bad: K.ob('the content of the file is read, the rest is zero', key + ':content', raw(e.mem, (None, BUF), size) == t[:size] + bytes(max(0, size - n)), F.where, '%s reads something else' % what)
                    K.ob('not more is read than there is room for', 'file_get_contents:room', not [k for k in e.mem if k[0] is None and BUF + size <= k[1] < OUT] and all((x[3] or 0) <= size for x in kinds(l, 'read')), F.where, '%s reads behind the area' % what)
                    reading(F, l, what); closed(F, l, what, fail or 'ok')
        for fail in (None, 'open', 'stat', 'read', 'short', 'close', 'directory'):
            for with_size in (0, 1):
                S = System(P, size=n, text=t[:n - 1] if fail == 'short' else t, mode=DIRECTORY if fail == 'directory' else REGULAR, fail={fail: IO} if fail in ('open', 'stat', 'read', 'close') else {})
                state['fail'] = S.fail
                if fail == 'short' and not n: continue
                for F, e, l in go('ReadFile', S, lambda m: {0: named(m, NAME, 'some/file'), 1: C(1), 2: C(OUT if with_size else 0, 64)}):
                    what = 'reading a file of %d bytes%s' % (n, ' when %s' % {'short': 'less can be read', 'directory': 'it is a directory'}.get(fail, '%s fails' % fail) if fail else '')
                    key = 'ReadFile' + (':' + fail if fail else '')
                    r = place(e.ret)
                    none = r is not None and r[0] is None and r[1] == 0
                    if fail in ('open', 'stat', 'read', 'short', 'directory'):
                        if n or fail != 'read': K.ob('no content is answered when the file cannot be read completely', key, none, F.where, '%s answers a content' % what)
                    elif n or not none:
                        K.ob('the whole content is answered, with a terminating zero', key, r is not None and not none and raw(e.mem, r, n + 1) == t + b'\0', F.where, '%s answers something else' % what)
                        if with_size: K.ob('the size is the size of the content', key + ':size', num(load(e.mem, (None, OUT), 4)) == n, F.where, '%s tells the size %s' % (what, num(load(e.mem, (None, OUT), 4))))
                    if not with_size: K.ob('no size is told nobody asked for', 'ReadFile:null', load(e.mem, (None, 0), 4) is None and (None, 0, 4) not in e.mem, F.where, '%s writes the size to nowhere' % what)
                    reading(F, l, what); closed(F, l, what, fail or 'ok')
                    K.ob('the named file is opened', key + ':name', [x[1] for x in kinds(l, 'open')] == ['some/file'], F.where, '%s opens %s' % (what, kinds(l, 'open')))

    # ---- shared files
    for fn in ('ShareFileRO', 'ShareFileRW'):
        for must in (0, 1) if fn == 'ShareFileRW' else (None,):
            for want_fd in (0, 1):
                for fail in (None, 'open', 'mmap'):
                    for size in (4096, 0x7fff0000):
                        S = System(P, fail={fail: ACCES} if fail else {})
                        state['fail'] = S.fail
                        fd = C(OUT if want_fd else 0, 64)
                        a = (lambda m: {0: named(m, NAME, 'some/pool'), 1: fd, 2: C(size)}) if must is None else (lambda m: {0: named(m, NAME, 'some/pool'), 1: C(-must, 1), 2: fd, 3: C(size)})
                        for F, e, l in go(fn, S, a):
                            what = '%s%s%s' % (fn, '' if must is None else ', the file %s' % ('must exist' if must else 'may be made'), ', %s fails' % fail if fail else '')
                            key = fn + ('' if must is None else ':%d' % must) + (':' + fail if fail else '')
                            op = kinds(l, 'open'); mm = kinds(l, 'mmap')
                            acc = RDWR if must is not None else 0
                            K.ob('a shared file is opened with the access needed', key + ':open', bool(op) and all(x[1] == 'some/pool' and x[2] is not None and x[2] & 3 == acc and bool(x[2] & CREAT) == (must == 0) and not x[2] & (TRUNC | EXCL) for x in op), F.where, '%s opens %s' % (what, op))
                            if fail != 'open': K.ob('the file is shared as far as asked for', key + ':map', len(mm) == 1 and mm[0][2] == size and mm[0][3] == (1 if acc == 0 else 3) and (mm[0][4] or 0) & 3 == 1 and mm[0][5:] == (FD, 0), F.where, '%s maps %s' % (what, mm))
                            K.ob('a shared file is answered exactly if it is shared', key, num(e.ret) == (0 if fail else POOL), F.where, '%s answers %s' % (what, num(e.ret)))
                            cl = [x[1] for x in kinds(l, 'close')]
                            keep = want_fd and not fail
                            K.ob('the file handle is handed over or closed', key + ':handle', cl == ([] if keep or fail == 'open' else [FD]) and (not keep or num(load(e.mem, (None, OUT), 4)) == FD), F.where, '%s closes %s' % (what, cl))
                            K.ob('sharing a file does not change it', fn + ':changes', not kinds(l, *MODIFY), F.where, '%s changes something' % what)
    for pool in (0, POOL):
        for fd in (-1, 3, FD):
            for fail in (None, 'close', 'munmap'):
                S = System(P, fail={fail: IO} if fail else {})
                for F, e, l in go('CloseSharedFile', S, lambda m: {0: C(pool, 64), 1: C(8192), 2: C(fd), 3: named(m, NAME, 'info')}):
                    K.ob('the file handle is closed once', 'CloseSharedFile:close', [x[1] for x in kinds(l, 'close')] == ([fd] if fd >= 0 else []), F.where, 'with the handle %d, %s is closed' % (fd, kinds(l, 'close')))
                    K.ob('the memory is given back once', 'CloseSharedFile:munmap', [x[1:] for x in kinds(l, 'munmap')] == ([(POOL, 8192)] if pool else []), F.where, '%s is given back' % (kinds(l, 'munmap'),))

    # ---- writing
    for fail in (None, 'fopen', 'print', 'fclose'):
        for n in (0, 1, 500):
            S = System(P, fail={fail: NOSPC} if fail else {}, format=n)
            for F, e, l in go('WriteToFile', S, lambda m: {0: named(m, NAME, 'some/file'), 1: named(m, BUF, 'text %d\n'), 2: C(7)}):
                what = 'writing a text of %d bytes%s' % (n, ', %s fails' % fail if fail else '')
                key = 'WriteToFile' + (':' + fail if fail else '')
                K.ob('success is told exactly if the text is written', key, bit(e.ret) == (0 if fail else 1), F.where, '%s answers %s' % (what, num(e.ret)))
                K.ob('the named file is written', key + ':name', [x[1] for x in kinds(l, 'fopen')] == ['some/file'] and all((x[2] or '')[:1] == 'w' for x in kinds(l, 'fopen')), F.where, '%s opens %s' % (what, kinds(l, 'fopen')))
                if fail != 'fopen': K.ob('the text is written once', key + ':text', [x[1:] for x in kinds(l, 'print')] == [(FILEP, 'text %d\n')], F.where, '%s writes %s' % (what, kinds(l, 'print')))
                K.ob('the file is closed once', key + ':close', [x[1] for x in kinds(l, 'fclose')] == ([] if fail == 'fopen' else [FILEP]), F.where, '%s closes %s' % (what, kinds(l, 'fclose')))

    # ---- the clock
    for sec, ns in ((0, 0), (1, 999999999), (1700000000, 1000000), (1 << 33, 123456789), (4102444800, 999999)):
        for fail in (None, 'clock'):
            S = System(P, mtime=sec, size=ns, fail={fail: IO} if fail else {})
            for F, e, l in go('GetCurrentTime64', S, lambda m: {}):
                want = sec * 1000 + (0 if fail else ns // 1000000)
                K.ob('the current time is told in milliseconds', 'GetCurrentTime64' + (':fail' if fail else ''), num(e.ret) == want, F.where, 'at %d.%09d s the time is told as %s' % (sec, ns, num(e.ret)))
                K.ob('the time is the time of the day', 'GetCurrentTime64:clock', [x[1] for x in kinds(l, 'clock')] in ([0], []), F.where, 'another clock is asked')
    K.minimum('cases', 400)
