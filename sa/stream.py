"""Contracts of output streams and of stdio output: what is printed is collected in the memory of the trace."""
from .libc import fmt
from .trace import ONE, moved_by, place
from .sccp import sx, ux

INT = {'i': (1, 32), 'j': (0, 32), 's': (1, 16), 't': (0, 16), 'l': (1, 64), 'm': (0, 64), 'x': (1, 64), 'y': (0, 64)}
REF = '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_'
INSERT = '_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l'
ERR = ('_ZSt4cerr', '_ZSt4clog')


def stream(n):
    """the address of stream number n"""
    return ('s', '&stream%d' % n, 0)


def written(mem, sid='&stream0'):
    """bytes of a stream so far; None where unknown"""
    reg = ('s', '&output:' + sid)
    n = mem.get((reg, -8, 8), ('c', 0, 64))[1]
    return [mem[reg, i, 1][1] if mem[reg, i, 1][0] == 'c' else None for i in range(n)]


def append(sid, bs):
    reg = ('s', '&output:' + sid)

    def eff(m):
        n = m.get((reg, -8, 8), ('c', 0, 64))[1]
        for i, x in enumerate(bs): m[reg, n + i, 1] = ('?',) if x is None else ('c', x, 16)
        m[reg, -8, 8] = ('c', n + len(bs), 64)
    return eff


def piece(T, mem, p, n=None):
    """n bytes (or a text) at an address; None where unknown"""
    if p is None: return None
    if n is None:
        s = T.text(p, mem)
        return None if s is None else [ord(c) for c in s]
    if place(p) is None: return None
    out = []
    for i in range(n):
        v = T.load(ONE, moved_by(p, i), mem)
        out.append(v[1] & 255 if v is not None and v[0] == 'c' else None)
    return out


def streams(I, n, av, T, mem, sid0='&stream'):
    """hook; None when not concerned"""
    if n is None: return None

    def num(v): return v[1] if v is not None and v[0] == 'c' else None

    def out(sid, bs, ret):
        if bs is None: bs = [None]
        return [(ret, append(sid, bs))]
    if ('basic_ostream' in n or n.startswith('_ZNSo')) and av:
        a = av[0]
        if a is not None and a[0] == 'g' and a[1] in ERR: return [(a, None)]
        sid = a[1] if a is not None and a[0] == 's' and str(a[1]).startswith(sid0) else None
        if a is not None and a[0] == 'g' and a[1] == '_ZSt4cout': sid = 'stdout'
        if sid is None: return [(a, None)]
        if n == REF + 'PKc': return out(sid, piece(T, mem, av[1]), a)
        if n in (REF + 'c', REF + 'h', REF + 'a', '_ZNSo3putEc'): return out(sid, [None if num(av[1]) is None else num(av[1]) & 255], a)
        if n in ('_ZNSo5writeEPKcl', INSERT):
            k = num(av[2])
            return out(sid, None if k is None or not 0 <= k < 70000 else piece(T, mem, av[1], k), a)
        if n.startswith('_ZNSolsE') and n[8:] in INT:
            s, w = INT[n[8:]]; v = num(av[1])
            return out(sid, None if v is None else [ord(c) for c in str(sx(v, w) if s else ux(v, w))], a)
        if n == '_ZNSolsEb': return out(sid, None if num(av[1]) is None else [48 + (num(av[1]) & 1)], a)
        if n == '_ZNSolsEPFRSoS_E':
            f = av[1][1] if av[1] is not None and av[1][0] == 'g' else ''
            return [(a, append(sid, [10]) if 'endl' in f else None)]
        if n in ('_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_',): return out(sid, [10], a)
        if n in ('_ZNSo5flushEv', '_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_'): return [(a, None)]
        return out(sid, None, a)
    if n in ('printf', '__printf_chk'):
        k = 1 if n == '__printf_chk' else 0
        f = T.text(av[k], mem) if av[k] is not None else None
        s = fmt(T, f, av[k + 1:], mem) if f is not None else None
        return out('stdout', None if s is None else [ord(c) for c in s], ('c', len(s), 32) if s is not None else None)
    if n == 'putchar': return out('stdout', [None if num(av[0]) is None else num(av[0]) & 255], av[0])
    if n == 'puts':
        s = piece(T, mem, av[0])
        return out('stdout', None if s is None else s + [10], ('c', 1, 32))
    if n in ('fputs', 'fputc', 'putc', 'fprintf', 'fwrite'):
        f = av[1] if n in ('fputs', 'fputc', 'putc') else av[0] if n == 'fprintf' else av[3]
        if f is not None and f[0] == 's' and f[1] == '&stdout':
            if n == 'fputs': return out('stdout', piece(T, mem, av[0]), ('c', 1, 32))
            if n in ('fputc', 'putc'): return out('stdout', [None if num(av[0]) is None else num(av[0]) & 255], av[0])
            if n == 'fwrite':
                k = num(av[1]); c = num(av[2])
                return out('stdout', None if k is None or c is None else piece(T, mem, av[0], k * c), av[2])
            s = T.text(av[1], mem) if av[1] is not None else None
            s = fmt(T, s, av[2:], mem) if s is not None else None
            return out('stdout', None if s is None else [ord(c) for c in s], None)
        return [(None, None)]
    return None
