"""Contracts of the text functions of the C library, as far as their arguments are known (used as call hooks of sa/trace.py).

A formatted value that is only a label (a floating point number) is printed as <conversion:label>."""
import re, calendar, time
from .trace import load, store, kill, place
from .sccp import sx, ux

SPEC = re.compile(r'%([-+ #0]*)(\*|\d*)(?:\.(\*|\d*))?(hh|h|ll|l|z|j|q|t|L)?([diuoxXfFgGeEcsp%])')


def name_of(v):
    """readable form of a label"""
    if isinstance(v, tuple): return '(' + ','.join(name_of(x) for x in v if x != 0 or len(v) < 3) + ')'
    return str(v)


def put(mem, at, s):
    """text without terminator"""
    kill(mem, at[0], at[1], len(s))
    for i, ch in enumerate(s): mem[at[0], at[1] + i, 1] = ('c', sx(ord(ch), 8), 8)


def fmt(T, f, args, mem):
    """formatted text, or None"""
    out, i, p = [], 0, 0
    for m in SPEC.finditer(f):
        out.append(f[p:m.start()]); p = m.end()
        fl, w, pr, ln, cv = m.groups()
        if cv == '%': out.append('%'); continue

        def nxt():
            nonlocal i
            v = args[i] if i < len(args) else None
            i += 1
            return v
        if w == '*':
            v = nxt()
            if v is None or v[0] != 'c': return None
            w = str(v[1])
            if w.startswith('-'): fl += '-'; w = w[1:]
        if pr == '*':
            v = nxt()
            if v is None or v[0] != 'c': return None
            pr = str(v[1]) if v[1] >= 0 else None
        v = nxt()
        if v is None: return None
        if cv in 'di':
            if v[0] != 'c': return None
            n = sx(v[1], 64 if ln in ('l', 'll', 'z', 'j', 'q', 't') else 32)
            if ln == 'hh': n = sx(n, 8)
            if ln == 'h': n = sx(n, 16)
            d = str(abs(n))
            sign = '-' if n < 0 else '+' if '+' in fl else ' ' if ' ' in fl else ''
        elif cv in 'uxXo':
            if v[0] != 'c': return None
            n = ux(v[1], 64 if ln in ('l', 'll', 'z', 'j', 'q', 't') else 8 if ln == 'hh' else 16 if ln == 'h' else 32)
            d = {'u': '%d', 'x': '%x', 'X': '%X', 'o': '%o'}[cv] % n; sign = ''
            if '#' in fl and n and cv in 'xX': sign = '0' + cv
        elif cv == 'c':
            if v[0] != 'c': return None
            d = chr(v[1] & 255); sign = ''
        elif cv == 's':
            d = T.text(v, mem); sign = ''
            if d is None: return None
            if pr is not None: d = d[:int(pr or 0)]
        elif cv in 'fFgGeE':
            if v[0] != 's': return None
            out.append('<%%%s%s%s%s:%s>' % (fl, w, '' if pr is None else '.' + pr, cv, name_of(v[1]))); continue
        else: return None
        if cv in 'diuxXo' and pr is not None: d = d.rjust(int(pr or 0), '0')
        w = int(w or 0)
        if '-' in fl: s = (sign + d).ljust(w)
        elif '0' in fl and cv in 'diuxXo' and pr is None: s = sign + d.rjust(w - len(sign), '0')
        else: s = (sign + d).rjust(w)
        out.append(s)
    out.append(f[p:])
    return ''.join(out)


TM = ('tm_sec', 'tm_min', 'tm_hour', 'tm_mday', 'tm_mon', 'tm_year', 'tm_wday', 'tm_yday', 'tm_isdst')


def broken_down(t):
    days, sec = divmod(t, 86400)
    y, m, d = civil(days)
    return (sec % 60, sec // 60 % 60, sec // 3600, d, m - 1, y - 1900, (days + 4) % 7, days - days_of(y, 1, 1), 0)


def civil(days):
    """proleptic Gregorian date of a day number (1970-01-01 = 0)"""
    z = days + 719468
    era, doe = divmod(z, 146097)
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    m = mp + 3 if mp < 10 else mp - 9
    return yoe + era * 400 + (m <= 2), m, doy - (153 * mp + 2) // 5 + 1


def days_of(y, m, d):
    y -= m <= 2
    era, yoe = divmod(y, 400)
    doy = (153 * (m - 3 if m > 2 else m + 9) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


NUMBER = {'atoi': 32, 'atol': 64, 'atoll': 64, 'strtol': 64, 'strtoll': 64, 'strtoul': -64, 'strtoull': -64, '__isoc23_strtol': 64, '__isoc23_strtoul': -64, '__isoc23_strtoll': 64, '__isoc23_strtoull': -64}
FLOATS = {'atof', 'strtod', 'strtof'}


def texts(I, n, av, T, mem):
    """hook for text functions; None when not concerned"""
    if n in ('snprintf', 'sprintf', '__snprintf_chk', '__sprintf_chk'):
        k = {'snprintf': 2, 'sprintf': 1, '__snprintf_chk': 4, '__sprintf_chk': 3}[n]
        f = T.text(av[k], mem) if av[k] is not None else None
        at = place(av[0])
        if f is None or at is None: return None
        s = fmt(T, f, av[k + 1:], mem)
        if s is None: return None
        lim = None
        if 'snprintf' in n:
            if av[1] is None or av[1][0] != 'c': return None
            lim = ux(av[1][1], 64)

        def eff(m):
            if lim == 0: return
            put(m, at, (s if lim is None else s[:lim - 1]) + '\0')
        return [(('c', len(s), 32), eff)]
    if n in NUMBER or n in FLOATS:
        s = T.text(av[0], mem) if av and av[0] is not None else None
        if s is None: return None
        base = 10
        if n in NUMBER and len(av) > 2:
            if av[2] is None or av[2][0] != 'c': return None
            base = av[2][1]
        end = None
        if n in FLOATS:
            m = re.match(r'\s*[-+]?(\d+(\.\d*)?([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)', s)
            v = ('s', ('number', m.group().strip() if m else '0'), 0)
        else:
            m = re.match(r'\s*[-+]?(0[xX][0-9a-fA-F]+|[0-9a-zA-Z]+)', s)
            dig = re.match(r'\s*([-+]?)(0[xX])?(\d*)', s)
            if base == 10: m = re.match(r'\s*[-+]?\d+', s); x = int(m.group()) if m else 0
            elif base == 16: m = re.match(r'\s*[-+]?(0[xX])?[0-9a-fA-F]+', s); x = int(m.group(), 16) if m else 0
            else: return None
            w = NUMBER[n]
            if n == 'atoi': x = sx(max(min(x, (1 << 63) - 1), -(1 << 63)), 32)
            elif w > 0: x = max(min(x, (1 << w - 1) - 1), -(1 << w - 1))
            else: x = sx(min(x, (1 << -w) - 1) if x >= 0 else max(x, -(1 << -w) + 1), -w)
            v = ('c', x, abs(w))
        stop = m.end() if m else 0
        ep = place(av[1]) if len(av) > 1 and av[1] is not None and not (av[1][0] == 'c' and av[1][1] == 0) else None
        return [(v, (lambda mm: store(mm, ep, 8, (av[0][0],) + ((av[0][1] + stop, 64) if av[0][0] == 'c' else (av[0][1], av[0][2] + stop)))) if ep else None)]
    if n in ('gmtime_r', 'gmtime', 'localtime_r'):
        at = place(av[0])
        t = load(mem, at, 8) if at else None
        if t is None or t[0] != 'c' or n != 'gmtime_r' or place(av[1]) is None: return None
        d = place(av[1])
        f = broken_down(t[1])

        def eff(m):
            for i, x in enumerate(f): store(m, (d[0], d[1] + 4 * i), 4, ('c', sx(x, 32), 32))
        return [(av[1], eff)]
    if n == 'timegm':
        at = place(av[0])
        f = [load(mem, (at[0], at[1] + 4 * i), 4) for i in range(6)] if at else [None]
        if any(x is None or x[0] != 'c' for x in f): return None
        s, mi, h, d, mo, y = (x[1] for x in f)
        y2, mo = divmod(mo, 12)
        return [(('c', (days_of(1900 + y + y2, mo + 1, 1) + d - 1) * 86400 + h * 3600 + mi * 60 + s, 64), None)]
    return None
