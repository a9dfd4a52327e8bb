"""Value types of the library and their tables, folded from the IR."""
from .util import *
from .sccp import Sccp, C


class Types:
    def __init__(self, P):
        self.P = P
        self.last = enum(P, 'XBT_LAST')
        self.names = {}
        for k, v in P.enums.items():
            if k.startswith('XBT_') and not k.endswith('CONVERTABLE') and 0 <= v <= self.last: self.names[v] = k[4:]
        if len(self.names) != self.last + 1: raise AnalysisBroken('value type enumeration has holes: %s' % sorted(self.names.items()))
        self.id = {n: t for t, n in self.names.items()}
        from .trace import Trace
        self.S = Trace(P)
        self.all = [t for t in range(self.last) if self.names[t] not in ('UNKNOWN',)]

    def fold(self, fn, args):
        r = {e.ret for e in self.S.run(self.P.fn(fn), args) if e.kind == 'ret'}
        v = r.pop() if len(r) == 1 else None
        return v[1] if v is not None and v[0] == 'c' else None

    def size2(self, t, n=0): return self.fold('XBT_Size2', {0: C(t), 1: C(n)})
    def align(self, t): return self.fold('XBT_Align', {0: C(t)})
    def sfs(self, t): return self.fold('XBT_SizeFromString', {1: C(t)})

    # what every implementation has to agree on
    FIXED = {'INT32': 4, 'UINT32': 4, 'INT32_DECI': 4, 'INT32_CENTI': 4, 'INT32_MILI': 4, 'INT32_MICRO': 4, 'INT32_NANO': 4, 'FLOAT': 4,
             'UNIX_TIME': 4, 'UNIX_DATE': 4, 'IPv4': 4, 'INT64': 8, 'UINT64': 8, 'DOUBLE': 8, 'UNIX_TIME64_MSEC': 8, 'GUID': 16, 'SHA1': 20, 'IPv6': 16}
    VAR = ('BLOB', 'HEX', 'BLOB_STRING')


def up(a, n): return a if not n else (a + n - 1) // n * n
