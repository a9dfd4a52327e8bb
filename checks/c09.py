"""C09: a failed system call or allocation step is never reported as success."""
from sa.util import *
from sa.sccp import Sccp
from sa.paths import Paths, reachable

# external calls and the results that mean failure ('short': fewer bytes than requested)
EXT = {'open': [-1], 'creat': [-1], 'fopen': [0], 'opendir': [0], 'mmap': [-1], 'ftruncate': [-1], 'fstat': [-1], 'stat': [-1], 'close': [-1],
       'read': [-1], 'write': [-1, 'short'], 'malloc': [0], 'calloc': [0], 'realloc': [0], 'xmlReadFile': [0], 'xmlDocGetRootElement': [0],
       'vfprintf': [-1], 'fclose': [-1], 'jsmn_parse': [-2, 0]}
# steps of this library: failing value; steps of one group fail together (the second is the retry of the first)
INT = {'BW_pool::allocate': 0, 'BW_pool::allocate8': 0, 'BW_pool::new_element': 0, 'BW_plugin::makeSpace': 0, 'BW_plugin::InitEmptyFile': 0,
       'BW_plugin::CheckExistingFile': 0, 'BW_pool::makeTable': 0, 'BW_symbol_table_16B::Open': 0, 'BW_plugin::Initialize': 0,
       'BW_plugin::allRegistered': 0, 'BW_plugin::registerTag': 0, 'BW_plugin::registerAttr': 0, 'BW_plugin::registerParam': -1, 'Bin_src_plugin::Initialize': 0,
       'Bin_xml_plugin::Initialize': 0, 'Bin_json_plugin::Initialize': 0, 'Bin_xml_creator::Make_xb': 0, 'Bin_xml_creator::Make_xbw': 0,
       'Bin_xml_creator::DoAll': 0, 'Bin_xml_creator::Append': 0, 'Bin_xml_creator::WriteNode': 0, 'Bin_xml_creator::WritePayloadContainer': 0,
       'Bin_xml_creator::FillData': -1, 'Bin_xml_packer::Convert': 0, '_XB_symbol_table::Load': 0,
       'XML_Item::Check': 0, 'BW_pool::checkTable': 0, 'BW_plugin::setRoot': 0, 'BW_plugin::Write': 0, 'XBT_FromString': 0, 'XBT_Copy': 0}
IDS = ('BW_plugin::registerTag', 'BW_plugin::registerParam')      # the overloads that answer an ID answer -1 for failure
VIRT = {'Initialize': 0}
GROUP = {'BW_pool::allocate8': 'BW_pool::allocate'}
# the answer is a test verdict, not success or failure of the function
SKIP = ('XBT_TestType',)
# functions without a result that must not return normally behind a failed step: they end the process
MUSTEND = ('Bin_xml_creator::XStore2XBWEvent',)


def failing(F, v):
    """the constant tells the caller that the function failed"""
    if F.rt == 'ptr': return v in (0, -1)
    if F.rt == 'i1': return v == 0
    return v <= 0


class Fails(Paths):
    def at_ret(self, T, env, mem, state):
        v = self.val(env, T.a[0]) if T.a else None
        if v is None or v[0] != 'c' or not failing(self.F, v[1]):
            w = 'a normal return' if not T.a else str(v[1]) if v is not None else 'a computed value'
            if w not in self.bad: self.bad.append(w)


def run(K):
    P = K.prog
    K.rule('Every call that can fail is assumed to fail (also with a short transfer); the failure value is followed along every path behind the call, through constants, '
           'comparisons and memory cells. No path may reach a return that reports success (true, a valid pointer, a positive count).')
    K.assume('functions without a result (callbacks, destructors) cannot report a failure themselves and are counted, not judged; a path that dereferences a null result ends the program and is not a success')
    S = Sccp(P)
    names = {}
    for n, v in INT.items():
        for f in (P.find(n) if n in P.by_short else []):
            if f.rt in ('i1', 'ptr', 'i32'): names[f.name] = (-1 if f.rt == 'i32' and n in IDS else v, GROUP.get(n, n))
    seen = set()
    for F in P.repo_funcs:
        if F.decl or F.file is None or F.short in SKIP: continue
        base = None
        order = {}
        for I in list(F.calls()):
            n = (I.callee or '').replace('open64', 'open').replace('fstat64', 'fstat').replace('stat64', 'stat')
            n = {'creat64': 'creat', 'fopen64': 'fopen', 'mmap64': 'mmap', 'ftruncate64': 'ftruncate'}.get(n, n)
            if n in EXT: vs, nm = EXT[n], n
            elif I.callee in names: vs, nm = [names[I.callee][0]], names[I.callee][1]
            else: continue
            if I.t == 'void': continue
            seen.add(nm)
            if nm == 'close' and (not any(J.callee in ('write', 'creat', 'creat64') for J in F.calls())
                                  or any(J.callee in ('creat', 'creat64') and (J.block in reachable(F, I.block) or J.block == I.block and J.idx > I.idx) for J in F.calls())):
                K.count('close of descriptors that are only read or written again'); continue
            if (F.rt == 'void' or not F.rt) and F.short not in MUSTEND:
                K.count('fallible calls in functions without a result'); continue
            if base is None: base = S.run(F)
            if I.block not in base.blocks: continue
            K.count('fallible calls')
            order[nm] = order.get(nm, 0) + 1
            for v in vs:
                w = I.bw or 64
                fv = ('c', 1, w, 'short') if v == 'short' else ('c', v, w, 'failed') if nm in ('read', 'write', 'jsmn_parse') else ('c', v, w)
                fail = {}
                for J in F.calls():
                    k = names[J.callee][1] if J.callee in names else J.callee
                    if J is I or (k == nm and J.callee in names and nm in ('BW_pool::allocate', 'BW_pool::new_element')): fail[J.id] = fv
                X = Fails(F, base, fail)
                X.run(I)
                K.count('paths followed', X.n)
                K.ob('a failure is not reported as success', '%s:%s#%d%s' % (F.short, nm, order[nm], '' if v != 'short' else ':short'), not X.bad, I.where,
                     '%s fails%s in %s but the function can answer %s' % (nm, ' (short transfer)' if v == 'short' else '', F.short, ', '.join(sorted(X.bad)[:3])))
    K.minimum('fallible calls', 60)



