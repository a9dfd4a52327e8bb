"""C05: all tables about value types agree."""
from sa.types import *
from sa.trace import Trace, load, store, kill


def run(K):
    P = K.prog
    K.rule('Every function that describes value types is interpreted for each type (sa/trace.py); '
           'the resulting tables are compared with each other and with the extents the reader reports and the writers store.')
    T = Types(P)
    e = T.id
    B, X, S = 0x10000, 0x20000, 0x50000
    # --- sizes, alignment -----------------------------------------------------------------------
    al, sz = {}, {}
    w2, wa, wf = P.fn('XBT_Size2').where, P.fn('XBT_Align').where, P.fn('XBT_SizeFromString').where
    for t in T.all:
        n = T.names[t]
        K.count('value types')
        al[t] = T.align(t)
        K.ob('alignment is a constant', 'align:' + n, al[t] in (0, 4, 8), wa, 'the alignment of %s is %s' % (n, al[t]))
        if n in T.FIXED:
            raw = T.FIXED[n]
            want = up(raw, 8) if n == 'SHA1' else raw          # a hash is stored in 24 bytes
            s2 = T.size2(t); sf = T.sfs(t)
            sz[t] = want
            K.ob('stored size is the size of the type', 'size:' + n, s2 == want, w2, 'the stored size of %s is %s instead of %d' % (n, s2, want))
            K.ob('the exact size is accepted', 'size:exact:' + n, T.size2(t, raw) == want, w2, 'the stored size of %s for %d bytes of content is %s' % (n, raw, T.size2(t, raw)))
            K.ob('size from text is the size of the type', 'text size:' + n, sf == raw, wf, 'the size of %s computed from text is %s instead of %d' % (n, sf, raw))
            K.ob('alignment fits the size', 'align fits:' + n, al[t] == (8 if raw == 8 or n == 'IPv6' else 4), wa, 'the alignment of %s (%d bytes) is %s' % (n, raw, al[t]))
        elif n in T.VAR:
            K.ob('a variable sized type is 4-aligned (length prefix)', 'align fits:' + n, al[t] == 4, wa, 'the alignment of %s is %s' % (n, al[t]))
            if n == 'BLOB_STRING':
                # the body size is computed by a rounding loop
                G = P.fn('XBT_GetBLOB_STRING_Size')
                for k in list(range(0, 300)) + [x + d for x in (384, 512, 768, 1024, 1536, 2048, 3072, 4096, 6144, 65536, 98304, 1 << 20, 1 << 24) for d in (-2, -1, 0, 1)]:
                    body = T.fold('XBT_GetBLOB_STRING_Size', {0: C(k)})
                    K.ob('stored size holds content and terminator', 'size:BLOB_STRING:body', body is not None and k + 1 <= body, G.where,
                         'the allocated size of a BLOB_STRING of %d bytes is %s' % (k, body))
                    K.ob('stored size holds prefix and body', 'size:BLOB_STRING', body is not None and T.size2(t, k) == 4 + body, w2, 'the stored size of a BLOB_STRING is not its body and length prefix')
            else:
                for k in (0, 1, 15, 16, 17, 100, 4096):
                    s2 = T.size2(t, k)
                    K.ob('stored size holds prefix and content', 'size:%s:%d' % (n, k), s2 == 4 + k, w2, 'the stored size of %s with %d bytes is %s' % (n, k, s2))
        elif n == 'STRING':
            for k in (0, 1, 7, 300):
                K.ob('stored size holds the terminator', 'size:STRING:%d' % k, T.size2(t, k) == k + 1, w2, 'the stored size of a string of %d bytes is %s' % (k, T.size2(t, k)))
            K.ob('strings are not aligned', 'align fits:STRING', al[t] == 0, wa, 'the alignment of STRING is %s' % al[t])
        elif n == 'NULL':
            K.ob('an empty value needs no space', 'size:NULL', T.size2(t) == 0 and T.sfs(t) == 0 and al[t] == 0, w2, 'NULL has size %s, text size %s, alignment %s' % (T.size2(t), T.sfs(t), al[t]))
    # --- names ----------------------------------------------------------------------------------
    g = [k for k in P.globals if 'XML_BINARY_TYPE_NAMES' in k]
    K.need(g, 'the type name table was not found')
    for t in T.all:
        v = P.gload(g[0], t * 8, 8, True)
        s = P.cstr(v) if v else None
        K.ob('each type has its own name', 'name:' + T.names[t], s == T.names[t], 'src/bin_xml_types.cpp', 'the name of type %s is "%s"' % (T.names[t], s))
    # --- what the reader reports ------------------------------------------------------------------
    GI, GP = P.fn('XML_Item::getData'), P.fn('XML_Param_Description::getData')
    inline_reader = {}
    od, osz, ot = field(P, 'XML_Binary_Data_Ref', 'data')[0], field(P, 'XML_Binary_Data_Ref', 'size')[0], field(P, 'XML_Binary_Data_Ref', 'type')[0]
    pt, pd = field(P, 'XML_Param_Description', 'type')[0], field(P, 'XML_Param_Description', 'data')[0]

    pc, cc = field(P, 'XML_Item', 'paramcount')[0], field(P, 'XML_Item', 'childcount')[0]
    hdr = sizeof(P, 'XML_Item')

    def looked(F, args, mem, conv=()):
        """([End], seen calls of the converters); a converter answers a label"""
        seen = []
        names = {f.name for c in conv for f in P.find(c)}

        def calls(I, n, av, S, m):
            if n in names:
                seen.append((I, av)); return [(('s', '&converted', 0) if P.funcs[n].rt != 'i32' else ('c', 5, 32), None)]
            return None
        return Trace(P, calls=calls).run(F, args, mem), seen

    def text_at(mem, at, s):
        for i, ch in enumerate(s + '\0'): mem[None, at + i, 1] = ('c', ord(ch), 8)

    def filled(mem, at, t):
        """a value: length prefixes are 40, texts have 6 characters"""
        if T.names[t] in T.VAR: mem[None, at, 4] = ('c', 40, 32); mem[None, at + 4, 40] = ('fill', 0x41)
        elif T.names[t] == 'STRING': text_at(mem, at, 'abcdef')
        return {'STRING': 7}.get(T.names[t], 44 if T.names[t] in T.VAR else T.FIXED.get(T.names[t], 0))

    for t in T.all:
        n = T.names[t]
        if n in ('VARIANT', 'IPv6'): continue       # never stored by this library
        for nch in (0, 1, 2, 3):
            for r in (0, 4):
                base = B + r
                pos = base + hdr + 4 * nch
                want = pos + 1 if n == 'STRING' else up(pos + 1, al[t] or 4)
                mem = {(None, base + pc, 2): ('c', 0, 16), (None, base + cc, 2): ('c', nch, 16), (None, base + cc, 4): ('c', nch, 32), (None, pos, 1): ('c', t, 8)}
                size = filled(mem, want, t)
                ends, _ = looked(GI, {0: ('c', S, 64), 1: ('c', base, 64)}, mem)
                for x in ends:
                    d, s = x.cell(None, S + od, 8), x.cell(None, S + osz, 4)
                    K.ob('extent of an element value', 'element:size:' + n, x.kind == 'ret' and s == ('c', size, 32), x.where, 'the size of a %s value is reported as %s instead of %d' % (n, s and s[1], size))
                    K.ob('type of an element value', 'element:type:' + n, x.cell(None, S + ot, 4) == ('c', t, 32), x.where, 'the type of a %s value is reported as %s' % (n, x.cell(None, S + ot, 4)))
                    if n != 'NULL': K.ob('position of an element value', 'element:data:%s:%d' % (n, nch), d == ('c', want, 64), x.where, 'value of type %s in an element with %d children is read at %s instead of +%d' % (n, nch, d and d[1] - base, want - base))
        inline = n in T.FIXED and T.FIXED[n] == 4
        at = B + pd if inline else X + 64
        mem = {(None, B + pt, 1): ('c', t, 8), (None, B + pd, 4): ('c', 64, 32)}
        size = filled(mem, X + 64, t)
        ends, _ = looked(GP, {0: ('c', S, 64), 1: ('c', B, 64), 2: ('c', X, 64)}, mem)
        inline_reader[t] = all(x.cell(None, S + od, 8) == ('c', B + pd, 64) for x in ends)
        for x in ends:
            d, s = x.cell(None, S + od, 8), x.cell(None, S + osz, 4)
            K.ob('extent of an attribute value', 'attr:size:' + n, x.kind == 'ret' and s == ('c', size, 32), x.where, 'the size of a %s attribute is reported as %s instead of %d' % (n, s and s[1], size))
            K.ob('type of an attribute value', 'attr:type:' + n, x.cell(None, S + ot, 4) == ('c', t, 32), x.where, 'the type of a %s attribute is reported as %s' % (n, x.cell(None, S + ot, 4)))
            if n != 'NULL': K.ob('position of an attribute value', 'attr:data:' + n, d == ('c', at, 64), x.where, 'a %s attribute is read %s' % (n, 'inline' if d == ('c', B + pd, 64) else 'out of line' if d == ('c', X + 64, 64) else 'elsewhere'))
        if n == 'NULL': continue
        # text of an attribute: the converter is given the same place
        for fn, conv in (('XML_Param_Description::getString', 'XBT_ToString'), ('XML_Param_Description::getStringChunk', 'XBT_ToStringChunk')):
            F = P.fn(fn)
            ends, cs = looked(F, {0: ('c', B, 64), 1: ('c', X, 64), 2: ('c', S, 64), 3: ('c', S + 64, 64), 4: ('c', 300, 32)}, mem, (conv,))
            if not cs:
                K.ob('text of an attribute is made from its value', '%s:%s' % (fn, n), n == 'STRING' and all(x.ret == ('c', X + 64, 64) for x in ends), F.where, 'a %s attribute is not converted' % n)
            for I, av in cs:
                K.ob('text of an attribute is made from its value', '%s:%s' % (fn, n), av[0] == C(t) and av[1] == ('c', at, 64), I.where,
                     'a %s attribute is converted as type %s from %s' % (n, T.names.get(av[0] and av[0][1], av[0]), 'its descriptor' if av[1] == ('c', B + pd, 64) else 'the out of line area' if av[1] == ('c', X + 64, 64) else 'elsewhere'))
    for fn, conv in (('XML_Item::getString', 'XBT_ToString'), ('XML_Item::getStringChunk', 'XBT_ToStringChunk')):
        F = P.fn(fn)
        for t in T.all:
            for nch in (0, 1):
                pos = B + hdr + 4 * nch
                mem = {(None, B + pc, 2): ('c', 0, 16), (None, B + cc, 4): ('c', nch, 32), (None, pos, 1): ('c', t, 8)}
                ends, cs = looked(F, {0: ('c', B, 64), 1: ('c', S, 64), 2: ('c', S + 64, 64), 3: ('c', 300, 32)}, mem, (conv,))
                if not cs:
                    K.ob('text of an element is made from its value', '%s:%s' % (fn, T.names[t]), T.names[t] == 'STRING' and all(x.ret == ('c', pos + 1, 64) for x in ends), F.where, 'a %s value is not converted' % T.names[t])
                for I, av in cs:
                    K.ob('text of an element is made from its value', '%s:%s' % (fn, T.names[t]), av[0] == C(t) and av[1] in (('c', pos + 1, 64), ('c', up(pos + 1, al[t]), 64)), I.where, 'the value is not converted from behind its type byte')
    # --- what the writer stores: inline exactly the types the reader takes inline ------------------
    W = P.fn('Bin_xml_creator::XStoreBinParamsEvent'); V = P.fn('Bin_xml_creator::XStoreParamsEvent')
    sd = 0x60000; PRM = 0x70000; CR = 0x80000; WPP = 0x90000; XX = 0xA0000; VAL = 0x40000
    ctx = layout(P, 'pklib_xml::XStoreParamsData') if 'pklib_xml::XStoreParamsData' in P.types else layout(P, 'XStoreParamsData')
    off = {m['n']: m['o'] for m in ctx['m']}
    copies = {f.name for f in P.find('XBT_Copy')}; froms = {f.name for f in P.find('XBT_FromString')}
    det = {f.name for f in P.find('XBT_Detect2')}; finds = {f.name for f in P.find('Bin_xml_creator::Find')}
    da, dz = field(P, 'Bin_xml_creator', 'data')[0], field(P, 'Bin_xml_creator', 'data_size_allocated')

    def writer(F, args, t, ok=True):
        mem = {(None, sd + off['params'], 8): ('c', PRM, 64), (None, sd + off['_wp'], 8): ('c', WPP, 64), (None, sd + off['_x'], 8): ('c', XX, 64), (None, sd + off['creator'], 8): ('c', CR, 64),
               (None, WPP, 8): ('c', XX + 0x103, 64), (None, CR + da, 8): ('c', XX, 64), (None, CR + dz[0], dz[1]): ('c', 0x4000, 8 * dz[1])}
        text_at(mem, VAL, '12345')
        a = dict(args); a[len(F.args) - 1] = ('c', sd, 64)

        def calls(I, n, av, S, m):
            if n in copies or n in froms:
                if not ok: return [(('c', 0, 1), None)]
                ty, wpp = (av[1], av[3]) if n in copies else (av[1], av[2])
                if ty is None or ty[0] != 'c' or wpp is None or wpp[0] != 'c': return [(('c', -1, 1), None)]
                k = T.names.get(ty[1])
                size = T.FIXED.get(k, 44)
                w = load(m, (None, wpp[1]), 8)

                def eff(mm):
                    if w is None or w[0] != 'c': return
                    at = up(w[1], al.get(ty[1]) or 0)
                    kill(mm, None, at, size)
                    mm[None, at, 4] = ('s', 'value', ty[1])
                    store(mm, (None, wpp[1]), 8, ('c', at + size, 64))
                return [(('c', -1, 1), eff)]
            if n in finds: return [(('c', 0, 32), None)]
            if n in det: return [(('c', t, 32), None)]
            return None
        return Trace(P, calls=calls).run(F, a, mem)

    def judge(F, kind, t, ends):
        n = T.names[t]
        for x in ends:
            ty, link = x.cell(None, PRM + pt, 1), x.cell(None, PRM + pd, 4)
            K.count('stored attributes decoded')
            if ty is None or ty[0] != 'c':
                K.ob('attribute is stored with its own type', 'store:%s:type:%s' % (kind, n), False, x.where, 'the stored type of a %s attribute is not known' % n); continue
            k = ty[1]
            if kind == 'text' and k == e['STRING']:
                s = Trace(P).text(('c', XX + link[1], 64), x.mem) if link is not None and link[0] == 'c' else None
                K.ob('attribute is stored where the reader looks for it', 'store:text:' + n, s == '12345' or t == k and link == ('c', 0x103, 32) and load(x.mem, (None, XX + 0x103), 4) == ('s', 'value', t), x.where, 'the text of an attribute is not stored where its link points to')
                continue
            K.ob('attribute is stored with its own type', 'store:%s:type:%s' % (kind, n), k == t, x.where, 'a %s attribute is stored as %s' % (n, T.names.get(k, k)))
            if k != t: continue
            if inline_reader[t]:
                K.ob('attribute is stored where the reader looks for it', 'store:%s:%s' % (kind, n), link == ('s', 'value', t), x.where, 'a %s attribute is not stored in its descriptor, where it is read from' % n)
            else:
                at = up(XX + 0x103, al[t])
                K.ob('the link points to the aligned value', 'store:%s:link:%s' % (kind, n), link == ('c', at - XX, 32), x.where, 'the link of a %s attribute is %s instead of %#x' % (n, link, at - XX))
                K.ob('attribute is stored where the reader looks for it', 'store:%s:%s' % (kind, n), x.cell(None, at, 4) == ('s', 'value', t), x.where, 'a %s attribute is not stored where its link points to' % n)

    for t in T.all:
        n = T.names[t]
        if n in ('NULL', 'VARIANT', 'IPv6'): continue
        K.count('stored attribute types')
        judge(W, 'binary', t, [x for x in writer(W, {0: ('s', '&name', 0), 1: C(3), 2: C(t), 3: ('c', VAL, 64), 4: ('s', '&element', 0)}, t) if x.kind == 'ret'])
        for ok in (True, False):
            judge(V, 'text', t, [x for x in writer(V, {0: ('s', '&name', 0), 1: ('c', VAL, 64), 2: ('s', '&element', 0)}, t, ok) if x.kind == 'ret'])
    K.minimum('value types', 24)
    K.minimum('stored attribute types', 20)
    K.minimum('stored attributes decoded', 50)
