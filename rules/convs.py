"""Conversions: P29 levels and token account states keep their meaning, P30 filters keep what they accept."""
from lib import *
from filters import decoded, STD
LEVEL = {'Max': 'Finalized', 'Root': 'Finalized', 'Finalized': 'Finalized', 'Single': 'Confirmed', 'SingleGossip': 'Confirmed', 'Confirmed': 'Confirmed', 'Processed': 'Processed', 'Recent': 'Processed'}
ERR = lambda v: agg(RES, 'Err', **{'0': v})
OK = lambda v: agg(RES, 'Ok', **{'0': v})
SOME = lambda v: agg(OPT, 'Some', **{'0': v})
NONE = agg(OPT, 'None')

def adt(ctx, tail): return next((k for k in ctx.p.adts if k.endswith(tail)), None)

def P29(ctx):
    I_ = ctx.interp(bounded=True, loop_exact=1); n = 0
    # what the solana types answer about a level
    v = sym('config'); lv = fld(v, 'commitment')
    def says(names):
        def h(I2, st, f, args, t, depth):
            x = I2.m.val(st, args[0]); c = I2.proj(st, x, ('f', 'commitment')); out = []
            for name in LEVEL:
                s = st.fork()
                if s.var.get(c, name) != name: continue
                s.var[c] = name; s.trace = (s.trace, (T('is', c, name), True))
                out += I2.m.R(s, B(LEVEL[name] in names))
            return out
        return h
    for fn, names in (('is_finalized', ('Finalized',)), ('is_confirmed', ('Confirmed',)), ('is_at_least_confirmed', ('Confirmed', 'Finalized'))):
        I_.hooks['solana_sdk::commitment_config::CommitmentConfig::' + fn] = says(names)
    seen = set()
    for o in ctx.explore(I_, ctx.p.one('from', 'Commitment'), [v], State()):
        if o.kind == 'cut': continue
        ctx.ob('level', 'From<CommitmentConfig>: no abnormal exit', o.kind == 'ret', lambda: '%s %s' % (o.why, pathdesc(o.st)))
        if o.kind != 'ret': continue
        was = o.st.var.get(lv)
        if was is None: was = o.st.var.get(eta(o.st, I_, lv))
        n += 1; seen.add(was)
        ctx.ob('level', 'From<CommitmentConfig>: %s' % was, variant(I_, o.st, o.val) == LEVEL.get(was), lambda: '%s: %s' % (show(o.val), pathdesc(o.st)))
    ctx.ob('coverage', 'every level converted', seen >= set(LEVEL), str(sorted(map(str, seen))))
    # the levels are ordered
    info = ctx.p.adts[adt(ctx, 'commitment::Commitment')]
    order = ['Processed', 'Confirmed', 'Finalized']
    ctx.ob('level', 'the levels are processed, confirmed, finalized', [x['name'] for x in info['variants']] == order or {x['name'] for x in info['variants']} == set(order), str([x['name'] for x in info['variants']]))
    C = adt(ctx, 'commitment::Commitment')
    for fn, wrap in (('cmp', False), ('partial_cmp', True), ('eq', None)):
        for b in ctx.p.find(fn, 'Commitment'):
            for i, x in enumerate(order):
                for j, y in enumerate(order):
                    st = State()
                    for o in ctx.explore(I_, b, [I_.ref(st, agg(C, x)), I_.ref(st, agg(C, y))], st):
                        if o.kind == 'cut': continue
                        if o.kind != 'ret': ctx.ob('level', '%s: no abnormal exit' % fn, False, lambda: o.why); continue
                        n += 1
                        if wrap is None: ctx.ob('level', 'eq: levels are equal only to themselves', all(r == (i == j) for _, r in bool_cases(I_, o.st, o.val)), lambda: '%s %s: %s' % (x, y, show(o.val)))
                        else:
                            r = I_.payload(o.st, o.val, 'Some') if wrap else o.val
                            want = 'Less' if i < j else 'Greater' if i > j else 'Equal'
                            ctx.ob('level', '%s: the levels are ordered' % fn, (not wrap or variant(I_, o.st, o.val) == 'Some') and (variant(I_, o.st, r) == want or show(r).endswith(want)), lambda: '%s %s: %s' % (x, y, show(o.val)))
    # token account states
    mine = adt(ctx, '::TokenProgramAccountState'); conv = 0
    for k, b in sorted(ctx.p.b.items()):
        if not k.startswith('lite_') or b['argc'] != 1 or '{closure' in k: continue
        src, dst = b['locals'][1]['ty']['s'], b['locals'][0]['ty']['s']
        S, D = (next((a for a in ctx.p.adts if a.endswith('AccountState') and (a == re.sub('[&]|mut ', '', t).strip() or short(a) == short(re.sub('[&]|mut ', '', t).strip()) and a.split('::')[0] in (t.replace('&', '').split('::')[0], 'lite_token_account_storage'))), None) for t in (src, dst))
        if not S or not D or S == D or mine not in (S, D): continue
        conv += 1; got = set()
        for var in [x['name'] for x in ctx.p.adts[S]['variants']]:
            st = State(); a = agg(S, var)
            for o in ctx.explore(I_, b, [I_.ref(st, a) if b['locals'][1]['ty'].get('refs') else a], st):
                if o.kind == 'cut': continue
                n += 1; got.add(var)
                ctx.ob('state', '%s: a state keeps its name' % k.split('::', 1)[1], o.kind == 'ret' and variant(I_, o.st, o.val) == var, lambda: '%s -> %s' % (var, o.why or show(o.val)))
        ctx.ob('state', '%s: every state' % k.split('::', 1)[1], len(got) == len(ctx.p.adts[S]['variants']), str(got))
    ctx.ob('coverage', 'state conversions found', conv >= 4, str(conv))
    ctx.ob('coverage', 'cases examined', n >= 8 + 9 + 12, str(n))

# ---------------------------------------------------------------- P30
def install_rpc(I_, ctx):
    """the comparison of the rpc api: offset, bytes in an encoding"""
    M = 'solana_rpc_client_api::filter::Memcmp'
    I_.hooks[M + '::new'] = lambda I2, st, f, args, t, depth: I2.m.R(st, agg(M, None, offset=args[0], bytes=args[1]))
    E = M + 'EncodedBytes'
    I_.hooks[M + '::new_raw_bytes'] = lambda I2, st, f, args, t, depth: I2.m.R(st, agg(M, None, offset=args[0], bytes=agg(E, 'Bytes', **{'0': args[1]})))
    def h(I2, st, f, args, t, depth):
        x = I2.proj(st, I2.m.val(st, args[0]), ('f', 'bytes')); out = []
        for s, vn in I2.enum_cases(st.fork(), x, E):
            p = I2.payload(s, x, vn)
            if vn == 'Bytes': out += I2.m.R(s, SOME(p)); continue
            r = T('call', {'Binary': 'bs58::decode', 'Base58': 'bs58::decode', 'Base64': 'base64 decode STANDARD'}[vn], p)
            for s2, rv in I2.enum_cases(s.fork(), r, RES):
                out += I2.m.R(s2, SOME(I2.payload(s2, r, 'Ok')) if rv == 'Ok' else NONE)
        return out
    I_.hooks[M + '::bytes'] = h

def means(I_, st, x):
    """(offset, kind, content) of a comparison filter: kind 'bytes', 'Base58' or 'Base64'"""

def P30(ctx):
    n = 0
    I_ = ctx.interp(bounded=True, loop_exact=2); install_rpc(I_, ctx)
    EN = {'Bytes': ('Bytes',), 'Base58': ('Base58', 'Binary'), 'Base64': ('Base64',)}
    AF = adt(ctx, 'account_filter::AccountFilterType'); MD = adt(ctx, 'account_filter::MemcmpFilterData')
    # our filters -> rpc filters
    me = sym('self'); F = fld(me, 'filters'); kinds = set()
    for o in ctx.explore(I_, ctx.p.one('get_rpc_filter', 'AccountFilter'), [selfp()], State()):
        if o.kind == 'cut': continue
        ctx.ob('rpc', 'get_rpc_filter: no abnormal exit', o.kind == 'ret', lambda: '%s %s' % (o.why, pathdesc(o.st)))
        if o.kind != 'ret': continue
        for s, vn, L in opt_cases(I_, o.st, F):
            n += 1; why = lambda: '%s: %s' % (show(o.val)[:400], pathdesc(s))
            ctx.ob('rpc', 'get_rpc_filter: filters exactly when there are some', variant(I_, s, o.val) == vn, why)
            if vn == 'None' or variant(I_, s, o.val) != vn: continue
            R_ = I_.payload(s, o.val, 'Some'); k = 0
            while '>' in s.rel(T('len', L), I(k)) and k < 8: k += 1
            xs = [x for x in R_.a[1]] if R_.k == 'coll' and R_.a[0] is EMPTY else None
            ctx.ob('rpc', 'get_rpc_filter: as many filters', xs is not None and len(xs) == k and all(x[0] == 'push' for x in xs), why)
            if xs is None or len(xs) != k: continue
            for i, (_, x) in enumerate(xs):
                f = T('at', L, I(i)); fv = s.var.get(f); kinds.add(fv)
                if fv == 'Datasize': ok = variant(I_, s, x) == 'DataSize' and same(s, I_, I_.payload(s, x, 'DataSize'), T('vf', f, 'Datasize', '0'))
                elif fv == 'Memcmp' and variant(I_, s, x) == 'Memcmp':
                    m, m0 = I_.payload(s, x, 'Memcmp'), T('vf', f, 'Memcmp', '0')
                    d, d0 = I_.proj(s, m, ('f', 'bytes')), fld(m0, 'data'); dv, dv0 = variant(I_, s, d), s.var.get(d0); kinds.add(dv0)
                    ok = same(s, I_, I_.proj(s, m, ('f', 'offset')), fld(m0, 'offset'))
                    if dv == 'Bytes' and dv0 in STD: ok = ok and decoded(I_, s, m0) not in ('?', None) and same(s, I_, I_.payload(s, d, dv), decoded(I_, s, m0))
                    else: ok = ok and dv in EN.get(dv0, ()) and same(s, I_, I_.payload(s, d, dv), T('vf', d0, dv0, '0'))
                else: ok = False
                ctx.ob('rpc', 'get_rpc_filter: every filter keeps its meaning', ok, why)
    ctx.ob('coverage', 'every kind of filter converted to rpc', kinds >= {'Datasize', 'Memcmp', 'Bytes', 'Base58', 'Base64'}, str(kinds))
    # rpc filters -> our filters
    v = sym('filter'); RF = adt(ctx, 'filter::RpcFilterType'); kinds = set()
    for o in ctx.explore(I_, ctx.p.one('from', 'AccountFilterType'), [obj('filter')], State()):
        if o.kind == 'cut': continue
        for s, vn in I_.enum_cases(o.st.fork(), v, RF):
            n += 1; why = lambda: '%s: %s' % (o.why or show(o.val)[:400], pathdesc(s)); kinds.add(vn)
            ctx.ob('filter', 'From<&RpcFilterType>: %s: no abnormal exit' % vn, o.kind == 'ret', why)
            if o.kind != 'ret': continue
            if vn == 'DataSize': ok = variant(I_, s, o.val) == 'Datasize' and same(s, I_, I_.payload(s, o.val, 'Datasize'), T('vf', v, vn, '0'))
            elif vn == 'Memcmp' and variant(I_, s, o.val) == 'Memcmp':
                m0, m = T('vf', v, vn, '0'), I_.payload(s, o.val, 'Memcmp')
                d0, d = fld(m0, 'bytes'), I_.proj(s, m, ('f', 'data')); dv = variant(I_, s, d); dv0 = s.var.get(d0); kinds.add(dv0)
                ok = same(s, I_, I_.proj(s, m, ('f', 'offset')), fld(m0, 'offset'))
                src = T('vf', d0, dv0, '0'); r = T('call', 'base64 decode STANDARD' if dv0 == 'Base64' else 'bs58::decode', src); rv = s.var.get(r)
                if dv == 'Bytes': ok = ok and same(s, I_, I_.payload(s, d, dv), src if dv0 == 'Bytes' else I_.payload(s, r, 'Ok') if rv == 'Ok' else T('none'))
                else: ok = ok and dv in EN and dv0 in EN[dv] and same(s, I_, I_.payload(s, d, dv), src)
            else: ok = False
            ctx.ob('filter', 'From<&RpcFilterType>: %s keeps its meaning' % vn, ok, why)
    ctx.ob('coverage', 'every rpc filter converted', kinds >= {'DataSize', 'Memcmp', 'TokenAccountState', 'Bytes', 'Base58', 'Base64', 'Binary'}, str(kinds))
    # rpc filters on an account
    from states import data_summaries
    I4 = ctx.interp(bounded=True, loop_exact=1, summaries=[data_summaries]); got = set()
    I4.hooks['solana_rpc_client_api::filter::Memcmp::bytes_match'] = lambda I_, st, f, args, t, depth: I_.m.R(st, T('call', 'rpc bytes_match', eta(st, I_, args[0]), eta(st, I_, args[1])))
    D0 = fld(me, 'account', 'data')
    for o in ctx.explore(I4, ctx.p.one('allows', 'AccountData'), [selfp(), obj('filter')], State()):
        if o.kind == 'cut': continue
        for s, vn in I4.enum_cases(o.st.fork(), v, RF):
            why = lambda: '%s: %s' % (o.why or show(o.val)[:300], pathdesc(s)); got.add(vn); n += 1
            if vn == 'TokenAccountState': continue      # known for token programs only, not a filter of the stores
            ctx.ob('rpc', 'allows: no abnormal exit', o.kind == 'ret', why)
            if o.kind != 'ret': continue
            x = T('vf', v, vn, '0')
            for s1, b in bool_cases(I4, s, o.val):
                if vn == 'DataSize': ok = s1.rel(T('call', 'Data::len', D0), x) == frozenset('=') if b else '=' not in s1.rel(T('call', 'Data::len', D0), x)
                else: ok = s1.bools.get(T('call', 'rpc bytes_match', x, T('call', 'Data::data', D0))) is b
                ctx.ob('rpc', 'allows: an account passes exactly when its %s fits' % ('size' if vn == 'DataSize' else 'content'), ok, lambda: pathdesc(s1))
    ctx.ob('coverage', 'every rpc filter on an account', got >= {'DataSize', 'Memcmp'}, str(got))
    # through json and back
    le = 2
    I2 = ctx.interp(bounded=True, loop_exact=le)
    hk = I2.hooks; R = lambda st, v: I2.m.R(st, v)
    hk[('Serializer', 'serialize_map')] = lambda I_, st, f, a, t, d: R(st, OK(T('map', EMPTY)))
    hk[('Serializer', 'serialize_struct')] = lambda I_, st, f, a, t, d: R(st, OK(T('map', EMPTY)))
    def entry(I_, st, f, a, t, d):
        st.event('entry', t.get('sp'), key=I_.m.val(st, a[1]), val=I_.deep(st, a[2])); return R(st, OK(UNIT))
    hk[('SerializeMap', 'serialize_entry')] = entry; hk[('SerializeStruct', 'serialize_field')] = entry
    for tr in ('SerializeMap', 'SerializeStruct'): hk[(tr, 'end')] = lambda I_, st, f, a, t, d: R(st, OK(T('tag', 'written')))
    J = lambda x: T('json', x)
    hk[('Deserialize', 'deserialize')] = lambda I_, st, f, a, t, d: R(st, OK(T('tag', 'document'))) if 'Value' in str(f.get('self', {}).get('s', '')) + str(f.get('targs', '')) else None
    def get(I_, st, f, a, t, d):
        x = I_.m.val(st, a[0])
        if x is not T('tag', 'document'): return None
        k = I_.m.val(st, a[1]); st.event('lookup', t.get('sp'), key=k)
        for e in st.events():
            if e['kind'] == 'entry' and same(st, I_, e['key'], k): return R(st, SOME(I_.ref(st, J(e['val']))))
        return R(st, NONE)
    hk['serde_json::Value::get'] = get
    def as_array(I_, st, f, a, t, d):
        x = I_.m.val(st, a[0])
        if x.k != 'json': return None
        y = x.a[0]
        if y.k == 'tostr' or y.k == 'call': return R(st, NONE)
        if y.k == 'coll' and y.a[0] is EMPTY and all(z[0] == 'push' for z in y.a[1]): return R(st, SOME(I_.ref(st, T('coll', EMPTY, tuple(('push', J(z[1])) for z in y.a[1])))))
        return None
    hk['serde_json::Value::as_array'] = as_array
    def as_str(I_, st, f, a, t, d):
        x = I_.m.val(st, a[0])
        if x.k != 'json': return None
        return R(st, SOME(x.a[0]) if x.a[0].k == 'tostr' else NONE)
    hk['serde_json::Value::as_str'] = as_str
    def from_str(I_, st, f, a, t, d):
        x = I_.m.val(st, a[0])
        return R(st, OK(x.a[-1])) if x.k == 'tostr' else None
    hk[('FromStr', 'from_str')] = from_str
    def from_value(I_, st, f, a, t, d):
        x = eta(st, I_, a[0])
        if x.k != 'json': return None
        opt = any('Option<' in str(y)[:40] for y in f.get('targs', []))
        y = x.a[0]
        if not opt: return R(st, OK(y))
        return R(st, OK(y if y.k == 'agg' and y.a[0] == OPT else SOME(y)))
    hk['serde_json::from_value'] = from_value
    q = sym('self')
    for o in ctx.explore(I2, ctx.p.one('serialize', 'AccountFilter'), [selfp(), sym('serializer')], State()):
        if o.kind == 'cut': continue
        ctx.ob('json', 'serialize: no abnormal exit', o.kind == 'ret', lambda: '%s %s' % (o.why, pathdesc(o.st)))
        if o.kind != 'ret': continue
        ctx.ob('json', 'serialize: succeeds when the serializer does', variant(I2, o.st, o.val) == 'Ok', lambda: '%s: %s' % (show(o.val)[:300], pathdesc(o.st)))
        for r in ctx.explore(I2, ctx.p.one('deserialize', 'AccountFilter'), [sym('deserializer')], o.st.fork()):
            if r.kind == 'cut': continue
            n += 1; why = lambda: '%s: %s' % (r.why or show(r.val)[:600], pathdesc(r.st))
            ctx.ob('json', 'deserialize: a serialized filter is accepted', r.kind == 'ret' and variant(I2, r.st, r.val) == 'Ok', why)
            if r.kind != 'ret' or variant(I2, r.st, r.val) != 'Ok': continue
            x = I2.payload(r.st, r.val, 'Ok')
            for fn in ('accounts', 'program_id', 'filters'):
                y, y0 = I2.proj(r.st, x, ('f', fn)), fld(q, fn)
                if fn == 'accounts':
                    k = 0
                    while '>' in r.st.rel(T('len', y0), I(k)) and k < 8: k += 1
                    ok = same(r.st, I2, y, y0) or y.k == 'coll' and y.a[0] is EMPTY and len(y.a[1]) == k and all(z[0] == 'push' and same(r.st, I2, z[1], T('at', y0, I(i))) for i, z in enumerate(y.a[1]))
                else:
                    vn = r.st.var.get(y0)
                    ok = same(r.st, I2, y, y0) or variant(I2, r.st, y) == vn and (vn == 'None' or vn == 'Some' and same(r.st, I2, I2.payload(r.st, y, 'Some'), T('vf', y0, 'Some', '0')))
                ctx.ob('json', 'a filter written and read keeps its %s' % fn, ok, why)
    # any document
    I3 = ctx.interp(bounded=True, loop_exact=1)
    for o in ctx.explore(I3, ctx.p.one('deserialize', 'AccountFilter'), [sym('deserializer')], State()):
        if o.kind == 'cut': continue
        n += 1; why = lambda: '%s %s %s' % (o.why, show(o.val)[:300] if o.val else '', pathdesc(o.st))
        ctx.ob('json', 'deserialize: every document is read or refused', o.kind == 'ret', why)
        if o.kind != 'ret' or variant(I3, o.st, o.val) != 'Ok': continue
        x = I3.payload(o.st, o.val, 'Ok')
        for key, fn in (('accounts', 'accounts'), ('programId', 'program_id'), ('filters', 'filters')):
            found = [t for t, v in o.st.var.items() if t.k == 'call' and 'Value::get' in str(t.a[0]) and show(t.a[-1]).strip("'") == key]
            ctx.ob('json', 'deserialize: the %s are looked for' % fn, bool(found), why)
            if not found: continue
            y = I3.proj(o.st, x, ('f', fn)); has = o.st.var[found[0]] == 'Some'
            if fn == 'accounts':
                arr = [t for t, v in o.st.var.items() if t.k == 'call' and 'as_array' in str(t.a[0]) and v == 'Some']
                if has and arr:
                    L = I3.payload(o.st, arr[0], 'Some')
                    ok = any(all(I3.m.length(s, y) is I(i) for _ in (0,)) for s in (o.st,) for i in range(3) if '>' not in o.st.rel(T('len', L), I(i)) and (i == 0 or '<' not in o.st.rel(T('len', L), I(i))))
                else: ok = True
            elif has: ok = 'Ok#0' in show(y) or variant(I3, o.st, y) == 'Some'
            else: ok = variant(I3, o.st, y) == 'None'
            ctx.ob('json', 'deserialize: the %s of the document are those of the filter' % fn, ok, why)
    ctx.ob('coverage', 'cases examined', n >= 30, str(n))
