"""Token program accounts: P28 queries answer exactly the matching accounts."""
from lib import *
from tokmain import Roles as Base, S, TR, ROOT, TS, tok_interp, install_ts, install_part, install_conv, base
from tokslots import Roles, one_sig, install_kinds, slot_interp

def contains(v, x):
    if v is x: return True
    return any(contains(y, x) if isinstance(y, T) else isinstance(y, tuple) and any(isinstance(z, T) and contains(z, x) or isinstance(z, tuple) and any(isinstance(w, T) and contains(w, x) for w in z) for z in y) for y in v.a)
def items(v):
    return [o[1] for o in v.a[1]] if v.k == 'coll' and v.a[0] is EMPTY and all(o[0] == 'push' for o in v.a[1]) else None

def filter_model(ctx, I_):
    """whether a filter accepts given bytes stays open (P05 compares it with its definition)"""
    ft = next(k for k in ctx.p.adts if k.endswith('::AccountFilterType'))
    def allows(I2, st, args, t, depth, f): return I2.m.R(st, T('allows', eta(st, I2, args[0]), eta(st, I2, args[1])))
    ctx.p.one('allows', 'AccountFilterType'); summary('AccountFilterType', 'allows', allows)(I_)
    summary('Data', 'data', lambda I2, st, args, t, depth, f: I2.m.R(st, T('bytesof', eta(st, I2, args[0]))))(I_)
    return ft

def P28(ctx):
    overlay(ctx); stored_accounts(ctx); recognised_filters(ctx)

# ---- 1. what is found among the finalized accounts, together with what is not finalized yet, filtered
def overlay(ctx):
    r = Roles(ctx); I_ = slot_interp(ctx, r, loop_exact=6); filter_model(ctx, I_)
    q = ctx.p.one('get_program_accounts', S, TR)
    f1, f2 = sym('finalized1'), sym('finalized2'); flts = [sym('filter'), sym('other_filter')]
    k1, k2, k3 = fld(f1, 'pubkey'), fld(f2, 'pubkey'), sym('key3')
    def fin(I2, st, args, t, depth, f):
        st.event('asked', t.get('sp'), args=tuple(eta(st, I2, x) for x in args[1:])); s = st.fork(); s.event('failed', None)
        return I2.m.R(st, agg(RES, 'Ok', **{'0': T('coll', EMPTY, (('push', f1), ('push', f2)))})) + I2.m.R(s, agg(RES, 'Err', **{'0': sym('error')}))
    ctx.p.one('get_program_accounts_finalized', S); summary(S, 'get_program_accounts_finalized', fin)(I_)
    a, b = sym('slot_a'), sym('slot_b'); old = sym('older')
    acc = {(k, s): agg(r.acc, '', **{r.state: sym('account%s%s' % (i, s.a[0][-1])), r.wv: sym('version%s%s' % (i, s.a[0][-1]))}) for i, k in ((1, k1), (2, k2), (3, k3)) for s in (a, b)}
    prog = T('const', 'spl_token::ID'); n = 0
    pats = [(), (a,), (b,), (a, b)]
    cases = [(x, (), y, level, cs, 1) for x in pats for y in pats for level in ('Processed', 'Confirmed') for cs in (old, a, b)] + [((a, b), (), (a,), 'Finalized', a, 1)]
    cases += [((a,), x, y, level, cs, 1) for x in pats[1:] for y in ((), (b,)) for level in ('Processed', 'Confirmed') for cs in (old, b)]
    cases += [(x, (), y, level, a, nf) for x, y in (((), ()), ((b,), (a,))) for level in ('Processed', 'Confirmed', 'Finalized') for nf in (None, 0, 2)]
    for p1, p2, p3, level, cs, nf in cases:
        fl = flts[:nf or 0]; filters = Some(T('coll', EMPTY, tuple(('push', x) for x in fl))) if nf is not None else NONE
        st = State()
        for x, y in ((old, a), (a, b)): st.assume(x, y, frozenset('<'))
        for x, y in ((k1, k2), (k1, k3), (k2, k3)): st.assume(x, y, frozenset('<>'))
        cont = {s: [(k, acc[k, s]) for k, p in ((k1, p1), (k2, p2), (k3, p3)) if s in p] for s in (a, b)}
        I_.store(st, ROOT, r.all(), T('coll', EMPTY, (('set', a, r.entry(cont[a], None)), ('set', b, r.entry(cont[b], a)))))
        I_.store(st, ROOT, (('f', r.confirmed),), cs)
        order = ([s for s in (b, a) if (s is b or cs is old) and cs is not b] if level == 'Processed' else []) + {old: [], a: [a], b: [b, a]}[cs]
        if level == 'Finalized': order = []
        for o in ctx.explore(I_, q, [selfp(), prog, filters, agg(r.commitment, level)], st):
            s = o.st
            why = lambda: '%s %s: finalized1 also in %s, finalized2 in %s, key3 in %s, confirmed %s: %s when %s' % (o.kind, o.why or '', [show(x) for x in p1], [show(x) for x in p2], [show(x) for x in p3], show(cs), show(o.val)[:300] if o.val is not None else '', pathdesc(s))
            if o.kind == 'cut': continue
            if not ctx.ob('queries', '%s: no abnormal exit' % level, o.kind == 'ret', why): continue
            asked = [e for e in s.events() if e['kind'] == 'asked']
            if not ctx.ob('queries', '%s: the finalized accounts of the program are asked for with the filters' % level, len(asked) == 1 and asked[0]['args'][0] is prog and same(s, I_, asked[0]['args'][1], filters), why): continue
            if any(e['kind'] == 'failed' for e in s.events()):
                ctx.ob('queries', '%s: a query the indexes cannot answer is an error' % level, variant(I_, s, o.val) == 'Err', why); continue
            if not ctx.ob('queries', '%s: an answer is given' % level, variant(I_, s, o.val) == 'Ok', why): continue
            got = items(I_.payload(s, o.val, 'Ok'))
            if not ctx.ob('queries', '%s: the answer is known' % level, got is not None, why): continue
            n += 1
            work = [(s.fork(), [])]
            for k, f in ((k1, f1), (k2, f2), (k3, None)):
                hit = next((acc[k, sl] for sl in order if (k, sl) in acc and any(x is k for x, _ in cont[sl])), None)
                if hit is None:
                    if f is not None: work = [(s1, c + [f]) for s1, c in work]
                    continue
                sl = next(sl for sl in order if any(x is k for x, _ in cont[sl]))
                t = T('shown', I_.proj(s, hit, ('f', r.state)), sl)
                work = [(s2, c + ([I_.payload(s2, t, 'Some')] if vn == 'Some' else [])) for s1, c in work for s2, vn in I_.enum_cases(s1, t, OPT)]
            for s1, cand in work:
                # whatever decides for an account: its program and the filter
                w2 = [(s1, [])]
                for x in cand:
                    ac = I_.proj(s1, x, ('f', 'account'))
                    w3 = []
                    for s2, c in w2:
                        for s3, e in I_.decide(s2, I_.cmp(s2, 'Eq', I_.proj(s2, ac, ('f', 'owner')), prog)):
                            w4 = [(s3, e)]
                            for fx in fl: w4 = [(s5, al) for s4, ok in w4 for s5, al in (I_.decide(s4, T('allows', fx, T('bytesof', I_.proj(s4, ac, ('f', 'data'))))) if ok else [(s4, False)])]
                            w3 += [(s4, c + ([x] if ok else [])) for s4, ok in w4]
                    w2 = w3
                for s2, want in w2:
                    ctx.ob('queries', '%s: exactly the accounts seen at the commitment which match' % level, len(got) == len(want) and all(any(x is w for x in got) for w in want),
                           lambda: 'wanted %s: %s %s' % ([show(x) for x in want], why(), pathdesc(s2)))
    ctx.ob('coverage', 'queries examined', n >= 200, str(n))
    for pid in (T('const', 'spl_token_2022::ID'), sym('program')):
        st = State(); filters = Some(T('coll', EMPTY, (('push', flts[0]),)))
        if pid.k == 'sym':
            for x in ('spl_token::ID', 'spl_token_2022::ID'): st.assume(pid, T('const', x), frozenset('<>'))
        for o in ctx.explore(I_, q, [selfp(), pid, filters, agg(r.commitment, 'Finalized')], st):
            if pid.k == 'sym': ctx.ob('queries', 'a program which is not covered is an error', o.kind == 'ret' and variant(I_, o.st, o.val) == 'Err', lambda: pathdesc(o.st))
            elif o.kind == 'ret' and not any(e['kind'] == 'failed' for e in o.st.events()):
                ctx.ob('queries', 'both token programs are covered', variant(I_, o.st, o.val) == 'Ok', lambda: pathdesc(o.st))

# ---- 2. the indexes give all the stored accounts
def stored_accounts(ctx):
    r = Base(ctx); I_ = tok_interp(ctx, loop_exact=4); filter_model(ctx, I_)
    q = ctx.p.one('get_program_accounts_finalized', S)
    own, mnt = sym('owner'), sym('wanted_mint'); prog = sym('program'); fl = sym('filters')
    which = {}
    def hints(I2, st, f, args, t, depth): return I2.m.R(st, tup(which['owner'], which['mint']))
    hs = one_sig(ctx, r'^\(.*Option<[\w:]*Pubkey>, .*Option<[\w:]*Pubkey>\)$', r'&[\w:]*Pubkey')
    if len(hs) != 1: raise MissingAnchor('function telling the owner and the mint of token account filters (found %d)' % len(hs))
    I_.hooks[hs[0]['key']] = hints
    toks = {sym('pos1'): sym('token1'), sym('pos2'): sym('token2')}
    p1, p2 = toks
    def by_index(I2, st, f, args, t, depth):
        v = eta(st, I2, args[1]); ex = I2.m.exact_map(st, v)
        st.event('positions', t.get('sp'), which=ex)
        return I2.m.R(st, agg(RES, 'Ok', **{'0': T('coll', EMPTY, tuple(('push', toks[k]) for k, _ in ex or () if k in toks))}))
    I_.hooks[(TS, 'get_by_index')] = by_index
    ix = sym('index'); i1, i2 = sym('index1'), sym('index2'); m1, m2 = sym('mint1'), sym('mint2'); n = 0
    lists = [None, (p1,), (p1, p2), (p1, p1), (p2, p1, p2)]
    flt = sym('filter')
    for kind in ('owner', 'mint', 'both', 'neither'):
        which['owner'] = Some(own) if kind in ('owner', 'both') else NONE
        which['mint'] = Some(mnt) if kind in ('mint', 'both') else NONE
        for lst in (lists if kind != 'neither' else [None]):
            for known in ((True, False) if kind in ('mint', 'both') else (True,)):
                st = State(); st.assume(p1, p2, frozenset('<>')); st.assume(i1, i2, frozenset('<>'))
                name, key = ('byowner', T('part', own)) if kind in ('owner', 'both') else ('bymint', ix)
                I_.store(st, ROOT, r.path(name), T('coll', EMPTY, (('set', key, T('coll', EMPTY, tuple(('push', x) for x in lst))),) if lst is not None else ()))
                I_.store(st, ROOT, r.path('midx'), T('coll', EMPTY, (('set', mnt, ix),) if known else ()))
                if kind == 'neither': I_.store(st, ROOT, r.path('mints'), T('coll', EMPTY, (('set', i1, m1), ('set', i2, m2))))
                flts = [flt] if kind != 'neither' else [flt, sym('other_filter')]
                fs = Some(T('coll', EMPTY, tuple(('push', x) for x in flts)))
                for o in ctx.explore(I_, q, [selfp(), prog, fs], st):
                    s = o.st
                    if o.kind == 'cut': continue
                    why = lambda: '%s %s: by %s, list %s, mint %s: %s when %s' % (o.kind, o.why or '', kind, [show(x) for x in lst or ()], 'known' if known else 'unknown', show(o.val)[:300] if o.val is not None else '', pathdesc(s))
                    if not ctx.ob('stored', 'no abnormal exit', o.kind == 'ret', why): continue
                    n += 1
                    vn = variant(I_, s, o.val)
                    if kind == 'neither':
                        mints(ctx, I_, s, o.val, vn, flts, (m1, m2), why); continue
                    if not ctx.ob('stored', 'by %s: an answer is given' % kind, vn == 'Ok', why): continue
                    got = items(I_.payload(s, o.val, 'Ok'))
                    if not ctx.ob('stored', 'by %s: the answer is known' % kind, got is not None, why): continue
                    listed = {toks[x] for x in lst or ()} if known else set()
                    work = [(s.fork(), [])]
                    for t in sorted(listed, key=lambda x: x.id):
                        conds = []
                        if kind in ('owner', 'both'): conds.append((fld(t, 'owner'), own))
                        if kind in ('mint', 'both'): conds.append((fld(t, 'mint'), ix))
                        w = []
                        for s1, c in work:
                            cur = [(s1, True)]
                            for x, y in conds: cur = [(s3, e) for s2, ok in cur for s3, e in (I_.decide(s2, I_.cmp(s2, 'Eq', x, y)) if ok else [(s2, False)])]
                            for s2, ok in cur: w.append((s2, c + ([t] if ok else [])))
                        work = w
                    for s1, want in work:
                        vis = [(s1, [])]
                        for t in want:
                            vis = [(s4, c + ([t] if ok else [])) for s2, c in vis for s3, d in I_.decide(s2, fld(t, 'is_deleted')) for s4, ok in ([(s3, False)] if d else I_.m.has(s3, base(r, 'mints'), fld(t, 'mint')))]
                        for s2, w in vis:
                            acct = [x for x in got if x.k == 'agg']
                            of = [I_.proj(s2, x, ('f', 'account')) for x in acct]
                            ok = len(acct) == len(got) == len(w) and all(any(y.k == 'given' and y.a[1] is t for y in of) for t in w)
                            ctx.ob('stored', 'by %s: exactly the accounts with it, each once' % kind, ok, lambda: 'wanted %s: %s %s' % ([show(x) for x in w], why(), pathdesc(s2)))
    for o in ctx.explore(I_, q, [selfp(), prog, NONE], State()):
        ctx.ob('stored', 'without a filter: an error', o.kind == 'ret' and variant(I_, o.st, o.val) == 'Err', lambda: '%s %s' % (o.kind, pathdesc(o.st)))
    ctx.ob('coverage', 'answers from the indexes examined', n >= 60, str(n))

def mints(ctx, I_, s, val, vn, flts, ms, why):
    """no owner or mint is given: all the mints are looked at when their size is asked for, otherwise the query is refused"""
    size = any(variant(I_, s, flt) == 'Datasize' and s.rel(I_.proj(s, flt, ('v', 'Datasize', '0')), I(82)) == frozenset('=') for flt in flts)
    if vn == 'Err':
        ctx.ob('stored', 'a query for mints is answered', not size, why); return
    got = items(I_.payload(s, val, 'Ok'))
    if not ctx.ob('stored', 'mints: the answer is known', got is not None, why): return
    ctx.ob('stored', 'only a query for mints is answered without an owner or a mint', size, why)
    of = [I_.proj(s, x, ('f', 'account')) for x in got]
    ctx.ob('stored', 'mints: only mints', all(y.k == 'given' and any(y.a[1] is m for m in ms) for y in of), why)
    work = [(s.fork(), [])]
    for m in ms:
        w2 = [(s1, c, True) for s1, c in work]
        for flt in flts:
            al = T('allows', flt, T('bytesof', I_.proj(s, T('given', 'MintAccount', m), ('f', 'data'))))
            w2 = [(s2, c, b) for s1, c, ok in w2 for s2, b in (I_.decide(s1, al) if ok else [(s1, False)])]
        work = [(s1, c + ([m] if ok else [])) for s1, c, ok in w2]
    for s1, want in work:
        ctx.ob('stored', 'mints: exactly the mints which match', len(of) == len(want) and all(sum(y.k == 'given' and y.a[1] is m for y in of) == 1 for m in want), lambda: 'wanted %s: %s' % ([show(x) for x in want], why()))

# ---- 3. an owner or mint is only taken from filters which token accounts with it pass, and nothing else
def recognised_filters(ctx):
    I_ = tok_interp(ctx, loop_exact=3, keep=True)
    def packed(I2, st, f, args, t, depth):
        m = re.match(r'(?:&mut |&)?(spl_token(?:_2022)?)::state::(\w+)$', (f.get('targs') or [f.get('self', {}).get('s', '')])[0])
        from tokens import LEN
        return I2.m.R(st, I(LEN[m.group(2)])) if m and m.group(2) in LEN else None
    I_.hooks[('Pack', 'get_packed_len')] = packed
    hs = one_sig(ctx, r'^\(.*Option<[\w:]*Pubkey>, .*Option<[\w:]*Pubkey>\)$', r'&[\w:]*Pubkey')
    if len(hs) != 1: raise MissingAnchor('function telling the owner and the mint of token account filters (found %d)' % len(hs))
    prog, fl = sym('program'), sym('filters'); n = 0
    t22 = T('const', 'spl_token_2022::ID')
    eq = lambda s, x, y: s.rel(x, y) == frozenset('=')
    def filters_of(s):
        """what the path established about the filters"""
        size, key, kind = False, {0: [], 32: []}, False
        for j in range(4):
            x = T('at', fl, I(j)); vn = s.var.get(x)
            if vn is None: x = T('elem', fl, j); vn = s.var.get(x)
            if vn == 'Datasize' and eq(s, T('vf', x, 'Datasize', '0'), I(165)): size = True
            if vn == 'Memcmp':
                m = T('vf', x, 'Memcmp', '0'); d = fld(m, 'data'); off = fld(m, 'offset')
                if s.var.get(d) != 'Bytes': continue
                by = T('vf', d, 'Bytes', '0'); ln = T('len', by)
                for o in key:
                    if eq(s, off, I(o)) and eq(s, ln, I(32)): key[o].append(by)
                if eq(s, off, I(165)) and eq(s, ln, I(1)) and eq(s, T('at', by, I(0)), I(2)) and eq(s, prog, t22): kind = True
        return size or kind, key
    for o in ctx.explore(I_, hs[0], [obj('program'), obj('filters')], State()):
        if o.kind == 'cut': continue
        s = o.st; why = lambda: '%s %s %s when %s' % (o.kind, o.why or '', show(o.val)[:300] if o.val is not None else '', pathdesc(s))
        if not ctx.ob('filters', 'no abnormal exit', o.kind == 'ret', why): continue
        n += 1
        tok, key = filters_of(s)
        for f, off, nm in (('0', 32, 'owner'), ('1', 0, 'mint')):
            x = I_.proj(s, o.val, ('f', f)); vn = variant(I_, s, x)
            if not ctx.ob('filters', '%s: known whether one is given' % nm, vn in ('Some', 'None'), why): continue
            if vn == 'None': continue
            ctx.ob('filters', '%s: only for filters which only token accounts pass' % nm, tok, why)
            ctx.ob('filters', '%s: compared with the whole key at its place in an account' % nm, any(contains(I_.payload(s, x, 'Some'), b) for b in key[off]), why)
    ctx.ob('coverage', 'combinations of filters examined', n >= 100, str(n))
    # and the usual queries are recognised
    ft = next(k for k in ctx.p.adts if k.endswith('::AccountFilterType')); mf = next(k for k in ctx.p.adts if k.endswith('::MemcmpFilter')); md = next(k for k in ctx.p.adts if k.endswith('::MemcmpFilterData'))
    def memcmp(off, by): return agg(ft, 'Memcmp', **{'0': agg(mf, '', offset=I(off), data=agg(md, 'Bytes', **{'0': by}))})
    size = agg(ft, 'Datasize', **{'0': I(165)}); acct = memcmp(165, T('coll', EMPTY, (('push', I(2)),)))
    ow, mi = sym('owner_bytes'), sym('mint_bytes'); m = 0
    for mark in (size, acct):
        for keys in (((32, ow),), ((0, mi),), ((32, ow), (0, mi))):
            fs = [memcmp(x, y) for x, y in keys]
            for order in ([mark] + fs, fs + [mark], [mark] + fs[::-1]):
                st = State(); st.assume(T('len', ow), I(32), frozenset('=')); st.assume(T('len', mi), I(32), frozenset('='))
                pr = t22
                for o in ctx.explore(I_, hs[0], [I_.ref(st, pr), I_.ref(st, T('coll', EMPTY, tuple(('push', x) for x in order)))], st):
                    s = o.st; m += 1
                    if any(v == 'Err' for t, v in s.var.items() if t.k in ('call', 'ret') and 'try' in str(t.a[0])): continue   # 32 bytes are a key
                    for f, by in (('0', ow), ('1', mi)):
                        x = I_.proj(s, o.val, ('f', f)) if o.kind == 'ret' else None
                        w = any(y is by for _, y in keys)
                        ctx.ob('filters', 'the owner and the mint of a query for token accounts are recognised', x is not None and (variant(I_, s, x) == 'Some') == w and (not w or contains(I_.payload(s, x, 'Some'), by)),
                               lambda: '%s %s %s' % (o.kind, show(o.val)[:300] if o.val is not None else o.why, pathdesc(s)))
    ctx.ob('coverage', 'usual queries examined', m >= 12, str(m))
