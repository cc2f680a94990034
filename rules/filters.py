"""Filter stores: P18 configured filters, P19 exclusions."""
from lib import *
from store import field_of, held_at
TR = 'AccountFiltersStoreInterface'

def call_hook(nm):
    return lambda I2, st, args, t, depth, f: I2.m.R(st, T('call', nm, *[I2.deep(st, a) for a in args]))
def install(I_):
    summary('AccountFilterType', 'allows', call_hook('allows'))(I_)
    summary('Data', 'data', call_hook('data'))(I_)

STD = {'Base58': lambda v: 'bs58::decode' in v and 'alphabet' not in v and 'onto' not in v, 'Base64': lambda v: 'base64' in v and 'STANDARD' in v and 'NO_PAD' not in v and 'decode' in v}
def decoded(I_, st, m):
    """the bytes a comparison filter is for, None when they cannot be decoded, '?' when the path did not decode them"""
    d = fld(m, 'data'); vn = st.var.get(d)
    if vn == 'Bytes': return T('vf', d, 'Bytes', '0')
    if vn not in STD: return '?'
    src = T('vf', d, vn, '0')
    def of(t): return t.k == 'call' and (t.a[-1] is src or isinstance(t.a[-1], T) and t.a[-1].k == 'call' and len(t.a[-1].a) == 2 and t.a[-1].a[1] is src)
    for t, v in st.var.items():
        if t.k == 'call' and v in ('Ok', 'Err') and of(t) and STD[vn](show(t)):
            return I_.payload(st, t, 'Ok') if v == 'Ok' else None
    return '?'

class Base:
    """where the accounts and programs of a filter store live, seen from an entry type"""
    def __init__(s, ctx, ty):
        s.ty = ty
        b = sym('self')
        if ty != 'SimpleFilterStore': b = fld(b, field_of(ctx, ty, r'SimpleFilterStore'))
        s.ACC = fld(b, field_of(ctx, 'SimpleFilterStore', r'Set<[^<>]*Pubkey'))
        s.PROG = fld(b, field_of(ctx, 'SimpleFilterStore', r'Map<[^<>]*Pubkey, '))
        en = [k for k, v in ctx.p.adts.items() if k.startswith('lite_') and k.endswith('::ProgramIdFilters') and v['kind'] == 'enum']
        if len(en) != 1: raise MissingAnchor('enum of program filters')
        s.enum = en[0]
        vs = ctx.p.adts[en[0]]['variants']
        a = [v['name'] for v in vs if not v['fields']]; l = [v['name'] for v in vs if len(v['fields']) == 1]
        if len(a) != 1 or len(l) != 1 or len(vs) != 2: raise MissingAnchor('variants of %s' % en[0])
        s.all, s.lst = a[0], l[0]

def run(ctx, ty, name, args, trait=TR, **kw):
    I_ = ctx.interp(bounded=True, loop_exact=kw.pop('le', 3 if ctx.tier == 'thorough' else 2), summaries=[install], max_states=3000000, opaque_members=True)
    a = [sym(x) for x in args]
    cs = ctx.p.find(name, ty, trait)
    if not cs: raise MissingAnchor('%s::%s' % (ty, name))
    outs = [o for o in ctx.explore(I_, cs[0], [selfp()] + a, State()) if o.kind != 'cut']
    for o in outs: ctx.ob('filter', '%s::%s: no abnormal exit' % (ty, name), o.kind == 'ret', lambda: '%s %s' % (o.why, pathdesc(o.st)))
    return I_, a, [o for o in outs if o.kind == 'ret']

def changes(o):
    """changes of what the caller can see, not of local values"""
    return [e for e in o.st.events() if e['kind'] == 'mut' and e['place'].a[0].k == 'obj' or e['kind'] == 'write' and e['root'].k == 'obj']

def members(st, L):
    """members of the list or set L that the path looked at: terms elem(L,i) / at(L,i)"""
    seen = {}
    def walk(t):
        if t.k in ('elem', 'at', 'relem', 'first', 'last') and t.a[0] is L: seen[t.a[1] if len(t.a) > 1 else t.k] = t
        for x in t.a:
            if isinstance(x, T): walk(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T): walk(y)
    for t in st.bools: walk(t)
    c = st.trace
    while c:
        walk(c[1][0]); c = c[0]
    return list(seen.values())
def complete(st, L, k):
    """the list has at most k members on this path"""
    return '>' not in st.rel(T('len', L), T('int', k))

def set_allows(st, S_, data):
    """True / False / None: do all filters of the set allow the data, as far as the path has established"""
    ms = [m for m in members(st, S_)]
    vals = [st.bools.get(T('call', 'allows', m, data)) for m in ms]
    if any(v is False for v in vals): return False
    if all(v is True for v in vals) and complete(st, S_, len(ms)): return True
    return None
def describes(I_, st, b, acct):
    """complete: list of (state, True/False/None): the configured filters describe the account"""
    out = []
    data = T('call', 'data', fld(acct, 'account', 'data'))
    for s, h in has_cases(I_, st, b.ACC, fld(acct, 'pubkey')):
        if h: out.append((s, True)); continue
        own = fld(acct, 'account', 'owner')
        for s2, h2 in has_cases(I_, s, b.PROG, own):
            if not h2: out.append((s2, False)); continue
            v = T('at', b.PROG, own)
            for s3, vn in I_.enum_cases(s2.fork(), v, b.enum):
                if vn == b.all: out.append((s3, True)); continue
                L = I_.payload(s3, v, vn)
                ms = members(s3, L)
                rs = [set_allows(s3, m, data) for m in ms]
                if any(r is True for r in rs): out.append((s3, True))
                elif all(r is False for r in rs) and complete(s3, L, len(ms)): out.append((s3, False))
                else: out.append((s3, None))
    return out

def check_satisfies(ctx, ty, name, trait, neg=False):
    b = Base(ctx, ty)
    I_, a, outs = run(ctx, ty, name, ('account',), trait)
    n = 0
    for o in outs:
        for s, got in bool_cases(I_, o.st, o.val):
            for s2, want in describes(I_, s, b, a[0]):
                n += 1
                ctx.ob('filter', '%s::%s: %s' % (ty, name, 'accepts exactly what is not excluded' if neg else 'accepts exactly what the filters describe'), want is not None and got == (want != neg),
                       lambda: 'answer %s, described %s: %s' % (got, want, pathdesc(s2)))
        ctx.ob('filter', '%s::%s: changes nothing' % (ty, name), not changes(o), lambda: pathdesc(o.st))
    return n

def norm_ok(st, I_, x, f):
    """x means the same as the sub-filter f: f itself or its comparison bytes at the same offset"""
    if same(st, I_, x, f): return True
    if x.k == 'agg' and x.a[1] == 'Memcmp' and st.var.get(f) == 'Memcmp':
        m, m0 = aggf(x, '0'), T('vf', f, 'Memcmp', '0')
        if m.k != 'agg' or not same(st, I_, aggf(m, 'offset'), fld(m0, 'offset')): return False
        d = aggf(m, 'data')
        if same(st, I_, d, fld(m0, 'data')): return True
        return d.k == 'agg' and d.a[1] == 'Bytes' and decoded(I_, st, m0) not in ('?', None) and same(st, I_, aggf(d, '0'), decoded(I_, st, m0))
    return False
def norm_set(st, I_, c, F):
    """c is exactly the (normalised) list of sub-filters F; returns None when it is F itself"""
    if same(st, I_, c, F): return True
    if c.k != 'coll' or c.a[0] is not EMPTY: return False
    xs = [o[1] for o in c.a[1] if o[0] in ('add', 'push')]
    if len(xs) != len(c.a[1]): return False
    # members of F looked at are counted by position
    k = 0
    while '>' in st.rel(T('len', F), T('int', k)) and k < 8: k += 1
    if not complete(st, F, k): return False
    fs = [T('at', F, T('int', i)) for i in range(k)]
    return all(any(norm_ok(st, I_, x, f) for f in fs) for x in xs) and all(any(norm_ok(st, I_, x, f) for x in xs) for f in fs)

def subset_known(st, I_, S_, F):
    """the stored set S_ is known to be part of the sub-filters F of the query"""
    for t, v in st.bools.items():
        if t.k == 'subset' and v and t.a[0] is S_ and norm_set(st, I_, t.a[1], F): return True
    ms = members(st, S_)
    if not complete(st, S_, len(ms)): return False
    fs = [T('at', F, T('int', i)) for i in range(8)]
    def is_in(m):
        if any(norm_ok(st, I_, m, f) for f in fs): return True
        for t, v in st.bools.items():
            if t.k == 'has' and v and t.a[1] is m and norm_set(st, I_, t.a[0], F): return True
        return False
    return bool(ms or complete(st, S_, 0)) and all(is_in(m) for m in ms)

def covered(I_, st, b, q, ms_=None):
    """complete: (state, bool): every account the query names or can match is known to be accepted"""
    A = fld(q, 'accounts'); P, F = fld(q, 'program_id'), fld(q, 'filters')
    k = 0
    while '>' in st.rel(T('len', A), T('int', k)) and k < 8: k += 1
    okA = complete(st, A, k) and all(st.bools.get(T('has', b.ACC, T('at', A, T('int', i)))) or '<' in st.rel(T('len', A), T('int', i + 1)) and '>' not in st.rel(T('len', A), T('int', i)) for i in range(k))
    out = []
    for s, vn, p in opt_cases(I_, st, P):
        if vn == 'None': out.append((s, okA)); continue
        for s2, h in has_cases(I_, s, b.PROG, p):
            if not h: out.append((s2, False)); continue
            v = T('at', b.PROG, p)
            for s3, pv in I_.enum_cases(s2.fork(), v, b.enum):
                if pv == b.all: out.append((s3, okA)); continue
                L = I_.payload(s3, v, pv)
                for s4, fv, fp in opt_cases(I_, s3, F):
                    if fv == 'None':
                        out.append((s4, False)); continue
                    out.append((s4, okA and any(subset_known(s4, I_, m, fp) for m in members(s4, L))))
    return out

def check_covers(ctx, ty):
    b = Base(ctx, ty); n = 0
    I_, a, outs = run(ctx, ty, 'contains_filter', ('query',))
    for o in outs:
        for s, got in bool_cases(I_, o.st, o.val):
            if not got: continue
            for s2, want in covered(I_, s, b, a[0]):
                n += 1
                ctx.ob('query', '%s::contains_filter: a query is covered only when all it can match is accepted' % ty, want, lambda: pathdesc(s2))
        ctx.ob('query', '%s::contains_filter: changes nothing' % ty, not changes(o), lambda: pathdesc(o.st))
    return n

ROOT = T('obj', sym('self'))
def place(t):
    """(root, path) of a term made of fields of self"""
    p = []
    while t.k == 'fld': p.append(('f', t.a[1])); t = t.a[0]
    return tuple(reversed(p))

def check_add(ctx, ty):
    """what a filter store holds after a filter was added"""
    b = Base(ctx, ty); n = 0
    cs = ctx.p.find('add_account_filters', ty)
    if not cs: raise MissingAnchor(ty + '::add_account_filters')
    I_ = ctx.interp(bounded=True, loop_exact=1, summaries=[install], max_states=3000000, opaque_members=True)
    q = sym('filter')
    fl = T('coll', EMPTY, (('push', q),))
    st0 = State()
    for o in ctx.explore(I_, cs[0], [selfp(), I_.ref(st0, fl)], st0):
        if o.kind == 'cut': continue
        ctx.ob('filter', '%s::add_account_filters: no abnormal exit' % ty, o.kind == 'ret', lambda: '%s %s' % (o.why, pathdesc(o.st)))
        if o.kind != 'ret': continue
        st = o.st; n += 1
        d = lambda: pathdesc(st)
        muts = [e for e in events(o, 'mut') if e['place'].a[0] is ROOT]
        A = fld(q, 'accounts'); P, F = fld(q, 'program_id'), fld(q, 'filters')
        for e in muts:
            pl = e['place'].a[1]
            if pl == place(b.ACC):
                ok = e['op'][0] == 'add' and e['op'][1].k == 'at' and e['op'][1].a[0] is A
                ctx.ob('add', '%s: exactly the listed accounts are added' % ty, ok, lambda: show(e['op'][1]) if len(e['op']) > 1 else str(e['op']))
            elif pl[:len(place(b.PROG))] == place(b.PROG): pass
            else: ctx.ob('add', '%s: nothing else is changed' % ty, False, lambda: show(e['place']))
        k = 0
        while '>' in st.rel(T('len', A), T('int', k)) and k < 8: k += 1
        acc = I_.load(st, ROOT, place(b.ACC))
        for i in range(k):
            if '<' in st.rel(T('len', A), T('int', i + 1)) and '>' not in st.rel(T('len', A), T('int', i)): continue
            ctx.ob('add', '%s: every listed account is added' % ty, all(x for _, x in has_cases(I_, st, acc, T('at', A, T('int', i)))), d)
        ctx.ob('add', '%s: every listed account is looked at' % ty, complete(st, A, k), d)
        prog0 = b.PROG
        for s, vn, p in opt_cases(I_, st, P):
            pm = [e for e in muts if e['place'].a[1][:len(place(b.PROG))] == place(b.PROG)]
            if vn == 'None': ctx.ob('add', '%s: no program is added without a program' % ty, not pm and I_.load(s, ROOT, place(b.PROG)) is prog0, lambda: pathdesc(s)); continue
            for e in pm:
                pl = e['place'].a[1][len(place(b.PROG)):]
                key = pl[0][1] if pl else e['op'][1] if e['op'][0] in ('set', 'ins') else None
                ctx.ob('add', '%s: only the filters of the given program change' % ty, key is not None and same(s, I_, key, p), lambda: '%s %s' % (show(e['place']), e['op'][0]))
            now = I_.load(s, ROOT, place(b.PROG))
            ctx.ob('add', '%s: the program is known afterwards' % ty, all(x for _, x in has_cases(I_, s, now, p)), lambda: pathdesc(s))
            val = I_.load(s, ROOT, place(b.PROG) + (('at', p),))
            old = T('at', b.PROG, p)
            for s2, h in has_cases(I_, s, b.PROG, p):
                for s3, ov in (I_.enum_cases(s2.fork(), old, b.enum) if h else [(s2, None)]):
                    for s4, fv, fp in opt_cases(I_, s3, F):
                        nv = variant(I_, s4, val)
                        d4 = lambda: '%s -> %s: %s' % (ov, show(val)[:300], pathdesc(s4))
                        if fv == 'None' or ov == b.all:
                            ctx.ob('add', '%s: a program is fully accepted when a filter without sub-filters was added' % ty, nv == b.all, d4); continue
                        ctx.ob('add', '%s: a program with sub-filters is not fully accepted' % ty, nv == b.lst, d4)
                        if nv != b.lst: continue
                        L = I_.payload(s4, val, b.lst)
                        oldL = I_.payload(s4, old, b.lst) if h else EMPTY
                        if L is oldL: ops = []
                        elif L.k == 'coll' and (L.a[0] is oldL): ops = L.a[1]
                        else: ops = None
                        ctx.ob('add', '%s: the filters of the program are kept' % ty, ops is not None and all(x[0] in ('push', 'add') for x in ops), d4)
                        if ops is None: continue
                        ctx.ob('add', '%s: only the sub-filters of the added filter are added' % ty, all(norm_set(s4, I_, x[1], fp) for x in ops), d4)
                        known = bool(ops) or any(t.k in ('subset', 'has') and v and t.a[0] is oldL for t, v in s4.bools.items()) or any(subset_known(s4, I_, m, fp) for m in members(s4, oldL))
                        ctx.ob('add', '%s: the sub-filters of the added filter are added' % ty, known, d4)
    return n

def check_allows(ctx):
    """meaning of one sub-filter"""
    I_ = ctx.interp(bounded=True)
    b = ctx.p.one('allows', 'AccountFilterType'); n = 0
    st0 = State()
    me, data = sym('self'), sym('data')
    mem = T('vf', me, 'Memcmp', '0'); off = fld(mem, 'offset'); md = fld(mem, 'data')
    L = T('len', data); seen = set()
    for o in ctx.explore(I_, b, [selfp(), data], st0):
        if o.kind == 'cut': continue
        for e in events(o, 'slice'):
            lo, hi, st = e['lo'], e['hi'], o.st
            if e['base'] is not data: continue
            fits = hi is L or '>' not in st.rel(hi, L)
            if hi.k == 'op' and hi.a[0] == 'Add' and lo in hi.a[1:3]:
                start = True
            else: start = lo.k == 'int' and lo.a[0] == 0 or '>' not in st.rel(lo, hi)
            ctx.ob('sub-filter', 'allows: only bytes the data has are looked at', fits and start, lambda: '%s..%s: %s' % (show(lo), show(hi), pathdesc(st)))
        ctx.ob('sub-filter', 'allows: no abnormal exit', o.kind == 'ret', lambda: '%s %s' % (o.why, pathdesc(o.st)))
        if o.kind != 'ret': continue
        adt = next(k for k in ctx.p.adts if k.endswith('account_filter::AccountFilterType'))
        for s, got in bool_cases(I_, o.st, o.val):
            for s2, vn in I_.enum_cases(s.fork(), me, adt):
                n += 1
                d = lambda: 'answer %s: %s' % (got, pathdesc(s2))
                if vn == 'Datasize':
                    r = s2.rel(L, T('vf', me, 'Datasize', '0'))
                    ctx.ob('sub-filter', 'allows: a size filter accepts exactly data of that size', r == frozenset('=') if got else '=' not in r, d)
                    continue
                by = decoded(I_, s2, mem); ok = False
                seen.add((s2.var.get(md), got, by is None))
                if by is None: ok = not got
                elif by != '?':
                    n_ = T('len', by); end = I_.arith('Add', off, n_)
                    eq = s2.rel(T('slice', data, off, end), by)
                    ok = eq == frozenset('=') if got else '=' not in eq or s2.rel(off, L) == frozenset('>') or s2.rel(end, L) == frozenset('>')
                elif not got: ok = s2.rel(off, L) == frozenset('>')          # decided before decoding
                ctx.ob('sub-filter', 'allows: a comparison filter accepts exactly data with these bytes at the offset', ok, d)
    enc = {e for e, got, bad in seen if e is not None}
    ctx.ob('sub-filter', 'allows: every encoding can be decoded', enc == {'Bytes', 'Base58', 'Base64'} and all((e, True, False) in seen and (e, False, False) in seen for e in enc), str(seen))
    return n

def check_added_query(ctx, ty):
    """the query of an added filter is covered"""
    I_ = ctx.interp(bounded=True, loop_exact=1, summaries=[install], max_states=3000000, opaque_members=True)
    q = sym('filter'); st0 = State(); n = 0
    for o in ctx.explore(I_, ctx.p.find('add_account_filters', ty)[0], [selfp(), I_.ref(st0, T('coll', EMPTY, (('push', q),)))], st0):
        if o.kind != 'ret': continue
        for o2 in ctx.explore(I_, ctx.p.find('contains_filter', ty, TR)[0], [selfp(), q], o.st.fork()):
            if o2.kind != 'ret': continue
            for s, got in bool_cases(I_, o2.st, o2.val):
                # another member of the list may be looked at first: the added one decides when all were seen
                n += 1
                ctx.ob('query', '%s: the query of an added filter is covered' % ty, got, lambda: pathdesc(s))
    return n

def P18(ctx):
    n = 0
    for ty in ('SimpleFilterStore', 'MutableFilterStore'):
        n += check_satisfies(ctx, ty, 'satisfies', TR)
        n += check_covers(ctx, ty)
        n += check_add(ctx, ty)
        n += check_added_query(ctx, ty)
        b = Base(ctx, ty)
        I_, a, outs = run(ctx, ty, 'contains_account', ('pk',), None)
        for o in outs:
            for s, got in bool_cases(I_, o.st, o.val):
                for s2, h in has_cases(I_, s, b.ACC, a[0]):
                    n += 1
                    ctx.ob('query', '%s::contains_account: exactly the listed accounts are known' % ty, got == h, lambda: pathdesc(s2))
    n += check_allows(ctx)
    ctx.ob('coverage', 'cases examined', n >= 60, str(n))

def P19(ctx):
    ty = 'ExceptFilterStore'
    n = check_satisfies(ctx, ty, 'satisfies', TR, neg=True)
    b = Base(ctx, ty)
    n += check_add(ctx, ty)
    I_, a, outs = run(ctx, ty, 'contains_filter', ('query',))
    A, P = fld(a[0], 'accounts'), fld(a[0], 'program_id')
    for o in outs:
        for s, got in bool_cases(I_, o.st, o.val):
            k = 0
            while '>' in s.rel(T('len', A), T('int', k)) and k < 8: k += 1
            vals = [s.bools.get(T('has', b.ACC, T('at', A, T('int', i)))) for i in range(k)]
            for s2, vn, p in opt_cases(I_, s, P):
                for s3, h in (has_cases(I_, s2, b.PROG, p) if vn == 'Some' else [(s2, False)]):
                    n += 1
                    d = lambda: 'answer %s: %s' % (got, pathdesc(s3))
                    if got: ctx.ob('query', 'a query is covered only when nothing it names is excluded', not h and complete(s, A, k) and all(v is False for v in vals), d)
                    else: ctx.ob('query', 'a query that names nothing excluded is covered', h or any(v is True for v in vals), d)
        ctx.ob('query', 'contains_filter changes nothing', not changes(o), lambda: pathdesc(o.st))
    ctx.ob('coverage', 'cases examined', n >= 20, str(n))
