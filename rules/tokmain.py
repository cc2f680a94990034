"""Token program accounts storage: P26 finalized accounts are stored and indexed.
The storage of token accounts behind the trait is a map from keys to accounts with positions (P25)."""
from lib import *
from store import field_of, commit_full
S = 'TokenProgramAccountsStorage'; TR = 'AccountStorageInterface'; TS = 'TokenAccountStorageInterface'
ROOT = T('obj', sym('self')); HEAP = T('obj', sym('TS')); POS = T('obj', sym('POS'))
OWNERS = T('sym', 'keyof')

class Roles:
    def __init__(s, ctx):
        f = lambda rx, a=S: field_of(ctx, a, rx)
        s.mints = f(r'DashMap<u32, [^<>]*MintAccount')
        s.midx = f(r'DashMap<[^<>]*Pubkey, u32')
        s.msigs = f(r'DashMap<[^<>]*Pubkey, [^<>]*MultiSig')
        s.bymint = f(r'DashMap<u32, [^<>]*(?:VecDeque|Vec|HashSet|BTreeSet|IndexSet)<u32')
        s.byowner = f(r'DashMap<[^<>]*PartialPubkey<[^<>]*>, [^<>]*(?:VecDeque|Vec|HashSet|BTreeSet|IndexSet)<u32')
        s.storage = f(r'dyn .*' + TS)
        s.processed = f(r'ProcessedAccountStore$')
        s.counter = f(r'AtomicU32|Atomic<u32>')
        s.kind = next(k for k in ctx.p.adts if k.startswith('lite_') and k.endswith('::TokenProgramAccountType'))
    def path(s, name, *rest): return (('f', getattr(s, name)),) + rest
    def get(s, I_, st, name): return I_.load(st, ROOT, s.path(name))

def install_ts(I_):
    """the storage behind the trait: a map, every key with its position (P25)"""
    def cur(I2, st): return I2.lp(st, ptr(HEAP))
    def put(I2, st, op): I2.store(st, HEAP, (), T('coll', *((lambda v: (v.a[0], v.a[1] + (op,)) if v.k == 'coll' else (v, (op,)))(cur(I2, st)))))
    def at(I2, st, k): return I2.lp(st, ptr(HEAP, (('at', k),)))
    def pos(I2, st, k): return I2.lp(st, ptr(POS, (('at', k),)))
    def get(I2, st, f, args, t, depth):
        k = eta(st, I2, args[1])
        return [Outcome('ret', s, Some(at(I2, s, k)) if b else NONE) for s, b in I2.m.has(st, cur(I2, st), k)]
    def contains(I2, st, f, args, t, depth):
        k = eta(st, I2, args[1])
        return [Outcome('ret', s, Some(pos(I2, s, k)) if b else NONE) for s, b in I2.m.has(st, cur(I2, st), k)]
    def save(I2, st, f, args, t, depth):
        a = eta(st, I2, args[1]); k = eta(st, I2, I2.proj(st, a, ('f', 'pubkey'))); out = []
        for s, b in I2.m.has(st, cur(I2, st), k):
            if not b: I2.store(s, POS, (('at', k),), T('newpos', k, s.fresh()))
            p = pos(I2, s, k)
            s.event('ts', t.get('sp'), op='save', key=k, account=a, pos=p, added=not b)
            put(I2, s, ('set', k, a)); out.append(Outcome('ret', s, tup(p, B(not b))))
        return out
    def delete(I2, st, f, args, t, depth):
        k = eta(st, I2, args[1]); st.event('ts', t.get('sp'), op='delete', key=k)
        put(I2, st, ('rem', k)); return I2.m.R(st)
    def by_index(I2, st, f, args, t, depth):
        v = eta(st, I2, args[1]); v = I2.lp(st, v) if v.k == 'ptr' else v
        st.event('ts', t.get('sp'), op='read', which=v)
        out = []
        s = st.fork()
        out += I2.m.R(st, agg(RES, 'Ok', **{'0': T('stored', v)}))
        out += I2.m.R(s, agg(RES, 'Err', **{'0': T('sym', 'error')}))
        return out
    def snap(I2, st, f, args, t, depth):
        s = st.fork(); v = eta(st, I2, args[1])
        return I2.m.R(st, agg(RES, 'Ok', **{'0': T('encoded', v)})) + I2.m.R(s, agg(RES, 'Err', **{'0': T('sym', 'error')}))
    for n, h in (('get_by_pubkey', get), ('contains', contains), ('save_or_update', save), ('delete', delete), ('get_by_index', by_index), ('create_snapshot', snap)):
        I_.hooks[(TS, n)] = h
def install_part(I_):
    def h(I2, st, f, args, t, depth):
        ta = f.get('targs', [])
        dst = (ta[1] if len(ta) > 1 else '') if f['name'] == 'into' else f['self']['s']
        if not short(dst).startswith('PartialPubkey'): return None
        return I2.m.R(st, T('part', eta(st, I2, args[0])))
    I_.hooks[('Into', 'into')] = h; I_.hooks[('From', 'from')] = h

def install_conv(I_):
    """the account a stored one stands for (P22); found by what they take and give"""
    p = I_.p; n = set()
    ad = next(k for k in p.adts if k.endswith('::account_data::AccountData'))
    def reply(I2, st, kind, args, names):
        v = eta(st, I2, args[0]); d = {}
        for x, ty in zip(args[1:], names[1:]):
            if ty == 'u64': d['write_version' if 'updated_slot' in d else 'updated_slot'] = x
            elif short(ty) == 'Pubkey': d['pubkey'] = x
        d.setdefault('pubkey', I2.proj(st, v, ('f', 'pubkey')))
        def make(s, extra=()):
            return agg(ad, '', **dict(d, account=T('given', kind, v) if not extra else T('given', kind, v, *extra)))
        if kind != 'TokenAccount': return I2.m.R(st, make(st))
        out = []
        mints = next(x for x, ty in zip(args, names) if 'DashMap' in ty)
        for s, dele in I2.decide(st, I2.proj(st, v, ('f', 'is_deleted'))):
            if dele: out.append(Outcome('ret', s, NONE)); continue
            m = I2.proj(s, v, ('f', 'mint')); mv = eta(s, I2, mints)
            for s2, b in I2.m.has(s, mv, m):
                if not b: out.append(Outcome('ret', s2, NONE)); continue
                mp = I2.m.coll_at(s2, mv, m) if mv.k == 'coll' else T('at', mv, m)
                out.append(Outcome('ret', s2, Some(make(s2, (I2.proj(s2, mp, ('f', 'pubkey')),)))))
        return out
    for key, b in p.b.items():
        if not b['local'] or not key.startswith('lite_token') or b.get('self', {}).get('s') or b['argc'] < 3: continue
        names = [b['locals'][i + 1]['ty']['s'] for i in range(b['argc'])]
        kind = short(names[0].lstrip('&'))
        ret = b['locals'][0]['ty']['s']
        if kind in ('MintAccount', 'MultiSig', 'TokenAccount') and names[0].startswith('&') and re.fullmatch(r'(?:[\w:]*Option<)?[\w:]*AccountData>?', ret):
            if (kind == 'TokenAccount') != ('Option' in ret): continue
            n.add(kind)
            I_.hooks[key] = lambda I2, st, f, args, t, depth, kind=kind, names=names: reply(I2, st, kind, args, names)
    return n

def tok_interp(ctx, **kw):
    kw.setdefault('max_states', 3000000)
    I_ = ctx.interp(bounded=True, **kw); install_ts(I_); install_part(I_); install_conv(I_); return I_

def pushed(v, x):
    """x was appended to the collection value v"""
    return v.k == 'coll' and any(o[0] == 'push' and o[1] is x for o in v.a[1])

def kinds(r):
    """every kind of account with its key"""
    K = T('sym', 'key')
    tok = T('sym', 'token_account'); mint = T('sym', 'mint'); ms = T('sym', 'multisig')
    yield 'token account', fld(tok, 'pubkey'), agg(r.kind, 'TokenAccount', **{'0': tok}), tok
    yield 'mint', fld(mint, 'pubkey'), agg(r.kind, 'Mint', **{'0': mint}), mint
    yield 'multisig', K, agg(r.kind, 'MultiSig', **{'0': ms, '1': K}), ms
    yield 'deleted account', K, agg(r.kind, 'Deleted', **{'0': K}), None

def opt_same(I_, st, x, y):
    vx, vy = variant(I_, st, x), variant(I_, st, y)
    return vx is not None and vx == vy and (vx == 'None' or same(st, I_, I_.payload(st, x, 'Some'), I_.payload(st, y, 'Some')))

def P26(ctx):
    r = Roles(ctx); I_ = tok_interp(ctx, loop_exact=1)
    add = ctx.p.one('add_account_finalized', S); get = ctx.p.one('get_account_finalized', S)
    conv = ctx.p.find('token_program_account_to_solana_account')[0]
    def run(b, st, *args):
        for o in ctx.explore(I_, b, list(args), st.fork()):
            if o.kind == 'cut': continue
            ctx.ob('stored', '%s: no abnormal exit' % b['name'], o.kind == 'ret', lambda: '%s %s' % (o.why, pathdesc(o.st)))
            if o.kind == 'ret': yield o.st, o.val
    q = T('sym', 'other'); n = 0
    for kind, K, val, data in kinds(r):
        s0 = start(r, K, q)
        for s1, before in run(get, s0, selfp(), q):
          for s2, res in run(add, s1, selfp(), val):
            why = lambda s, *v: lambda: '%s when %s' % (' / '.join(show(x)[:300] for x in v), pathdesc(s))
            ctx.ob('stored', '%s: accepted' % kind, same(s2, I_, res, B(True)), why(s2, res))
            # --- the storage finds exactly this account under its key
            for s3, got in run(get, s2, selfp(), K):
                n += 1
                if kind == 'deleted account':
                    ctx.ob('stored', 'deleted account: is gone, whatever it was', variant(I_, s3, got) == 'None', why(s3, got)); continue
                slot = None
                if variant(I_, s3, got) == 'Some': slot = I_.proj(s3, I_.payload(s3, got, 'Some'), ('f', 'updated_slot'))
                for s4, want in run(conv, s3, I_.ref(s3, val), slot or sym('slot'), I(0), obj_field(I_, s3, r)):
                    ctx.ob('stored', '%s: is found under its key as it was given' % kind, opt_same(I_, s4, got, want), why(s4, got, want))
            # --- all the others are found as before
            for s3, after in run(get, s2, selfp(), q):
                if depends(I_, s3, r, K, q): continue
                n += 1
                ctx.ob('stored', '%s: other accounts are found as before' % kind, opt_same(I_, s3, before, after), why(s3, before, after))
            indexes(ctx, r, I_, s2, kind, K, q, data)
    ctx.ob('coverage', 'histories of an addition examined', n >= 40, str(n))
    given_out(ctx, r)

def given_out(ctx, r):
    """wherever an account is taken in, its mint gets the index it has, or one nobody else has"""
    n = 0
    for key, b in ctx.p.b.items():
        if not b['local'] or not key.startswith('lite_token') or '{closure' in key: continue
        tys = [b['locals'][i + 1]['ty']['s'] for i in range(b['argc'])]
        im = [i for i, t in enumerate(tys) if re.search(r'DashMap<[\w:]*Pubkey, u32', t)]; ic = [i for i, t in enumerate(tys) if 'Atomic' in t and ('U32' in t or 'u32' in t)]
        if len(im) != 1 or len(ic) != 1: continue
        I_ = tok_interp(ctx, loop_exact=1)
        args = [(obj if t.startswith('&') else sym)('arg%d' % i) for i, t in enumerate(tys)]; M, C = args[im[0]], args[ic[0]]
        st = State()
        for o in ctx.explore(I_, b, args, st):
            if o.kind == 'cut': continue
            s = o.st; why = lambda: '%s %s when %s' % (b['name'], show(o.val)[:200] if o.val is not None else o.why, pathdesc(s))
            c0 = I_.lp(State(), C); now = I_.lp(s, C)
            for e in s.events():
                if e['kind'] != 'mut' or e['place'].a[0] is not M.a[0]: continue
                n += 1; op = e['op']
                if not ctx.ob('given out', 'indexes of mints are only added', op[0] == 'set' and e.get('present') is False, lambda: '%s %s' % (op[0], why())): continue
                (x, i), (y, j) = offset(op[2]), offset(now)
                ctx.ob('given out', 'a new mint gets an index nobody else has', x is c0 and y is c0 and 0 <= i < j, lambda: '%s counter %s: %s' % (show(op[2]), show(now), why()))
            if b['locals'][0]['ty']['s'] == 'u32' and o.kind == 'ret':
                n += 1
                pk = [a for a, t in zip(args, tys) if re.fullmatch(r'&?[\w:]*Pubkey', t)]
                k = eta(s, I_, pk[0]) if pk else None
                mv = I_.lp(s, M)
                known = [bb for _, bb in I_.m.has(s.fork(), mv, k)] if k is not None else []
                ctx.ob('given out', 'the index of a mint is the one told', known == [True] and same(s, I_, I_.m.coll_at(s, mv, k) if mv.k == 'coll' else T('at', mv, k), o.val), why)
    ctx.ob('coverage', 'indexes given out', n >= 2, str(n))

def obj_field(I_, st, r): return ptr(ROOT, r.path('mints'))
def base(r, name): return fld(sym('self'), getattr(r, name))
def start(r, K, q):
    """what holds between the parts of the storage before: indexes of mints are given out by the counter, one for every mint"""
    st = State(); lt, ne = frozenset('<'), frozenset('<>')
    st.assume(K, q, ne)
    cnt = base(r, 'counter'); ts = T('sym', 'TS')
    for k in (K, q):
        st.assume(T('at', base(r, 'midx'), k), cnt, lt); st.assume(fld(T('at', ts, k), 'mint'), cnt, lt)
    st.assume(T('at', base(r, 'midx'), K), T('at', base(r, 'midx'), q), ne)
    return st
def offset(v):
    n = 0
    while v.k == 'op' and v.a[0] == 'Add':
        x, y = v.a[1:]
        if x.k == 'int': x, y = y, x
        if y.k != 'int': return None, 0
        n += y.a[0]; v = x
    return v, n
def fresh(st, r, v, now):
    """v is an index the counter gave out, and will not give out again"""
    (b, i), (b2, j) = offset(v), offset(now); c = base(r, 'counter')
    return b is c and b2 is c and 0 <= i < j
def depends(I_, st, r, K, q):
    """q is an account of the mint with key K"""
    return st.rel(fld(T('at', T('sym', 'TS'), q), 'mint'), T('at', base(r, 'midx'), K)) == frozenset('=')

def indexes(ctx, r, I_, st, kind, K, q, data):
    why = lambda s: lambda: pathdesc(s)
    evs = st.events()
    muts = [e for e in evs if e['kind'] == 'mut' and e['place'].a[0] is ROOT]
    inn = lambda e, name: e['place'].a[1][:1] == r.path(name)
    # positions of token accounts
    saves = [e for e in evs if e['kind'] == 'ts' and e['op'] == 'save']
    if kind == 'token account':
        if not ctx.ob('indexed', 'token account: is stored once', len(saves) == 1 and same(st, I_, saves[0]['account'], data), why(st)): return
        e = saves[0]; prev = T('at', T('sym', 'TS'), K)
        known = not e['added'] and all(same(st, I_, fld(prev, f), fld(data, f)) for f in ('owner', 'mint'))
        for name, key, of in (('bymint', fld(data, 'mint'), 'mint'), ('byowner', T('part', fld(data, 'owner')), 'owner')):
            v = I_.load(st, ROOT, r.path(name, ('at', key)))
            listed = pushed(v, e['pos'])
            ok = listed or not e['added'] and same(st, I_, fld(prev, of), fld(data, of))
            ctx.ob('indexed', 'token account: is listed under its %s' % of, ok, lambda: '%s %s' % (show(v)[:200], pathdesc(st)))
    else:
        ctx.ob('indexed', '%s: is not stored as a token account' % kind, not saves, why(st))
    # nothing is left of what the key was before
    for s1, b in I_.m.has(st.fork(), I_.lp(st, ptr(HEAP)), K):
        ctx.ob('indexed', '%s: %s' % (kind, 'is a token account' if kind == 'token account' else 'no token account is left under its key'), b == (kind == 'token account'), why(s1))
    for s1, b in I_.m.has(st.fork(), r.get(I_, st, 'msigs'), K):
        ctx.ob('indexed', '%s: %s' % (kind, 'is a multisig' if kind == 'multisig' else 'no multisig is left under its key'), b == (kind == 'multisig'), why(s1))
    if kind != 'mint':
        for s1, b0 in I_.m.has(st.fork(), base(r, 'midx'), K):
            if not b0: continue
            for s2, b in I_.m.has(s1, r.get(I_, s1, 'mints'), T('at', base(r, 'midx'), K)):
                ctx.ob('indexed', '%s: no mint is left under its key' % kind, not b, why(s2))
    # lists are only dropped with their mint, and never shortened
    for e in muts:
        if inn(e, 'byowner') or inn(e, 'bymint'):
            op = e['op'][0]
            key = next((x[1] for x in e['place'].a[1][1:] if x[0] == 'at'), e['op'][1] if len(e['op']) > 1 else None)
            mine = kind == 'token account' and key is not None and (key is fld(data, 'mint') or key is T('part', fld(data, 'owner')))
            if op == 'push': ok = mine
            elif op == 'set': ok = mine and e.get('present') is False
            elif op == 'rem': ok = kind != 'mint' and inn(e, 'bymint') and same(st, I_, key, T('at', base(r, 'midx'), K))
            else: ok = False
            ctx.ob('indexed', '%s: the lists of other owners and mints stay' % kind, ok, lambda: '%s at %s: %s' % (e['op'][:2], show(e['place']), pathdesc(st)))
    # indexes of mints
    M0 = base(r, 'midx'); M1 = r.get(I_, st, 'midx')
    for s1, b0 in I_.m.has(st.fork(), M0, q):
        for s2, b1 in I_.m.has(s1, M1, q):
            ctx.ob('indexed', '%s: other mints stay known' % kind, b0 == b1, why(s2))
            if b0 and b1:
                v = I_.load(s2, ROOT, r.path('midx', ('at', q)))
                ctx.ob('indexed', '%s: other mints keep their index' % kind, same(s2, I_, v, T('at', M0, q)), lambda: '%s %s' % (show(v), pathdesc(s2)))
    for s1, b0 in I_.m.has(st.fork(), M0, K):
        for s2, b1 in I_.m.has(s1, M1, K):
            ctx.ob('indexed', '%s: only a mint has an index' % kind, b1 == (kind == 'mint'), why(s2))
            if kind != 'mint' or not b1: continue
            v = I_.load(s2, ROOT, r.path('midx', ('at', K)))
            if b0: ctx.ob('indexed', 'mint: a known mint keeps its index', same(s2, I_, v, T('at', M0, K)), lambda: show(v))
            else:
                cnt = base(r, 'counter'); now = I_.load(s2, ROOT, r.path('counter'))
                ctx.ob('indexed', 'mint: a new mint gets an index nobody else has', fresh(s2, r, v, now), lambda: '%s counter %s' % (show(v), show(now)))
            d = I_.load(s2, ROOT, r.path('mints', ('at', v)))
            ctx.ob('indexed', 'mint: its data are stored under its index', same(s2, I_, d, data), lambda: show(d))

# ------------------------------------------------------------------ P27 snapshots
def install_bincode(I_):
    def ty(f):
        x = (f.get('targs') or [''])[0]
        return short(re.sub(r"^&(mut )?|'\w+ ", '', x))
    def ser(I2, st, f, args, t, depth): return I2.m.R(st, agg(RES, 'Ok', **{'0': T('serialized', ty(f), eta(st, I2, args[0]))}))
    def de(I2, st, f, args, t, depth):
        d = eta(st, I2, args[0])
        if d.k != 'serialized': return None
        tys = [short(re.sub(r"^&(mut )?|'\\w+ ", '', x)) for x in f.get('targs') or []]
        if d.a[0] in tys: return I2.m.R(st, agg(RES, 'Ok', **{'0': d.a[1]}))
        return I2.m.R(st, agg(RES, 'Err', **{'0': T('codec', 'type %s read as %s' % (d.a[0], tys))}))
    I_.hooks['bincode::serialize'] = ser; I_.hooks['bincode::deserialize'] = de

def P27(ctx):
    from codec import install_codecs
    from tokstore import install_enc
    r = Roles(ctx); I_ = tok_interp(ctx, loop_exact=4)
    install_codecs(I_, ctx); install_bincode(I_); install_enc(I_)
    alltoks = [sym('token1'), sym('token2')]; toks = []
    def snap(I2, st, f, args, t, depth):
        st.event('asked', t.get('sp'), program=eta(st, I2, args[1]))
        return I2.m.R(st, agg(RES, 'Ok', **{'0': T('coll', EMPTY, tuple(('push', T('enc', x)) for x in toks))}))
    I_.hooks[(TS, 'create_snapshot')] = snap
    create = ctx.p.one('create_snapshot', S, TR); load = ctx.p.one('load_from_snapshot', S, TR)
    SRC = T('obj', sym('source'))
    i1, i2 = sym('index1'), sym('index2'); m1, m2 = sym('mint1'), sym('mint2'); ms, mk = sym('multisig'), sym('multisig_key')
    q = sym('other'); ne, lt = frozenset('<>'), frozenset('<')
    ids = {'TokenProgram': T('const', 'spl_token::ID'), 'Token2022Program': T('const', 'spl_token_2022::ID')}
    n = 0
    st = State()
    for x, y in ((i1, i2), (fld(m1, 'pubkey'), fld(m2, 'pubkey')), (fld(alltoks[0], 'pubkey'), fld(alltoks[1], 'pubkey'))): st.assume(x, y, ne)
    keys = [fld(m1, 'pubkey'), fld(m2, 'pubkey'), fld(alltoks[0], 'pubkey'), fld(alltoks[1], 'pubkey')]
    for k in keys: st.assume(k, q, ne)
    for k in keys[2:]: st.assume(k, keys[0], ne); st.assume(k, keys[1], ne); st.assume(k, fld(ms, 'pubkey'), ne)
    for k in keys + [q]: st.assume(T('at', base(r, 'midx'), k), base(r, 'counter'), lt)
    for k in (keys[0], keys[1], q):
        for k2 in (keys[0], keys[1], q):
            if k is not k2: st.assume(T('at', base(r, 'midx'), k), T('at', base(r, 'midx'), k2), ne)
    I_.store(st, SRC, r.path('msigs'), T('coll', EMPTY, (('set', fld(ms, 'pubkey'), ms),)))
    for mints, ts in ((((i1, m1), (i2, m2)), alltoks[:1]), (((i1, m1),), alltoks)):
        toks[:] = ts
        for pname, pid in list(ids.items()) + [(None, sym('program'))]:
            s0 = st.fork(); I_.store(s0, SRC, r.path('mints'), T('coll', EMPTY, tuple(('set',) + x for x in mints)))
            if pname is None:
                for x in ids.values(): s0.assume(pid, x, ne)
            for o in ctx.explore(I_, create, [ptr(SRC), pid], s0):
                why0 = lambda: '%s %s %s when %s' % (o.kind, o.why or '', show(o.val)[:300] if o.val is not None else '', pathdesc(o.st))
                if not ctx.ob('snapshot', 'create: comes to an end', o.kind == 'ret', why0): continue
                if pname is None:
                    ctx.ob('snapshot', 'create: an error for a program that is not covered', variant(I_, o.st, o.val) == 'Err', why0); continue
                if not ctx.ob('snapshot', 'create: gives a snapshot', variant(I_, o.st, o.val) == 'Ok', why0): continue
                asked = [e['program'] for e in o.st.events() if e['kind'] == 'asked']
                ctx.ob('snapshot', 'create: the token accounts of the program are asked for', len(asked) == 1 and variant(I_, o.st, asked[0]) == pname, why0)
                bytes_ = I_.payload(o.st, o.val, 'Ok')
                for o2 in ctx.explore(I_, load, [selfp(), pid, bytes_], o.st.fork()):
                    s = o2.st
                    if o2.kind == 'cut': continue
                    why = lambda: '%s %s %s when %s' % (o2.kind, o2.why or '', show(o2.val)[:300] if o2.val is not None else '', pathdesc(s))
                    if not ctx.ob('snapshot', 'load: what was created is accepted', o2.kind == 'ret' and variant(I_, s, o2.val) == 'Ok', why): continue
                    n += 1
                    restored(ctx, r, I_, s, pname, mints, ms, toks, q, why)
    ctx.ob('coverage', 'snapshots restored', n >= 60, str(n))
    # anything else
    x = sym('bytes'); m = 0; I_ = tok_interp(ctx, loop_exact=0); install_enc(I_)
    for o in ctx.explore(I_, load, [selfp(), sym('program'), x], State()):
        if o.kind == 'cut': continue
        why = lambda: '%s %s when %s' % (o.kind, o.why or '', pathdesc(o.st))
        evs = o.st.events()
        failed = any(v == 'Err' for t, v in o.st.var.items() if t.k in ('ret', 'call') and any(z in t.a[0] for z in ('decompress', 'deserialize', 'decode')))
        if failed:
            m += 1
            ctx.ob('snapshot', 'load: undecodable bytes are an error', o.kind == 'ret' and variant(I_, o.st, o.val) == 'Err', why)
            ctx.ob('snapshot', 'load: undecodable bytes change nothing', not any(e['kind'] in ('mut', 'ts', 'atomic') for e in evs if e['kind'] != 'mut' or e['place'].a[0] is ROOT), why)
    ctx.ob('coverage', 'undecodable snapshots examined', m >= 2, str(m))

def restored(ctx, r, I_, s, pname, mints, ms, toks, q, why):
    M0 = base(r, 'midx')
    work = [(s, ())]
    for _, m in mints: work = [(s2, ps + (p,)) for s1, ps in work for s2, p in opt_variants(I_, s1, fld(m, 'program'))]
    for s1, progs in work:
        new = {}
        for (i, m), pr in zip(mints, progs):
            k = fld(m, 'pubkey')
            for s2, b0 in I_.m.has(s1.fork(), M0, k):
                for s3, b1 in I_.m.has(s2, r.get(I_, s2, 'midx'), k):
                    if pr != pname:
                        ctx.ob('restored', 'a mint of another program stays out', b0 == b1, why); continue
                    if not ctx.ob('restored', 'every mint of the program is known', b1, why): continue
                    v = I_.load(s3, ROOT, r.path('midx', ('at', k)))
                    if b0: ctx.ob('restored', 'a known mint keeps its index', same(s3, I_, v, T('at', M0, k)), lambda: '%s %s' % (show(v), why()))
                    else:
                        now = I_.load(s3, ROOT, r.path('counter'))
                        ctx.ob('restored', 'a new mint gets an index nobody else has', fresh(s3, r, v, now) and all('=' not in s3.rel(v, x) and v is not x for x in new.values()), lambda: '%s %s' % (show(v), why()))
                    d = I_.load(s3, ROOT, r.path('mints', ('at', v)))
                    ctx.ob('restored', 'the data of a mint are those of the snapshot', same(s3, I_, d, m), lambda: '%s %s' % (show(d), why()))
                    new[i] = v
        saves = [e for e in s1.events() if e['kind'] == 'ts' and e['op'] == 'save']
        for t in toks:
            mine = [e for e in saves if same(s1, I_, e['key'], fld(t, 'pubkey'))]
            mint = fld(t, 'mint')
            hit = next(((i, pr) for (i, m), pr in zip(mints, progs) if s1.rel(mint, i) == frozenset('=')), None)
            known = hit is not None and hit[1] == pname
            maybe = hit is None and any('=' in s1.rel(mint, i) for (i, m), pr in zip(mints, progs) if pr == pname)
            if not ctx.ob('restored', 'the mint of a token account is looked up', not maybe, why): continue
            if not known:
                ctx.ob('restored', 'a token account without its mint stays out', not mine, why); continue
            if not ctx.ob('restored', 'every token account is stored once', len(mine) == 1, why): continue
            e = mine[0]; a = e['account']; ix = new.get(hit[0])
            info = ctx.p.adts[next(k for k in ctx.p.adts if k.startswith('lite_') and k.endswith('::TokenAccount'))]
            for f, _ in info['variants'][0]['fields']:
                x = I_.proj(s1, a, ('f', f))
                ctx.ob('restored', 'token account: %s' % ('its mint has the new index' if f == 'mint' else '%s is the one of the snapshot' % f), same(s1, I_, x, ix if f == 'mint' else fld(t, f)) if x is not None and (ix is not None or f != 'mint') else False, lambda: '%s %s' % (show(x), why()))
            prev = T('at', T('sym', 'TS'), fld(t, 'pubkey'))
            for name, key, of, now in (('bymint', ix, 'mint', ix), ('byowner', T('part', fld(t, 'owner')), 'owner', fld(t, 'owner'))):
                if key is None: continue
                v = I_.load(s1, ROOT, r.path(name, ('at', key)))
                ok = pushed(v, e['pos']) or not e['added'] and same(s1, I_, fld(prev, of), now)
                ctx.ob('restored', 'token account: is listed under its %s' % of, ok, lambda: '%s: %s %s' % (show(e['pos']), show(v)[:200], why()))
        ctx.ob('restored', 'nothing else is stored', all(any(same(s1, I_, e['key'], fld(t, 'pubkey')) for t in toks) for e in saves) and not any(e['kind'] == 'ts' and e['op'] == 'delete' for e in s1.events()), why)
        for s2, b in I_.m.has(s1.fork(), r.get(I_, s1, 'msigs'), fld(ms, 'pubkey')):
            for s3, pv in opt_variants(I_, s2, fld(ms, 'program')):
                if pv != pname: continue
                d = I_.load(s3, ROOT, r.path('msigs', ('at', fld(ms, 'pubkey'))))
                ctx.ob('restored', 'every multisig of the program is stored', b and same(s3, I_, d, ms), why)
        for s2, b0 in I_.m.has(s1.fork(), M0, q):
            for s3, b1 in I_.m.has(s2, r.get(I_, s2, 'midx'), q):
                ctx.ob('restored', 'other mints stay as they are', b0 == b1 and (not b0 or same(s3, I_, I_.load(s3, ROOT, r.path('midx', ('at', q))), T('at', M0, q))), why)
    n = [e for e in s.events() if e['kind'] == 'mut' and e['place'].a[0] is ROOT and e['place'].a[1][:1] in (r.path('bymint'), r.path('byowner'))]
    ctx.ob('restored', 'lists are only added to', all(e['op'][0] == 'push' or e['op'][0] == 'set' and e.get('present') is False for e in n), lambda: '%s %s' % ([e['op'][0] for e in n], why()))

def opt_variants(I_, st, v):
    adt = next(k for k in I_.p.adts if k.endswith('::account_types::Program'))
    return I_.enum_cases(st.fork(), v, adt)
