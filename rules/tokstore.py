"""Token account storage in memory: P25 it is a map from keys to accounts, in spite of partial keys and shared buckets."""
from lib import *
from tokens import encoded, TA
S = 'InmemoryTokenAccountStorage'; TR = 'TokenAccountStorageInterface'

def install_enc(I_):
    """encoding and decoding are inverse (P20)"""
    def acc(st, I2, v):
        v = eta(st, I2, v); return v.a[0] if v.k == 'enc' else T('dec', v)
    summary(TA, 'to_bytes', lambda I2, st, args, t, depth, f: I2.m.R(st, T('enc', eta(st, I2, args[0]))))(I_)
    summary(TA, 'from_bytes', lambda I2, st, args, t, depth, f: I2.m.R(st, acc(st, I2, args[0])))(I_)
    for nm, field in (('get_pubkey_from_binary', 'pubkey'),):
        summary(TA, nm, lambda I2, st, args, t, depth, f, field=field: I2.m.R(st, I2.proj(st, acc(st, I2, args[0]), ('f', field))))(I_)

def install_partial(I_, part):
    def h(I2, st, f, args, t, depth):
        ta = f.get('targs', [])
        dst = (ta[1] if len(ta) > 1 else '') if f['name'] == 'into' else f['self']['s']
        if not short(dst).startswith('PartialPubkey'): return None
        v = eta(st, I2, args[0])
        for k, p in part.items():
            if same(st, I2, k, v): return I2.m.R(st, p)
        return None
    I_.hooks[('Into', 'into')] = h; I_.hooks[('From', 'from')] = h

def vec(*xs): return T('coll', EMPTY, tuple(('push', x) for x in xs))
def so(): return T('obj', T('sym', 'self'))

def P25(ctx):
    I_ = ctx.interp(bounded=True, loop_exact=4)
    install_enc(I_)
    fn = {n: ctx.p.one(n, S, TR) for n in ('contains', 'get_by_pubkey', 'save_or_update', 'delete', 'get_by_index')}
    adt = ctx.p.adts[next(k for k in ctx.p.adts if k.endswith('::' + S))]
    names = {('index' if 'DashMap' in t else 'accounts'): n for n, t in adt['variants'][0]['fields']}
    if len(names) != 2: raise MissingAnchor('fields of ' + S)
    IX, AC = names['index'], names['accounts']
    a = sym('account'); K = fld(a, 'pubkey'); q = sym('other'); p, p2 = sym('part'), sym('part2')
    T0, P0 = T('sym', 'accounts'), T('sym', 'index'); n0 = T('len', T0)
    i0, i1, j0 = sym('i0'), sym('i1'), sym('j0')
    keyof = lambda i: fld(T('dec', T('at', T0, i)), 'pubkey')
    def grown(I2, st, old, hv):
        # while the accounts are not locked, other threads may add theirs
        if old is not T0 and not (old.k == 'coll' and old.a[0] is T0): return old
        return T('coll', T0, (old.a[1] if old.k == 'coll' else ()) + (('push', T('enc', T('sym', 'added by another thread'))),))
    def run(name, st, *args):
        I_.opt['relock'] = grown if name in ('save_or_update', 'delete') else None
        for o in ctx.explore(I_, fn[name], [selfp()] + [x for x in args], st.fork()):
            if o.kind == 'cut': continue
            ctx.ob('map', '%s: no abnormal exit' % name, o.kind == 'ret', lambda: '%s %s' % (o.why, pathdesc(o.st)))
            if o.kind == 'ret': yield o.st, o.val
    def get(st, k): yield from run('get_by_pubkey', st, I_.ref(st, k))
    def contains(st, k): yield from run('contains', st, I_.ref(st, k))
    def accounts(st): return I_.lp(st, ptr(so(), (('f', AC),)))
    def bucket(st, part): return I_.lp(st, ptr(so(), (('f', IX), ('at', part))))
    cases = 0
    for sharing in (True, False):
        install_partial(I_, {K: p, q: p if sharing else p2})
        for own in (None, (), (i0,), (i0, i1)):
            for oth in ((None,) if sharing else (None, (j0,))):
                st = State()
                st.assume(K, q, frozenset('<>')); st.assume(p, p2, frozenset('<>'))
                ops = []
                for part, lst in ((p, own), (p2, oth)):
                    if lst is not None: ops.append(('set', part, vec(*lst)))
                    for x in lst or (): st.assume(x, n0, frozenset('<'))
                used = list(own or ()) + list(oth or ())
                for x in used:
                    for y in used:
                        if x is not y and x.id < y.id:
                            st.assume(x, y, frozenset('<>')); st.assume(keyof(x), keyof(y), frozenset('<>'))
                if not sharing:
                    for x in own or (): st.assume(keyof(x), q, frozenset('<>'))         # other partial key
                    for x in oth or (): st.assume(keyof(x), K, frozenset('<>'))
                I_.store(st, so(), (('f', IX),), T('coll', EMPTY, tuple(ops)))
                I_.store(st, so(), (('f', AC),), T0)
                for s1, g1 in get(st, q):
                  for s2, c1 in contains(s1, q):
                    why = lambda s, *v: lambda: '%s when %s, bucket of %s' % (' / '.join(show(x)[:160] for x in v), pathdesc(s), [show(x) for x in own or ()])
                    found = [x for x in (own if sharing else oth) or () if same(s2, I_, keyof(x), q)]
                    cases += 1
                    if found:
                        ctx.ob('map', 'contains: the position of the account with the key', variant(I_, s2, c1) == 'Some' and same(s2, I_, I_.payload(s2, c1, 'Some'), found[0]), why(s2, c1))
                        ctx.ob('map', 'get_by_pubkey: the account with the key', variant(I_, s2, g1) == 'Some' and same(s2, I_, I_.payload(s2, g1, 'Some'), T('dec', T('at', T0, found[0]))), why(s2, g1))
                    else:
                        ctx.ob('map', 'contains: nothing for an unknown key', variant(I_, s2, c1) == 'None', why(s2, c1))
                        ctx.ob('map', 'get_by_pubkey: nothing for an unknown key', variant(I_, s2, g1) == 'None', why(s2, g1))
                    for s3, k1 in contains(s2, K):
                      had = variant(I_, s3, k1) == 'Some'
                      for op in ('save_or_update', 'delete'):
                        for s4, res in run(op, s3, a if op == 'save_or_update' else I_.ref(s3, K)):
                          for s5, g2 in get(s4, q):
                            ctx.ob('map', '%s: other accounts stay as they are' % op, opt_same(I_, s5, g1, g2), why(s5, g1, g2))
                            for s6, c2 in contains(s5, q):
                              ctx.ob('map', '%s: other accounts keep their position' % op, opt_same(I_, s6, c1, c2), why(s6, c1, c2))
                              for s7, g3 in get(s6, K):
                                for s8, c3 in contains(s7, K):
                                  x = accounts(s8)
                                  if op == 'delete':
                                    ctx.ob('map', 'delete: the account is gone', variant(I_, s8, g3) == 'None' and variant(I_, s8, c3) == 'None', why(s8, g3, c3))
                                    if had:
                                      e = at(I_, s8, I_.payload(s8, k1, 'Some'))
                                      ctx.ob('map', 'delete: its position holds a deleted account', e.k == 'enc' and same(s8, I_, I_.proj(s8, e.a[0], ('f', 'is_deleted')), B(True)), why(s8, e))
                                    else: ctx.ob('map', 'delete: nothing changes for an unknown key', same(s8, I_, x, T0) or x.k == 'coll' and x.a[0] is T0 and all(y[0] == 'push' and 'another thread' in show(y[1]) for y in x.a[1]), why(s8, x))
                                    continue
                                  idx, added = I_.proj(s8, res, ('f', '0')), I_.proj(s8, res, ('f', '1'))
                                  ctx.ob('map', 'save_or_update: the account is stored as given', variant(I_, s8, g3) == 'Some' and same(s8, I_, I_.payload(s8, g3, 'Some'), a), why(s8, g3))
                                  ctx.ob('map', 'save_or_update: tells the position of the account', variant(I_, s8, c3) == 'Some' and same(s8, I_, I_.payload(s8, c3, 'Some'), idx), why(s8, c3, idx))
                                  ctx.ob('map', 'save_or_update: tells whether the account is new', same(s8, I_, added, B(not had)), why(s8, added))
                                  if had: ctx.ob('map', 'save_or_update: an account keeps its position', same(s8, I_, I_.payload(s8, k1, 'Some'), idx), why(s8, k1, idx))
                                  else: ctx.ob('map', 'save_or_update: a new account gets a new position', all(r == '>' or r == '=' for _, r in rels(s8, idx, n0)), why(s8, idx))
                                  ln = I_.m.length(s8, x)
                                  ctx.ob('map', 'save_or_update: the position exists', s8.rel(idx, ln) == frozenset('<'), why(s8, idx, ln))
    ctx.ob('coverage', 'contents of the storage examined', cases >= 8, str(cases))
    # reading by position
    I_ = ctx.interp(bounded=True, loop_exact=2); install_enc(I_)
    pos = sym('positions'); n = 0
    st = State(); I_.store(st, so(), (('f', AC),), T0)
    for o in ctx.explore(I_, fn['get_by_index'], [selfp(), pos], st):
        if o.kind == 'cut': continue
        s = o.st; why = lambda: '%s %s when %s' % (o.why, show(o.val)[:300] if o.val is not None else '', pathdesc(s))
        ctx.ob('map', 'get_by_index: no abnormal exit', o.kind == 'ret', why)
        if o.kind != 'ret': continue
        k = next((j for j in range(3) if s.rel(T('len', pos), I(j)) == frozenset('=')), None)
        got = I_.payload(s, o.val, 'Ok') if variant(I_, s, o.val) == 'Ok' else None
        if not ctx.ob('map', 'get_by_index: every position is read', k is not None and got is not None and got.k == 'coll' and got.a[0] is EMPTY and all(x[0] == 'push' for x in got.a[1]), why): continue
        want = []
        for j in range(k):
            e = next((x['key'] for x in events(o, 'elem') if x['src'] is pos and x['idx'] == j), T('elem', pos, j)); inside = s.rel(e, n0)
            if inside == frozenset('<'): want.append(T('dec', T('at', T0, e)))
            elif '<' in inside: want = None; break
        n += 1
        ok = want is not None and len(got.a[1]) <= len(want) and all(any(same(s, I_, x[1], w) for w in want) for x in got.a[1])
        ok = ok and all(any(same(s, I_, x[1], w) for x in got.a[1]) or all(b for _, b in bool_cases(I_, s, fld(w, 'is_deleted'))) for w in want)
        ctx.ob('map', 'get_by_index: exactly the accounts at the positions', ok, why)
    ctx.ob('coverage', 'sets of positions examined', n >= 5, str(n))
    # both ways to make a partial key agree
    I_ = ctx.interp(bounded=True, loop_exact=1)
    conv = [b for b in ctx.p.find('from', None, 'From') if short(b['self']['s']).startswith('PartialPubkey')]
    ks = []
    for b in conv:
        for o in ctx.explore(I_, b, [K], State()):
            if o.kind == 'ret': ks.append((o.st, o.val))
    ctx.ob('map', 'the partial key is a function of the key', len(ks) >= 2 and all(same(ks[0][0], I_, ks[0][1], v) for _, v in ks[1:]), lambda: ' / '.join(show(v)[:200] for _, v in ks))
    snapshot(ctx, AC)

def opt_same(I_, st, x, y):
    vx, vy = variant(I_, st, x), variant(I_, st, y)
    return vx is not None and vx == vy and (vx == 'None' or same(st, I_, I_.payload(st, x, 'Some'), I_.payload(st, y, 'Some')))
def at(I_, st, i):
    ad = next(k for k in I_.p.adts if k.endswith('::' + S))
    f = next(n for n, t in I_.p.adts[ad]['variants'][0]['fields'] if 'DashMap' not in t)
    return I_.lp(st, ptr(so(), (('f', f), ('at', i))))

def snapshot(ctx, AC):
    """create_snapshot on a storage holding encoded accounts: exactly the live ones of the program"""
    I_ = ctx.interp(bounded=True, loop_exact=2); n = 0
    b = ctx.p.one('create_snapshot', S, TR); me = sym('self'); prog = sym('program')
    acc = sym('account')
    for st, val in encoded(ctx, I_, ptr(T('obj', T('sym', 'account')))):
        for content in ((val,),):
            s0 = st.fork()
            I_.store(s0, so(), (('f', AC),), vec(*content))
            for o in ctx.explore(I_, b, [selfp(), prog], s0):
                if o.kind == 'cut': continue
                s = o.st; why = lambda: '%s %s when %s' % (o.why, show(o.val)[:200] if o.val is not None else '', pathdesc(s))
                ctx.ob('snapshot', 'no abnormal exit', o.kind == 'ret', why)
                if o.kind != 'ret': continue
                got = I_.payload(s, o.val, 'Ok') if variant(I_, s, o.val) == 'Ok' else None
                if not ctx.ob('snapshot', 'accounts are returned', got is not None and got.k == 'coll' and got.a[0] is EMPTY and all(x[0] == 'push' for x in got.a[1]), why): continue
                for s1, dele in bool_cases(I_, s, fld(acc, 'is_deleted')):
                    va = variant(I_, s1, fld(acc, 'program')); vp = variant(I_, s1, prog)
                    n += 1
                    live = not dele and va == vp
                    ctx.ob('snapshot', 'exactly the live accounts of the program', va is not None and vp is not None and len(got.a[1]) == int(live) and all(x[1] is val for x in got.a[1]), why)
    ctx.ob('coverage', 'encoded accounts examined', n >= 64, str(n))
