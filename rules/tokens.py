"""Token accounts: P20 encoding."""
from lib import *
TA = 'TokenAccount'

def encoded(ctx, I_, me):
    """every way a token account is written: (state, bytes)"""
    out = []
    for o in ctx.explore(I_, ctx.p.one('to_bytes', TA), [me], State()):
        if o.kind == 'cut': continue
        ctx.ob('encoding', 'to_bytes: no abnormal exit', o.kind == 'ret', lambda: '%s %s' % (o.why, pathdesc(o.st)))
        if o.kind == 'ret': out.append((o.st, o.val))
    return out

def P20(ctx):
    I_ = ctx.interp(bounded=True, loop_exact=2)
    me = sym('self'); n = 0
    info = ctx.p.adts[next(k for k in ctx.p.adts if k.startswith('lite_') and k.endswith('::' + TA))]
    fields = [f[0] for f in info['variants'][0]['fields']]
    readers = [b for k, b in sorted(ctx.p.b.items()) if b['local'] and short(b.get('self', {}).get('s', '')) == TA and not b.get('trait') and b['argc'] == 1
               and b['name'] != 'from_bytes' and b['locals'][1]['ty']['s'] == '&[u8]']
    if len(readers) < 1: raise MissingAnchor('functions reading parts of an encoded token account')
    for st, val in encoded(ctx, I_, selfp()):
        v = I_.ref(st, val)
        for o in ctx.explore(I_, ctx.p.one('from_bytes', TA), [v], st.fork()):
            if o.kind == 'cut': continue
            n += 1
            ctx.ob('round trip', 'from_bytes: what was written can be read', o.kind == 'ret', lambda: '%s %s' % (o.why, pathdesc(o.st)))
            if o.kind != 'ret': continue
            for f in fields:
                x, y = I_.proj(o.st, o.val, ('f', f)), fld(me, f)
                ctx.ob('round trip', 'from_bytes: %s is read back' % f, same(o.st, I_, x, y), lambda: '%s for %s: %s' % (show(x)[:300], show(y), pathdesc(o.st)))
            ctx.ob('round trip', 'from_bytes: the whole account is read back', same(o.st, I_, o.val, me), lambda: show(o.val)[:600])
        for b in readers:
            for o in ctx.explore(I_, b, [v], st.fork()):
                n += 1
                nm = b['name']
                want = [f for f in fields if f in nm.replace('mint_index', 'mint').split('_')] or fields
                ctx.ob('round trip', '%s: reads its field' % nm, o.kind == 'ret' and any(same(o.st, I_, o.val, fld(me, f)) for f in want), lambda: '%s %s: %s' % (o.why, show(o.val)[:200] if o.val is not None else '', pathdesc(o.st)))
    ctx.ob('coverage', 'combinations of optional parts examined', n >= 64, str(n))

# ------------------------------------------------------------------ P22 accounts are reproduced as given
LEN = {'Account': 165, 'Mint': 82, 'Multisig': 355}
PROG = {'spl_token': ('TokenProgram', 'spl_token::ID'), 'spl_token_2022': ('Token2022Program', 'spl_token_2022::ID')}
def plain(acc): return T('plain', acc)

def install_pack(I_):
    """what the token programs' own crates do: unpack splits base state bytes into fields, pack writes them back"""
    def ty_of(f):
        m = re.match(r'(?:&mut |&)?(spl_token(?:_2022)?)::state::(\w+)$', (f.get('targs') or [''])[0])
        return (m.group(1), m.group(2)) if m else None
    def unpack(checked):
        def h(I2, st, f, args, t, depth):
            ty = ty_of(f)
            if not ty or ty[1] not in LEN: return None
            d = eta(st, I2, args[0]); out = []
            for s, r in rels(st, I2.m.length(st, d), I(LEN[ty[1]])):
                if r == '=':
                    s2 = s.fork(); u = T('unpacked', ty, d)
                    s.event('unpack', None, ty=ty, u=u)
                    out += I2.m.R(s, agg(RES, 'Ok', **{'0': u}))
                    s2.event('malformed', None, ty=ty)
                    out += I2.m.R(s2, agg(RES, 'Err', **{'0': T('perr', 'malformed')}))
                    if checked: out += I2.m.R(s.fork(), agg(RES, 'Err', **{'0': T('perr', 'uninitialized')}))
                else: out += I2.m.R(s, agg(RES, 'Err', **{'0': T('perr', 'length')}))
            return out
        return h
    def pack(I2, st, f, args, t, depth):
        ty = ty_of(f)
        if not ty or ty[1] not in LEN: return None
        v = eta(st, I2, args[0]); p = I2.m.pp(st, args[1]); old = I2.lp(st, p)
        n = I2.m.length(st, old)
        if n.k != 'int' or n.a[0] < LEN[ty[1]]:
            st.event('panic', t.get('sp'), fn='pack_into_slice'); return [Outcome('panic', st, None, 'pack_into_slice: %s bytes' % show(n))]
        I2.store(st, p.a[0], p.a[1], T('packinto', ty, v, n.a[0], old))
        return I2.m.R(st)
    P = 'solana_sdk::program_pack::Pack::'
    I_.hooks[('Pack', 'unpack_unchecked')] = unpack(False)
    I_.hooks[('Pack', 'unpack')] = unpack(True)
    I_.hooks[('Pack', 'pack_into_slice')] = pack

def parts(I_, st, v):
    """[(length or None, part)] of the bytes written"""
    if v.k == 'coll' and all(o[0] in ('ext', 'push') for o in v.a[1]):
        out = [] if v.a[0] is EMPTY else parts(I_, st, v.a[0])
        for o in v.a[1]:
            if o[0] == 'ext': out = out + parts(I_, st, o[1])
            elif out and out[-1][1].k == 'bytelist': out = out[:-1] + [(None, T('bytelist', *out[-1][1].a, o[1]))]
            else: out = out + [(None, T('bytelist', o[1]))]
        return out
    if v.k == 'packinto':
        ty, x, n, old = v.a
        rest = [(n - LEN[ty[1]], T('zeros'))] if n > LEN[ty[1]] else []
        # the bytes of absent optional parts are left as they were
        if not all(x.k == 'zeros' for _, x in parts(I_, st, old)): return [(None, v)]
        return [(LEN[ty[1]], T('packed', ty, x))] + rest
    if v.k == 'repeat' and v.a[0].k == 'int' and v.a[0].a[0] == 0 and v.a[1].k == 'int': return [(v.a[1].a[0], T('zeros'))]
    return [(None, v)]

def elem(I_, st, arr, j):
    """element j of an array written in parts"""
    if arr.k == 'upd':
        for (key, val) in reversed(arr.a[1]):
            k = key[0] if isinstance(key, tuple) and len(key) == 1 else key
            m = re.match(r'range:(\d+):(\w.*)$', k[1]) if k[0] == 'f' else None
            if m:
                lo = int(m.group(1)); n = I_.m.length(st, val)
                if n.k == 'int' and j >= lo + n.a[0] or j < lo: continue
                if n.k != 'int': return None
                return nth(I_, st, val, j - lo)
            if k[0] == 'ix' and k[1].k == 'int':
                if k[1].a[0] == j: return val
                continue
            return None
        return elem(I_, st, arr.a[0], j)
    if arr.k == 'coll' and arr.a[0] is not EMPTY:
        if any(o[0] != 'set' or o[1].k != 'int' for o in arr.a[1]): return None
        for o in reversed(arr.a[1]):
            if o[1].a[0] == j: return o[2]
        return elem(I_, st, arr.a[0], j)
    if arr.k == 'repeat': return arr.a[0]
    if arr.k == 'agg' and arr.a[0] == 'array': return arr.a[2][j][1] if j < len(arr.a[2]) else None
    return nth(I_, st, arr, j)
def nth(I_, st, v, j):
    if v.k == 'coll' and v.a[0] is EMPTY and all(o[0] == 'push' for o in v.a[1]): return v.a[1][j][1] if j < len(v.a[1]) else None
    return T('at', v, I(j))

def P22(ctx):
    I_ = ctx.interp(bounded=True, loop_exact=2, max_states=900000)
    K = 2
    install_pack(I_)
    acc = sym('acc'); account = fld(acc, 'account'); D = plain(account); n = T('len', D)
    midx, mints, cnt = obj('midx'), obj('mints'), obj('cnt')
    summary('Data', 'data', lambda I2, st, args, t, depth, f: I2.m.R(st, D) if eta(st, I2, args[0]) is fld(account, 'data') else None)(I_)
    summary('Data', 'len', lambda I2, st, args, t, depth, f: I2.m.R(st, n) if eta(st, I2, args[0]) is fld(account, 'data') else None)(I_)
    slot, wv = sym('slot'), sym('write_version')
    owner = fld(account, 'owner'); tag = T('at', D, I(165))
    st0 = State()
    clsf = ctx.p.one('get_token_program_account_type')
    back = ctx.p.one('token_program_account_to_solana_account')
    kinds = {}
    def expect(st):
        """complete: (state, program crate or None, kind of account or None)"""
        out = []
        for s, r in rels(st, fld(account, 'lamports'), I(0)):
            if r == '=': out.append((s, 'deleted', None)); continue
            for s1, b1 in bool_cases(I_, s, I_.cmp(s, 'Eq', owner, T('const', 'spl_token::ID'))):
                for s2, b2 in [(s1, False)] if b1 else bool_cases(I_, s1, I_.cmp(s1, 'Eq', owner, T('const', 'spl_token_2022::ID'))):
                    if not b1 and not b2: out.append((s2, 'deleted', None)); continue
                    pr = 'spl_token' if b1 else 'spl_token_2022'
                    work = [s2]; 
                    for kind, ln in (('Mint', 82), ('Account', 165), ('Multisig', 355)):
                        w = []
                        for s3 in work:
                            for s4, r2 in rels(s3, n, I(ln)):
                                if r2 == '=': out.append((s4, pr, kind))
                                else: w.append(s4)
                        work = w
                    for s3 in work:
                        if pr == 'spl_token': out.append((s3, pr, None)); continue
                        for s4, r2 in rels(s3, n, I(165)):
                            if r2 != '>': out.append((s4, pr, None)); continue
                            for s5, r3 in rels(s4, tag, I(1)):
                                if r3 == '=': out.append((s5, pr, 'Mint')); continue
                                for s6, r4 in rels(s5, tag, I(2)):
                                    out.append((s6, pr, 'Account' if r4 == '=' else None))
        return out
    for o in ctx.explore(I_, clsf, [I_.ref(st0, acc), midx, cnt][:clsf['argc']], st0):
        if o.kind == 'cut': continue
        ctx.ob('classify', 'no abnormal exit', o.kind == 'ret', lambda: '%s %s' % (o.why, pathdesc(o.st)))
        if o.kind != 'ret': continue
        for st, pr, kind in expect(o.st):
            vn = variant(I_, st, o.val); why = lambda: '%s %s: %s when %s' % (pr, kind, show(o.val)[:300], pathdesc(st))
            kinds[(pr, kind)] = kinds.get((pr, kind), 0) + 1
            if pr != 'deleted' and kind is None:
                ctx.ob('classify', 'data of no token account is an error', vn == 'Err', why); continue
            if vn == 'Err':
                ctx.ob('classify', 'every well formed token account is recognised', any(e['kind'] == 'malformed' for e in st.events()), why); continue
            x = I_.payload(st, o.val, 'Ok')
            xn = variant(I_, st, x)
            if pr == 'deleted':
                ctx.ob('classify', 'an account without lamports or of another owner is deleted', xn == 'Deleted' and same(st, I_, I_.payload(st, x, xn), fld(acc, 'pubkey')), why); continue
            if not ctx.ob('classify', 'accounts are recognised as what they are', xn == {'Mint': 'Mint', 'Account': 'TokenAccount', 'Multisig': 'MultiSig'}[kind], why): continue
            u = [T('unpacked', (pr, kind), d) for d in (D, T('slice', D, I(0), I(LEN[kind])))]
            st = st.fork()
            mintpk = None
            v = I_.ref(st, x)
            for r in ctx.explore(I_, back, [v, slot, wv, mints], st.fork()):
                if r.kind == 'cut': continue
                s = r.st; whyr = lambda: '%s %s: %s %s when %s' % (pr, kind, r.why, show(r.val)[:500] if r.val is not None else '', pathdesc(s))
                ctx.ob('reproduce', 'no abnormal exit', r.kind == 'ret', whyr)
                if r.kind != 'ret': continue
                mcoll = T('obj', T('sym', 'mints'))
                idx = I_.proj(s, I_.payload(s, x, xn), ('f', 'mint')) if kind == 'Account' else None
                if variant(I_, s, r.val) == 'None':
                    ctx.ob('reproduce', 'an account is left out only when its mint is not known', kind == 'Account' and all(not b for _, b in has_cases(I_, s, I_.lp(s, mints), idx)), whyr); continue
                a = I_.payload(s, r.val, 'Some')
                for f, w in (('pubkey', fld(acc, 'pubkey')), ('updated_slot', slot), ('write_version', wv)):
                    ctx.ob('reproduce', '%s: %s' % (kind, f), same(s, I_, I_.proj(s, a, ('f', f)), w), whyr)
                ac = eta(s, I_, I_.proj(s, a, ('f', 'account')))
                ctx.ob('reproduce', '%s: owner' % kind, same(s, I_, I_.proj(s, ac, ('f', 'owner')), owner), whyr)
                ex = I_.proj(s, ac, ('f', 'executable'))
                ctx.ob('reproduce', '%s: not executable' % kind, [b for _, b in I_.decide(s, ex)] == [False] or same(s, I_, ex, fld(account, 'executable')), whyr)
                if kind != 'Account': ctx.ob('reproduce', '%s: lamports' % kind, same(s, I_, I_.proj(s, ac, ('f', 'lamports')), fld(account, 'lamports')), whyr)
                dv = I_.proj(s, ac, ('f', 'data'))
                if not ctx.ob('reproduce', '%s: stored as it is' % kind, variant(I_, s, dv) == 'Uncompressed', whyr): continue
                ps = parts(I_, s, eta(s, I_, I_.payload(s, dv, 'Uncompressed')))
                if kind == 'Account':
                    lam = I_.proj(s, ac, ('f', 'lamports')); ln = I_.m.length(s, eta(s, I_, I_.payload(s, dv, 'Uncompressed')))
                    ctx.ob('reproduce', 'Account: lamports of an account of its size', lam.k != 'int' and not ('minimum_balance' in str(lam.a[0]) and not (lam.a[-1] is ln or s.rel(lam.a[-1], ln) == frozenset('='))),
                           lambda: '%s for %s' % (show(lam)[:300], show(ln)[:300]))
                whyp = lambda: '%s %s: %s when %s' % (pr, kind, [(k, show(y)[:700]) for k, y in ps], pathdesc(s))
                if not ctx.ob('reproduce', '%s: the base state is written first' % kind, ps and ps[0][1].k == 'packed' and ps[0][1].a[0] == (pr, kind), whyp): continue
                pk = ps[0][1].a[1]
                base = next((e['u'] for e in reversed(s.events()) if e['kind'] == 'unpack'), None)
                if not ctx.ob('reproduce', '%s: the base state is read from the start' % kind, base in u, lambda: show(base) if base else 'nothing read'): continue
                for f in [z[0] for z in ctx.p.adts['%s::state::%s' % (pr, kind)]['variants'][0]['fields']]:
                    y = I_.proj(s, pk, ('f', f)); w = fld(base, f)
                    if f == 'mint' and y.k == 'fld' and y.a[1] == 'pubkey' and y.a[0].k == 'at' and y.a[0].a[0] is I_.lp(s, mints):
                        ok = y.a[0].a[1] is idx and mint_index_of(s, I_, idx, w, I_.lp(s, midx))
                    elif f == 'signers': ok = signers_ok(I_, s, y, w, fld(base, 'n'), K)
                    elif f == 'delegated_amount': ok = same(s, I_, y, w) or (s.var.get(fld(base, 'delegate')) == 'None' and (y.k == 'int' and y.a[0] == 0 or 'default' in show(y)))
                    else: ok = same(s, I_, y, w) or copt_same(I_, s, y, w)
                    ctx.ob('reproduce', '%s: %s' % (kind, f), ok, lambda: '%s is %s for %s when %s' % (f, show(y)[:300], show(w)[:200], pathdesc(s)))
                rest = ps[1:]
                whole = all(rr == '=' for _, rr in rels(s, n, I(LEN[kind])))
                if whole: ok = not rest
                else:
                    pos = LEN[kind]
                    if rest and rest[0][1].k == 'zeros': pos += rest[0][0]; rest = rest[1:]
                    ext = T('slice', D, I(165), n)
                    ok = pos == 165 and len(rest) == 1 and (rest[0][1] is ext or rest[0][1].k == 'bytelist' and (s.rel(n, I(165 + len(rest[0][1].a))) == frozenset('=') or s.rel(T('len', ext), I(len(rest[0][1].a))) == frozenset('='))
                                                            and all(b in (T('at', ext, I(j)), T('at', D, I(165 + j))) for j, b in enumerate(rest[0][1].a)))
                ctx.ob('reproduce', '%s: %s' % (kind, 'nothing else is written' if whole else 'the extensions follow at their offset'), ok, whyp)
    for pr in PROG:
        for kind in LEN: ctx.ob('coverage', 'kinds of accounts examined: %s %s' % (pr, kind), kinds.get((pr, kind), 0) > 0)

def mint_index_of(st, I_, idx, mint, midx):
    """idx is what the index of mints holds (now) for the mint"""
    return idx.k == 'at' and idx.a[0] is I_.lp(st, obj('midx')) and same(st, I_, idx.a[1], mint) or same(st, I_, T('at', midx, mint), idx) or any(o[0] == 'set' and same(st, I_, o[1], mint) and same(st, I_, o[2], idx) for o in (midx.a[1] if midx.k == 'coll' else ()))
def copt_same(I_, st, a, b):
    va, vb = variant(I_, st, a), variant(I_, st, b)
    if va is None or va != vb: return False
    return not (va == 'Some') or same(st, I_, I_.payload(st, a, 'Some'), I_.payload(st, b, 'Some'))
def signers_ok(I_, st, got, want, n, k):
    for j in range(k):
        w = T('at', want, I(j)); g = elem(I_, st, got, j)
        if g is None: return False
        if same(st, I_, g, w): continue
        if 'default(Pubkey)' != show(g): return False
        if all(r == '=' for _, r in rels(st, w, g)): continue
        if all(r != '>' for _, r in rels(st, n, I(j))): continue                        # not one of the n signers
        if all(r != '>' for _, r in rels(st, T('len', want), I(j))): continue           # no such position
        return False
    return True
