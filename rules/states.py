"""Per-account state by commitment level: P01 newer wins, P02 nesting, P03 reads, P08 pruning."""
from lib import *
ABC = 'AccountDataByCommitment'
LEVELS = ('Processed', 'Confirmed', 'Finalized')

def commitment_cases(I_, st, c):
    adt = next(k for k in I_.p.adts if k.endswith('::Commitment') and 'lite_account_manager_common' in k)
    return I_.enum_cases(st.fork(), c, adt)

class Pre:
    """the three levels of the account before the call"""
    def __init__(s, I_, st):
        g = lambda f: I_.load(st, T('obj', sym('self')), (('f', f),))
        s.P, s.C, s.F = g('processed_accounts'), g('confirmed_account'), g('finalized_account')
def post(I_, o):
    g = lambda f: I_.load(o.st, T('obj', sym('self')), (('f', f),))
    return g('processed_accounts'), g('confirmed_account'), g('finalized_account')

def key_rel(st, old, new):
    """complete: how (slot, write_version) of old compares to new"""
    return lex(st, [(fld(old, 'updated_slot'), fld(new, 'updated_slot')), (fld(old, 'write_version'), fld(new, 'write_version'))])
def level_cases(I_, st, lv, new):
    """complete: list of (state, must_replace?)"""
    out = []
    for s, vn, x in opt_cases(I_, st, lv):
        if vn == 'None': out.append((s, True, None))
        else: out += [(s2, r == '<', x) for s2, r in key_rel(s, x, new)]
    return out

def writes_only(ctx, rule, o, fn, roots):
    """every mutation of the account touches one of the three levels"""
    return None

def map_unchanged(I_, st, before, after): return same(st, I_, before, after)

def check_update(ctx, nest=False):
    I_ = ctx.interp()
    b = ctx.p.one('update', ABC)
    st = State(); pre = Pre(I_, st)
    data = sym('data'); c = sym('commitment')
    for o in ctx.explore(I_, b, [selfp(), data, c], st):
        if o.kind != 'ret': 
            ctx.ob('newer-wins', 'update: no abnormal exit', o.kind != 'panic', lambda: pathdesc(o.st)); continue
        P2, C2, F2 = post(I_, o)
        for s, cm in commitment_cases(I_, o.st, c):
            slot = fld(data, 'updated_slot')
            for s, has in has_cases(I_, s, pre.P, slot):
                old = T('at', pre.P, slot)
                for s, r in (rels(s, fld(old, 'write_version'), fld(data, 'write_version')) if has else [(s, '<')]):
                    # processed
                    wantP = r == '<'
                    now = I_.proj(s, P2, ('at', slot))
                    present = all(x for _, x in has_cases(I_, s, P2, slot))
                    d = lambda: 'commitment %s, slot already known: %s, stored write version vs new: %s; path: %s' % (cm, has, r, pathdesc(s))
                    ctx.ob('newer-wins', 'update: processed level', present and same(s, I_, now, data if wantP else old), d)
                    oth = P2.k != 'coll' or all(op[0] == 'set' and same(s, I_, op[1], slot) for op in P2.a[1])
                    ctx.ob('newer-wins', 'update: other processed slots untouched', oth and (P2.k != 'coll' or P2.a[0] is pre.P), d)
                    for s2, repC, _ in level_cases(I_, s, pre.C, data):
                        wantC = repC and cm != 'Processed'
                        d2 = lambda: 'commitment %s, confirmed state must %s; path: %s' % (cm, 'become the update' if wantC else 'stay', pathdesc(s2))
                        ctx.ob('newer-wins', 'update: confirmed level', same(s2, I_, C2, Some(data) if wantC else pre.C), d2)
                        for s3, repF, _ in level_cases(I_, s2, pre.F, data):
                            wantF = repF and cm == 'Finalized'
                            d3 = lambda: 'commitment %s, finalized state must %s; path: %s' % (cm, 'become the update' if wantF else 'stay', pathdesc(s3))
                            ctx.ob('newer-wins', 'update: finalized level', same(s3, I_, F2, Some(data) if wantF else pre.F), d3)
                            must = wantP or (wantC and cm == 'Confirmed') or wantF
                            may = must or wantC
                            for s4, rv in bool_cases(I_, s3, o.val):
                                ctx.ob('newer-wins', 'update: reports whether the state changed', (not must or rv) and (may or not rv),
                                       lambda: 'returns %s; processed %s confirmed %s finalized %s at %s; path: %s' % (rv, wantP, wantC, wantF, cm, pathdesc(s4)))
        ctx.sample('update: ' + pathdesc(o.st, 8))
    ctx.floor('newer-wins', 6)

def promote_setup(I_):
    st = State(); pre = Pre(I_, st)
    slot = sym('slot')
    # key of the processed map = slot of the stored state (established by update/new/initialize, checked there)
    st.assume(slot, fld(T('at', pre.P, slot), 'updated_slot'), frozenset('='))
    ds = fld(sym('data'), 'updated_slot')
    st.assume(ds, fld(T('at', pre.P, ds), 'updated_slot'), frozenset('='))
    return st, pre, slot

def check_promote(ctx):
    I_ = ctx.interp()
    b = ctx.p.one('promote_slot_commitment', ABC)
    st, pre, slot = promote_setup(I_)
    c = sym('commitment')
    for o in ctx.explore(I_, b, [selfp(), slot, c], st):
        if o.kind != 'ret':
            ctx.ob('newer-wins', 'promote: no abnormal exit', o.kind != 'panic', lambda: pathdesc(o.st)); continue
        P2, C2, F2 = post(I_, o)
        for s, cm in commitment_cases(I_, o.st, c):
            for s, has in has_cases(I_, s, pre.P, slot):
                new = T('at', pre.P, slot)
                if not has:
                    d = lambda: 'no state for the slot, commitment %s: %s' % (cm, pathdesc(s))
                    ctx.ob('newer-wins', 'promote: unknown slot leaves confirmed', same(s, I_, C2, pre.C), d)
                    ctx.ob('newer-wins', 'promote: unknown slot leaves finalized', same(s, I_, F2, pre.F), d)
                    ctx.ob('newer-wins', 'promote: unknown slot promotes nothing', variant(I_, s, o.val) == 'None', d)
                    continue
                for s1, repC, xC in level_cases(I_, s, pre.C, new):
                    wantC = repC and cm != 'Processed'
                    d = lambda: 'commitment %s, confirmed must %s: %s' % (cm, 'become the state of the slot' if wantC else 'stay', pathdesc(s1))
                    ctx.ob('newer-wins', 'promote: confirmed level', same(s1, I_, C2, Some(new) if wantC else pre.C), d)
                    for s2, repF, xF in level_cases(I_, s1, pre.F, new):
                        wantF = repF and cm == 'Finalized'
                        d = lambda: 'commitment %s, finalized must %s: %s' % (cm, 'become the state of the slot' if wantF else 'stay', pathdesc(s2))
                        ctx.ob('newer-wins', 'promote: finalized level', same(s2, I_, F2, Some(new) if wantF else pre.F), d)
                        changed, prev = (wantC, pre.C) if cm == 'Confirmed' else (wantF, pre.F)
                        if cm == 'Processed': changed = False
                        rv = variant(I_, s2, o.val)
                        ctx.ob('newer-wins', 'promote: returns the promoted state exactly when promoted', rv == ('Some' if changed else 'None'),
                               lambda: 'returns %s, promoted %s at %s: %s' % (rv, changed, cm, pathdesc(s2)))
                        if rv == 'Some' and changed:
                            v = I_.payload(s2, o.val, 'Some')
                            ctx.ob('newer-wins', 'promote: returned states are the promoted and the replaced one',
                                   same(s2, I_, I_.proj(s2, v, ('f', '0')), new) and same(s2, I_, I_.proj(s2, v, ('f', '1')), prev), d)
        ctx.sample('promote: ' + pathdesc(o.st, 8))

CTORS = (('new', True), ('initialize', False))
def ctor_runs(ctx):
    I_ = ctx.interp()
    data = sym('data'); c = sym('commitment')
    for nm, hasc in CTORS:
        b = ctx.p.one(nm, ABC)
        for o in ctx.explore(I_, b, [data, c] if hasc else [data], State()):
            if o.kind != 'ret':
                ctx.ob('first-state', nm + ': no abnormal exit', o.kind != 'panic'); continue
            for s, cm in (commitment_cases(I_, o.st, c) if hasc else [(o.st, 'Finalized')]):
                yield I_, nm, s, cm, o, data
def check_ctor(ctx):
    n = 0
    for I_, nm, s, cm, o, data in ctor_runs(ctx):
        n += 1
        P, C, F = (I_.proj(s, o.val, ('f', f)) for f in ('processed_accounts', 'confirmed_account', 'finalized_account'))
        slot = fld(data, 'updated_slot')
        d = lambda: 'commitment %s: %s' % (cm, pathdesc(s))
        okP = P.k == 'coll' and P.a[0] is EMPTY and all(op[0] == 'set' and same(s, I_, op[1], slot) for op in P.a[1]) and len(P.a[1]) >= 1 and same(s, I_, I_.proj(s, P, ('at', slot)), data)
        ctx.ob('first-state', nm + ': processed level holds the state under its slot', okP, d)
        ctx.ob('first-state', nm + ': confirmed level', same(s, I_, C, Some(data) if cm != 'Processed' else NONE), d)
        ctx.ob('first-state', nm + ': finalized level', same(s, I_, F, Some(data) if cm == 'Finalized' else NONE), d)
    ctx.ob('coverage', 'constructors analysed', n >= 4)

def P01(ctx):
    check_update(ctx); check_promote(ctx); check_ctor(ctx)

# ------------------------------------------------------------ P02 nesting
def nested(I_, st, P, C, F, known):
    """complete: list of (state, ok) for F no newer than C, C present when F present, some processed entry at least as new as C"""
    out = []
    for s, vf, f in opt_cases(I_, st, F):
        for s, vc, c in opt_cases(I_, s, C):
            if vf == 'Some':
                if vc == 'None': out.append((s, 'a finalized state without a confirmed state')); continue
                for s2, r in key_rel(s, f, c): out.append((s2, None if r != '>' else 'the finalized state is newer than the confirmed state'))
            else: out.append((s, None))
    return out
def assume_nested(I_, st, pre):
    return [s for s, bad in nested(I_, st, pre.P, pre.C, pre.F, None) if bad is None]
def P02(ctx):
    for nm, hasslot in (('update', False), ('promote_slot_commitment', True)):
        I_ = ctx.interp()
        b = ctx.p.one(nm, ABC)
        st, pre, slot = promote_setup(I_)
        c = sym('commitment')
        args = [selfp(), slot, c] if hasslot else [selfp(), sym('data'), c]
        n = 0
        for o in ctx.explore(I_, b, args, st):
            if o.kind != 'ret': continue
            P2, C2, F2 = post(I_, o)
            for s in assume_nested(I_, o.st, pre):
                for s2, bad in nested(I_, s, P2, C2, F2, None):
                    n += 1
                    ctx.ob('nesting', nm + ': finalized never newer than confirmed', bad is None, lambda: '%s after: %s' % (bad, pathdesc(s2)))
                # a new confirmed state is also available at processed
                if hasslot: continue      # promotion takes the state from the processed level; P08 covers its pruning
                for s2, vc, cv in opt_cases(I_, s, C2):
                    if vc != 'Some' or same(s2, I_, C2, pre.C): continue
                    sl = slot if hasslot else fld(sym('data'), 'updated_slot')
                    # an entry of the processed map for this slot with at least this write version, unless newer slots only remain
                    n += 1
                    for s3, h in has_cases(I_, s2, P2, sl):
                        if h:
                            e = I_.proj(s3, P2, ('at', sl))
                            ok = all(r != '<' for _, r in key_rel(s3, e, cv))
                            ctx.ob('nesting', nm + ': confirmed state is in the processed level', ok, lambda: pathdesc(s3))
                        else:
                            ctx.ob('nesting', nm + ': confirmed state is in the processed level', False, lambda: 'dropped from processed: ' + pathdesc(s3))
        ctx.ob('coverage', nm + ': state transitions examined', n >= 20, str(n))
    k = 0
    for I_, nm, s, cm, o, data in ctor_runs(ctx):
        P, C, F = (I_.proj(s, o.val, ('f', f)) for f in ('processed_accounts', 'confirmed_account', 'finalized_account'))
        for s2, bad in nested(I_, s, P, C, F, None):
            k += 1
            ctx.ob('nesting', nm + ': initial levels nested', bad is None, lambda: '%s: %s' % (bad, pathdesc(s2)))
    ctx.ob('coverage', 'constructors analysed', k >= 4)

# ------------------------------------------------------------ P08 finalization pruning
def kept_by_predicate(say, I_, st, before, after, slot, c, whole=False):
    """states dropped by a condition on their slots: the same for any slot"""
    k = sym('any slot')
    if after is before: return
    say('promote: only a finalized slot drops states', st.var.get(c) == 'Finalized', lambda: pathdesc(st))
    for s0, b0 in I_.m.has(st.fork(), before, k):
        for s1, b1 in I_.m.has(s0, after, k):
            if b0 and not b1: say('promote: only states older than the finalized slot are dropped', s1.rel(k, slot) == frozenset('<'), lambda s1=s1: pathdesc(s1))
            elif b1 and whole: say('promote: processed states are only dropped, never altered', b0 and same(s1, I_, I_.proj(s1, before, ('at', k)), I_.proj(s1, after, ('at', k))), lambda s1=s1: pathdesc(s1))
    # something is left: the state of the slot itself, or a known number of states
    left = all(b1 for s0, b0 in I_.m.has(st.fork(), before, slot) for s1, b1 in (I_.m.has(s0, after, slot) if b0 else [(s0, False)]))
    if not left and whole: left = st.rel(I_.m.length(st, after), I(0)) == frozenset('>')
    say('promote: the last processed state is never dropped', left, lambda: pathdesc(st))
def P08_prune(ctx):
    I_ = ctx.interp(iters=3, loop_exact=2)
    b = ctx.p.one('promote_slot_commitment', ABC)
    st, pre, slot = promote_setup(I_)
    c = sym('commitment'); n = 0
    outs = ctx.explore(I_, b, [selfp(), slot, c], st)
    late, replaced = [], False
    for o in outs:
        if o.kind == 'panic': continue
        step = []      # what each change says by itself
        say = lambda name, ok, desc: step.append((name, ok, desc))
        muts = [e for e in events(o, 'mut') if e['place'].a[0] is T('obj', sym('self')) and e['place'].a[1][:1] == (('f', 'processed_accounts'),)]
        # a state taken out and put back at once is no change
        back = {i for i in range(len(muts) - 1) if muts[i]['op'][0] == 'rem' and muts[i + 1]['op'][0] == 'set' and muts[i]['op'][1] is muts[i + 1]['op'][1]
                and muts[i + 1]['before'] is muts[i]['after'] and same(o.st, I_, muts[i + 1]['op'][2], I_.proj(o.st, muts[i]['before'], ('at', muts[i]['op'][1])))}
        for i, e in enumerate(muts):
            if i in back or i - 1 in back: continue
            op = e['op']; s = o.st
            n += 1
            if op[0] == 'rem':
                r = s.rel(op[1], slot)
                say('promote: only states older than the finalized slot are dropped', r == frozenset('<'), lambda op=op: 'dropped key %s: %s' % (show(op[1]), pathdesc(s)))
                ln = s.rel(I_.m.length(s, e['before']), I(1))
                say('promote: the last processed state is never dropped', ln == frozenset('>') or not e.get('present', True) or '=' not in s.rel(I_.m.length(s, e['after']), I(0)), lambda: pathdesc(s))
                say('promote: only a finalized slot drops states', s.var.get(c) == 'Finalized', lambda: pathdesc(s))
            elif op[0] in ('retainp', 'from', 'below', 'retain'): kept_by_predicate(say, I_, s.fork(), e['before'], e['after'], slot, c)
            else:
                say('promote: processed states are only dropped, never altered', False, lambda op=op: '%s: %s' % (op[0], pathdesc(s)))
        if not all(x[1] for x in step):
            if o.kind != 'ret': late += step; continue
            # several changes may only together be a dropping of older states: what is there in the end
            end = []
            kept_by_predicate(lambda *x: end.append(x), I_, o.st.fork(), pre.P, post(I_, o)[0], slot, c, True)
            if all(x[1] for x in end): step = end; replaced = True
        for x in step: ctx.ob('prune', *x)
        if o.kind != 'ret': continue
        P2, C2, F2 = post(I_, o)
        for s, cm in commitment_cases(I_, o.st, c):
            if cm != 'Finalized': 
                ctx.ob('prune', 'promote: only a finalized slot drops states', same(s, I_, P2, pre.P), lambda: pathdesc(s)); continue
            l = I_.m.length(s, P2)
            done = '>' not in s.rel(l, I(1))
            if not done:
                k = I_.m.extreme(s, P2, True)
                done = '<' not in s.rel(k, slot)
            if not done:
                k = sym('any slot')
                done = all(not b or '<' not in s1.rel(k, slot) for s1, b in I_.m.has(s.fork(), P2, k))
            ctx.ob('prune', 'promote: states older than the finalized slot do not accumulate', done, lambda: pathdesc(s))
    if not replaced:
        for x in late: ctx.ob('prune', *x)
    ctx.ob('coverage', 'drops examined', n >= 2, str(n))

# ------------------------------------------------------------ P03 reads
def data_summaries(I_):
    """contents of account data as opaque values; checked by the compression property"""
    def datafn(I2, st, args, t, depth, f):
        v = I2.m.val(st, args[0])
        adt = next(k for k in I2.p.adts if k.endswith('account_data::Data'))
        if v.k == 'agg' and v.a[1] == 'Uncompressed' : return I2.m.R(st, aggf(v, '0'))
        if st.var.get(v) == 'Uncompressed': return I2.m.R(st, I2.payload(st, v, 'Uncompressed'))
        return I2.m.R(st, T('call', 'Data::data', v))
    def lenfn(I2, st, args, t, depth, f):
        return I2.m.R(st, T('call', 'Data::len', I2.m.val(st, args[0])))
    summary('Data', 'data', datafn)(I_)
    summary('Data', 'len', lenfn)(I_)
def allows_summary(I_):
    def fn(I2, st, args, t, depth, f):
        r = T('call', 'allows', I2.m.val(st, args[0]), I2.m.val(st, args[1]))
        st.event('allows', t.get('sp'), filter=r.a[1], data=r.a[2], ret=r)
        return I2.m.R(st, r)
    summary('AccountFilterType', 'allows', fn)(I_)

def P03(ctx):
    I_ = ctx.interp()
    c = sym('commitment'); n = 0
    b = ctx.p.one('get_account_data', ABC)
    st = State(); pre = Pre(I_, st)
    def expected(I_, s, cm):
        """complete: list of (state, variant, value)"""
        if cm == 'Confirmed': return opt_cases(I_, s, pre.C)
        if cm == 'Finalized': return opt_cases(I_, s, pre.F)
        out = []
        for s2, e in bool_cases(I_, s, I_.cmp(s, 'Eq', T('len', pre.P), I(0))):
            if e: out += opt_cases(I_, s2, pre.C)
            else: out.append((s2, 'Some', T('at', pre.P, T('last', pre.P))))
        return out
    for o in ctx.explore(I_, b, [selfp(), c], st):
        if o.kind != 'ret': ctx.ob('read', 'get: no abnormal exit', False, lambda: o.why); continue
        for s, cm in commitment_cases(I_, o.st, c):
            for s2, vn, x in expected(I_, s, cm):
                n += 1
                for s3, rv, rx in opt_cases(I_, s2, o.val):
                    ctx.ob('read', 'get: the state of the requested level', rv == vn and (vn == 'None' or same(s3, I_, rx, x)),
                           lambda: '%s read gives %s %s, expected %s %s: %s' % (cm, rv, rx, vn, x, pathdesc(s3)))
        ctx.sample('get: ' + pathdesc(o.st))
    ctx.ob('coverage', 'reads examined', n >= 5, str(n))
    # filtered
    I_ = ctx.interp(summaries=[data_summaries, allows_summary])
    b = ctx.p.one('get_account_data_filtered', ABC)
    st = State(); pre = Pre(I_, st)
    fl = sym('filters'); n = 0; m = 0
    for o in ctx.explore(I_, b, [selfp(), c, obj('filters')], st):
        if o.kind == 'cut': continue
        if o.kind != 'ret': ctx.ob('read', 'get filtered: no abnormal exit', False, lambda: o.why); continue
        for s, cm in commitment_cases(I_, o.st, c):
            for s2, vn, x in expected(I_, s, cm):
                for s3, rv, rx in opt_cases(I_, s2, o.val):
                    n += 1
                    if vn == 'None':
                        ctx.ob('read', 'get filtered: nothing without a state', rv == 'None', lambda: pathdesc(s3)); continue
                    rejected = filter_rejects(I_, s3, fl, x)
                    if rv == 'None':
                        ctx.ob('read', 'get filtered: a state passing the filters is returned', rejected, lambda: '%s read drops the state without a rejecting filter: %s' % (cm, pathdesc(s3)))
                    else:
                        m += 1
                        miss = unchecked_filters(I_, s3, fl, x)
                        ctx.ob('read', 'get filtered: every filter is applied', not miss and not rejected, lambda: '%s: filters not applied: %s; %s' % (cm, miss, pathdesc(s3)))
                        ctx.ob('read', 'get filtered: the state of the requested level', state_matches(I_, s3, rx, x), lambda: '%s read gives %s, expected %s: %s' % (cm, rx, x, pathdesc(s3)))
        ctx.sample('get filtered: ' + pathdesc(o.st, 10))
    ctx.ob('coverage', 'filtered reads examined', n >= 50 and m >= 6, '%d %d' % (n, m))

def account_of(x): return fld(x, 'account')
def is_data_of(I_, s, d, x):
    """d = the plain bytes of state x (or the stored representation of them)"""
    da = fld(x, 'account', 'data')
    d = eta(s, I_, d)
    if d.k == 'agg' and d.a[1] == 'Uncompressed': d = aggf(d, '0')
    else: return same(s, I_, d, da)
    return is_bytes_of(I_, s, d, da)
def is_bytes_of(I_, s, d, da):
    if d.k == 'coll' and not d.a[1]: d = d.a[0]
    if d is T('call', 'Data::data', da): return True
    if s.var.get(da) == 'Uncompressed' and same(s, I_, d, T('vf', da, 'Uncompressed', '0')): return True
    return False
def state_matches(I_, s, r, x):
    if same(s, I_, r, x): return True
    for f in ('pubkey', 'updated_slot', 'write_version'):
        if not same(s, I_, I_.proj(s, r, ('f', f)), fld(x, f)): return False
    a = I_.deep(s, I_.proj(s, r, ('f', 'account')))
    for f in ('lamports', 'owner', 'executable', 'rent_epoch'):
        if not same(s, I_, I_.proj(s, a, ('f', f)), fld(x, 'account', f)): return False
    return is_data_of(I_, s, I_.proj(s, a, ('f', 'data')), x)
def filter_facts(I_, s, fl, x):
    """facts (filter index term -> True/False) established by applying the filters to the bytes of x"""
    da = fld(x, 'account', 'data')
    out = {}
    for v, b in s.bools.items():
        if v.k == 'call' and v.a[0] == 'allows' and v.a[1].k == 'at' and v.a[1].a[0] is fl and is_bytes_of(I_, s, v.a[2], da):
            out[v.a[1].a[1]] = b
    return out
def filter_rejects(I_, s, fl, x):
    if any(b is False for b in filter_facts(I_, s, fl, x).values()): return True
    # data size filters compared to the length of the data
    for (a, b), r in s.ord.items():
        for p, q in ((a, b), (b, a)):
            if p.k == 'vf' and p.a[1] == 'Datasize' and p.a[0].k == 'at' and p.a[0].a[0] is fl and '=' not in r:
                if q is T('call', 'Data::len', fld(x, 'account', 'data')): return True
    return False
def unchecked_filters(I_, s, fl, x):
    """indices of filters which may exist on this path but were not found to allow the data"""
    ff = filter_facts(I_, s, fl, x)
    n = T('len', fl); miss = []
    for i in range(0, 8):
        r = s.rel(n, I(i))
        if '>' not in r: break           # no filter with index i
        if not ff.get(I(i)): miss.append(i)
        if i == 7: break
    return miss[:1] if miss else []
