"""InmemoryAccountStore: P04 deleted never returned, P05 program account queries, P06 slot promotion, P07 slot commitment adoption,
P08 finalization cleanup, P09 owner index, P10 key index, P31 snapshots."""
from lib import *
from store_sum import install_abc, SIGS, held
from states import P08_prune, state_matches, unchecked_filters, commitment_cases
S = 'InmemoryAccountStore'
TR = 'AccountStorageInterface'
RANK = {'Processed': 0, 'Confirmed': 1, 'Finalized': 2}

def field_of(ctx, adtname, rx, crate='lite_'):
    for k, v in ctx.p.adts.items():
        if k.startswith(crate) and k.endswith('::' + adtname):
            m = [f for f, ty in v['variants'][0]['fields'] if re.search(rx, ty)]
            if len(m) == 1: return m[0]
            raise MissingAnchor('%s field of type /%s/ (found %d)' % (adtname, rx, len(m)))
    raise MissingAnchor('struct ' + adtname)

class Roles:
    def __init__(s, ctx):
        f = lambda rx, a=S: field_of(ctx, a, rx)
        s.pidx = f(r'DashMap<[^<>]*Pubkey, usize>')
        s.oidx = f(r'DashMap<[^<>]*Pubkey, .*Set<usize>')
        s.slots = f(r'Map<u64, .*SlotStatus>')
        s.flt = f(r'dyn .*AccountFiltersStoreInterface')
        s.store = f(r'AccountDataByCommitment')
        s.st_c = field_of(ctx, 'SlotStatus', r'Commitment$')
        s.st_a = field_of(ctx, 'SlotStatus', r'Set<usize>')
        s.st_p = field_of(ctx, 'SlotStatus', r'Option<u64>')
        me = sym('self')
        s.PIDX, s.OIDX, s.SLOTS, s.FLT, s.STORE = (fld(me, x) for x in (s.pidx, s.oidx, s.slots, s.flt, s.store))
        s.adt_c = next(k for k in ctx.p.adts if k.endswith('commitment::Commitment'))
    def path(s, name, *rest): return (('f', getattr(s, name)),) + rest
ROOT = T('obj', sym('self'))

def commit_consistent(I_, s, pairs):
    """facts about variants and orderings of commitment terms agree"""
    for a, va in pairs:
        for b, vb in pairs:
            if a is b: continue
            r = s.rel(a, b)
            w = '<' if RANK[va] < RANK[vb] else '>' if RANK[va] > RANK[vb] else '='
            if w not in r: return False
    return True
def commit_full(I_, s, terms):
    """complete the variants of several commitment terms: list of (state, {term: variant})"""
    work = [(s, {})]
    for t in terms:
        w = []
        for s1, m in work:
            if t in m: w.append((s1, m)); continue
            for s2, v in commitment_cases(I_, s1, t): w.append((s2, dict(m, **{'x': 0}) if False else {**m, t: v}))
        work = w
    return [(s1, m) for s1, m in work if commit_consistent(I_, s1, list(m.items()))]

def run_update(ctx, loop_exact=1):
    r = Roles(ctx)
    I_ = ctx.interp(summaries=[install_abc], max_states=3000000)
    b = ctx.p.one('update_account', S, TR)
    data, c = sym('data'), sym('commitment')
    return r, I_, data, c, ctx.explore(I_, b, [selfp(), data, c], State())

def stored(e): return e['kind'] == 'abc' and e['op'] in ('update', 'new')
def abc_events(o): return [e for e in o.st.events() if e['kind'] == 'abc']

def known_cases(I_, s, r, key):
    """complete: was the pubkey known before the call"""
    return I_.decide(s.fork(), T('has', r.PIDX, key))

# ------------------------------------------------------------------ P07
def P07(ctx):
    r, I_, data, c, outs = run_update(ctx)
    slot = fld(data, 'updated_slot')
    old = T('at', r.SLOTS, slot); oldc = fld(old, r.st_c)
    n = 0
    for o in outs:
        if o.kind != 'ret': continue
        evs = o.st.events()
        for e in evs:
            if not stored(e): continue
            ctx.ob('adopt', 'update: the given state is stored', e['data'] is data, lambda: show(e['data']))
            for s, has in I_.m.has(o.st.fork(), r.SLOTS, slot):
                for s2, m in commit_full(I_, s, [c] + ([oldc] if has else [])):
                    want = m[c] if not has or m[c] == 'Finalized' else max(m[c], m[oldc], key=RANK.get)
                    got = variant(I_, s2, e['c']) or m.get(e['c'])
                    n += 1
                    ctx.ob('adopt', '%s: stored at the higher of the given and the slot commitment' % e['op'], got == want,
                           lambda: 'given %s, slot %s, stored at %s: %s' % (m[c], m.get(oldc, 'unknown'), got or e['c'], pathdesc(s2)))
                    # registration for later slot notifications
                    idx = T('at', r.PIDX, fld(data, 'pubkey')) if e['op'] == 'update' else None
                    if e['op'] == 'new':
                        pushes = [x for x in evs if x['kind'] == 'mut' and x['op'][0] == 'push' and x['place'].a[1][:1] == r.path('store')]
                        idx = I_.m.length(s2, pushes[0]['before']) if pushes else T('len', r.STORE)
                    if want != 'Finalized':
                        reg = registered(I_, s2, r, slot, idx)
                        ctx.ob('adopt', '%s: the account is promoted by later notifications of its slot' % e['op'], reg, lambda: 'not registered with the slot: %s' % pathdesc(s2))
                    # the slot's own status
                    # atomicity with slot notifications
            lk = [x for x in evs if x['kind'] == 'acq' and x['place'].a[1] == r.path('slots') and x['seq'] < e['seq']]
            ok = False
            if lk:
                for h in e['held']:
                    if h['mode'] == 'write' and h['seq'] < lk[0]['seq'] and h['place'].a[1][:1] == r.path('store'): ok = True
            ctx.ob('adopt', '%s: slot status read with the account locked until stored' % e['op'], ok or not lk, lambda: pathdesc(o.st))
            ctx.ob('adopt', '%s: slot status consulted before storing' % e['op'], bool(lk), lambda: pathdesc(o.st))
        # an update never changes the commitment or parent of a slot
        for s, has in I_.m.has(o.st.fork(), r.SLOTS, slot):
            st2 = I_.load(s, ROOT, r.path('slots', ('at', slot)))
            if has:
                okc = same(s, I_, I_.proj(s, st2, ('f', r.st_c)), oldc); okp = same(s, I_, I_.proj(s, st2, ('f', r.st_p)), fld(old, r.st_p))
            else:
                v = I_.load(s, ROOT, r.path('slots'))
                if v.k != 'coll' or not v.a[1]: continue
                nc = I_.proj(s, st2, ('f', r.st_c))
                okc = variant(I_, s, nc) == 'Processed'; okp = variant(I_, s, I_.proj(s, st2, ('f', r.st_p))) == 'None'
            ctx.ob('adopt', 'update: a slot is only confirmed or finalized by slot notifications', okc, lambda: pathdesc(s))
            ctx.ob('adopt', 'update: the parent of a slot is only set by slot notifications', okp, lambda: pathdesc(s))
    ctx.ob('coverage', 'stores of a state examined', n >= 40, str(n))

def registered(I_, s, r, slot, idx):
    if not all(b for _, b in I_.m.has(s.fork(), I_.load(s, ROOT, r.path('slots')), slot)): return False
    v = I_.load(s, ROOT, r.path('slots', ('at', slot), ('f', r.st_a)))
    return all(b for _, b in I_.m.has(s.fork(), v, idx))

# ------------------------------------------------------------------ P10
def is_idx_mut(r, e, name): return e['kind'] == 'mut' and e['place'].a[0] is ROOT and e['place'].a[1] == r.path(name)
def P10(ctx):
    r, I_, data, c, outs = run_update(ctx)
    pk = fld(data, 'pubkey'); n = 0
    for o in outs:
        if o.kind != 'ret': continue
        evs = o.st.events()
        pushes = [e for e in evs if e['kind'] == 'mut' and e['op'][0] == 'push' and e['place'].a[1] == r.path('store')]
        sets = [e for e in evs if is_idx_mut(r, e, 'pidx') and e['op'][0] == 'set']
        rems = [e for e in evs if is_idx_mut(r, e, 'pidx') and e['op'][0] == 'rem']
        upds = [e for e in evs if e['kind'] == 'abc' and e['op'] in ('update', 'delete')]
        for s, known in known_cases(I_, o.st, r, pk):
            d = lambda: pathdesc(s)
            n += 1
            for e in upds:
                ctx.ob('index', 'update: a known account is updated in its own entry', known and e['place'].a[1] == r.path('store', ('at', T('at', r.PIDX, pk))), lambda: '%s; %s' % (show(e['place']), pathdesc(s)))
            ctx.ob('index', 'update: a known account gets no second entry', not (known and (pushes or sets)), d)
            if pushes:
                ix = I_.m.length(s, pushes[0]['before'])
                ctx.ob('index', 'update: a new account gets one entry and is found under it', len(pushes) == 1 and len(sets) == 1 and sets[0]['op'][1] is pk and same(s, I_, sets[0]['op'][2], ix), d)
                wr = [e for e in held_at(evs, sets[0]['seq']) if e['mode'] == 'dwrite' and e['place'].a[1] == r.path('pidx')] if sets else []
                chk = [e for e in evs if e['kind'] == 'acq' and e['mode'] == 'dwrite' and e['place'].a[1] == r.path('pidx')]
                ctx.ob('index', 'update: existence is decided and the entry made in one critical section', bool(wr) and wr[0] is chk[0], d)
                okadd = all(b for _, b in I_.m.has(s.fork(), I_.load(s, ROOT, r.path('oidx', ('at', fld(data, 'account', 'owner')))), ix))
                for e in evs:
                    if e['kind'] == 'mut' and e['op'][0] == 'add' and e['place'].a[1][:1] in (r.path('oidx'), r.path('slots')):
                        ctx.ob('index', 'update: slot and owner indexes refer to the entry of the account', same(s, I_, e['op'][1], ix), lambda: show(e['op'][1]) + ' ' + pathdesc(s))
            else:
                ctx.ob('index', 'update: an entry exists for every new key', not sets, d)
                for e in evs:
                    if e['kind'] == 'mut' and e['op'][0] == 'add' and e['place'].a[1][:1] in (r.path('oidx'), r.path('slots')):
                        ctx.ob('index', 'update: slot and owner indexes refer to the entry of the account', same(s, I_, e['op'][1], T('at', r.PIDX, pk)), lambda: show(e['op'][1]) + ' ' + pathdesc(s))
            dels = [e for e in upds if e['op'] == 'delete']
            ctx.ob('index', 'update: the key is dropped exactly with the states of the account', bool(dels) == bool(rems) and all(x['op'][1] is pk for x in rems), d)
            # reported result
            ev = [e for e in evs if stored(e)]
            for s2, rv in bool_cases(I_, s, o.val):
                if not ev: ctx.ob('index', 'update: reports false when nothing is stored', not rv, lambda: pathdesc(s2))
                elif ev[-1]['op'] == 'new': ctx.ob('index', 'update: reports true for a new account', rv, lambda: pathdesc(s2))
                else:
                    for s3, u in bool_cases(I_, s2, ev[-1]['ret']):
                        ctx.ob('index', 'update: reports whether the account changed', u == rv, lambda: pathdesc(s3))
            # which updates are accepted
            sat = T('call', 'AccountFiltersStoreInterface::satisfies', r.FLT, data)
            if known:
                ctx.ob('accept', 'update: a known account is always updated', any(e['op'] == 'update' for e in upds), d)
            else:
                for s2, ok in bool_cases(I_, s, sat):
                    ctx.ob('accept', 'update: an unknown account is stored exactly when it satisfies the filters', ok == bool(pushes) and (not ok or any(e['op'] == 'new' for e in ev)), lambda: 'satisfies: %s; %s' % (ok, pathdesc(s2)))
    ctx.ob('coverage', 'updates examined', n >= 60, str(n))
    I_ = ctx.interp(summaries=[install_abc])
    for o in ctx.explore(I_, ctx.p.one('get_account', S, TR), [selfp(), sym('pk'), sym('c')], State()):
        if o.kind != 'ret': ctx.ob('index', 'get: no abnormal exit', False, lambda: str(o.why)); continue
        for s, known in known_cases(I_, o.st, r, sym('pk')):
            acct = T('at', r.STORE, T('at', r.PIDX, sym('pk')))
            st0 = T('call', 'state', acct, sym('c'))
            v = I_.payload(s, o.val, 'Ok') if variant(I_, s, o.val) == 'Ok' else None
            ctx.ob('index', 'get: succeeds for every key', v is not None, lambda: pathdesc(s))
            if v is None: continue
            for s2, vn, x in opt_cases(I_, s, v):
                if not known: ctx.ob('index', 'get: nothing for an unknown key', vn == 'None', lambda: pathdesc(s2)); continue
                for s3, sv, sx in opt_cases(I_, s2, st0):
                    if sv == 'None': ctx.ob('index', 'get: the state of the account at the level', vn == 'None', lambda: pathdesc(s3)); continue
                    for s4, lr in rels(s3, fld(sx, 'account', 'lamports'), I(0)):
                        ctx.ob('index', 'get: the state of the account at the level', (vn == 'Some' and same(s4, I_, x, sx)) if lr == '>' else vn == 'None', lambda: '%s %s %s' % (vn, x, pathdesc(s4)))

def held_at(evs, seq):
    h = {}
    for e in evs:
        if e['seq'] >= seq: break
        if e['kind'] == 'acq': h[e['id']] = e
        elif e['kind'] == 'rel': h.pop(e['id'], None)
    return list(h.values())

# ------------------------------------------------------------------ P09
def P09(ctx):
    r, I_, data, c, outs = run_update(ctx)
    owner = fld(data, 'account', 'owner'); n = 0
    sat = T('call', 'AccountFiltersStoreInterface::satisfies', r.FLT, data)
    for o in outs:
        if o.kind != 'ret': continue
        evs = o.st.events()
        ev = [e for e in evs if stored(e)]
        if not ev: continue
        deleted = any(e['kind'] == 'abc' and e['op'] == 'delete' for e in evs)
        for s, kn in known_cases(I_, o.st, r, fld(data, 'pubkey')):
            idx = T('at', r.PIDX, fld(data, 'pubkey')) if kn else T('len', r.STORE)
            for s2, ch in (bool_cases(I_, s, ev[-1]['ret']) if ev[-1]['op'] == 'update' else [(s, True)]):
                if not ch: continue
                for s3, rl in rels(s2, fld(data, 'account', 'lamports'), I(0)):
                    for s4, ok in bool_cases(I_, s3, sat):
                        if rl != '>' or not ok: continue
                        if deleted:
                            # the drop was decided by a look for a state to keep, which finds the state just stored
                            ctx.ob('owner-index', 'update: a live tracked state is never dropped', guarded_drop(s4, I_, r, evs, data), lambda: pathdesc(s4)); continue
                        n += 1
                        v = I_.load(s4, ROOT, r.path('oidx'))
                        good = all(b for _, b in I_.m.has(s4.fork(), v, owner))
                        if good: good = all(b for _, b in I_.m.has(s4.fork(), I_.m.val(s4, I_.load(s4, ROOT, r.path('oidx', ('at', owner)))), idx))
                        ctx.ob('owner-index', 'update: an accepted live state is indexed under its owner', good, lambda: pathdesc(s4))
    ctx.ob('coverage', 'accepted states examined', n >= 20, str(n))

def guarded_drop(s, I_, r, evs, data):
    for q in evs:
        if q['kind'] != 'abc' or q['op'] != 'since' or s.bools.get(q['ret']) is not False: continue
        if not (q['acct'].k == 'updated' and q['acct'].a[1] is data and same(s, I_, q['slot'], fld(data, 'updated_slot'))): continue
        subj = T('newerstate', q['acct'])
        st0 = T('call', 'AccountFiltersStoreInterface::satisfies', r.FLT, subj)
        if sig_holds_when(SIGS[q['ret']], s, I_, lambda s2: '>' in s2.rel(fld(subj, 'account', 'lamports'), I(0)) and s2.bools.get(st0, True)): return True
    return False

# ------------------------------------------------------------------ P08 cleanup
def sig_holds_when(sig, s, I_, pred):
    """every state for which pred can be true makes the predicate true: sig = [(facts, result, state)]"""
    for facts, b, s2 in sig:
        if not b and pred(s2): return False
    return True
def run_process(ctx, le=1, commitment=None, upd_opaque=False, **kw):
    r = Roles(ctx)
    I_ = ctx.interp(summaries=[install_abc], max_states=8000000, loop_exact=le, **kw)
    if upd_opaque:
        def fn(I2, st, args, t, depth, f):
            rr = T('call', 'ownerchg', *[I2.deep(st, a) for a in args[1:]])
            st.event('ownerchg', t.get('sp'), args=rr.a[1:], ret=rr)
            return I2.m.R(st, rr)
        summary(S, 'update_owner_delete_if_necessary', fn)(I_)
    b = ctx.p.one('process_slot_data', S, TR)
    si = sym('slot_info'); c = sym('commitment')
    st = State()
    if commitment: st.var[c] = commitment
    return r, I_, si, c, ctx.explore(I_, b, [selfp(), si, c], st)

def check_removals(ctx, r, I_, outs, fn, newstate, level):
    """newstate(e,o) -> list of (prev state, new state, acct term) candidates for the account with the given index"""
    n = 0
    for o in outs:
        if o.kind == 'panic': continue
        evs = o.st.events()
        for e in evs:
            rem = e['kind'] == 'mut' and e['op'][0] == 'rem' and e['place'].a[0] is ROOT and len(e['place'].a[1]) == 2 and e['place'].a[1][:1] == r.path('oidx')
            dele = e['kind'] == 'abc' and e['op'] == 'delete'
            if not rem and not dele: continue
            if rem and e.get('present') is False: continue
            n += 1
            s = o.st
            what = 'an account leaves the index of an owner' if rem else 'all the states of an account are dropped'
            lv = level(s, e, evs)
            ctx.ob('cleanup', '%s: %s only when finalized' % (fn, what), lv == 'Finalized', lambda: 'at %s: %s' % (lv, pathdesc(s)))
            # some check of the newer states came before and found none
            ok = False
            for q in evs:
                if q['seq'] > e['seq']: break
                if q['kind'] != 'abc' or q['op'] != 'since' or s.bools.get(q['ret']) is not False: continue
                sig = SIGS[q['ret']]; subj = T('newerstate', q['acct'])
                new = newstate(q, o)
                if new is None or not same(s, I_, q['slot'], fld(new, 'updated_slot')): continue
                if rem:
                    key = e['place'].a[1][1][1]
                    cond = lambda s2: s2.rel(fld(subj, 'account', 'owner'), key) != frozenset('<>') and '=' in s2.rel(fld(subj, 'account', 'owner'), key)
                    if '=' in s.rel(key, fld(new, 'account', 'owner')): continue
                else:
                    st0 = T('call', 'AccountFiltersStoreInterface::satisfies', r.FLT, subj)
                    cond = lambda s2: '>' in s2.rel(fld(subj, 'account', 'lamports'), I(0)) and s2.bools.get(st0, True)
                if sig_holds_when(sig, s, I_, cond): ok = True
            ctx.ob('cleanup', '%s: %s only without newer states needing it' % (fn, what), ok, lambda: '%s: %s' % (show(e.get('place')), pathdesc(s)))
    return n

def check_cleanup(ctx, r, I_, s, evs, fn, prev, new, after, drops=True):
    """the finalized state became new instead of prev, which has another owner: what is then kept is kept for a state that needs it"""
    po = fld(prev, 'account', 'owner')
    if '=' in s.rel(po, fld(new, 'account', 'owner')): return 0
    qs = [q for q in evs if q['kind'] == 'abc' and q['op'] == 'since' and q['seq'] > after]
    def kept(need):
        """a state was looked for and found, and whatever is found needs it"""
        for q in qs:
            subj = T('newerstate', q['acct'])
            if s.bools.get(q['ret']) is True and all(need(s2, subj) for _, b, s2 in SIGS[q['ret']] if b): return True
        return False
    why = lambda: pathdesc(s)
    left = any(e['kind'] == 'mut' and e['op'][0] == 'rem' and e['place'].a[0] is ROOT and len(e['place'].a[1]) == 2 and e['place'].a[1][:1] == r.path('oidx')
               and same(s, I_, e['place'].a[1][1][1], po) for e in evs if e['seq'] > after) or s.bools.get(T('has', r.OIDX, po)) is False
    def live(s2, x):
        return '=' not in s2.rel(fld(x, 'account', 'lamports'), I(0)) and s2.bools.get(T('call', 'AccountFiltersStoreInterface::satisfies', r.FLT, x)) is True
    ctx.ob('cleanup', '%s: after a finalized owner change only a state of the previous owner keeps the account in its index' % fn,
           left or kept(lambda s2, x: s2.rel(fld(x, 'account', 'owner'), po) == frozenset('=')), why)
    if drops: ctx.ob('cleanup', '%s: after a finalized owner change only a live state that satisfies the filters keeps the account' % fn,
           any(e['kind'] == 'abc' and e['op'] == 'delete' and e['seq'] > after for e in evs) or kept(live), why)
    return 1

def P08(ctx):
    r, I_, data, c, outs = run_update(ctx)
    n = check_removals(ctx, r, I_, outs, 'update', lambda q, o: data, lambda s, e, evs: [variant(I_, s, x['c']) for x in evs if stored(x)][-1])
    # completeness: a finalized owner change without newer states cleans up
    k = 0
    for o in outs:
        if o.kind != 'ret': continue
        evs = o.st.events()
        ups = [e for e in evs if e['kind'] == 'abc' and e['op'] == 'update']
        if not ups: continue
        u = ups[-1]; s = o.st
        lv = variant(I_, s, u['c'])
        prev = T('call', 'state', u['acct'], u['c'])
        if lv != 'Finalized' or s.bools.get(u['ret']) is not True or s.var.get(prev) != 'Some': continue
        po = fld(T('vf', prev, 'Some', '0'), 'account', 'owner')
        if '=' in s.rel(po, fld(data, 'account', 'owner')): continue
        k += 1
        check_cleanup(ctx, r, I_, s, evs, 'update', T('vf', prev, 'Some', '0'), data, u['seq'])
        checked = [q for q in evs if q['kind'] == 'abc' and q['op'] == 'since']
        ctx.ob('cleanup', 'update: a finalized owner change looks for states still needing the index or the account', len(checked) >= 2, lambda: pathdesc(s))
        if checked and s.bools.get(checked[-1]['ret']) is False:
            ctx.ob('cleanup', 'update: a finalized account without any state to keep is dropped', any(e['kind'] == 'abc' and e['op'] == 'delete' for e in evs), lambda: pathdesc(s))
        if checked and s.bools.get(checked[0]['ret']) is False and any(b for _, b in I_.m.has(s.fork(), r.OIDX, po)):
            gone = not any(b for _, b in I_.m.has(s.fork(), I_.load(s, ROOT, r.path('oidx', ('at', po))), T('at', r.PIDX, fld(data, 'pubkey'))))
            if T('has', r.OIDX, po) in s.bools and s.bools[T('has', r.OIDX, po)]:
                ctx.ob('cleanup', 'update: a finalized owner change leaves the index of the previous owner', gone, lambda: pathdesc(s))
    ctx.ob('coverage', 'update: removals examined', n >= 4 and k >= 4, '%d %d' % (n, k))
    r, I_, si, c, outs = run_process(ctx, bounded=True)
    def newstate(q, o):
        last = None
        for e in o.st.events():
            if e['kind'] == 'abc' and e['op'] == 'promote' and e['seq'] < q['seq']: last = e
        return last and I_.proj(o.st, T('vf', last['ret'], 'Some', '0'), ('f', '0'))
    n = check_removals(ctx, r, I_, outs, 'slot notification', newstate, lambda s, e, evs: s.var.get(c))
    ctx.ob('coverage', 'slot notification: removals examined', n >= 4, str(n))
    n = 0
    for o in outs:
        if o.kind != 'ret' or o.st.var.get(c) != 'Finalized': continue
        s = o.st; evs = s.events()
        ps = [e for e in evs if e['kind'] == 'abc' and e['op'] == 'promote' and s.var.get(e['ret']) == 'Some']
        for j, e in enumerate(ps):
            pair = T('vf', e['ret'], 'Some', '0')
            pv = I_.proj(s, pair, ('f', '1'))
            if variant(I_, s, pv) != 'Some': continue
            upto = ps[j + 1]['seq'] if j + 1 < len(ps) else 1 << 60
            n += check_cleanup(ctx, r, I_, s, [x for x in evs if x['seq'] < upto], 'slot notification', I_.payload(s, pv, 'Some'), I_.proj(s, pair, ('f', '0')), e['seq'])
    ctx.ob('coverage', 'slot notification: owner changes examined', n >= 4, str(n))
    # what leaves the key index has no state any more; the key of a dropped account leaves the key index
    m = k = 0
    for o in outs:
        if o.kind != 'ret': continue
        s = o.st; evs = s.events()
        dels = [e for e in evs if e['kind'] == 'abc' and e['op'] == 'delete']
        rems = [e for e in evs if is_idx_mut(r, e, 'pidx') and e['op'][0] == 'rem']
        gets = [q for q in evs if q['kind'] == 'abc' and q['op'] == 'get' and variant(I_, s, q['c']) == 'Processed' and q['place'].a[1][:1] == r.path('store')]
        for e in rems:
            m += 1
            key = e['op'][1]
            ix = I_.proj(s, e['before'], ('at', key))
            atomic = any(q for q in gets if q['seq'] < e['seq'] and s.var.get(q['ret']) == 'None' and same(s, I_, q['place'].a[1][-1][1], ix))
            ctx.ob('cleanup', 'slot notification: a key is dropped only while its account has no states', atomic, lambda: pathdesc(s))
        for d0 in dels:
            pr = [p for p in evs if p['kind'] == 'abc' and p['op'] == 'promote' and p['place'] is d0['place'] and p['seq'] < d0['seq']]
            key = fld(I_.proj(s, T('vf', pr[-1]['ret'], 'Some', '0'), ('f', '0')), 'pubkey') if pr else None
            ix = d0['place'].a[1][-1][1]
            gone = any(key is not None and same(s, I_, e['op'][1], key) for e in rems)
            why = not s.bools.get(T('has', r.PIDX, key), True) or '=' not in s.rel(T('at', r.PIDX, key), ix) or any(s.var.get(q['ret']) == 'Some' and same(s, I_, q['place'].a[1][-1][1], ix) and q['seq'] > d0['seq'] for q in gets) if key else False
            k += 1
            ctx.ob('cleanup', 'slot notification: the key of a dropped account is dropped as well', gone or why, lambda: pathdesc(s))
    ctx.ob('coverage', 'slot notification: key removals examined', m >= 1 and k >= 2, '%d %d' % (m, k))

def P08_since(ctx):
    """contract of the look for newer states: found exactly if one of processed>=slot, confirmed, finalized satisfies the predicate"""
    bs = ctx.p.find('has_state_since', 'AccountDataByCommitment')
    if not bs: return
    I_ = ctx.interp(bounded=True, loop_exact=2)
    clo = T('sym', 'pred')
    n = 0
    from states import Pre
    st = State(); pre = Pre(I_, st)
    def hookcall(I2, st, fv, args, t, depth):
        return None
    slot = sym('slot')
    orig = I_.call_value
    def cv(st, fv, args, t, depth):
        v = fv
        while v.k == 'ptr': v = I_.lp(st, v)
        if v is clo: 
            a = I_.deep(st, args[0])
            return [Outcome('ret', st, T('call', 'pred', a))]
        return orig(st, fv, args, t, depth)
    I_.call_value = cv
    for o in ctx.explore(I_, bs[0], [selfp(), slot, clo], st):
        if o.kind != 'ret': continue
        s = o.st
        for s, rv in bool_cases(I_, s, o.val):
            facts = {v.a[1]: b for v, b in s.bools.items() if v.k == 'call' and v.a[0] == 'pred'}
            n += 1
            if rv: ctx.ob('cleanup', 'newer states: found only if one satisfies the predicate', any(b for k, b in facts.items() if allowed_state(s, pre, slot, k)), lambda: pathdesc(s))
            else:
                ok = True; why = ''
                for lv in (pre.C, pre.F):
                    for s2, vn, x in opt_cases(I_, s, lv):
                        if vn == 'Some' and facts.get(x) is not False: ok = False; why = show(lv)
                srcs = [x for x in {e['src'] for e in s.events() if e['kind'] == 'iterend'} if from_slot(I_, s, pre, slot, x)]
                # newest first up to the first one which is older than the slot
                if any(e['kind'] == 'elem' and e.get('rev') and e['src'] is pre.P and s.rel(e['key'], slot) == frozenset('<') for e in s.events()): srcs.append(pre.P)
                if not srcs and s.rel(T('len', pre.P), I(0)) != frozenset('='): ok = False; why = 'processed states from the slot'
                for e in s.events():
                    if e['kind'] == 'elem' and e['src'] in srcs and s.rel(e['key'], slot) != frozenset('<') and facts.get(T('at', pre.P, e['key'])) is not False: ok = False; why = show(e['key'])
                ctx.ob('cleanup', 'newer states: not found only if none satisfies the predicate', ok, lambda: why + ' not examined: ' + pathdesc(s))
    ctx.ob('coverage', 'newer states: outcomes examined', n >= 4, str(n))
def allowed_state(s, pre, slot, k):
    if k.k == 'vf' and k.a[0] in (pre.C, pre.F): return True
    return k.k == 'at' and '<' not in s.rel(k.a[1], slot)
def from_slot(I_, s, pre, slot, x):
    """every processed state from the slot on is among these"""
    if x is pre.P: return True
    if x.k != 'subrange' or x.a[0] is not pre.P: return False
    s = s.fork(); k = sym('any slot')
    return s.assume(k, slot, frozenset('=>')) and I_.m.range_facts(s, x.a[1], k) and s.rel(k, slot) == frozenset('=>')

# ------------------------------------------------------------------ P06
def install_walk(I_):
    """promotions only recorded: the walk over the slot table is what is examined"""
    def prom(I2, st, args, t, depth, f):
        p = I2.m.pp(st, args[0])
        st.event('abc', t.get('sp'), op='promote', place=p, acct=I2.lp(st, p), slot=I2.deep(st, args[1]), c=I2.deep(st, args[2]), ret=NONE)
        return I2.m.R(st, NONE)
    summary('AccountDataByCommitment', 'promote_slot_commitment', prom)(I_)

def chain_cases(I_, s, r, si, c, cv, limit):
    """complete: list of (state, chain) with chain = [(slot, parent, known, raised)] the slots a notification concerns, or None if too long"""
    res = []
    work = [(s, fld(si, 'slot'), Some(fld(si, 'parent')), [])]
    while work:
        s0, k, par, ch = work.pop()
        if len(ch) >= limit: res.append((s0, None)); continue
        seps = [(s0, True)]
        for k0, *_ in ch:
            w = []
            for s1, fresh in seps:
                for s2, rl in (rels(s1, k, k0) if fresh else [(s1, '=')]):
                    w.append((s2, fresh and rl != '='))
            seps = w
        for s1, fresh in seps:
            if not fresh: res.append((s1, None)); continue       # a cycle of parent links: not a slot history
            for s2, known in I_.decide(s1, T('has', r.SLOTS, k)):
                old = T('at', r.SLOTS, k); up = cv != 'Processed'
                if not known:
                    ch2 = ch + [(k, par, False, True)]
                    if up and par is not None: work.append((s2, k, None, ch2)) if False else work.append((s2, aggf(par, '0'), None, ch2))
                    else: res.append((s2, ch2))
                    continue
                for s3, m in commit_full(I_, s2, [c, fld(old, r.st_c)]):
                    raised = RANK[m[fld(old, r.st_c)]] < RANK[cv]
                    ch2 = ch + [(k, par, True, raised)]
                    if not raised or not up: res.append((s3, ch2)); continue
                    if par is not None: work.append((s3, aggf(par, '0'), None, ch2)); continue
                    for s4, vn, x in opt_cases(I_, s3, fld(old, r.st_p)):
                        if vn == 'None': res.append((s4, ch2))
                        else: work.append((s4, x, None, ch2))
    return res

def P06(ctx):
    le = 3 if ctx.tier == 'thorough' else 2
    n = 0; shapes = {}
    for cv in ('Processed', 'Confirmed', 'Finalized'):
        r = Roles(ctx)
        I_ = ctx.interp(summaries=[install_walk], max_states=8000000, loop_exact=le, bounded=True)
        si, c = sym('slot_info'), sym('commitment')
        st = State(); st.var[c] = cv
        outs = ctx.explore(I_, ctx.p.one('process_slot_data', S, TR), [selfp(), si, c], st)
        for o in outs:
            if o.kind == 'panic': ctx.ob('walk', 'no abnormal exit', False, lambda: str(o.why))
            if o.kind != 'ret': continue
            for s, ch in chain_cases(I_, o.st, r, si, c, cv, 6):
                if ch is None: continue
                n += 1
                key = '%s: %s' % (cv, ' '.join('%s%s' % ('known' if k else 'unknown', '+' if ra else '=') for _, _, k, ra in ch)); shapes[key] = shapes.get(key, 0) + 1
                walk_check(ctx, I_, s, r, c, cv, ch, o, fld(si, 'slot'))
    ctx.sample(dict(chains_of_slots_examined=shapes))
    ctx.ob('coverage', 'chains of slots examined', n >= 200 and len(shapes) >= 12, '%d %d' % (n, len(shapes)))
    # the newly visible states are returned
    r, I_, si, c, outs = run_process(ctx, bounded=True, upd_opaque=True)
    m = 0
    for o in outs:
        if o.kind == 'panic': ctx.ob('walk', 'no abnormal exit', False, lambda: str(o.why))
        if o.kind != 'ret': continue
        work = [(o.st, [])]
        for e in o.st.events():
            if e['kind'] == 'abc' and e['op'] == 'promote':
                work = [(s2, acc + ([I_.proj(s2, x, ('f', '0'))] if vn == 'Some' else [])) for s, acc in work for s2, vn, x in opt_cases(I_, s, e['ret'])]
        for s, want in work:
            m += 1
            got = items_of(o.val)
            ok = got is not None and len(got) == len(want) and all(any(same(s, I_, g, w) for g in got) for w in want)
            ctx.ob('walk', 'the newly visible states and no others are returned', ok, lambda: '%s expected %s: %s' % (o.val, want, pathdesc(s)))
    ctx.ob('coverage', 'returned states examined', m >= 20, str(m))

def walk_check(ctx, I_, s, r, c, cv, ch, o, slot0):
    evs = s.events() if s is not o.st else o.st.events()
    d = lambda: '%s chain %s: %s' % (cv, [(show(k)[-40:], kn, ra) for k, _, kn, ra in ch], pathdesc(s))
    tab = I_.load(s, ROOT, r.path('slots'))
    # forgotten slots
    rems = [e for e in evs if e['kind'] == 'mut' and e['place'].a[0] is ROOT and e['place'].a[1] == r.path('slots') and e['op'][0] == 'rem']
    for e in rems:
        ctx.ob('walk', 'slots are forgotten only by finalization', cv == 'Finalized', d)
        ctx.ob('walk', 'only slots older than the notified one are forgotten', s.rel(e['op'][1], slot0) == frozenset('<'), lambda: show(e['op'][1])[:200] + ' ' + d())
    if any(e['kind'] == 'mut' and e['place'].a[0] is ROOT and e['place'].a[1] == r.path('slots') and e['op'][0] not in ('rem', 'set') or e['kind'] == 'write' and e['root'] is ROOT and e['path'] == r.path('slots') for e in evs):
        K = T('sym', 'anyslot')
        ks = [(s.fork(), False)]
        for k, *_ in ch: ks = [(s2, q or rl == '=') for s1, q in ks for s2, rl in rels(s1, K, k)]
        for s0, inchain in ks:
            if inchain: continue
            for s1, x in I_.m.has(s0, r.SLOTS, K):
                for s2, y in I_.m.has(s1, tab, K):
                    if x and y: ctx.ob('walk', 'only the slot and its known ancestors change', same(s2, I_, T('at', r.SLOTS, K), I_.proj(s2, tab, ('at', K))), d)
                    elif y: ctx.ob('walk', 'only the slot and its known ancestors change', False, d)
                    elif x:
                        ctx.ob('walk', 'slots are forgotten only by finalization', cv == 'Finalized', d)
                        ctx.ob('walk', 'only slots older than the notified one are forgotten', s2.rel(K, slot0) == frozenset('<'), d)
    # entries of the chain
    for i, (k, par, known, raised) in enumerate(ch):
        old = T('at', r.SLOTS, k)
        who = 'slot' if i == 0 else 'ancestor'
        if any('=' in s.rel(e['op'][1], k) for e in rems): continue
        for s2, has in I_.m.has(s.fork(), tab, k):
            if not has:
                ctx.ob('walk', '%s: its status is remembered' % who, cv == 'Finalized' and i > 0 and (not known or s2.rel(k, slot0) == frozenset('<')), d); continue
            v = I_.load(s2, ROOT, r.path('slots', ('at', k)))
            gc, gp, ga = (I_.proj(s2, v, ('f', x)) for x in (r.st_c, r.st_p, r.st_a))
            if raised: ctx.ob('walk', '%s: raised to the level of the notification' % who, gc is c or variant(I_, s2, gc) == cv, d)
            else: ctx.ob('walk', '%s: its level never goes down' % who, same(s2, I_, gc, fld(old, r.st_c)), d)
            if par is not None: ctx.ob('walk', 'slot: its parent is remembered', same(s2, I_, gp, par), lambda: show(gp) + d())
            elif known: ctx.ob('walk', 'ancestor: its parent is unchanged', same(s2, I_, gp, fld(old, r.st_p)), lambda: show(gp) + d())
            else: ctx.ob('walk', 'ancestor: an unknown parent stays unknown', variant(I_, s2, gp) == 'None', d)
            if known and cv != 'Finalized': ctx.ob('walk', '%s: the accounts updated in it are kept' % who, same(s2, I_, ga, fld(old, r.st_a)) or ga is fld(old, r.st_a), lambda: show(ga) + d())
    # entries outside the chain
    keys = [k for k, *_ in ch]
    for e in evs:
        k = None
        if e['kind'] == 'mut' and e['op'][0] == 'set' and e['place'].a[0] is ROOT and e['place'].a[1] == r.path('slots'): k = e['op'][1]
        elif e['kind'] in ('write', 'mut') and len((e['path'] if e['kind'] == 'write' else e['place'].a[1])) >= 2:
            pa = e['path'] if e['kind'] == 'write' else e['place'].a[1]
            if (e['root'] if e['kind'] == 'write' else e['place'].a[0]) is ROOT and pa[:1] == r.path('slots') and pa[1][0] == 'at': k = pa[1][1]
        if k is not None: ctx.ob('walk', 'only the slot and its known ancestors change', any(s.rel(k, x) == frozenset('=') for x in keys), lambda: show(k) + d())
    # promotions
    want = [(s, [])]
    for k, par, known, raised in ch:
        if not (known and raised): continue
        src = fld(T('at', r.SLOTS, k), r.st_a)
        el = []
        for e in evs:
            if e['kind'] == 'elem' and same_src(I_, s, e['src'], src) and e['key'] not in el: el.append(e['key'])
        done = any(e['kind'] == 'iterend' and same_src(I_, s, e['src'], src) for e in evs)
        ctx.ob('walk', 'all the accounts updated in a slot of the chain are considered', done, d)
        for x in el:
            w = []
            for s1, acc in want:
                cur = [(s1, True)]
                for y, _ in acc:
                    cur = [(s3, rl != '=') if fresh else (s2, False) for s2, fresh in cur for s3, rl in (rels(s2, x, y) if fresh else [(s2, '=')])]
                for s2, fresh in cur: w.append((s2, acc + [(x, k)] if fresh else acc))
            want = w
    proms = [e for e in evs if e['kind'] == 'abc' and e['op'] == 'promote']
    locks = [e for e in evs if e['kind'] == 'acq' and e['place'].a[0] is ROOT and e['place'].a[1] == r.path('slots')]
    for s1, acc in want:
        left = list(acc); ok = True; bad = None
        for e in proms:
            pa = e['place'].a[1]
            ok1 = e['place'].a[0] is ROOT and len(pa) >= 2 and pa[0] == r.path('store')[0] and pa[1][0] == 'at'
            hit = [w for w in left if ok1 and s1.rel(w[0], pa[1][1]) == frozenset('=')]
            if not hit: ok = False; bad = 'promoted %s for slot %s although not expected' % (show(e['place'])[-80:], show(e['slot'])); break
            ctx.ob('walk', 'an account is promoted with the highest slot of the chain that updated it', s1.rel(hit[0][1], e['slot']) == frozenset('='), lambda: 'slot %s: %s' % (show(e['slot']), pathdesc(s1)))
            ctx.ob('walk', 'accounts are promoted to the level of the notification', e['c'] is c or variant(I_, s1, e['c']) == cv, d)
            left.remove(hit[0])
        ctx.ob('walk', 'every account updated in the slot and its known ancestors below the level is promoted once, and no other', ok and not left, lambda: '%s; not promoted: %s; %s' % (bad, [show(x)[-80:] for x, _ in left], pathdesc(s1)))
    if proms:
        ctx.ob('walk', 'slots are raised and their accounts collected in one critical section', len(locks) == 1 and all(
            any(h['id'] == locks[0]['id'] for h in held_at(evs, e['seq'])) for e in evs if e['kind'] == 'elem' and any(same_src(I_, s, e['src'], fld(T('at', r.SLOTS, k), r.st_a)) for k in keys)), d)
        ctx.ob('walk', 'slots are raised before their accounts are promoted', locks and locks[0]['seq'] < proms[0]['seq'], d)

def same_src(I_, s, a, b):
    while a.k == 'coll' and not a.a[1]: a = a.a[0]
    return a is b or (a.k == b.k and same(s, I_, a, b))

# ------------------------------------------------------------------ P04, P05 reads
def run_read(ctx, fn, args, le=1, **kw):
    r = Roles(ctx)
    I_ = ctx.interp(summaries=[install_abc], max_states=3000000, bounded=True, loop_exact=le, **kw)
    return r, I_, ctx.explore(I_, ctx.p.one(fn, S, TR), [selfp()] + args, State())

def items_of(v):
    """elements of a result collection built on this path, or None if not exact"""
    while v.k == 'coll' and v.a[0].k == 'coll': v = T('coll', v.a[0].a[0], v.a[0].a[1] + v.a[1])
    if v.k != 'coll' or v.a[0] is not EMPTY or any(o[0] != 'push' for o in v.a[1]): return None
    return [o[1] for o in v.a[1]]

def expected_results(I_, s, r, evs, program, flt, c, src):
    """complete: list of (state, [terms of the states that have to be returned])"""
    elems = []
    for e in evs:
        if e['kind'] == 'elem' and e['src'] is src and e['key'] not in elems: elems.append(e['key'])
    work = [(s, [])]
    for k in elems:
        acct = T('at', r.STORE, k)
        w = []
        for s0, acc in work:
            for s1, fv, fl in opt_cases(I_, s0, flt):
                q = T('call', 'state', acct, c) if fv == 'None' else T('call', 'fstate', acct, c, fl)
                for s2, vn, x in opt_cases(I_, s1, q):
                    if vn == 'None': w.append((s2, acc)); continue
                    for s3, lr in rels(s2, fld(x, 'account', 'lamports'), I(0)):
                        if lr == '=': w.append((s3, acc)); continue
                        for s4, orl in rels(s3, fld(x, 'account', 'owner'), program):
                            w.append((s4, acc + [x] if orl == '=' else acc))
        work = w
    return work

def gpa_paths(ctx, le):
    prog, flt, c = sym('program'), sym('filters'), sym('commitment')
    r, I_, outs = run_read(ctx, 'get_program_accounts', [prog, flt, c], le)
    return r, I_, outs, prog, flt, c

def covered_call(I_, s, r, prog, flt):
    """the decision of the configured filters about the query, or None"""
    for t, b in s.bools.items():
        if t.k == 'call' and t.a[0] == 'AccountFiltersStoreInterface::contains_filter' and t.a[1] is r.FLT:
            q = t.a[2]
            if q.k != 'agg': continue
            d = dict(q.a[2])
            pid = d.get('program_id'); fl = d.get('filters'); ac = d.get('accounts')
            if pid is None or fl is None or ac is None: continue
            if not (variant(I_, s, pid) == 'Some' and same(s, I_, I_.payload(s, pid, 'Some'), prog)): continue
            if not same(s, I_, fl, flt): continue
            if not (ac.k == 'coll' and ac.a[0] is EMPTY and not ac.a[1]): continue
            return b
    return None

def P05(ctx):
    r, I_, outs, prog, flt, c = gpa_paths(ctx, 3 if ctx.tier == 'thorough' else 2)
    src = T('at', r.OIDX, prog); n = lk = 0
    for o in outs:
        if o.kind == 'cut': continue
        s = o.st; evs = s.events()
        if o.kind != 'ret': ctx.ob('query', 'no abnormal exit', False, lambda: str(o.why)); continue
        cov = covered_call(I_, s, r, prog, flt)
        ctx.ob('query', 'the configured filters decide whether the query is covered', cov is not None, lambda: pathdesc(s))
        if cov is None: continue
        ok = variant(I_, s, o.val)
        if not cov:
            e = I_.payload(s, o.val, 'Err') if ok == 'Err' else None
            ctx.ob('query', 'a query that is not covered is an error', e is not None and variant(I_, s, e) == 'ConfigDoesnotContainRequiredFilters', lambda: '%s %s' % (o.val, pathdesc(s)))
            continue
        ctx.ob('query', 'a covered query is answered', ok == 'Ok', lambda: pathdesc(s))
        if ok != 'Ok': continue
        got = items_of(I_.payload(s, o.val, 'Ok'))
        for s1, has in I_.m.has(s.fork(), r.OIDX, prog):
            if not has:
                ctx.ob('query', 'nothing for a program without accounts', got == [], lambda: '%s %s' % (o.val, pathdesc(s1))); continue
            done = any(e['kind'] == 'iterend' and e['src'] is src for e in evs)
            ctx.ob('query', 'all the accounts indexed under the program are visited', done, lambda: pathdesc(s1))
            if not done: continue
            if any(e['kind'] == 'trylockfail' for e in evs): lk += 1
            for s2, want in expected_results(I_, s1, r, evs, prog, flt, c, src):
                n += 1
                g = got or []
                extra = [x for x in g if not any(same(s2, I_, x, w) for w in want)]
                miss = [w for w in want if not any(same(s2, I_, x, w) for x in g)]
                ctx.ob('query', 'every matching account is returned', got is not None and not miss, lambda: 'missing %s: %s' % (miss, pathdesc(s2)))
                ctx.ob('query', 'only matching accounts are returned', got is not None and not extra, lambda: 'not allowed %s: %s' % (extra, pathdesc(s2)))
                ctx.ob('query', 'an account is returned once', got is not None and len(g) == len(want) or bool(miss or extra), lambda: pathdesc(s2))
    ctx.ob('coverage', 'queries examined', n >= 60 and lk >= 10, '%d %d' % (n, lk))

def P04(ctx):
    r, I_, outs, prog, flt, c = gpa_paths(ctx, 1)
    n = 0
    def live(what, s, x):
        ctx.ob('deleted', '%s: a deleted account is not returned' % what, s.rel(fld(x, 'account', 'lamports'), I(0)) == frozenset('>'), lambda: '%s: %s' % (show(x), pathdesc(s)))
    for o in outs:
        if o.kind != 'ret' or variant(I_, o.st, o.val) != 'Ok': continue
        g = items_of(I_.payload(o.st, o.val, 'Ok'))
        ctx.ob('deleted', 'query: the result is built from the states of accounts', g is not None, lambda: show(o.val))
        for x in g or []: n += 1; live('query', o.st, x)
        # liveness at the requested level alone decides
        src = T('at', r.OIDX, prog)
        for s2, want in expected_results(I_, o.st, r, o.st.events(), prog, flt, c, src):
            ctx.ob('deleted', 'query: an account live at the level is returned', all(any(same(s2, I_, x, w) for x in g or []) for w in want), lambda: pathdesc(s2))
    pk = sym('pk')
    r, I_, outs = run_read(ctx, 'get_account', [pk, c])
    for o in outs:
        if o.kind != 'ret': continue
        v = I_.payload(o.st, o.val, 'Ok') if variant(I_, o.st, o.val) == 'Ok' else None
        if v is None: continue
        q = T('call', 'state', T('at', r.STORE, T('at', r.PIDX, pk)), c)
        for s, vn, x in opt_cases(I_, o.st, v):
            if vn == 'Some': n += 1; live('read', s, x); continue
            if not all(b for _, b in I_.m.has(s.fork(), r.PIDX, pk)): continue
            for s2, sv, sx in opt_cases(I_, s, q):
                if sv == 'Some': ctx.ob('deleted', 'read: an account live at the level is returned', s2.rel(fld(sx, 'account', 'lamports'), I(0)) == frozenset('='), lambda: pathdesc(s2))
    r, I_, outs = run_read(ctx, 'create_snapshot', [prog])
    for o in outs:
        if o.kind != 'ret': continue
        for e in events(o, 'call'):
            if 'serialize' not in e['fn']: continue
            g = items_of(e['args'][0])
            ctx.ob('deleted', 'snapshot: the content is built from the states of accounts', g is not None, lambda: show(e['args'][0]))
            for x in g or []: n += 1; live('snapshot', o.st, x)
    ctx.ob('coverage', 'returned states examined', n >= 5, str(n))

# ------------------------------------------------------------------ P31 snapshots
def P31(ctx):
    prog = sym('program')
    r, I_, outs = run_read(ctx, 'create_snapshot', [prog], 2)
    fin = T('agg', r.adt_c, 'Finalized', ())
    n = 0
    for o in outs:
        s = o.st; evs = s.events()
        if o.kind != 'ret': 
            # the only abnormal exit allowed is a failure of the serialisation of accounts in memory
            ctx.ob('snapshot', 'create: no abnormal exit', any(t.k == 'call' and 'serialize' in t.a[0] and v == 'Err' for t, v in s.var.items()), lambda: str(o.why)); continue
        cov = covered_call(I_, s, r, prog, NONE)
        ctx.ob('snapshot', 'create: the configured filters decide whether the program is covered', cov is not None, lambda: pathdesc(s))
        ok = variant(I_, s, o.val)
        if not cov: ctx.ob('snapshot', 'create: an error for a program that is not covered', ok == 'Err', lambda: pathdesc(s)); continue
        sr = [e for e in evs if e['kind'] == 'call' and 'serialize' in e['fn']]
        ctx.ob('snapshot', 'create: the serialised accounts are returned', ok == 'Ok' and len(sr) == 1 and same(s, I_, I_.payload(s, o.val, 'Ok'), T('vf', sr[0]['ret'], 'Ok', '0')), lambda: show(o.val))
        if not sr: continue
        got = items_of(sr[0]['args'][0])
        src = T('at', r.OIDX, prog)
        for s1, has in I_.m.has(s.fork(), r.OIDX, prog):
            if has: ctx.ob('snapshot', 'create: all the accounts indexed under the program are visited', any(e['kind'] == 'iterend' and e['src'] is src for e in evs), lambda: pathdesc(s1))
            for s2, want in expected_results(I_, s1, r, evs, prog, NONE, fin, src):
                n += 1
                ctx.ob('snapshot', 'create: exactly the live finalized states of the program', got is not None and len(got) == len(want) and all(any(same(s2, I_, x, w) for x in got) for w in want), lambda: '%s / %s: %s' % (got, want, pathdesc(s2)))
    snap = sym('snapshot')
    r = Roles(ctx)
    I_ = ctx.interp(bounded=True, loop_exact=2)
    def upd(I2, st, args, t, depth, f):
        a = [I2.deep(st, x) for x in args[1:]]
        rv = T('ret', 'update', T('int', st.fresh()))
        st.event('upd', t.get('sp'), data=a[0], c=a[1] if len(a) > 1 else None)
        return I2.m.R(st, rv)
    summary(S, 'update_account', upd)(I_)
    m = 0
    for o in ctx.explore(I_, ctx.p.one('load_from_snapshot', S, TR), [selfp(), prog, snap], State()):
        if o.kind == 'cut': continue
        s = o.st; evs = s.events()
        if o.kind != 'ret': ctx.ob('snapshot', 'load: no abnormal exit', False, lambda: str(o.why)); continue
        de = [e for e in evs if e['kind'] == 'call' and 'deserialize' in e['fn'] and e['args'][0] is snap]
        ctx.ob('snapshot', 'load: the given bytes are decoded', len(de) == 1, lambda: pathdesc(s))
        if not de: continue
        for s1, vn, x in opt_cases(I_, s, de[0]['ret'], RES):
            if vn == 'Err': ctx.ob('snapshot', 'load: undecodable bytes are an error', variant(I_, s1, o.val) == 'Err', lambda: pathdesc(s1)); continue
            ctx.ob('snapshot', 'load: succeeds otherwise', variant(I_, s1, o.val) == 'Ok', lambda: pathdesc(s1))
            el = [T('at', x, e['key']) for e in evs if e['kind'] == 'elem' and e['src'] is x]
            us = [e for e in evs if e['kind'] == 'upd']
            m += len(us)
            ctx.ob('snapshot', 'load: every account is stored as finalized', any(e['kind'] == 'iterend' and e['src'] is x for e in evs) and len(us) == len(el) and all(u['data'] is a and variant(I_, s1, u['c']) == 'Finalized' for u, a in zip(us, el)),
                   lambda: '%s: %s' % ([(show(u['data']), show(u['c'])) for u in us], pathdesc(s1)))
    ctx.ob('coverage', 'snapshot contents examined', n >= 6 and m >= 2, '%d %d' % (n, m))
