"""Token program accounts which are not finalized yet: P23 what becomes of an update, P24 slots decide which state is seen."""
from lib import *
from store import field_of
from tokmain import Roles as Base, S, TR, ROOT, install_ts, install_part, TS, opt_same

class Roles(Base):
    def __init__(s, ctx):
        super().__init__(ctx)
        s.slots = field_of(ctx, 'ProcessedAccountStore', r'Map<u64, ')
        s.accs = field_of(ctx, 'ProcessedAccountBySlot', r'Map<[^<>]*Pubkey, ')
        s.parent = field_of(ctx, 'ProcessedAccountBySlot', r'Option<u64>')
        s.state = field_of(ctx, 'ProcessedAccount', r'TokenProgramAccountType')
        s.wv = field_of(ctx, 'ProcessedAccount', r'^u64$')
        s.by_slot = next(k for k in ctx.p.adts if k.endswith('::ProcessedAccountBySlot'))
        s.acc = next(k for k in ctx.p.adts if k.endswith('::ProcessedAccount'))
        s.info = next(k for k in ctx.p.adts if k.endswith('::SlotInfo'))
        s.commitment = next(k for k in ctx.p.adts if k.endswith('commitment::Commitment'))
        s.adata = next(k for k in ctx.p.adts if k.endswith('::account_data::AccountData'))
        ats = [n for n, t in ctx.p.adts[next(k for k in ctx.p.adts if k.endswith('::' + S))]['variants'][0]['fields'] if re.search(r'AtomicU64|Atomic<u64>', t)]
        s.marks = {n: n for n in ats}
        s.confirmed = next((n for n in ats if 'confirm' in n), None); s.finalized = next((n for n in ats if 'final' in n), None)
        if not s.confirmed or not s.finalized: raise MissingAnchor('the confirmed and the finalized slot of ' + S)
    def all(s): return (('f', s.processed), ('f', s.slots))
    def at(s, slot, *rest): return s.all() + (('at', slot),) + rest
    def entry(s, accs, parent):
        return agg(s.by_slot, '', **{s.accs: T('coll', EMPTY, tuple(('set', k, v) for k, v in accs)), s.parent: NONE if parent is None else Some(parent)})

def one_sig(ctx, rx_ret, rx_first, n=2):
    """workspace functions by what they take and give"""
    out = []
    for key, b in ctx.p.b.items():
        if not b['local'] or not key.startswith('lite_token') or b['argc'] < 1 or '{closure' in key: continue
        if re.search(rx_ret, b['locals'][0]['ty']['s']) and re.fullmatch(rx_first, b['locals'][1]['ty']['s']): out.append(b)
    return out

def install_kinds(ctx, I_, r):
    """stored <-> given accounts (P22): whether a stored account can be shown, and what a given one is taken for, stays open"""
    show_ = one_sig(ctx, r'Option<[\w:]*AccountData>', r'&[\w:]*TokenProgramAccountType')
    take = one_sig(ctx, r'Result<[\w:]*TokenProgramAccountType', r'&[\w:]*AccountData')
    if not show_ or not take: raise MissingAnchor('conversions between given and stored token program accounts')
    for b in show_:
        I_.hooks[b['key']] = lambda I2, st, f, args, t, depth: I2.m.R(st, T('shown', eta(st, I2, args[0]), args[1]))
    for b in take:
        def h(I2, st, f, args, t, depth):
            a = eta(st, I2, args[0])
            st.event('taken', t.get('sp'), account=a)
            s = st.fork(); s.event('refused', t.get('sp'), account=a)
            return I2.m.R(st, agg(RES, 'Ok', **{'0': T('taken', a)})) + I2.m.R(s, agg(RES, 'Err', **{'0': T('sym', 'error')}))
        I_.hooks[b['key']] = h
    def fin(I2, st, args, t, depth, f):
        st.event('fin', t.get('sp'), account=eta(st, I2, args[1])); return I2.m.R(st, B(True))
    ctx.p.one('add_account_finalized', S); summary(S, 'add_account_finalized', fin)(I_)
    summary(S, 'get_account_finalized', lambda I2, st, args, t, depth, f: I2.m.R(st, T('finalized', eta(st, I2, args[1]))))(I_)

def slot_interp(ctx, r, **kw):
    kw.setdefault('max_states', 3000000)
    I_ = ctx.interp(bounded=True, **kw); install_ts(I_); install_part(I_); install_kinds(ctx, I_, r); return I_

def marks(I_, st, r): return [I_.load(st, ROOT, (('f', n),)) for n in (r.confirmed, r.finalized)]

def P24(ctx):
    r = Roles(ctx); I_ = slot_interp(ctx, r, loop_exact=6, keep=True)
    run_slot = ctx.p.one('process_slot_data', S, TR); get = ctx.p.one('get_account', S, TR)
    k1, k2 = sym('key1'), sym('key2')
    a, b, c = sym('slot_a'), sym('slot_b'), sym('slot_c'); old = sym('older'); new = sym('newer')
    acc = {}
    for k, kn in ((k1, '1'), (k2, '2')):
        for s, sn in ((a, 'a'), (b, 'b'), (c, 'c')):
            acc[k, s] = agg(r.acc, '', **{r.state: sym('account%s%s' % (kn, sn)), r.wv: sym('version%s%s' % (kn, sn))})
    def content(pres, parents):
        return {s: ([(k, acc[k, s]) for k in p], parents[s]) for s, p in zip((a, b, c), pres)}
    def start(cont, confirmed=None):
        st = State()
        order = [old, a, b, c, new]
        for x, y in zip(order, order[1:]): st.assume(x, y, frozenset('<'))
        st.assume(k1, k2, frozenset('<>'))
        I_.store(st, ROOT, r.all(), T('coll', EMPTY, tuple(('set', s, r.entry(*e)) for s, e in cont.items() if e is not None)))
        if confirmed is not None: I_.store(st, ROOT, (('f', r.confirmed),), confirmed)
        return st
    def shown(x, s): return T('shown', I_.proj(State(), x, ('f', r.state)), s)
    rank = {old: 0, a: 1, b: 2, c: 3, new: 4}
    def chain(cont, s):
        seen = []
        while s in cont and cont[s] is not None:
            seen.append(s); p = cont[s][1]
            if p is None or rank[p] >= rank[s]: break
            s = p
        return seen
    def desc(cont): return ', '.join('%s{%s parent %s}' % (show(s), ' '.join(show(k) for k, _ in e[0]), show(e[1]) if e[1] else '-') for s, e in cont.items() if e)
    sets1 = [(), (k1,)]; sets2 = [(), (k1,), (k2,), (k1, k2)]
    wf = [{a: pa, b: pb, c: pc} for pa in (None, old) for pb in (None, a) for pc in (None, a, b)]
    odd = [{a: a, b: a, c: b}, {a: c, b: a, c: b}, {a: None, b: b, c: b}, {a: new, b: c, c: a}]
    # --- reading
    n = 0
    for parents in wf + odd:
        for pa in sets1:
            for pb in sets1:
                for pc in sets1:
                    cont = content((pa, pb, pc), parents)
                    for cs in (old, a, b, c, new):
                        for level in ('Processed', 'Confirmed'):
                            st = start(cont, cs)
                            for o in ctx.explore(I_, get, [selfp(), k1, agg(r.commitment, level)], st):
                                why = lambda: '%s %s for %s, confirmed %s: %s %s' % (o.kind, o.why or '', desc(cont), show(cs), show(o.val)[:200] if o.val is not None else '', pathdesc(o.st))
                                n += 1
                                if not ctx.ob('reads', '%s: an answer is found' % level, o.kind == 'ret' and variant(I_, o.st, o.val) == 'Ok', why): continue
                                got = I_.payload(o.st, o.val, 'Ok')
                                order = [s for s in (c, b, a) if rank[s] > rank[cs]] if level == 'Processed' else []
                                order += [s for s in chain(cont, cs) if s not in order]
                                hit = next((s for s in order if any(k is k1 for k, _ in cont[s][0])), None)
                                want = shown(acc[k1, hit], hit) if hit is not None else T('finalized', k1)
                                ctx.ob('reads', '%s: %s' % (level, 'the newest state of a slot which is not confirmed, else of the confirmed chain' if level == 'Processed' else 'the newest state of the confirmed slot and its ancestors'), got is want, why)
    # --- slot notifications
    quick = ctx.tier == 'quick'
    for parents in wf[:6] + [odd[0], odd[2]]:
        for pa in sets2[::3]:
            for pb in sets2[::3] + sets2[1:2] if quick else sets2:
                for pc in sets2[2:] if quick else sets2:
                    cont = content((pa, pb, pc), parents)
                    for f in (a, b, c, new):
                        for par in [x for x in (old, a, b, c) if rank[x] < rank[f]] + ([f] if parents is odd[0] else []):
                            info = agg(r.info, '', slot=f, parent=par, root=sym('root'))
                            after = dict(cont); after[f] = (cont[f][0] if f in cont else [], par)
                            for level in ('Processed', 'Confirmed', 'Finalized'):
                                if level != 'Finalized' and (pa or parents is not wf[0]): continue
                                st = start(cont)
                                for o in ctx.explore(I_, run_slot, [selfp(), info, agg(r.commitment, level)], st):
                                    s = o.st
                                    why = lambda: '%s %s slot %s parent %s, %s: %s; %s' % (o.kind, o.why or '', show(f), show(par), desc(cont), show(o.val)[:300] if o.val is not None else '', pathdesc(s))
                                    n += 1
                                    if not ctx.ob('slots', '%s: comes to an end' % level, o.kind == 'ret', why): continue
                                    slot_checks(ctx, r, I_, s, o.val, level, f, cont, after, chain, shown, rank, why)
    ctx.ob('coverage', 'reads and notifications examined', n >= 1500, str(n))

def slot_checks(ctx, r, I_, s, val, level, f, cont, after, chain, shown, rank, why):
    fins = [e['account'] for e in s.events() if e['kind'] == 'fin']
    conf, fin = marks(I_, s, r); conf0, fin0 = fld(sym('self'), r.confirmed), fld(sym('self'), r.finalized)
    up = lambda now, was: now is was and '<' not in s.rel(was, f) or now is f and '>' not in s.rel(was, f)
    ctx.ob('slots', '%s: the confirmed slot only rises' % level, up(conf, conf0) if level == 'Confirmed' else conf is conf0 or up(conf, conf0) and level == 'Finalized', lambda: '%s %s' % (show(conf), why()))
    ctx.ob('slots', '%s: the finalized slot only rises' % level, up(fin, fin0) if level == 'Finalized' else fin is fin0, lambda: '%s %s' % (show(fin), why()))
    newest = {}
    if level == 'Finalized':
        for sl in chain(after, f):
            for k, v in after[sl][0]: newest.setdefault(k, (v, sl))
    want = [I_.proj(s, v, ('f', r.state)) for v, _ in newest.values()]
    ctx.ob('slots', '%s: %s' % (level, 'the newest state of every account along the chain is stored once' if level == 'Finalized' else 'nothing is stored as finalized'),
           len(fins) == len(want) and set(fins) == set(want), lambda: 'stored %s: %s' % ([show(x) for x in fins], why()))
    # what is told
    told = [shown(v, sl) for v, sl in newest.values()] if level == 'Finalized' else [shown(v, f) for _, v in after[f][0]] if level == 'Confirmed' else []
    told = [I_.payload(s, x, 'Some') for x in told if variant(I_, s, x) == 'Some' or variant(I_, s, x) is None]
    got = [o[1] for o in val.a[1]] if val.k == 'coll' and val.a[0] is EMPTY and all(o[0] == 'push' for o in val.a[1]) else None
    ctx.ob('slots', '%s: %s' % (level, {'Processed': 'no account is told', 'Confirmed': 'every account of the slot is told', 'Finalized': 'the accounts stored are told'}[level]),
           got is not None and len(got) == len(told) and set(got) == set(told), lambda: 'told %s wanted %s: %s' % (show(val)[:200], [show(x) for x in told], why()))
    # what remains
    left = dict(after) if level != 'Finalized' else {x: e for x, e in after.items() if rank[x] > rank[f]}
    v = I_.load(s, ROOT, r.all()); ex = I_.m.exact_map(s, v)
    if not ctx.ob('slots', '%s: the slots which remain are known' % level, ex is not None, lambda: show(v)[:300]): return
    ctx.ob('slots', '%s: %s' % (level, 'all slots up to the finalized one are dropped, newer ones stay' if level == 'Finalized' else 'no slot is dropped'), {k for k, _ in ex} == set(left), lambda: 'left %s: %s' % ([show(k) for k, _ in ex], why()))
    for k, e in ex:
        if k not in left: continue
        p = I_.proj(s, e, ('f', r.parent)); wp = left[k][1]
        okp = variant(I_, s, p) == ('None' if wp is None else 'Some') and (wp is None or same(s, I_, I_.payload(s, p, 'Some'), wp))
        ctx.ob('slots', '%s: the parent of a slot is the one told last' % level, okp, lambda: '%s: %s' % (show(p), why()))
        ac = I_.m.exact_map(s, I_.proj(s, e, ('f', r.accs)))
        ctx.ob('slots', '%s: the accounts of the remaining slots stay' % level, ac is not None and dict((x, y) for x, y in ac) == dict(left[k][0]), lambda: '%s: %s' % (ac, why()))

# ------------------------------------------------------------------ P23
def P23(ctx):
    r = Roles(ctx); I_ = slot_interp(ctx, r, loop_exact=2)
    upd = ctx.p.one('update_account', S, TR); ini = ctx.p.one('initilize_or_update_account', S, TR)
    data = sym('data'); K = fld(data, 'pubkey'); slot = fld(data, 'updated_slot'); wv = fld(data, 'write_version')
    own = fld(data, 'account', 'owner')
    ours = [T('const', 'spl_token::ID'), T('const', 'spl_token_2022::ID')]
    q, other = sym('other_key'), sym('other_slot')
    n = 0
    kept = agg(r.acc, '', **{r.state: sym('stored_account'), r.wv: sym('stored_version')})
    alien = agg(r.acc, '', **{r.state: sym('other_account'), r.wv: sym('other_version')})
    par = sym('parent')
    for has_slot in (False, True):
        for has_key in ((False, True) if has_slot else (False,)):
            for elsewhere in (False, True):
                for b, level in [(upd, x) for x in ('Processed', 'Confirmed', 'Finalized')] + [(ini, None)]:
                    st = State(); st.assume(K, q, frozenset('<>')); st.assume(slot, other, frozenset('<>'))
                    here = ([(q, alien)] if has_slot else []) + ([(K, kept)] if has_key else [])
                    there = [(q, alien)] + ([(K, kept)] if elsewhere else [])
                    I_.store(st, ROOT, r.all(), T('coll', EMPTY, ((('set', slot, r.entry(here, par)),) if has_slot else ()) + (('set', other, r.entry(there, None)),)))
                    known0 = has_key or elsewhere
                    args = [selfp(), data] + ([agg(r.commitment, level)] if level else [])
                    for o in ctx.explore(I_, b, args, st):
                        s = o.st; nm = level or 'initial state'
                        why = lambda: '%s %s when %s%s%s: %s %s' % (o.kind, o.why or '', 'slot known' if has_slot else 'slot unknown', ', has a state there' if has_key else '', ', has a state in another slot' if elsewhere else '', show(o.val)[:60] if o.val is not None else '', pathdesc(s))
                        ctx.ob('updates', '%s: no abnormal exit' % nm, o.kind == 'ret', why)
                        if o.kind != 'ret': continue
                        n += 1
                        evs = s.events()
                        fins = [e['account'] for e in evs if e['kind'] == 'fin']
                        taken = [e for e in evs if e['kind'] == 'taken']
                        ok = T('taken', data)
                        now = I_.m.exact_map(s, I_.load(s, ROOT, r.all()))
                        if not ctx.ob('updates', '%s: the stored states are known' % nm, now is not None, why): continue
                        cont = {k: dict(I_.m.exact_map(s, I_.proj(s, e, ('f', r.accs))) or ()) for k, e in now}
                        pars = {k: I_.proj(s, e, ('f', r.parent)) for k, e in now}
                        # everything else is as it was
                        rest = {k: {x: y for x, y in v.items() if not (k is slot and x is K)} for k, v in cont.items()}
                        want = {**({slot: dict(x for x in here if x[0] is not K)} if has_slot or slot in cont else {}), other: dict(there)}
                        if not has_slot and slot in cont: want[slot] = {}
                        ctx.ob('updates', '%s: other accounts and slots are untouched' % nm, rest == want, lambda: '%s: %s' % (rest, why()))
                        ctx.ob('updates', '%s: parents of slots are untouched' % nm, variant(I_, s, pars[other]) == 'None' and (slot not in pars or (same(s, I_, I_.payload(s, pars[slot], 'Some'), par) if has_slot else variant(I_, s, pars[slot]) == 'None')), why)
                        ctx.ob('updates', '%s: slot notifications are not anticipated' % nm, marks(I_, s, r) == [fld(sym('self'), r.confirmed), fld(sym('self'), r.finalized)], why)
                        mine = cont.get(slot, {}).get(K)
                        mine0 = kept if has_key else None
                        # is it one of the program's accounts?
                        for s1, rec in recognised(I_, s, r, K, own, ours, known0):
                            w1 = lambda: '%s, %s' % ('recognised' if rec else 'foreign', why())
                            if not rec:
                                ctx.ob('updates', '%s: an account of another program is refused' % nm, (level is None or same(s1, I_, o.val, B(False))) and not taken and not fins and mine is mine0, w1); continue
                            if not ctx.ob('updates', '%s: an account of the token programs is looked at' % nm, bool(taken) and all(e['account'] is data for e in taken), w1): continue
                            good = verdict(I_, s1)
                            if not good:
                                ctx.ob('updates', '%s: what cannot be understood is refused' % nm, (level is None or same(s1, I_, o.val, B(False))) and not fins and mine is mine0, w1); continue
                            if level in (None, 'Finalized'):
                                ctx.ob('updates', '%s: stored as finalized' % nm, fins == [ok] and mine is mine0, w1)
                                if level: ctx.ob('updates', '%s: accepted' % nm, same(s1, I_, o.val, B(True)), w1)
                                continue
                            ctx.ob('updates', '%s: not stored as finalized' % nm, not fins, w1)
                            take = True
                            if has_key:
                                rr = s1.rel(wv, sym('stored_version'))
                                if not ctx.ob('updates', '%s: the write versions are compared' % nm, rr == frozenset('>') or '>' not in rr, w1): continue
                                take = rr == frozenset('>')
                            if take: good = mine is not None and same(s1, I_, I_.proj(s1, mine, ('f', r.state)), ok) and same(s1, I_, I_.proj(s1, mine, ('f', r.wv)), wv)
                            else: good = mine is mine0
                            ctx.ob('updates', '%s: %s' % (nm, 'a newer state of the slot is stored with its version' if take else 'an older state does not replace a newer one'), good, w1)
                            ctx.ob('updates', '%s: tells whether it is stored' % nm, same(s1, I_, o.val, B(take)), w1)
    ctx.ob('coverage', 'updates examined', n >= 60, str(n))

def recognised(I_, s, r, K, own, ours, processed):
    """complete: list of (state, is the account one of the token programs')"""
    out = []; work = [(s.fork(), processed)]
    for c in ours:
        work = [(s2, rec or e) for s1, rec in work for s2, e in (I_.decide(s1, I_.cmp(s1, 'Eq', own, c)) if not rec else [(s1, True)])]
    for coll_ in (fld(sym('self'), r.midx), fld(sym('self'), r.msigs), T('sym', 'TS')):
        work = [(s2, rec or e) for s1, rec in work for s2, e in (I_.m.has(s1, coll_, K) if not rec else [(s1, True)])]
    return work
def verdict(I_, s):
    """the conversion succeeded on this path"""
    return not any(e['kind'] == 'refused' for e in s.events())
