"""Summaries of the per-account state operations (their contracts are decided by P01-P03, P08) used when analysing their callers."""
from lib import *
ABC = 'AccountDataByCommitment'

def cond_sig(I_, st, clo, t, depth, subj):
    """meaning of a predicate over a state: {frozenset(facts)} for which it holds, with the subject as *S"""
    I2 = I_
    outs = []
    s0 = st.fork()
    tr0 = s0.trace
    sigs = []
    for o in I2.call_value(s0, clo, [I2.ref(s0, subj)], t, depth):
        if o.kind != 'ret': continue
        for s, b in I2.decide(o.st, o.val):
            tr = []; c = s.trace
            while c is not None and c is not tr0: tr.append(c[1]); c = c[0]
            sigs.append((frozenset(('' if v else '!') + show(f) for f, v in tr), b, s))
    return sigs

def install_abc(I_):
    R = lambda st, v=UNIT: I_.m.R(st, v)
    def acct(st, a):
        p = I_.m.pp(st, a); return p, I_.lp(st, p)
    def get(I2, st, args, t, depth, f):
        p, v = acct(st, args[0])
        r = T('call', 'state', v, I2.deep(st, args[1]))
        st.event('abc', t.get('sp'), op='get', place=p, acct=v, c=r.a[2], ret=r)
        return R(st, r)
    def getf(I2, st, args, t, depth, f):
        p, v = acct(st, args[0])
        r = T('call', 'fstate', v, I2.deep(st, args[1]), I2.deep(st, args[2]))
        st.event('abc', t.get('sp'), op='getf', place=p, acct=v, c=r.a[2], filters=r.a[3], ret=r)
        return R(st, r)
    def upd(I2, st, args, t, depth, f):
        p, v = acct(st, args[0])
        d, c = I2.deep(st, args[1]), I2.deep(st, args[2])
        r = T('call', 'upd', v, d, c)
        st.event('abc', t.get('sp'), op='update', place=p, acct=v, data=d, c=c, ret=r, held=held(st))
        I2.store(st, p.a[0], p.a[1], T('updated', v, d, c))
        return R(st, r)
    def prom(I2, st, args, t, depth, f):
        p, v = acct(st, args[0])
        sl, c = I2.deep(st, args[1]), I2.deep(st, args[2])
        r = T('call', 'prom', v, sl, c)
        st.event('abc', t.get('sp'), op='promote', place=p, acct=v, slot=sl, c=c, ret=r)
        I2.store(st, p.a[0], p.a[1], T('promoted', v, sl, c))
        return R(st, r)
    def new(I2, st, args, t, depth, f):
        d, c = I2.deep(st, args[0]), I2.deep(st, args[1])
        r = T('call', 'abcnew', d, c)
        st.event('abc', t.get('sp'), op='new', data=d, c=c, ret=r, held=held(st))
        return R(st, r)
    def init(I2, st, args, t, depth, f):
        d = I2.deep(st, args[0])
        adt = next(k for k in I2.p.adts if k.endswith('commitment::Commitment'))
        c = T('agg', adt, 'Finalized', ())
        r = T('call', 'abcnew', d, c)
        st.event('abc', t.get('sp'), op='new', data=d, c=c, ret=r, held=held(st))
        return R(st, r)
    def dele(I2, st, args, t, depth, f):
        p, v = acct(st, args[0])
        st.event('abc', t.get('sp'), op='delete', place=p, acct=v)
        I2.store(st, p.a[0], p.a[1], T('abcdeleted'))
        return R(st)
    def since(I2, st, args, t, depth, f):
        p, v = acct(st, args[0])
        sl = I2.deep(st, args[1])
        subj = T('newerstate', v)
        sig = cond_sig(I2, st, args[2], t, depth, subj)
        key = '|'.join(sorted('%s=>%s' % (','.join(sorted(fs)), b) for fs, b, _ in sig))
        r = T('call', 'since', v, sl, T('str', key))
        SIGS[r] = sig
        st.event('abc', t.get('sp'), op='since', place=p, acct=v, slot=sl, ret=r)
        return R(st, r)
    for nm, fn in (('get_account_data', get), ('get_account_data_filtered', getf), ('update', upd), ('promote_slot_commitment', prom), ('new', new), ('initialize', init), ('delete', dele), ('has_state_since', since)):
        summary(ABC, nm, fn)(I_)
SIGS = {}
def held(st):
    """locks held: list of acquire events not yet released"""
    h = {}
    for e in st.events():
        if e['kind'] == 'acq': h[e['id']] = e
        elif e['kind'] == 'rel': h.pop(e['id'], None)
    return list(h.values())
