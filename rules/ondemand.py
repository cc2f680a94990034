"""AccountsOnDemand: P13 every end of a load wakes the waiters, P14 single load and bounded waiting, P15 filter registered before
loading, P16 forwarding."""
from lib import *
from store import field_of, held_at
S = 'AccountsOnDemand'
TR = 'AccountStorageInterface'
READS = {'get_account', 'get_program_accounts'}

class Roles:
    def __init__(s, ctx):
        me = sym('self')
        s.src = field_of(ctx, S, r'dyn .*AccountsSourceInterface'); s.SRC = fld(me, s.src)
        s.sto = field_of(ctx, S, r'dyn .*AccountStorageInterface'); s.STO = fld(me, s.sto)
        s.flt = field_of(ctx, S, r'MutableFilterStore'); s.FLT = fld(me, s.flt)

def is_cv(st, v):
    """v is (a shared pointer to) a condition variable made on this path"""
    return v.k == 'ptr' and v.a[0].k == 'root' and st.heap.get(v.a[0], UNIT).k == 'condvar'
def relock(I_, st, old, hv):
    """other threads may change everything but the markers set here (nobody else removes them: checked by P14)"""
    kept = []
    if old.k == 'coll':
        for op in old.a[1]:
            if op[0] == 'set' and is_cv(st, op[2]): kept = [k for k in kept if k[1] is not op[1]] + [op]
            elif op[0] == 'rem': kept = [k for k in kept if k[1] is not op[1]]
    return T('coll', hv, tuple(kept)) if kept else hv

def install_filters(I_, r):
    """the filter store: contains what was added on the path, otherwise anything"""
    R = lambda st, v=UNIT: I_.m.R(st, v)
    def mine(I2, st, a): return I2.deep(st, a) is r.FLT
    def add(I2, st, args, t, depth, f):
        st.event('addfilter', t.get('sp'), filters=I2.deep(st, args[1]), mine=mine(I2, st, args[0]))
        return R(st)
    def check(I2, st, args, t, depth, f):
        x = I2.deep(st, args[1])
        known = False
        for e in st.events():
            if e['kind'] == 'addfilter' and e['mine']:
                for q in (o[1] for o in (e['filters'].a[1] if e['filters'].k == 'coll' else ()) if o[0] == 'push'):
                    if q.k != 'agg': continue
                    ac = aggf(q, 'accounts')
                    if f['name'] == 'contains_account': known |= ac.k == 'coll' and any(o[0] == 'push' and o[1] is x for o in ac.a[1])
                    else: known |= same(st, I2, q, x)
            if e['kind'] == 'filtercheck' and e['arg'] is x and e['fn'] == f['name'] and st.bools.get(e['ret']): known = True
        v = TRUE if known else T('ret', f['name'], T('int', st.fresh()), x)
        st.event('filtercheck', t.get('sp'), fn=f['name'], arg=x, ret=v, mine=mine(I2, st, args[0]))
        return R(st, v)
    for n in ('add_account_filters',): summary('MutableFilterStore', n, add)(I_)
    for n in ('contains_account', 'contains_filter'): summary('MutableFilterStore', n, check)(I_)

OPS = (('get_account', ('pk', 'c')), ('get_program_accounts', ('program', 'filters', 'c')))
class Path:
    def __init__(s, I_, o, r, op, after=0):
        s.o = o; s.st = o.st; s.evs = [e for e in o.st.events() if e['seq'] > after]
        ev = lambda k: [e for e in s.evs if e['kind'] == k]
        calls = ev('call')
        s.subs = [e for e in calls if 'AccountsSourceInterface::subscribe' in e['fn']]
        s.snaps = [e for e in calls if 'AccountsSourceInterface::save_snapshot' in e['fn']]
        s.reads = [e for e in calls if 'AccountStorageInterface::' in e['fn'] and e['fn'].split('::')[-1] == op]
        s.adds = ev('addfilter'); s.checks = ev('filtercheck'); s.waits = ev('condwait'); s.notes = ev('notify')
        s.sets = [e for e in ev('mut') if e['op'][0] == 'set' and is_cv(s.st, e['op'][2])]
        s.acqs = ev('acq'); s.rels = ev('rel')
    def desc(s): return pathdesc(s.st)

def explore(ctx, op, args, **kw):
    r = Roles(ctx)
    I_ = ctx.interp(bounded=True, loop_exact=1, **kw)
    install_filters(I_, r)
    b = ctx.p.one(op, S, TR)
    a = [sym(x) for x in args]
    outs = ctx.explore(I_, b, [selfp()] + a, State())
    return r, I_, b, a, [Path(I_, o, r, op) for o in outs if o.kind in ('ret', 'panic')], sum(o.kind == 'cut' for o in outs)

def marker_map(ctx, ps):
    """place of the map of loads in progress and the key used for the request"""
    places = {e['place'] for p in ps for e in p.sets}
    if len(places) != 1: raise MissingAnchor('the map of loads in progress (found %d)' % len(places))
    return places.pop()

def marker_ops(p, M):
    return [e for e in p.evs if e['kind'] == 'mut' and e['place'] is M]

def outcome(I_, p):
    """'Ok' | 'Err' | the storage read that is returned"""
    v = p.o.val
    for e in reversed(p.reads):
        if same(p.st, I_, v, e['ret']): return 'read', e
    if v.k == 'agg' and v.a[1] == 'Ok':
        for e in reversed(p.reads):
            if same(p.st, I_, aggf(v, '0'), T('vf', e['ret'], 'Ok', '0')): return 'read', e
        return 'Ok', None
    if v.k == 'agg' and v.a[1] == 'Err': return 'Err', aggf(v, '0')
    return 'other', None

def res_of(st, e): return st.var.get(e['ret'])

def P13(ctx):
    n = 0
    for op, args in OPS:
        r, I_, b, a, ps, cut = explore(ctx, op, args, relock=relock)
        M = marker_map(ctx, ps)
        for p in ps:
            if not p.sets: continue
            if any(e['op'][0] == 'rem' and e.get('present') is False for e in marker_ops(p, M)): continue
            n += 1
            s = p.sets[0]; key, cv = s['op'][1], s['op'][2]
            gone = not any(x for _, x in I_.m.has(p.st.fork(), I_.lp(p.st, M), key))
            ctx.ob('load-end', '%s: the marker of the load is removed on every end of it' % op, gone, lambda: '%s returns %s: %s' % (p.o.kind, p.o.val, p.desc()))
            rem = [e for e in marker_ops(p, M) if e['op'][0] == 'rem' and e['op'][1] is key and e['seq'] > s['seq']]
            if not rem: continue
            lk = [h for h in held_at(p.evs, s['seq']) if h['place'] is M]
            shared = not lk or any(x['id'] == lk[0]['id'] and s['seq'] < x['seq'] < rem[0]['seq'] for x in p.rels)
            if shared:
                def good(e):
                    q = e['place']
                    while q.k == 'ptr' and p.st.heap.get(q.a[0]) is not None and I_.lp(p.st, q).k == 'ptr': q = I_.lp(p.st, q)
                    return e['which'] == 'notify_all' and (q is cv or I_.lp(p.st, q) is p.st.heap.get(cv.a[0])) and (e['seq'] > rem[0]['seq'] or any(h['place'] is M and any(g['id'] == h['id'] for g in held_at(p.evs, rem[0]['seq'])) for h in held_at(p.evs, e['seq'])))
                ctx.ob('load-end', '%s: every waiter is woken after the marker is removed' % op, any(good(e) for e in p.notes), lambda: '%s: %s' % ([e['which'] for e in p.notes], p.desc()))
            for e in p.subs + p.snaps:
                if res_of(p.st, e) == 'Err': ctx.ob('load-end', '%s: a failure of the source is an error' % op, outcome(I_, p)[0] == 'Err', lambda: '%s: %s' % (p.o.val, p.desc()))
        # a later request loads again after a failure
        r, I_, b, a, ps, cut = explore(ctx, op, args)
        def again(s0, w):
            nonlocal n
            mark = s0.n
            for o2 in ctx.explore(I_, b, [selfp()] + a, s0):
                if o2.kind != 'ret': continue
                q = Path(I_, o2, r, op, mark)
                early = [e for e in q.reads if not q.acqs or e['seq'] < q.acqs[0]['seq']]
                if any(res_of(q.st, e) == 'Err' or q.st.var.get(T('vf', e['ret'], 'Ok', '0')) == 'Some' for e in early): continue
                # someone else registered the filter in the meantime
                if any(x['ret'] is not TRUE and q.st.bools.get(x['ret']) for x in q.checks): continue
                n += 1
                ctx.ob('load-end', ('%s: after a failed load a later request loads again %s' % (op, w)).strip(), bool(q.subs) and not q.waits, lambda: 'later request: %s' % q.desc())
        for p in ps:
            if p.o.kind != 'ret' or not any(res_of(p.st, e) == 'Err' for e in p.subs + p.snaps): continue
            # a load of something else comes to an end in between
            a2 = [sym(x + '2') for x in args[:-1]] + a[-1:]
            s1 = p.st.fork(); s1.assume(a[0], a2[0], frozenset('<>')); mark1 = s1.n
            for o1 in ctx.explore(I_, b, [selfp()] + a2, s1):
                q1 = Path(I_, o1, r, op, mark1)
                if o1.kind != 'ret' or not q1.snaps or q1.waits or any(res_of(q1.st, e) == 'Err' for e in q1.subs + q1.snaps): continue
                again(o1.st.fork(), 'also when another load ended well in between')
            again(p.st.fork(), '')
    ctx.ob('coverage', 'ends of loads examined', n >= 12, str(n))

def mentions(st, I_, v, x, d=0):
    if v is x: return True
    if d > 12: return False
    if isinstance(v, tuple): return any(mentions(st, I_, y, x, d + 1) for y in v)
    if not isinstance(v, T): return False
    if v.k in ('ptr', 'guard'):
        w = I_.deep(st, v)
        return w is not v and mentions(st, I_, w, x, d + 1)
    return any(mentions(st, I_, y, x, d + 1) for y in v.a)

def marker_absent(I_, st, content, key):
    return not any(x for _, x in I_.m.has(st.fork(), content, key))

def P14(ctx):
    n = w = 0
    for op, args in OPS:
        r, I_, b, a, ps, cut = explore(ctx, op, args, relock=relock)
        M = marker_map(ctx, ps)
        keys = {}
        for p in ps:
            for e in p.sets: keys[p.st.var.get(a[1]) if op != 'get_account' else None] = e['op'][1]
        for p in ps:
            if p.o.kind == 'panic': ctx.ob('single-load', '%s: no abnormal exit' % op, False, lambda: str(p.o.why)); continue
            n += 1
            own = None
            for e in p.evs:
                if e['kind'] == 'mut' and e['place'] is M:
                    if e['op'][0] == 'set':
                        ctx.ob('single-load', '%s: a load is started only while none is in progress' % op, e.get('present') is False and any(h['place'] is M for h in held_at(p.evs, e['seq'])), p.desc)
                        own = e; k0 = e['op'][1]; st = p.st
                        if op == 'get_account': whole = mentions(st, I_, k0, a[0])
                        else: whole = mentions(st, I_, k0, a[0]) and (st.var.get(a[1]) == 'None' or mentions(st, I_, k0, I_.payload(st, a[1], 'Some')) or mentions(st, I_, k0, a[1]))
                        ctx.ob('single-load', '%s: a load is marked with the whole request, whatever the commitment' % op, whole and not mentions(st, I_, k0, a[-1]), lambda: '%s: %s' % (show(k0), p.desc()))
                        lk = [h for h in held_at(p.evs, e['seq']) if h['place'] is M]
                        ck = [x for x in p.checks if lk and lk[-1]['seq'] < x['seq'] < e['seq'] and x['mine']]
                        again = any(t.k == 'has' and v and t.a[0] is not M for t, v in p.st.bools.items())
                        ctx.ob('single-load', '%s: what is known already is looked up before a load is started' % op, bool(ck) or again, p.desc)
                    elif e['op'][0] == 'rem':
                        ctx.ob('single-load', '%s: only the loading request ends the load' % op, own is not None and own['op'][1] is e['op'][1] or e.get('present') is False, p.desc)
                    else: ctx.ob('single-load', '%s: only the loading request ends the load' % op, False, lambda: str(e['op'])[:100] + p.desc())
                if e in p.subs or e in p.snaps:
                    inprog = own is not None and not any(x['op'][0] == 'rem' and own['seq'] < x['seq'] < e['seq'] for x in marker_ops(p, M))
                    ctx.ob('single-load', '%s: the source is asked only by the request holding the marker' % op, inprog, p.desc)
            ctx.ob('single-load', '%s: at most one subscription and one load per request' % op, len(p.subs) <= 1 and len(p.snaps) <= 1, p.desc)
            # waiting
            for e in p.waits:
                w += 1
                ctx.ob('wait', '%s: waits have a time limit' % op, 'timeout' in e['which'] and e['dur'] is not None and not any(x is not e and x['dur'] is e['dur'] for x in p.waits), lambda: '%s %s' % (e['which'], p.desc()))
                ctx.ob('wait', '%s: waits release the map of loads' % op, e['guard'].k == 'guard' and e['guard'].a[1] is M, lambda: show(e['guard']))
            kind, rd = outcome(I_, p)
            key = keys.get(p.st.var.get(a[1]) if op != 'get_account' else None)
            if p.waits and not p.subs:
                timed = timed_out(p)
                if timed: ctx.ob('wait', '%s: fails with a timeout error when the wait times out' % op, kind == 'Err' and show(rd).startswith('OperationTimeOut'), lambda: '%s: %s' % (p.o.val, p.desc()))
                else:
                    ctx.ob('wait', '%s: answered from the storage once the load it waited for is over' % op, kind == 'read' and rd['seq'] > p.waits[-1]['seq'], lambda: '%s: %s' % (p.o.val, p.desc()))
                    over = marker_absent(I_, p.st, I_.lp(p.st, M), key) or any(t.k == 'ptreq' and v is False for t, v in p.st.bools.items())
                    ctx.ob('wait', '%s: a waiting request goes on only when the load is over' % op, over, p.desc)
                continue
            if kind == 'read':
                acq = [e for e in p.acqs if e['place'] is M]
                if not acq or rd['seq'] < acq[0]['seq']:
                    if op == 'get_account': ok = p.st.var.get(T('vf', rd['ret'], 'Ok', '0')) == 'Some' or res_of(p.st, rd) == 'Err'
                    else: ok = False
                    ctx.ob('fresh', '%s: nothing is answered as missing without looking for a load in progress' % op, ok, p.desc)
                elif not p.sets:
                    ctx.ob('fresh', '%s: answered from the storage only while no load of it is in progress' % op, marker_absent(I_, p.st, I_.lp(p.st, M), key), p.desc)
                    ctx.ob('fresh', '%s: answered from the storage without a load only when it is known' % op, any(x['mine'] and (x['ret'] is TRUE or p.st.bools.get(x['ret'])) for x in p.checks), p.desc)
                else:
                    ctx.ob('fresh', '%s: answered from the storage after the load' % op, bool(p.snaps) and rd['seq'] > p.snaps[-1]['seq'], p.desc)
            elif kind != 'Err': ctx.ob('fresh', '%s: the answer is what the storage returns' % op, False, lambda: '%s: %s' % (p.o.val, p.desc()))
            else:
                ok = any(res_of(p.st, e) == 'Err' for e in p.subs + p.snaps + p.reads)
                ctx.ob('fresh', '%s: an error is returned only for a failure' % op, ok, lambda: '%s: %s' % (p.o.val, p.desc()))
            if rd is not None and kind == 'read':
                ctx.ob('fresh', '%s: the storage is asked for what was requested' % op, rd['args'][0] is r.STO and all(same(p.st, I_, x, y) for x, y in zip(rd['args'][1:], a)), lambda: str(rd['args']))
    ctx.ob('coverage', 'requests examined', n >= 20 and w >= 4, '%d %d' % (n, w))

def timed_out(p):
    """did the last wait end by its time limit on this path"""
    for e in reversed(p.evs):
        if e['kind'] == 'waitres': return e['timeout'].a[0] if e['timeout'].k == 'bool' else p.st.bools.get(e['timeout'], False)
    return False

def filter_desc(I_, st, v):
    """list of AccountFilter aggregates in a filter list value"""
    if v.k != 'coll' or v.a[0] is not EMPTY or any(o[0] != 'push' for o in v.a[1]): return None
    return [o[1] for o in v.a[1]]
def covers(I_, st, op, a, v):
    fs = filter_desc(I_, st, v)
    if fs is None or len(fs) != 1 or fs[0].k != 'agg': return False
    f = fs[0]; ac, pr, fl = aggf(f, 'accounts'), aggf(f, 'program_id'), aggf(f, 'filters')
    if op == 'get_account':
        return ac.k == 'coll' and ac.a[0] is EMPTY and [o[1] for o in ac.a[1] if o[0] == 'push'] == [a[0]] and variant(I_, st, pr) == 'None' and variant(I_, st, fl) == 'None'
    return ac.k == 'coll' and ac.a[0] is EMPTY and not ac.a[1] and variant(I_, st, pr) == 'Some' and I_.payload(st, pr, 'Some') is a[0] and same(st, I_, fl, a[1])

def P15(ctx):
    n = 0
    for op, args in OPS:
        r, I_, b, a, ps, cut = explore(ctx, op, args, relock=relock)
        for p in ps:
            if p.o.kind != 'ret': continue
            st = p.st
            for e in p.snaps:
                n += 1
                sub = [x for x in p.subs if x['seq'] < e['seq'] and res_of(st, x) == 'Ok']
                ctx.ob('order', '%s: updates are subscribed before the data is loaded' % op, bool(sub), p.desc)
                add = [x for x in p.adds if x['seq'] < e['seq'] and x['mine'] and covers(I_, st, op, a, x['filters'])]
                ctx.ob('order', '%s: the filter is registered before the data is loaded' % op, bool(add), lambda: '%s: %s' % ([show(x['filters']) for x in p.adds], p.desc()))
                ctx.ob('order', '%s: exactly what was requested is loaded, into the wrapped storage' % op, e['args'][0] is r.SRC and e['args'][1] is r.STO and covers(I_, st, op, a, e['args'][2]), lambda: str(e['args'])[:600])
            for e in p.subs:
                if op == 'get_account':
                    v = e['args'][1]
                    ok = e['fn'].endswith('subscribe_accounts') and v.k == 'coll' and v.a[0] is EMPTY and all(o[0] == 'add' and o[1] is a[0] for o in v.a[1]) and bool(v.a[1])
                else: ok = e['fn'].endswith('subscribe_program_accounts') and e['args'][1] is a[0] and same(st, I_, e['args'][2], a[1])
                ctx.ob('order', '%s: exactly what was requested is subscribed' % op, ok and e['args'][0] is r.SRC, lambda: str(e['args'])[:600])
                if op == 'get_account':
                    have = [x for x in p.reads if x['seq'] < e['seq'] and st.var.get(T('vf', x['ret'], 'Ok', '0')) == 'Some']
                    ctx.ob('known', '%s: an account that is stored already is not requested from the source' % op, not have, p.desc)
                ctx.ob('order', '%s: nothing is registered or loaded when the subscription fails' % op, res_of(st, e) != 'Err' or not p.adds and not p.snaps, p.desc)
            for x in p.adds:
                ctx.ob('order', '%s: a filter is registered only for what is loaded' % op, bool(p.snaps) and any(y['seq'] < x['seq'] for y in p.subs) and covers(I_, st, op, a, x['filters']), p.desc)
            kind, rd = outcome(I_, p)
            if p.subs and kind == 'read':
                ctx.ob('order', '%s: a successful load has loaded the data' % op, any(res_of(st, e) == 'Ok' for e in p.snaps), p.desc)
        # a request for known data asks the source nothing
        r, I_, b, a, ps, cut = explore(ctx, op, args)
        for p in ps:
            if p.o.kind != 'ret' or not p.snaps or any(res_of(p.st, e) == 'Err' for e in p.subs + p.snaps): continue
            s0 = p.st.fork(); mark = s0.n
            for o2 in ctx.explore(I_, b, [selfp()] + a, s0):
                if o2.kind != 'ret': continue
                q = Path(I_, o2, r, op, mark); n += 1
                ctx.ob('known', '%s: what was loaded is not requested from the source again' % op, not q.subs and not q.snaps and not q.waits, lambda: 'later request: %s' % q.desc())
    ctx.ob('coverage', 'loads examined', n >= 10, str(n))

FORWARD = (('update_account', ('data', 'c')), ('initilize_or_update_account', ('data',)), ('process_slot_data', ('slot_info', 'c')), ('create_snapshot', ('program',)), ('load_from_snapshot', ('program', 'snapshot')))
def P16(ctx):
    r = Roles(ctx); n = 0
    for op, args in FORWARD:
        I_ = ctx.interp(bounded=True)
        install_filters(I_, r)
        a = [sym(x) for x in args]
        for o in ctx.explore(I_, ctx.p.one(op, S, TR), [selfp()] + a, State()):
            if o.kind == 'cut': continue
            n += 1
            d = lambda: '%s: %s' % (o.val, pathdesc(o.st))
            evs = o.st.events()
            calls = [e for e in evs if e['kind'] == 'call' and e['virt']]
            ok = o.kind == 'ret' and len(calls) == 1 and calls[0]['fn'].endswith('AccountStorageInterface::' + op) and calls[0]['args'][0] is r.STO
            ctx.ob('forward', '%s: forwarded once to the wrapped storage' % op, ok, lambda: '%s %s' % ([e['fn'] for e in calls], d()))
            if not ok: continue
            ctx.ob('forward', '%s: with the same arguments' % op, len(calls[0]['args']) == len(a) + 1 and all(same(o.st, I_, x, y) for x, y in zip(calls[0]['args'][1:], a)), lambda: str(calls[0]['args'])[:300])
            if op != 'initilize_or_update_account':
                ctx.ob('forward', '%s: its result is returned' % op, same(o.st, I_, o.val, calls[0]['ret']), d)
            ctx.ob('forward', '%s: nothing else is done' % op, not [e for e in evs if e['kind'] == 'mut' and e['place'].a[0].k == 'obj'] and not [e for e in evs if e['kind'] == 'addfilter'], d)
    ctx.ob('coverage', 'forwarded operations examined', n >= 5, str(n))
