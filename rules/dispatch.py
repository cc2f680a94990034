"""StorageByProgramId: P17 dispatch of every operation."""
from lib import *
from store import field_of
S = 'StorageByProgramId'
TR = 'AccountStorageInterface'
OPS = (('update_account', ('data', 'c')), ('initilize_or_update_account', ('data',)), ('get_account', ('pk', 'c')),
       ('get_program_accounts', ('program', 'filters', 'c')), ('process_slot_data', ('slot_info', 'c')),
       ('create_snapshot', ('program',)), ('load_from_snapshot', ('program', 'snapshot')))

class Run:
    def __init__(s, ctx, op, args):
        me = sym('self')
        s.MAP = fld(me, field_of(ctx, S, r'Map<.*Pubkey, .*dyn .*AccountStorageInterface'))
        s.DEF = fld(me, field_of(ctx, S, r'^(?!.*Map<).*dyn .*AccountStorageInterface'))
        s.I = ctx.interp(bounded=True, loop_exact=3 if ctx.tier == 'thorough' else 2)
        s.a = [sym(x) for x in args]; s.op = op
        s.outs = []
        for o in ctx.explore(s.I, ctx.p.one(op, S, TR), [selfp()] + s.a, State()):
            if o.kind == 'cut': continue
            ctx.ob('dispatch', '%s: no abnormal exit' % op, o.kind == 'ret', lambda: '%s %s' % (o.why, pathdesc(o.st)))
            if o.kind == 'ret': s.outs.append(o)
    def calls(s, ctx, o):
        """(calls to registered storages, calls to the default), everything else is wrong"""
        cs = [e for e in o.st.events() if e['kind'] == 'call' and e['virt']]
        reg, dfl = [], []
        for e in cs:
            x = e['args'][0]
            ok = e['fn'].endswith('AccountStorageInterface::' + s.op) and len(e['args']) == len(s.a) + 1 and all(same(o.st, s.I, p, q) for p, q in zip(e['args'][1:], s.a))
            ctx.ob('dispatch', '%s: the operation is passed on with the same arguments' % s.op, ok, lambda: '%s %s' % (e['fn'], str(e['args'])[:300]))
            if x is s.DEF: dfl.append(e)
            elif x.k == 'at' and x.a[0] is s.MAP: reg.append(e)
            else: ctx.ob('dispatch', '%s: only the configured storages are used' % s.op, False, lambda: show(x))
        ctx.ob('dispatch', '%s: no storage is used twice' % s.op, len(dfl) <= 1 and len({e['args'][0] for e in reg}) == len(reg), lambda: pathdesc(o.st))
        return reg, dfl
    def all_of(s, o, reg):
        """the registered storages called are all there are"""
        n = T('len', s.MAP)
        lim = T('int', len(reg))
        return all(e['args'][0].a[1].k in ('elem', 'first') for e in reg) and '>' not in o.st.rel(n, lim)

def holds_all(st, v, parts):
    """v is the concatenation, in some order, of the given lists"""
    if v.k != 'coll': return len(parts) == 1 and v is parts[0]
    got = {}                       # part -> 'all' or set of positions
    base, log = v.a
    if base is not EMPTY: got[base] = 'all'
    for x in log:
        if x[0] == 'ext' and x[1] not in got: got[x[1]] = 'all'
        elif x[0] == 'push' and x[1].k == 'at' and isinstance(got.setdefault(x[1].a[0], set()), set) and x[1].a[1] not in got[x[1].a[0]]: got[x[1].a[0]].add(x[1].a[1])
        else: return False
    if any(k not in parts for k in got): return False
    for p in parts:
        g = got.get(p, set())
        if g == 'all': continue
        if '>' in st.rel(T('len', p), T('int', len(g))): return False
    return len(set(parts)) == len(parts)

def P17(ctx):
    n = 0
    for op, args in OPS:
        r = Run(ctx, op, args); I_ = r.I; a = r.a
        for o in r.outs:
            n += 1
            reg, dfl = r.calls(ctx, o); st = o.st
            d = lambda: '%s returns %s: %s' % ([show(e['args'][0])[:80] for e in reg + dfl], show(o.val)[:200], pathdesc(st))
            if op == 'update_account':
                ctx.ob('dispatch', 'update_account: every registered storage sees the update', r.all_of(o, reg), d)
                cases = [(st.fork(), [])]
                for e in reg + dfl: cases = [(s2, bs + [b]) for s, bs in cases for s2, b in bool_cases(I_, s, e['ret'])]
                for s, bs in cases:
                    for s2, own in has_cases(I_, s, r.MAP, fld(a[0], 'account', 'owner')):
                        if own and '=' in s2.rel(T('len', r.MAP), T('int', 0)) and len(s2.rel(T('len', r.MAP), T('int', 0))) == 1: continue
                        d2 = lambda: '%s owner registered: %s; %s' % (bs, own, pathdesc(s2))
                        if not (own and any(bs[:len(reg)])): ctx.ob('dispatch', 'update_account: the default storage gets what no storage is responsible for', bool(dfl), d2)
                        else: ctx.ob('dispatch', 'update_account: an update taken by the storage of its owner does not go to the default storage', not dfl, d2)
                        for s3, v in bool_cases(I_, s2, o.val):
                            ctx.ob('dispatch', 'update_account: reports whether a storage changed', v == any(bs), lambda: '%s: %s' % (v, d2()))
            elif op in ('initilize_or_update_account', 'get_program_accounts', 'create_snapshot', 'load_from_snapshot'):
                key = fld(a[0], 'account', 'owner') if op.startswith('init') else a[0]
                for s, has in has_cases(I_, st, r.MAP, key):
                    want = [T('at', r.MAP, key)] if has else [r.DEF]
                    ctx.ob('dispatch', '%s: goes to the storage of the program or else to the default one' % op, [e['args'][0] for e in reg + dfl] == want, lambda: 'registered: %s; %s' % (has, d()))
                    if op != 'initilize_or_update_account' and len(reg + dfl) == 1:
                        ctx.ob('dispatch', '%s: the result is returned' % op, same(s, I_, o.val, (reg + dfl)[0]['ret']), d)
            elif op == 'get_account':
                found = [e for e in reg + dfl if st.var.get(T('vf', e['ret'], 'Ok', '0')) == 'Some']
                seq = sorted(reg + dfl, key=lambda e: e['seq'])
                if found and found[0] in reg:
                    hit = [e for e in reg if same(st, I_, o.val, e['ret']) or o.val.k == 'agg' and o.val.a[1] == 'Ok' and same(st, I_, aggf(o.val, '0'), T('vf', e['ret'], 'Ok', '0'))]
                    ctx.ob('dispatch', 'get_account: what a storage holds is returned', any(e in found for e in hit), d)
                else:
                    # something of a registered storage is returned only when it holds the account
                    ctx.ob('dispatch', 'get_account: every registered storage is asked before the default one', r.all_of(o, reg), d)
                    ctx.ob('dispatch', 'get_account: no storage that may hold the account is passed over', all(st.var.get(e['ret']) == 'Err' or st.var.get(T('vf', e['ret'], 'Ok', '0')) == 'None' for e in reg), d)
                    ctx.ob('dispatch', 'get_account: otherwise the answer of the default storage is returned', len(dfl) == 1 and same(st, I_, o.val, dfl[0]['ret']), d)
            else:
                ctx.ob('dispatch', 'process_slot_data: every storage is notified', r.all_of(o, reg) and len(dfl) == 1, d)
                ok = holds_all(st, o.val, [e['ret'] for e in reg + dfl])
                ctx.ob('dispatch', 'process_slot_data: the updates of all storages are returned', ok, d)
            ctx.ob('dispatch', '%s: nothing else is done' % op, not [e for e in st.events() if e['kind'] == 'mut' and e['place'].a[0].k == 'obj'], d)
    ctx.ob('coverage', 'operations examined', n >= 12, str(n))
