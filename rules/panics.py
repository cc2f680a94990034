"""P12: no operation panics because something it looks up is absent."""
from lib import *
from locks import lock_relevant, TRAITS, GUARDTY, callees
from store_sum import install_abc
CONV = re.compile(r'\bAccountData\b|\bTokenProgramAccountType\b')
OWN = re.compile(r'^p\d+$')

def last_fact(st): return st.trace[1] if st.trace else (None, None)

def from_own_index(t, d=0):
    """a position read from a collection that is part of the storage itself (its indexes)"""
    if d > 10 or not isinstance(t, T): return False
    if t.k in ('at', 'elem', 'relem', 'first', 'last'): return rooted(t.a[0])
    if t.k in ('fld', 'vf', 'cast'): return from_own_index(t.a[0], d + 1)
    return False
def rooted(t, d=0):
    """part of what the first parameter refers to, through at least one field"""
    n = 0
    while isinstance(t, T) and t.k in ('fld', 'at', 'vf', 'elem', 'relem', 'first', 'last', 'obj', 'ptr', 'coll', 'upd', 'cast'):
        n += t.k == 'fld'; t = t.a[0]
    return n > 0 and isinstance(t, T) and t.k == 'sym' and t.a[0] == 'p0'
def lib_call(t):
    while isinstance(t, T) and t.k in ('vf', 'fld'): t = t.a[0]
    return isinstance(t, T) and t.k in ('call', 'ret') and '::' in str(t.a[0]) and not str(t.a[0]).startswith(('lite_', 'crate')) and 'Interface' not in str(t.a[0])

def cause(st):
    """('data'|'internal'|'lookup', description) of the fact that led to a panic"""
    f, val = last_fact(st)
    if f is None: return 'lookup', 'always'
    desc = ('' if val else 'not ') + show(f)
    if f.k == 'is':
        if f.a[1] in ('Err', 'None') and lib_call(f.a[0]): return 'data', desc
        return 'lookup', desc
    if f.k == 'cmp':
        a, b = f.a[1], f.a[2]
        for x, y in ((a, b), (b, a)):
            if x.k == 'len':
                if y.k != 'int' and from_own_index(y) and rooted(x.a[0]): return 'internal', desc     # positions kept by the indexes: P05, P25
                if y.k == 'int' and x.a[0].k in ('at', 'elem', 'first', 'last') and rooted(x.a[0]): return 'internal', desc   # stored encodings are never empty: P20
                return 'lookup', desc
        if any(isinstance(x, T) and x.k == 'len' for x in (a, b)): return 'lookup', desc
        return 'value', desc
    return 'lookup', desc

def P12(ctx):
    p = ctx.p
    ws, hot, edges = lock_relevant(p)
    conv = {k for k, b in ws.items() if '{closure' not in k and CONV.search(b['locals'][0]['ty']['s']) and b['name'] != 'clone'}
    ncall = {}
    for k in ws:
        for x in edges.get(k, ()): ncall[x] = ncall.get(x, 0) + (x != k)
    # a part of one operation that was given a name of its own is judged with what that operation guarantees
    # (as far as the number of paths allows)
    single = {k for k in conv if ncall.get(k) == 1 and not ws[k].get('trait')}
    # functions that only compute a value; one that changes what it is given is part of the operation
    cold = {k for k in ws if k not in hot and not any('&mut' in ws[k]['locals'][i + 1]['ty']['s'] for i in range(ws[k]['argc']))}
    ABCT = re.compile('AccountDataByCommitment')
    ents = sorted(k for k, b in ws.items() if '{closure' not in k and '__static_ref' not in k and b['name'] != 'clone' and k in hot
                  and not any(GUARDTY.search(b['locals'][i]['ty']['s']) for i in range(b['argc'] + 1)))
    # a helper that is always analysed as part of its callers needs no analysis without what they guarantee
    inlined = set()
    for k in ents:
        inlined |= {x for x in edges[k] if x != k}
    n = sites = 0; separate = set()
    def reach(k):
        seen, todo = set(), [k]
        while todo:
            for x in edges.get(todo.pop(), ()):
                if x not in seen: seen.add(x); todo.append(x)
        return seen
    later = [k for k in ents if k in single]; todo = [k for k in ents if k not in single]
    while todo or any(k in separate for k in later):
        if not todo: todo = [k for k in later if k in separate]; later = [k for k in later if k not in separate]
        k = todo.pop(0); b = ws[k]
        tr = b.get('trait', '').split('::')[-1]
        if tr not in TRAITS and ('::account_filter::' in k or '::account_data::' in k): continue     # conversions of configuration and data: P21, P30
        if k in inlined and k not in conv and tr not in TRAITS: continue
        mine = single & reach(k) - {k}
        plan = [(le, mx, set()) for le in (2, 1) for mx in (30000,) if mine] + [(le, 30000 if ctx.tier == 'quick' and le > 1 else 400000, mine) for le in ((2, 1) if ctx.tier == 'quick' else (3, 2, 1))]
        for le, mx, sep in plan:
            opq = (cold | conv) - {k} - (single - separate - sep)
            I_ = ctx.interp(bounded=True, loop_exact=le, max_states=mx, opaque=opq, summaries=[install_abc] if ABCT.search(str(b.get('self'))) is None else None)
            args = [obj('p%d' % i) if b['locals'][i + 1]['ty'].get('refs') else sym('p%d' % i) for i in range(b['argc'])]
            try: outs = ctx.explore(I_, b, args, State()); separate |= sep; break
            except Budget:
                if (le, mx, sep) == plan[-1]: raise
        nm = '%s::%s' % (short((b.get('self') or {}).get('s', k.split('::')[-2])), b['name'])
        n += 1
        if os.environ.get('DBG'): print(nm, le, I_.count, len(outs), flush=True)
        bad = []
        for o in outs:
            if o.kind == 'panic':
                c, d = cause(o.st); sites += 1
                if os.environ.get('DBG'): print('    ', c, d[:200], pathdesc(o.st)[-200:] if c == 'lookup' else '')
                ctx.ob('absent', '%s: no panic for something absent' % nm, c != 'lookup', lambda: '%s because %s: %s' % (o.why, d, pathdesc(o.st)))
            else: ctx.ob('absent', '%s: no panic for something absent' % nm, True)
            for e in o.st.events():
                if e['kind'] != 'index' or e['ix'].k == 'int': continue
                base = I_.lp(o.st, e['base']); ln = I_.m.length(o.st, base)
                ok = o.st.rel(e['ix'], ln) == frozenset('<') or from_own_index(e['ix']) and rooted(base)
                ctx.ob('absent', '%s: positions exist' % nm, ok, lambda: '%s[%s] at %s: %s' % (show(base)[:200], show(e['ix']), span(e['sp']), pathdesc(o.st)))
    ctx.ob('coverage', 'operations examined', n >= 40, str(n))
