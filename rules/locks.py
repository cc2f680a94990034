"""P11: the order of lock acquisitions of all operations has no cycle."""
from lib import *
from store import held_at
from store_sum import install_abc
LOCKTY = re.compile(r'Mutex|RwLock|DashMap|dashmap|Condvar|Guard')
TRAITS = ('AccountStorageInterface', 'TokenAccountStorageInterface', 'AccountFiltersStoreInterface')

def tys(b): return [l['ty']['s'] for l in b['locals']]
def callees(b):
    for blk in b['blocks']:
        if blk and blk['t']['t'] == 'call': yield blk['t']['f']

def lock_relevant(p):
    """keys of workspace functions that, or whose callees, handle locks"""
    ws = {k: b for k, b in p.b.items() if b['local']}
    hot = set()
    for k, b in ws.items():
        if any(LOCKTY.search(s) for s in tys(b)): hot.add(k)
    edges = {}
    for k, b in ws.items():
        e = set()
        for f in callees(b):
            for r in (f.get('res'), f.get('fn')):
                if r in ws: e.add(r)
            if f.get('trait'):
                for x in ws.values():
                    if x['name'] == f['name'] and x.get('trait') == f['trait']: e.add(x['key'])
        for x in ws:
            if x.startswith(k + '::{closure'): e.add(x)
        edges[k] = e
    ch = True
    while ch:
        ch = False
        for k, e in edges.items():
            if k not in hot and e & hot: hot.add(k); ch = True
    return ws, hot, edges

def owner_class(p, ty, path):
    """(declaring struct, field, element?) of a lock reached by a path from a value of type ty"""
    owner = ty; name = '*'; el = ''
    for e in path:
        if e[0] == 'f':
            info = p.adts.get(owner)
            fs = {f[0]: f[1] for f in info['variants'][0]['fields']} if info else {}
            if name != '*':
                pass
            cls = (owner, e[1])
            name = e[1]; el = ''
            t = fs.get(e[1])
            nxt = None
            if t is not None:
                s = t if isinstance(t, str) else t['s']
                for a in sorted(p.adts, key=len, reverse=True):
                    i = p.adts[a]
                    if a.startswith('lite_') and i['kind'] == 'struct' and re.search(r'\b%s\b' % a.split('::')[-1], s): nxt = a; break
            last = cls
            owner = nxt or owner
        elif e[0] == 'at': el = '[]'
    if name == '*': return short(ty) + el
    return '%s.%s%s' % (short(last[0]), last[1], el)

class Graph:
    def __init__(s): s.e = {}
    def add(s, a, b, gates, wit):
        s.e.setdefault((a, b), {}).setdefault(gates, wit)
    def cycles(s):
        nodes = {x for ab in s.e for x in ab}; succ = {n: [b for a, b in s.e if a == n] for n in nodes}
        out = []
        order = sorted(nodes)
        for i, n0 in enumerate(order):
            stack = [(n0, [n0])]
            while stack:
                n, path = stack.pop()
                for m in succ[n]:
                    if m == n0: out.append(path + [n0])
                    elif m > n0 and m not in path and len(path) < 6: stack.append((m, path + [m]))
        return out
    def deadlock(s, cyc):
        """witnesses of a cycle without a lock that excludes it, else None"""
        nodes = set(cyc)
        def go(i, gates, wit):
            if i == len(cyc) - 1: return wit if not gates else None
            for g, w in s.e[(cyc[i], cyc[i + 1])].items():
                g = g - nodes
                r = go(i + 1, g if gates is None else gates & g, wit + [w])
                if r: return r
            return None
        return go(0, None, [])

GUARDTY = re.compile(r'Guard\b|dashmap::mapref|RefMut\b|dashmap.*::Ref\b|dashmap.*Entry\b')
ADTRE = {}
def adt_in(p, s):
    for a in sorted(p.adts, key=len, reverse=True):
        i = p.adts[a]
        if a.startswith('lite_') and i['kind'] == 'struct' and re.search(r'\b%s\b' % a.split('::')[-1], s): return a
def to_path(t):
    """(root name, path) of a place or of the value read from one"""
    path = []
    while True:
        if t.k == 'guard': t = t.a[1]
        elif t.k == 'ptr': path = list(t.a[1]) + path; t = t.a[0]
        elif t.k == 'obj': t = t.a[0]
        elif t.k == 'fld': path = [('f', t.a[1])] + path; t = t.a[0]
        elif t.k == 'at': path = [('at', t.a[1])] + path; t = t.a[0]
        elif t.k == 'vf': t = t.a[0]
        elif t.k == 'sym': return t.a[0], tuple(path)
        else: return show(t)[:60], tuple(path)
class Fn:
    """lock behaviour of one workspace function: what it takes (relative to its parameters) and what it holds meanwhile"""
    def __init__(s, p, b): s.p = p; s.b = b; s.takes = []; s.pairs = []; s.calls = []; s.waits = []; s.notes = []
    def cls(s, place, sub=None):
        """absolute class, or ('rel', parameter, path)"""
        root, path = to_path(place)
        m = re.match(r'p(\d+)$', root)
        if not m: return 'value:' + root
        i = int(m.group(1))
        ty = s.b['locals'][i + 1]['ty']['s']
        a = adt_in(s.p, ty)
        if s.b.get('self') and i == 0 and s.b['self'].get('adt') in s.p.adts: a = s.b['self']['adt']
        if a and any(e[0] == 'f' for e in path): return owner_class(s.p, a, path)
        return ('rel', i, path)

def analyse(ctx, p, b, cold, hot, le):
    fn = Fn(p, b)
    def hook(I2, st, f, args, t, depth):
        """another function that takes and returns no guard: its locks are added from its own analysis"""
        key = f.get('res') if f.get('res') in hot else f['fn']
        st.event('wscall', t.get('sp'), key=key, places=tuple(args))
        return I2.m.opaque(st, f, args, t, key)
    I_ = ctx.interp(bounded=True, loop_exact=le, max_states=60000 if ctx.tier == 'quick' else 600000, opaque=cold)
    for k in hot:
        if k == b['key'] or '{closure' in k: continue
        bb = p.b[k]
        if any(GUARDTY.search(bb['locals'][i]['ty']['s']) for i in range(bb['argc'] + 1)): continue
        I_.hooks[k] = hook
    args = []
    for i in range(b['argc']):
        t = b['locals'][i + 1]['ty']
        args.append(obj('p%d' % i) if t.get('refs') else sym('p%d' % i))
    return fn, I_, ctx.explore(I_, b, args, State())

def P11(ctx):
    p = ctx.p
    dbg = os.environ.get('DBG')
    ws, hot, edges = lock_relevant(p)
    cold = {k for k in ws if k not in hot}
    fns = {}; nacq = 0
    for k in sorted(hot):
        b = ws[k]
        if '{closure' in k or '__static_ref' in k: continue
        for le in ((2, 1) if ctx.tier == 'quick' else (3, 2, 1)):
            try: fn, I_, outs = analyse(ctx, p, b, cold, hot, le); break
            except Budget:
                if le == 1: raise
        fns[k] = fn
        if dbg: print(k, len(outs), le, I_.count, flush=True)
        seen_p = set()
        for o in outs:
            held = {}; taken = []
            for e in o.st.events():
                kd = e['kind']
                if kd == 'rel': held.pop(e['id'], None); continue
                if kd not in ('acq', 'touch', 'condwait', 'notify', 'call', 'wscall'): continue
                hs = tuple((fn.cls(pl), m, sp) for pl, m, sp in held.values())
                if kd in ('acq', 'touch'):
                    nacq += 1
                    c = fn.cls(e['place']); taken.append(c)
                    if e.get('blocking', True): fn.pairs.append((hs, ('lock', c), e.get('sp')))
                    fn.takes.append(c)
                    if kd == 'acq': held[e['id']] = (e['place'], e['mode'], e.get('sp'))
                elif kd == 'condwait':
                    own = e['guard'].a[0].a[0] if e['guard'].k == 'guard' else None
                    hs = tuple((fn.cls(x[0]), x[1], x[2]) for i, x in held.items() if i != own)
                    fn.pairs.append((hs, ('lock', 'a condition variable'), e.get('sp')))
                elif kd == 'notify': fn.notes.append((tuple(taken), e.get('sp')))
                elif kd == 'call' and e.get('virt'): fn.pairs.append((hs, ('virt', e['fn']), e.get('sp'))); fn.calls.append(('virt', e['fn']))
                elif kd == 'wscall': fn.pairs.append((hs, ('ws', e['key'], e['places']), e.get('sp'))); fn.calls.append(('ws', e['key'], e['places']))
        fn.pairs = list({(tuple(h[:2] for h in x[0]), x[1]): x for x in fn.pairs}.values())
        ctx.ob('explored', '%s: every path' % k.split('::', 1)[1], True)
    virt = {}
    for k, b in ws.items():
        if b.get('trait') and k in fns: virt.setdefault(b['trait'].split('::')[-1] + '::' + b['name'], []).append(k)
    memo = {}
    def all_takes(k, stack=()):
        """classes a function takes, with those of the functions it calls; relative ones stay relative"""
        if k in memo: return memo[k]
        if k in stack or k not in fns: return set()
        fn = fns[k]; out = set(fn.takes)
        for c in set(fn.calls): out |= targets(fn, c, stack + (k,))
        if not stack: memo[k] = out
        return out
    def targets(fn, c, stack=()):
        out = set()
        if c[0] == 'lock': return {c[1]}
        if c[0] == 'virt':
            me = fn.b.get('self', {}).get('adt') if fn.b.get('self') else None
            for k in virt.get(c[1], ()):
                if ws[k]['self'].get('adt') == me: continue      # a wrapped storage is another instance
                out |= {x for x in all_takes(k, stack) if isinstance(x, str)}
            return out
        return {subst(fn, c, x) for x in all_takes(c[1], stack)}
    def subst(fn, c, x):
        """a class of the called function in terms of the caller"""
        if isinstance(x, str): return x
        a = c[2][x[1]]
        if a.k == 'ptr': return fn.cls(T('ptr', a.a[0], a.a[1] + x[2]))
        if a.k == 'guard': return fn.cls(a.a[1])
        root, path = to_path(a)
        return fn.cls(T('ptr', T('obj', T('sym', root)), path + x[2]))
    pmemo = {}
    def rel_pairs(k, stack=()):
        """orders that involve locks given as parameters, of a function and of those it calls"""
        if k in pmemo: return pmemo[k]
        if k in stack or k not in fns: return {}
        fn = fns[k]; out = {}
        for hs, c, sp in fn.pairs:
            for t in targets(fn, c):
                for i, (h, m, hsp) in enumerate(hs):
                    if isinstance(h, str) and isinstance(t, str): continue
                    gates = frozenset(x for j, (x, mm, _) in enumerate(hs) if j != i and mm in ('lock', 'write') and not (isinstance(x, str) and x.endswith('[]')))
                    out.setdefault((h, t, gates), '%s takes %s at %s while holding %s from %s' % (nm(k), abs_(t), span(sp), abs_(h), span(hsp)))
        for c in set(fn.calls):
            if c[0] != 'ws': continue
            for (h, t, g), w in rel_pairs(c[1], stack + (k,)).items():
                out.setdefault((subst(fn, c, h), subst(fn, c, t), frozenset(subst(fn, c, x) for x in g)), w + ' (called by %s)' % nm(k))
        if not stack: pmemo[k] = out
        return out
    G = Graph()
    nm = lambda k: '%s::%s' % (short((ws[k].get('self') or {}).get('s', k.split('::')[-2])), ws[k]['name'])
    abs_ = lambda x: x if isinstance(x, str) else 'parameter %d%s' % (x[1], ''.join('.' + str(e[1]) for e in x[2] if e[0] == 'f'))
    for k, fn in fns.items():
        for hs, c, sp in fn.pairs:
            for t in targets(fn, c):
                for i, (h, m, hsp) in enumerate(hs):
                    if not isinstance(h, str) or not isinstance(t, str): continue
                    gates = frozenset(x for j, (x, mm, _) in enumerate(hs) if j != i and mm in ('lock', 'write') and isinstance(x, str) and not x.endswith('[]'))
                    what = 'takes' if c[0] == 'lock' else 'calls %s, which takes' % c[1]
                    G.add(h, t, gates, '%s %s %s at %s while holding %s from %s' % (nm(k), what, t, span(sp), h, span(hsp)))
        for (h, t, g), w in rel_pairs(k).items():
            if isinstance(h, str) and isinstance(t, str): G.add(h, t, frozenset(x for x in g if isinstance(x, str)), w)
        for tk, sp in fn.notes:
            for c in set(tk): G.add('a condition variable', abs_(c), frozenset(), '%s takes %s before it notifies at %s' % (nm(k), abs_(c), span(sp)))
    if dbg:
        for (a, c), w in sorted(G.e.items()): print('EDGE', a, '->', c, [sorted(g) for g in w][:3], list(w.values())[0][:200])
    bad = {}
    for cyc in G.cycles():
        w = G.deadlock(cyc)
        for a, c in zip(cyc, cyc[1:]):
            if w: bad.setdefault((a, c), (cyc, w))
    for (a, c) in G.e:
        ctx.ob('order', '%s is held while %s is taken: no operation waits the other way round' % (a, c), (a, c) not in bad,
               lambda: ' -> '.join(bad[(a, c)][0]) + ' :: ' + ' | '.join(bad[(a, c)][1]))
    ctx.ob('coverage', 'functions that take locks', len(fns) >= 25, str(len(fns)))
    ctx.ob('coverage', 'lock acquisitions', nacq >= 200, str(nacq))
