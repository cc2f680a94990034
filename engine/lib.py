"""Support for the per-property rules: obligations, fact completion, summaries."""
import os, re, sys, time
from absint import *

class Ctx:
    def __init__(self, pid, prog, tier='quick'):
        self.pid = pid; self.p = prog; self.tier = tier
        self.obs = {}          # (rule, inst) -> [count, bad, detail]
        self.fns = {}          # analysed entry -> path counts
        self.visited = set()
        self.samples = []
        self.floors = []
        self.opaque = {}
        self.npaths = 0
        self.reduce = bool(os.environ.get('VERIF_REDUCE'))
    def ob(self, rule, inst, ok, detail=None):
        o = self.obs.setdefault((rule, inst), [0, 0, None])
        o[0] += 1
        if not ok:
            o[1] += 1
            if o[2] is None: o[2] = detail() if callable(detail) else (detail or '')
        return ok
    def floor(self, rule, n):
        """at least n checked instances of rule must exist"""
        c = sum(o[0] for (r, _), o in self.obs.items() if r == rule)
        self.ob('coverage', '%s: at least %d checked instances' % (rule, n), c >= n, 'only %d' % c)
    def interp(self, **opt):
        sums = opt.pop('summaries', None)
        keep = opt.pop('keep', False)
        if self.reduce and not keep and opt.get('loop_exact', 1) > 1: opt['loop_exact'] = max(1, opt['loop_exact'] // 2)
        I_ = Interp(self.p, **opt)
        I_.ctx = self
        if sums:
            for s in sums: s(I_)
        return I_
    def explore(self, I_, body, args, st=None):
        st = st or State()
        I_.count = 0           # the limit is for one exploration
        outs = I_.run(body, args, st)
        self.visited |= I_.visited
        for k, v in I_.unknown.items(): self.opaque[k] = self.opaque.get(k, 0) + v
        if any('InmemoryAccountStore' in str(x) for x in (body.get('self'), body['key'])): outs = [o for o in outs if not outside_of_store(o.st)]
        f = self.fns.setdefault(body['key'], {})
        for o in outs: f[o.kind] = f.get(o.kind, 0) + 1
        f['states'] = f.get('states', 0) + I_.count
        self.npaths += len(outs)
        return outs
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)

def outside_of_store(st):
    """a path on which a position kept by an index is none of the store; P10 establishes that there is no such position"""
    c = st.trace
    while c:
        f = c[1][0]; c = c[0]
        if f.k != 'cmp': continue
        for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
            if x.k != 'len' or x.a[0].k != 'fld' or x.a[0].a[1] != 'accounts_store': continue
            z = y
            if z.k == 'at' and z.a[0].k == 'fld' and z.a[0].a[1] == 'pubkey_to_account_index' or z.k in ('elem', 'first', 'last', 'relem') and z.a[0].k in ('at', 'fld'):
                if '<' not in st.rel(y, x): return True
    return False
def obj(name): return ptr(T('obj', T('sym', name)))
def sym(n): return T('sym', n)
def selfp(): return obj('self')
def fld(t, *names):
    for n in names: t = T('fld', t, n)
    return t
def pathdesc(st, n=40):
    tr = []; c = st.trace
    while c: tr.append(c[1]); c = c[0]
    tr.reverse()
    return ' & '.join(('' if b else '!') + show(f) for f, b in tr[:n])
def span(sp):
    return '%s' % (sp,) if sp is not None else '?'

def some_of(v):
    """payload if v is an aggregate Some/Ok"""
    return aggf(v, '0') if v.k == 'agg' and v.a[1] in ('Some', 'Ok') else None

def variant(I_, st, v):
    if v.k == 'agg': return v.a[1]
    return st.var.get(v)

def opt_cases(I_, st, v, adt=OPT):
    """complete: list of (state, variant, payload-or-None)"""
    out = []
    for s, vn in I_.enum_cases(st.fork(), v, adt):
        out.append((s, vn, I_.payload(s, v, vn) if vn in ('Some', 'Ok', 'Err') else None))
    return out
def rels(st, a, b):
    """complete: list of (state, '<'|'='|'>')"""
    out = []
    for r in sorted(st.rel(a, b)):
        s = st.fork()
        if s.assume(a, b, frozenset(r)): out.append((s, r))
    return out
def has_cases(I_, st, c, k): return I_.m.has(st.fork(), c, k)
def bool_cases(I_, st, v): return I_.decide(st.fork(), v)

def eta(st, I_, v, d=0):
    """collapse an aggregate rebuilt from all the fields of one value to that value"""
    if d > 6: return v
    if v.k == 'ptr' or v.k == 'guard':
        return eta(st, I_, I_.deep(st, v), d + 1)
    if v.k != 'agg': return v
    fs = [(f, eta(st, I_, x, d + 1)) for f, x in v.a[2]]
    info = I_.p.adts.get(v.a[0])
    if fs and info:
        want = None
        if info['kind'] == 'struct':
            if all(x.k == 'fld' and x.a[1] == f for f, x in fs):
                b = {x.a[0] for _, x in fs}
                if len(b) == 1: want = b.pop()
        elif info['kind'] == 'enum':
            if all(x.k == 'vf' and x.a[1] == v.a[1] and x.a[2] == f for f, x in fs):
                b = {x.a[0] for _, x in fs}
                if len(b) == 1:
                    w = b.pop()
                    if st.var.get(w) == v.a[1]: want = w
        if want is not None: return want
    return T('agg', v.a[0], v.a[1], tuple(fs))

def same(st, I_, a, b):
    """a and b are the same value on this path (facts applied)"""
    a, b = eta(st, I_, a), eta(st, I_, b)
    if a is b: return True
    if a.k == 'agg' and b.k == 'agg':
        if a.a[0] != b.a[0] or a.a[1] != b.a[1]: return False
        da, db = dict(a.a[2]), dict(b.a[2])
        return da.keys() == db.keys() and all(same(st, I_, da[k], db[k]) for k in da)
    if a.k == 'bool' or b.k == 'bool':
        x, y = (a, b) if a.k == 'bool' else (b, a)
        return y.k != 'agg' and all(v == x.a[0] for _, v in I_.decide(st.fork(), y))
    if a.k == 'agg' or b.k == 'agg':
        x, y = (a, b) if a.k == 'agg' else (b, a)
        vn = x.a[1]
        if not vn:
            fs = x.a[2]
            return bool(fs) and all(same(st, I_, v, I_.proj(st, y, ('f', f))) for f, v in fs)
        if st.var.get(y) != vn: return False
        return all(same(st, I_, v, I_.proj(st, y, ('v', vn, f))) for f, v in x.a[2])
    if a.k == 'coll' and not a.a[1]: return same(st, I_, a.a[0], b)
    if b.k == 'coll' and not b.a[1]: return same(st, I_, a, b.a[0])
    if a.k in ('at', 'fld', 'vf') and a.k == b.k and a.a[1:] == b.a[1:] and a.k != 'at' and same(st, I_, a.a[0], b.a[0]): return True
    if a.k == 'at' and b.k == 'at' and same(st, I_, a.a[0], b.a[0]) and same(st, I_, a.a[1], b.a[1]): return True
    if a.k not in ('coll', 'agg') and b.k not in ('coll', 'agg'):
        return st.rel(a, b) == frozenset('=')
    return False

def lex(st, pairs):
    """complete lexicographic comparison of [(a1,b1),(a2,b2)...]: list of (state, rel)"""
    work = [(st, '=')]
    for a, b in pairs:
        w = []
        for s, r in work:
            if r != '=': w.append((s, r))
            else: w += rels(s, a, b)
        work = w
    return work

# ---------------------------------------------------------------- summaries
def summary(selfty, name, fn, trait=None):
    """hook for a workspace function: fn(I, st, args, t, depth, f) -> [Outcome] or None"""
    def install(I_):
        for b in I_.p.find(name, selfty, trait):
            I_.hooks[b['key']] = lambda I2, st, f, args, t, depth: fn(I2, st, args, t, depth, f)
    return install

def events(o, *kinds): return [e for e in o.st.events() if e['kind'] in kinds]
