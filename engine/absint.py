"""Path-sensitive abstract interpretation of MIR (property-simulation style).

Abstract values are provenance terms: what a value *is* in terms of the inputs
of the analysed entry point (a field of an argument, the entry of a map under a
key, the n-th element of an iteration ...).  Abstract states carry finite facts
only: enum variants, booleans, and for pairs of ordered values the subset of
{<,=,>} still possible.  Nothing is executed, no constraint solver is used:
branches whose outcome the facts do not determine are both followed.  Loops are
followed once exactly and then once from a widened state standing for every
later iteration.
"""
import json, glob, os, re, sys, roles
sys.setrecursionlimit(20000)

# ---------------------------------------------------------------- terms
class T:
    __slots__ = ('k', 'a', 'id')
    _tab = {}
    _n = 0
    def __new__(cls, k, *a):
        key = (k, a)
        t = cls._tab.get(key)
        if t is None:
            t = object.__new__(cls)
            t.k = k; t.a = a
            cls._n += 1
            t.id = cls._n
            cls._tab[key] = t
        return t
    def __eq__(self, o): return self is o
    def __hash__(self): return self.id
    def __repr__(self): return show(self)

def show(t, d=0):
    if not isinstance(t, T): return str(t)
    k, a = t.k, t.a
    if d > 12: return '…'
    s = lambda x: show(x, d + 1)
    if k in ('int', 'bool'): return str(a[0])
    if k == 'str': return repr(a[0])
    if k == 'sym': return str(a[0])
    if k == 'fld': return '%s.%s' % (s(a[0]), a[1])
    if k == 'vf': return '%s.%s' % (s(a[0]), a[2] if a[1] in ('Some', 'Ok') and False else '%s#%s' % (a[1], a[2]))
    if k == 'at': return '%s[%s]' % (s(a[0]), s(a[1]))
    if k == 'agg':
        nm = a[1] or a[0].split('::')[-1]
        return '%s{%s}' % (nm, ', '.join('%s:%s' % (f, s(v)) for f, v in a[2]))
    if k == 'cmp': return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if k == 'not': return '!%s' % s(a[0])
    if k == 'ptr': return '&%s%s' % (s(a[0]), ''.join('.' + pe(e) for e in a[1]))
    if k == 'root': return '%s' % ('/'.join(str(x) for x in a))
    if k == 'obj': return '*%s' % s(a[0])
    return '%s(%s)' % (k, ', '.join(s(x) for x in a))

def pe(e):
    if e[0] == 'f': return str(e[1])
    if e[0] == 'v': return '%s#%s' % (e[1], e[2])
    return '[%s]' % show(e[1])

TRUE, FALSE = T('bool', True), T('bool', False)
UNIT = T('agg', 'tuple', '', ())
def B(x): return TRUE if x else FALSE
def I(n): return T('int', n)
OPT, RES = 'core::option::Option', 'core::result::Result'
def agg(adt, variant, **f): return T('agg', adt, variant, tuple(f.items()))
def tup(*xs): return T('agg', 'tuple', '', tuple((str(i), x) for i, x in enumerate(xs)))
def Some(x): return T('agg', OPT, 'Some', (('0', x),))
NONE = T('agg', OPT, 'None', ())
def Ok(x): return T('agg', RES, 'Ok', (('0', x),))
def Err(x): return T('agg', RES, 'Err', (('0', x),))
def ptr(root, path=()): return T('ptr', root, tuple(path))
def isagg(v, variant=None): return v.k == 'agg' and (variant is None or v.a[1] == variant)
def aggf(v, name):
    for f, x in v.a[2]:
        if f == name: return x
    return None
EMPTY = T('cempty')
def coll(base=EMPTY, log=()): return T('coll', base, tuple(log))

FLIP = {'<': '>', '=': '=', '>': '<'}
OPSET = {'Lt': frozenset('<'), 'Le': frozenset('<='), 'Gt': frozenset('>'), 'Ge': frozenset('>='), 'Eq': frozenset('='), 'Ne': frozenset('<>')}
ALL3 = frozenset('<=>')

class Budget(Exception): pass
class Dead(Exception): pass

# ---------------------------------------------------------------- state
EQ = frozenset('=')
class Var(dict):
    """variant facts; a value updated inside keeps its variant"""
    def __getitem__(s, t):
        while t.k == 'upd': t = t.a[0]
        return dict.__getitem__(s, t)
    def __contains__(s, t):
        while t.k == 'upd': t = t.a[0]
        return dict.__contains__(s, t)
    def get(s, t, d=None):
        while t.k == 'upd': t = t.a[0]
        return dict.get(s, t, d)
    def __setitem__(s, t, v):
        while t.k == 'upd': t = t.a[0]
        dict.__setitem__(s, t, v)

class State:
    __slots__ = ('heap', 'var', 'bools', 'ord', 'ev', 'loops', 'n', 'trace')
    def __init__(s):
        s.heap = {}; s.var = Var(); s.bools = {}; s.ord = {}; s.ev = None; s.loops = {}; s.n = 0; s.trace = None
    def fork(s):
        o = State.__new__(State)
        o.heap = dict(s.heap); o.var = Var(s.var); o.bools = dict(s.bools); o.ord = dict(s.ord)
        o.ev = s.ev; o.loops = dict(s.loops); o.n = s.n; o.trace = s.trace
        return o
    def fresh(s):
        s.n += 1
        return s.n
    def event(s, kind, sp=None, **kw):
        s.n += 1
        e = dict(kind=kind, sp=sp, seq=s.n, **kw)
        s.ev = (s.ev, e)
        return e
    def events(s):
        out = []; c = s.ev
        while c is not None:
            out.append(c[1]); c = c[0]
        out.reverse()
        return out
    # ---- order facts
    def rel(s, a, b):
        """subset of {<,=,>} possible between a and b"""
        if a is b: return frozenset('=')
        if a.k == 'int' and b.k == 'int':
            return frozenset('<' if a.a[0] < b.a[0] else '>' if a.a[0] > b.a[0] else '=')
        if a.k == 'str' and b.k == 'str': return frozenset('<>')
        if a.k == 'const' and b.k == 'const' and s._distinct(a, b): return frozenset('<>')
        r = s._direct(a, b)
        if len(r) > 1: r = r & s._closure(a, b)
        return r
    def _distinct(s, a, b):
        """the program ids are distinct"""
        return a.a[0].endswith('::ID') and b.a[0].endswith('::ID') and a.a[0].split('::')[-2] != b.a[0].split('::')[-2]
    def _direct(s, a, b):
        if a.k == 'const' and b.k == 'const' and a is not b and s._distinct(a, b): return frozenset('<>')
        if a.id < b.id: r = s.ord.get((a, b), ALL3)
        else: r = frozenset(FLIP[x] for x in s.ord.get((b, a), ALL3))
        if b.k == 'int' and b.a[0] == 0 and '<' in r and unsigned(a): r = r - {'<'}
        if a.k == 'int' and a.a[0] == 0 and '>' in r and unsigned(b): r = r - {'>'}
        return r
    def _edges(s):
        le, lt = {}, {}
        for (a, b), r in s.ord.items():
            if '>' not in r: (lt if '=' not in r else le).setdefault(a, set()).add(b)
            if '<' not in r: (lt if '=' not in r else le).setdefault(b, set()).add(a)
            if r == frozenset('='):
                le.setdefault(a, set()).add(b); le.setdefault(b, set()).add(a)
        return le, lt
    def _closure(s, a, b):
        if not s.ord and a.k != 'op' and b.k != 'op': return ALL3
        le, lt = s._edges()
        ints = [x for p in s.ord for x in p if x.k == 'int'] + [x for x in (a, b) if x.k == 'int']
        sums = {x for p in s.ord for x in p if x.k == 'op' and x.a[0] == 'Add'} | {x for x in (a, b) if x.k == 'op' and x.a[0] == 'Add'}
        ints += [y for x in sums for y in x.a[1:] if y.k == 'int']
        def reach(x, y):
            seen = {x: False}; st = [(x, False)]
            best = None
            while st:
                u, strict = st.pop()
                if u is y: best = strict if best is None else (best or strict)
                nxt = [(v, strict) for v in le.get(u, ())] + [(v, True) for v in lt.get(u, ())]
                if u.k == 'int': nxt += [(v, strict or v.a[0] > u.a[0]) for v in ints if v.a[0] >= u.a[0] and v is not u]
                for w in sums:                      # x <= x + y
                    if w.a[1] is u or w.a[2] is u:
                        o = w.a[2] if w.a[1] is u else w.a[1]
                        nxt.append((w, strict or o.k == 'int' and o.a[0] > 0))
                if u.k == 'op' and u.a[0] == 'Add' and u.a[2].k == 'int':       # x + c <= x + d
                    nxt += [(w, strict or w.a[2].a[0] > u.a[2].a[0]) for w in sums if w is not u and w.a[1] is u.a[1] and w.a[2].k == 'int' and w.a[2].a[0] >= u.a[2].a[0]]
                for v, q in nxt:
                    if v not in seen or (q and not seen[v]):
                        seen[v] = q; st.append((v, q))
            return best
        r = set('<=>')
        f, g = reach(a, b), reach(b, a)
        if f is not None: r -= {'>'}
        if f: r -= {'='}
        if g is not None: r -= {'<'}
        if g: r -= {'='}
        if b.k == 'int' and len(r) > 1:         # whole numbers: a > b - 1 is a >= b
            for d, q in ((-1, '<'), (1, '>')):
                if q in r:
                    c = T('int', b.a[0] + d)
                    if c not in ints: ints.append(c)
                    if (reach(c, a) if d < 0 else reach(a, c)): r.discard(q)
        if '=' in r:                            # x = a, y = b, x <> y
            eq = {}
            for (x, y), q in s.ord.items():
                if q == EQ: eq.setdefault(x, []).append(y); eq.setdefault(y, []).append(x)
            if eq:
                def cls(x):
                    out = [x]
                    for u in out: out += [v for v in eq.get(u, ()) if v not in out]
                    return out
                for x in cls(a):
                    for y in cls(b):
                        if x is not y and '=' not in s._direct(x, y): r.discard('=')
        return frozenset(r) if r else frozenset()
    def assume(s, a, b, rs):
        """returns False when contradictory"""
        if a is b: return '=' in rs
        r = s.rel(a, b) & rs
        if not r: return False
        if a.k == 'int' and b.k == 'int': return True
        if a.id < b.id: s.ord[(a, b)] = r
        else: s.ord[(b, a)] = frozenset(FLIP[x] for x in r)
        return True

SIGNED = set()
def unsigned(t): return t not in SIGNED

# ---------------------------------------------------------------- program
class Program:
    def __init__(self, facts_dir):
        self.b = {}; self.adts = {}; self.impls = []; self.ws = []
        texts = [open(f).read() for f in sorted(glob.glob(os.path.join(facts_dir, '*.json')))]
        facts = [json.loads(x) for x in texts]
        al = roles.type_aliases({k: v for d in facts for k, v in d['adts'].items()})
        if al:
            rx = re.compile(r'\b(%s)\b' % '|'.join(map(re.escape, al)))
            texts = [rx.sub(lambda m: al[m.group(1)], x) for x in texts]
            facts = [json.loads(x) for x in texts]
        al = roles.field_aliases({k: v for d in facts for k, v in d['adts'].items()})
        if al:
            rx = re.compile('"(%s)"' % '|'.join(map(re.escape, al)))
            facts = [json.loads(rx.sub(lambda m: '"%s"' % al[m.group(1)], x)) for x in texts]
        for d in facts:
            for b in d['bodies']:
                if b['key'] in self.b and not b['local']: continue
                b['crate'] = d['crate']
                self.b[b['key']] = b
            for k, v in d['adts'].items():
                self.adts.setdefault(k, v)
            self.impls += d['impls']
            self.ws.append(d['crate'])
        roles.name_functions(self.b)
        for k, b in self.b.items():
            b['cfg'] = None
        self.traitimpl = {}
        for k, b in self.b.items():
            if b.get('trait') and b['local']:
                self.traitimpl.setdefault((b['trait'], b['name']), []).append(b)
    def find(self, name, selfty=None, trait=None, crate=None):
        out = []
        for k, b in self.b.items():
            if not b['local'] or b['name'] != name or b['kind'] == 'Closure': continue
            if selfty is not None and short(b.get('self', {}).get('s', '')) != selfty: continue
            if trait is not None and (b.get('trait') or '').split('::')[-1] != trait: continue
            if crate is not None and b['crate'] != crate: continue
            out.append(b)
        return out
    def one(self, name, selfty=None, trait=None, crate=None):
        r = self.find(name, selfty, trait, crate)
        if len(r) != 1: raise MissingAnchor('%s%s::%s (found %d)' % (selfty or '', ' as ' + trait if trait else '', name, len(r)))
        return r[0]
    def variants(self, adt):
        return self.adts[adt]['variants']

class MissingAnchor(Exception): pass
def short(s): return re.sub(r'<.*', '', s).split('::')[-1]

def cfg_heads(b):
    """loop heads (targets of back edges) by DFS, and natural-loop bodies"""
    if b['cfg'] is not None: return b['cfg']
    bl = b['blocks']
    succ = []
    for x in bl:
        if x is None: succ.append([]); continue
        t = x['t']; k = t['t']
        if k == 'switch': s = [y[1] for y in t['ts']] + [t['else']]
        elif 'to' in t and t['to'] is not None: s = [t['to']]
        else: s = []
        succ.append(s)
    heads = {}
    color = {}
    st = [(0, iter(succ[0]))]; color[0] = 1
    while st:
        u, it = st[-1]
        for v in it:
            if color.get(v) is None:
                color[v] = 1; st.append((v, iter(succ[v]))); break
            elif color[v] == 1: heads.setdefault(v, set()).add(u)
        else:
            color[u] = 2; st.pop()
    pred = {}
    for u, s in enumerate(succ):
        for v in s: pred.setdefault(v, []).append(u)
    loops = {}
    for h, tails in heads.items():
        body = {h}; w = list(tails)
        while w:
            x = w.pop()
            if x in body: continue
            body.add(x); w += pred.get(x, [])
        loops[h] = body
    b['cfg'] = (succ, loops)
    return b['cfg']

# ---------------------------------------------------------------- interpreter
class Outcome:
    __slots__ = ('kind', 'st', 'val', 'why')
    def __init__(s, kind, st, val=None, why=None):
        s.kind = kind; s.st = st; s.val = val; s.why = why

class Interp:
    def __init__(self, prog, **opt):
        self.p = prog
        self.opt = dict(max_states=400000, max_depth=60, iters=2, loop_exact=1, bounded=False, opaque=(), spans=True)
        self.opt.update(opt)
        self.count = 0
        self.visited = set()      # (body key) analysed
        self.calls = 0
        self.unknown = {}
        self.hooks = {}
        import models
        self.m = models.Models(self)

    # ---- memory
    def load(self, st, root, path):
        v = st.heap.get(root)
        if v is None:
            if root.k == 'obj': v = root.a[0]
            else: v = T('uninit', root)
        for e in path: v = self.proj(st, v, e)
        return v
    def proj(self, st, v, e):
        if v.k == 'agg':
            if e[0] == 'f': r = aggf(v, e[1])
            elif e[0] == 'v':
                r = aggf(v, e[2])
                if v.a[1] != e[1]: r = T('wrongvariant', v, e[1], e[2])
            else: r = self.agg_at(st, v, e[1])
            if r is not None: return r
        elif v.k == 'upd':
            for k2, x in v.a[1]:
                if k2 == e: return x
            return self.proj(st, v.a[0], e)
        elif v.k == 'clo' and e[0] == 'f':
            return v.a[1][int(e[1])]
        elif v.k == 'coll' and e[0] == 'at':
            return self.m.coll_at(st, v, e[1])
        elif v.k == 'ptr':     # Box / Arc alias: transparent
            return self.proj(st, self.load(st, v.a[0], v.a[1]), e)
        elif v.k == 'guard':
            q = v.a[1]
            return self.proj(st, self.load(st, q.a[0], q.a[1]), e)
        if e[0] == 'f':
            if v.k == 'phi': pass
            return T('fld', v, e[1])
        if e[0] == 'v': return T('vf', v, e[1], e[2])
        if v.k == 'repeat': return v.a[0]
        return T('at', v, e[1])
    def agg_at(self, st, v, k):
        if v.a[0] == 'array' and k.k == 'int':
            return aggf(v, str(k.a[0]))
        return None
    def store(self, st, root, path, val):
        if not path: st.heap[root] = val; return
        old = st.heap.get(root)
        if old is None: old = root.a[0] if root.k == 'obj' else T('uninit', root)
        st.heap[root] = self.setp(st, old, tuple(path), val)
    def setp(self, st, v, path, val):
        if not path: return val
        e = path[0]
        if v.k == 'ptr':
            self.store(st, v.a[0], v.a[1] + path, val)
            return v
        sub = val if len(path) == 1 else self.setp(st, self.proj(st, v, e), path[1:], val)
        if e[0] == 'at':
            if v.k == 'agg' and v.a[0] == 'array' and e[1].k == 'int':
                f = dict(v.a[2]); f[str(e[1].a[0])] = sub
                return T('agg', v.a[0], v.a[1], tuple(f.items()))
            if v.k != 'coll': v = coll(v)
            log = v.a[1]
            if log and log[-1][0] == 'set' and log[-1][1] is e[1]: log = log[:-1]
            return T('coll', v.a[0], log + (('set', e[1], sub),))
        if v.k == 'agg':
            nm = e[1] if e[0] == 'f' else e[2]
            if e[0] == 'f' or v.a[1] == e[1]:
                f = dict(v.a[2]); f[nm] = sub
                return T('agg', v.a[0], v.a[1], tuple(f.items()))
        if v.k == 'uninit' and e[0] == 'f':
            return T('agg', 'tuple', '', ((e[1], sub),))
        if v.k == 'clo' and e[0] == 'f':
            c = list(v.a[1]); c[int(e[1])] = sub
            return T('clo', v.a[0], tuple(c))
        base, ups = (v.a[0], dict(v.a[1])) if v.k == 'upd' else (v, {})
        ups[e] = sub
        return T('upd', base, tuple(sorted(ups.items(), key=lambda kv: (str(kv[0][0]), str(kv[0][1:])))))
    def lp(self, st, p):
        return self.load(st, p.a[0], p.a[1])
    def newcell(self, st, v):
        r = T('root', 'c', st.fresh())
        st.heap[r] = v
        return r
    def ref(self, st, v): return ptr(self.newcell(st, v))
    def deep(self, st, v, d=0):
        """replace pointers by what they point to (for opaque argument terms)"""
        if d > 8: return v
        if v.k == 'ptr': return self.deep(st, self.lp(st, v), d + 1)
        if v.k == 'guard': return self.deep(st, self.lp(st, v.a[1]), d + 1)
        if v.k == 'agg' and any(has_ptr(x) for _, x in v.a[2]):
            return T('agg', v.a[0], v.a[1], tuple((f, self.deep(st, x, d + 1)) for f, x in v.a[2]))
        return v
    def opaque_val(self, x): return T('obj', x)

    # ---- places
    def place(self, st, fr, p, body):
        """-> (root, path)"""
        root, path = T('root', 'l', fr, p['l']), ()
        proj = p['p']; i = 0
        lty = body['locals'][p['l']]['ty']
        n = len(proj)
        cur_adt = lty.get('adt')
        while i < n:
            e = proj[i]
            if e[0] == 'deref':
                v = self.load(st, root, path)
                if v.k == 'ptr': root, path = v.a
                elif v.k == 'guard': root, path = v.a[1].a
                elif v.k == 'boxv': pass
                elif v.k in ('agg', 'coll', 'clo'): pass      # Box<T> as T
                elif i == 0 and lty.get('adt', '').startswith('alloc::boxed'): pass
                elif i == 0 and not lty.get('refs') and not lty['s'].startswith('*'): pass
                else: root, path = T('obj', v), ()
            elif e[0] == 'field':
                if e[3] in ('alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull', 'core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_uninit::MaybeUninit', 'core::mem::maybe_dangling::MaybeDangling'): pass
                else: path = path + (('f', e[2]),)
            elif e[0] == 'downcast':
                nx = proj[i + 1] if i + 1 < n else None
                if nx and nx[0] == 'field':
                    path = path + (('v', e[2], nx[2]),); i += 1
            elif e[0] == 'index':
                path = path + (('at', self.load(st, T('root', 'l', fr, e[1]), ())),)
            elif e[0] == 'cindex':
                path = path + (('at', I(e[1]) if not e[2] else T('fromend', I(e[1]))),)
            elif e[0] == 'subslice':
                path = path + (('f', 'slice%s_%s_%s' % (e[1], e[2], e[3])),)
            i += 1
        return root, path
    def read(self, st, fr, p, body):
        r, pa = self.place(st, fr, p, body)
        return self.load(st, r, pa)
    def operand(self, st, fr, o, body):
        if 'cp' in o: return self.read(st, fr, o['cp'], body)
        if 'mv' in o: return self.read(st, fr, o['mv'], body)
        if 'k' in o: return self.const(st, o['k'])
        return T('const', str(o))
    def const(self, st, k):
        ty = k['ty']
        if 'int' in k:
            if ty['s'] == 'bool': return B(k['int'] == '1')
            n = int(k['int'])
            return I(n)
        if 'str' in k: return T('str', k['str'])
        if 'fndef' in k: return self.fnval(k['fndef'])
        if ty['s'] == '()': return UNIT
        if 'promoted' in k:
            key, idx = k['promoted']
            b = self.p.b.get(key)
            if b and idx < len(b['promoted']):
                pb = b['promoted'][idx]
                pb.setdefault('key', key + '#p%d' % idx); pb.setdefault('cfg', None); pb['keep'] = True; pb.setdefault('local', b['local'])
                outs = [o for o in self.run_body(pb, [], st.fork(), 0) if o.kind == 'ret']
                if len(outs) == 1:
                    o = outs[0]
                    for r, v in o.st.heap.items():
                        if r not in st.heap: st.heap[r] = v
                    st.n = max(st.n, o.st.n)
                    return o.val
            return T('const', k['c'])
        if 'named' in k:
            b = self.p.b.get(k['named'])
            if b and b['argc'] == 0 and b['kind'] not in ('Fn', 'AssocFn'):
                b2 = b; b['keep'] = True
                outs = [o for o in self.run_body(b2, [], st.fork(), 0) if o.kind == 'ret']
                if len(outs) == 1:
                    o = outs[0]
                    for r, v in o.st.heap.items():
                        if r not in st.heap: st.heap[r] = v
                    st.n = max(st.n, o.st.n)
                    return o.val
            return T('const', k['named'])
        c = k['c']
        if ty.get('adt') == OPT and (c.endswith('None') or re.match(r'\{?transmute\(0x0+\)', c)): return NONE
        if 'closure' in ty: return T('clo', ty['closure'], ())
        if ty.get('adt') in self.p.adts and self.p.adts[ty['adt']]['kind'] == 'enum':
            v = c.split('::')[-1]
            for x in self.p.adts[ty['adt']]['variants']:
                if x['name'] == v: return T('agg', ty['adt'], v, ())
        return T('const', c)
    FN = {}
    def fnval(self, f):
        k = f.get('full', f['fn'])
        Interp.FN[k] = f
        return T('fn', k)

    # ---- rvalues: list of (st, val)
    def rvalue(self, st, fr, r, body, sp):
        k = r[0]
        if k == 'use': return [(st, self.operand(st, fr, r[1], body))]
        if k == 'ref':
            root, path = self.place(st, fr, r[2], body)
            return [(st, ptr(root, path))]
        if k == 'cast':
            v = self.operand(st, fr, r[2], body)
            if r[1] == 'IntToInt' and v.k not in ('int', 'bool'):
                if v.k == 'discr': return [(s2, self.m.cast(s2, r[1], n, r[3])) for s2, n in self.variants_of(st, v)]
                o = r[2].get('cp') or r[2].get('mv')
                if o and not o['p'] and body['locals'][o['l']]['ty']['s'] == 'bool': return [(s2, I(1 if x else 0)) for s2, x in self.decide(st, v)]
            return [(st, self.m.cast(st, r[1], v, r[3]))]
        if k == 'bin':
            a = self.operand(st, fr, r[2], body); b = self.operand(st, fr, r[3], body)
            if r[1] in OPSET and a.k == 'int' and b.k == 'int':
                for x, xo, y, yo in ((a, r[2], b, r[3]), (b, r[3], a, r[2])):
                    if y.a[0] >= 3 and x.a[0] < y.a[0] and is_const(yo) and counts(body, xo):
                        # a number of elements or rounds: only the first rounds are followed, there can be more
                        now = self.cmp(st, r[1], a, b)
                        mk = T('more', fr, str(sp), y)
                        if mk in st.bools: return [(st, B(now.a[0] == (r[1] in ('Eq', 'Ne'))))]       # it stays beyond the limit
                        s2 = st.fork(); s2.bools[mk] = True; s2.event('more', sp, count=x, limit=y)
                        return [(st, now), (s2, B(not now.a[0]))]
            return self.binop(st, r[1], a, b)
        if k == 'un':
            a = self.operand(st, fr, r[2], body)
            if r[1] == 'Not': return [(st, self.lnot(a))]
            if r[1] == 'PtrMetadata':
                return [(st, self.m.length(st, self.deep(st, a)))]
            if r[1] == 'Neg' and a.k == 'int': return [(st, I(-a.a[0]))]
            return [(st, T('op', r[1], a))]
        if k == 'discr':
            v = self.read(st, fr, r[1], body)
            return [(st, self.discr(st, v, r[2]))]
        if k == 'agg':
            kind = r[1]; ops = [self.operand(st, fr, o, body) for o in r[2]]
            if kind[0] == 'tuple': return [(st, tup(*ops))]
            if kind[0] == 'array': return [(st, T('agg', 'array', '', tuple((str(i), x) for i, x in enumerate(ops))))]
            if kind[0] == 'adt':
                adt = self.p.adts.get(kind[1])
                var = kind[3] if adt and adt['kind'] == 'enum' else ''
                return [(st, T('agg', kind[1], var, tuple(zip(kind[4], ops))))]
            if kind[0] == 'closure': return [(st, T('clo', kind[1], tuple(ops)))]
            return [(st, T('aggother', kind[1], *ops))]
        if k == 'repeat':
            return [(st, T('repeat', self.operand(st, fr, r[1], body), r[2]))]
        return [(st, T('rv', str(r[0]), str(r[1])))]
    def discr(self, st, v, ty):
        adt = ty.get('adt')
        if v.k == 'guard': v = self.lp(st, v.a[1])
        if v.k == 'agg' and adt in self.p.adts:
            for x in self.p.adts[adt]['variants']:
                if x['name'] == v.a[1]: return I(int(x['discr']))
        if v.k == 'int' and adt is None: return v
        return T('discr', v, adt or ty['s'])
    def lnot(self, a):
        if a.k == 'bool': return B(not a.a[0])
        if a.k == 'not': return a.a[0]
        if a.k == 'int': return T('op', 'Not', a)
        return T('not', a)
    def binop(self, st, op, a, b):
        over = op.endswith('WithOverflow')
        op = op.replace('WithOverflow', '').replace('Unchecked', '')
        if op in OPSET: return [(st, self.cmp(st, op, a, b))]
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if a.k == 'bool' or b.k == 'bool':
                x, y = (a, b) if a.k == 'bool' else (b, a)
                if op == 'BitAnd': return [(st, y if x.a[0] else FALSE)]
                if op == 'BitOr': return [(st, TRUE if x.a[0] else y)]
                return [(st, self.lnot(y) if x.a[0] else y)]
            if self.boolish(a) or self.boolish(b):
                out = []
                for s2, x in self.decide(st, a):
                    out += self.binop(s2, op, B(x), b)
                return out
        v = self.arith(op, a, b)
        if over: return [(st, tup(v, FALSE))]
        if op == 'Cmp': return self.m.cmp_enum(st, a, b)
        return [(st, v)]
    def arith(self, op, a, b):
        if a.k == 'int' and b.k == 'int':
            x, y = a.a[0], b.a[0]
            try:
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y, 'Shl': lambda: x << y, 'Shr': lambda: x >> y, 'Div': lambda: x // y, 'Rem': lambda: x % y}.get(op)
                if r: return I(r())
            except Exception: pass
        if op in ('Add', 'Sub') and b.k == 'int' and b.a[0] == 0: return a
        if op == 'Add' and a.k == 'int': a, b = b, a
        if op == 'Add' and b.k == 'int' and a.k == 'op' and a.a[0] == 'Add' and a.a[2].k == 'int':
            return T('op', 'Add', a.a[1], I(a.a[2].a[0] + b.a[0]))
        return T('op', op, a, b)
    def boolish(self, a):
        return a.k in ('cmp', 'not', 'bool') or a in ()
    def cmp(self, st, op, a, b):
        if a.k == 'bool' and b.k == 'bool' and op in ('Eq', 'Ne'): return B((a is b) == (op == 'Eq'))
        if b.k == 'bool' and op in ('Eq', 'Ne'): return a if b.a[0] == (op == 'Eq') else self.lnot(a)
        if a.k == 'bool' and op in ('Eq', 'Ne'): return b if a.a[0] == (op == 'Eq') else self.lnot(b)
        for x, y, o in ((a, b, op), (b, a, {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op))):
            # the length of d[lo..hi] against n is hi against lo + n
            if x.k == 'len' and x.a[0].k == 'slice' and (x.a[0].a[1].k != 'int' or x.a[0].a[1].a[0] > 0): return self.cmp(st, o, x.a[0].a[2], self.arith('Add', x.a[0].a[1], y))
            if x.k == 'op' and x.a[0] == 'Sub' and y.k not in ('op', 'int') and '<' not in st.rel(x.a[1], x.a[2]): return self.cmp(st, o, x.a[1], self.arith('Add', x.a[2], y))
        r = st.rel(a, b)
        s = OPSET[op]
        if r <= s: return TRUE
        if not (r & s): return FALSE
        return T('cmp', op, a, b)

    # ---- boolean decisions: list of (state, bool)
    def decide(self, st, v):
        if v.k == 'bool': return [(st, v.a[0])]
        if v.k == 'not': return [(s, not x) for s, x in self.decide(st, v.a[0])]
        if v.k == 'cmp':
            op, a, b = v.a
            for x, y in ((a, b), (b, a)):
                if x.k == 'discr':
                    out = []
                    for s2, n in self.variants_of(st, x):
                        a2, b2 = (n, y) if x is a else (y, n)
                        if y.k == 'discr':
                            for s3, n3 in self.variants_of(s2, y):
                                c = self.cmp(s3, op, n if x is a else n3, n3 if x is a else n)
                                out += self.decide(s3, c)
                        else:
                            out += self.decide(s2, self.cmp(s2, op, a2, b2)) if n.k == 'int' else self._decide_cmp(s2, op, a2, b2)
                    return out
            return self._decide_cmp(st, op, a, b)
        if v.k == 'bor' or v.k == 'band':
            out = []
            for s, x in self.decide(st, v.a[0]):
                if (v.k == 'bor') == x: out.append((s, x))
                else: out += self.decide(s, v.a[1])
            return out
        if v in st.bools: return [(st, st.bools[v])]
        if v.k == 'op' and v.a[0] in ('BitOr', 'BitAnd', 'BitXor'):
            f = {'BitOr': lambda x, y: x or y, 'BitAnd': lambda x, y: x and y, 'BitXor': lambda x, y: x != y}[v.a[0]]
            return [(s3, f(x, y)) for s, x in self.decide(st, v.a[1]) for s3, y in self.decide(s, v.a[2])]
        s2 = st.fork()
        st.bools[v] = True; s2.bools[v] = False
        st.trace = (st.trace, (v, True)); s2.trace = (s2.trace, (v, False))
        return [(st, True), (s2, False)]
    def _decide_cmp(self, st, op, a, b):
        r = st.rel(a, b); s = OPSET[op]
        if r <= s: return [(st, True)]
        if not (r & s): return [(st, False)]
        out = []
        s2 = st.fork()
        if st.assume(a, b, s): st.trace = (st.trace, (T('cmp', op, a, b), True)); out.append((st, True))
        if s2.assume(a, b, ALL3 - s): s2.trace = (s2.trace, (T('cmp', op, a, b), False)); out.append((s2, False))
        return out
    def variants_of(self, st, d):
        """d: T('discr', term, adt) -> list of (state, int discr)"""
        if d.k == 'int': return [(st, d)]
        t, adt = d.a
        if t in st.var:
            return [(st, I(self.discr_of(adt, st.var[t])))]
        info = self.p.adts.get(adt)
        if not info or info['kind'] != 'enum': return [(st, d)]
        out = []
        vs = info['variants']
        for i, x in enumerate(vs):
            s2 = st if i == len(vs) - 1 else st.fork()
            out.append((s2, x))
        res = []
        for s2, x in out:
            s2.var[t] = x['name']; s2.trace = (s2.trace, (T('is', t, x['name']), True))
            res.append((s2, I(int(x['discr']))))
        return res
    def discr_of(self, adt, name):
        for x in self.p.adts[adt]['variants']:
            if x['name'] == name: return int(x['discr'])
        raise KeyError(name)
    def enum_cases(self, st, v, adt):
        """fork over variants of enum value v: list of (state, variantname, getter)"""
        if v.k == 'agg': return [(st, v.a[1])]
        d = T('discr', v, adt)
        out = []
        names = {int(x['discr']): x['name'] for x in self.p.adts[adt]['variants']}
        for s, n in self.variants_of(st, d):
            out.append((s, names[n.a[0]]))
        return out
    def payload(self, st, v, variant, f='0'):
        return self.proj(st, v, ('v', variant, f))

    # ---- bodies
    def run(self, body, args, st=None):
        return self.run_body(body, args, st or State(), 0)
    def run_body(self, body, args, st, depth):
        fr = st.fresh()
        self.visited.add(body['key'])
        for i, a in enumerate(args): st.heap[T('root', 'l', fr, i + 1)] = a
        outs = []
        succ, loops = cfg_heads(body)
        work = [(st, 0, None)]
        blocks = body['blocks']
        while work:
            st, bb, prev = work.pop()
            self.count += 1
            if self.count > self.opt['max_states']: raise Budget('%s: more than %d abstract states' % (body['key'], self.opt['max_states']))
            if bb in loops:
                key = (fr, bb)
                if prev is not None and prev in loops[bb]:
                    c = st.loops.get(key)
                    n, snap, ev0 = c
                    if self.stuck(st, snap, ev0, fr):
                        outs.append(Outcome('panic', st, why='endless loop: an iteration changes nothing')); continue
                    if n > self.opt['loop_exact']:
                        st.event('loopcut', None, head=key)
                        outs.append(Outcome('cut', st)); continue
                    if n == self.opt['loop_exact'] and not self.opt['bounded']: self.widen(st, snap, key, body)
                    st.event('iter', None, head=key, n=n + 1)
                    st.loops[key] = (n + 1, dict(st.heap), st.ev)
                else:
                    st.event('iter', None, head=key, n=1)
                    st.loops[key] = (1, dict(st.heap), st.ev)
            blk = blocks[bb]
            if blk is None: continue
            cur = [st]
            for s in blk['s']:
                nxt = []
                for x in cur:
                    r, pa = self.place(x, fr, s[0], body) if s[1][0] != 'x' else None
                    if s[1][0] == 'setdiscr':
                        lt = body['locals'][s[0]['l']]['ty']
                        nxt.append(x); continue
                    for y, v in self.rvalue(x, fr, s[1], body, s[2]):
                        self.write(y, r, pa, v, s[2], body)
                        nxt.append(y)
                cur = nxt
            for x in cur: self.term(x, fr, blk['t'], body, work, outs, depth, bb)
        for o in outs:
            if o.kind == 'ret' and not body.get('keep'):
                # drop this frame's locals
                hp = o.st.heap
                for r in [r for r in hp if r.k == 'root' and r.a[0] == 'l' and r.a[1] == fr]: del hp[r]
                for k in [k for k in o.st.loops if k[0] == fr]: del o.st.loops[k]
        return outs
    def stuck(self, st, snap, ev0, fr):
        """the loop is back where it was: same memory, and nothing another
        thread, an iterator or an unknown call could have done in between"""
        c = st.ev
        while c is not None and c is not ev0:
            if c[1]['kind'] not in ('iter',): return False
            c = c[0]
        if c is not ev0: return False
        def eq(v, o, d=0):
            if v is o: return True
            if d > 6 or v.k != o.k: return False
            if v.k == 'agg': return v.a[:2] == o.a[:2] and len(v.a[2]) == len(o.a[2]) and all(x[0] == y[0] and eq(x[1], y[1], d + 1) for x, y in zip(v.a[2], o.a[2]))
            if v.k == 'ptr':
                x, y = v.a[0], o.a[0]
                if x.k == y.k == 'root' and x.a[0] == y.a[0] == 'c' and v.a[1:] == o.a[1:]:
                    return x in st.heap and y in snap and eq(st.heap[x], snap[y], d + 1)
            return False
        for r, v in st.heap.items():
            if r in snap:
                if not eq(v, snap[r]): return False
            elif r.k != 'root' or r.a[0] not in ('l', 'c'): return False
        return True
    def write(self, st, r, pa, v, sp, body):
        if r.k != 'root' or r.a[0] == 'shared':
            old = self.load(st, r, pa)
            if old is not v: st.event('write', sp, root=r, path=pa, old=old, new=v)
        self.store(st, r, pa, v)
    def widen(self, st, snap, key, body):
        """state at the head on re-entry vs. the earlier arrival: everything
        that differs becomes an arbitrary value (same constructor kept)"""
        for r, v in list(st.heap.items()):
            o = snap.get(r)
            if o is None and r.k == 'obj': o = r.a[0]
            if o is not None and o is not v:
                st.heap[r] = self.widen_v(o, v, (key, r))
    def widen_v(self, o, v, tag):
        if o is v: return v
        if o.k == 'bool' and v.k == 'bool': return T('havoc', T('tag', str(tag)))
        if o.k == 'agg' and v.k == 'agg' and o.a[0] == v.a[0] and o.a[1] == v.a[1] and len(o.a[2]) == len(v.a[2]):
            od = dict(o.a[2])
            if all(f in od for f, _ in v.a[2]):
                return T('agg', v.a[0], v.a[1], tuple((f, self.widen_v(od[f], x, (tag, f))) for f, x in v.a[2]))
        if v.k == 'iter' and o.k == 'iter':
            return self.m.widen_iter(o, v, tag)
        if v.k == 'ptr' and o.k == 'ptr' and v.a[0].k == 'root': return v
        if v.k == 'coll':
            return T('coll', T('havoc', T('tag', str(tag))), ())
        if v.k in ('guard', 'clo', 'fn', 'ptr'): return v
        if v.k == 'upd' and (o.k == 'upd' or True):
            base = o.a[0] if o.k == 'upd' else o
            if base is v.a[0]:
                od = dict(o.a[1]) if o.k == 'upd' else {}
                return T('upd', base, tuple((e, x if od.get(e) is x else self.widen_v(od.get(e) or T('old', base, str(e)), x, (tag, str(e)))) for e, x in v.a[1]))
        return T('havoc', T('tag', str(tag)))

    def term(self, st, fr, t, body, work, outs, depth, bb):
        k = t['t']
        if k == 'goto': work.append((st, t['to'], bb)); return
        if k == 'return':
            outs.append(Outcome('ret', st, self.load(st, T('root', 'l', fr, 0), ()))); return
        if k == 'switch':
            v = self.operand(st, fr, t['d'], body)
            for s2, tgt in self.switch(st, v, t): work.append((s2, tgt, bb))
            return
        if k == 'assert':
            st.event('assert', t['sp'], what=t['m'], cond=self.operand(st, fr, t['c'], body), fn=body['key'])
            work.append((st, t['to'], bb)); return
        if k == 'drop':
            r, pa = self.place(st, fr, t['p'], body)
            self.m.drop(st, self.load(st, r, pa), t['sp'], t['ty'])
            work.append((st, t['to'], bb)); return
        if k == 'unreachable' or k == 'stop': return
        if k == 'call':
            args = [self.operand(st, fr, a, body) for a in t['a']]
            r, pa = self.place(st, fr, t['d'], body)
            for o in self.call(st, t['f'], args, t, depth, body, fr):
                if o.kind == 'ret':
                    if t['to'] is None:
                        outs.append(Outcome('panic', o.st, None, 'diverge ' + str(t['f'].get('path')))); continue
                    self.write(o.st, r, pa, o.val if o.val is not None else UNIT, t['sp'], body)
                    work.append((o.st, t['to'], bb))
                else: outs.append(o)
            return
        raise Exception(k)
    def switch(self, st, v, t):
        if t['ty']['s'] == 'bool' or v.k in ('bool', 'cmp', 'not'):
            # targets: [['0', bb]] else bb
            f = None
            for val, b in t['ts']:
                if val == '0': f = b
            tt = t['else'] if f is not None else [b for val, b in t['ts'] if val == '1'][0]
            if f is None: f = t['else']
            return [(s, tt if x else f) for s, x in self.decide(st, v)]
        if v.k == 'discr':
            out = []
            for s, n in self.variants_of(st, v):
                if n.k == 'int':
                    b = t['else']
                    for val, x in t['ts']:
                        if int(val) == n.a[0] or (n.a[0] < 0 and int(val) % (1 << 8) == n.a[0] % (1 << 8)): b = x; break
                    out.append((s, b))
                else:
                    # unknown enum: fork over listed values by opaque facts
                    for i, (val, x) in enumerate(t['ts']):
                        s2 = s.fork()
                        f = T('isdiscr', n, val)
                        if s2.bools.get(f) is False: continue
                        s2.bools[f] = True; out.append((s2, x))
                    out.append((s, t['else']))
            return out
        if v.k == 'int':
            n = v.a[0]
            for val, x in t['ts']:
                if int(val) == n or (n < 0 and int(val) in (n % (1 << 8), n % (1 << 16), n % (1 << 32), n % (1 << 64), n % (1 << 128))): return [(st, x)]
            return [(st, t['else'])]
        out = []; cur = st
        for val, x in t['ts']:
            c = I(int(val))
            r = cur.rel(v, c)
            if '=' not in r: continue
            s2 = cur.fork()
            if s2.assume(v, c, frozenset('=')):
                s2.trace = (s2.trace, (T('cmp', 'Eq', v, c), True)); out.append((s2, x))
            if not cur.assume(v, c, frozenset('<>')): return out
        out.append((cur, t['else']))
        return out

    # ---- calls
    def call(self, st, f, args, t, depth, body=None, fr=None):
        self.calls += 1
        if 'fnptr' in f:
            fv = self.operand(st, fr, f['fnptr'], body) if fr is not None else f['fnptr']
            return self.call_value(st, fv, args, t, depth)
        return self.m.call(st, f, args, t, depth)
    def call_value(self, st, fv, args, t, depth):
        """call a closure / fn value with already-untupled args"""
        if fv.k == 'ptr': 
            inner = self.lp(st, fv)
            if inner.k == 'clo':
                b = self.p.b.get(inner.a[0])
                if b: return self.run_body(b, [fv] + args, st, depth + 1)
            return self.call_value(st, inner, args, t, depth)
        if fv.k == 'clo':
            b = self.p.b.get(fv.a[0])
            if b:
                a0 = fv
                if b['locals'][1]['ty'].get('refs'): a0 = self.ref(st, fv)
                return self.run_body(b, [a0] + args, st, depth + 1)
        if fv.k == 'fn':
            f = Interp.FN[fv.a[0]]
            t2 = dict(t); t2['at'] = [{'s': '?'} for _ in args]; t2['f'] = f
            return self.m.call(st, f, args, t2, depth)
        st.event('callopaque', t.get('sp'), fn=fv, args=tuple(args))
        return [Outcome('ret', st, T('call', 'fnval', fv, *[self.deep(st, a) for a in args]))]

def is_const(o): return not ('cp' in o or 'mv' in o)
def counts(body, o, seen=None):
    """the operand is a length, or a variable that is counted up"""
    if is_const(o): return False
    if 'asg' not in body:
        d = body['asg'] = {}
        for blk in body['blocks']:
            if blk is None: continue
            for s in blk['s']: d.setdefault(s[0]['l'], []).append((s[0], s[1]))
            t = blk['t']
            if t['t'] == 'call': d.setdefault(t['d']['l'], []).append((t['d'], ('call', t['f'], t['a'])))
    seen = set() if seen is None else seen
    pl = o.get('cp') or o.get('mv')
    key = str((pl['l'], pl['p']))
    if key in seen: return False
    seen.add(key)
    for dst, r in body['asg'].get(pl['l'], ()):
        if r[0] == 'call':
            n = str(r[1].get('path', '')).rsplit('::', 1)[-1]
            if n in ('len', 'count') and not dst['p']: return True
            continue
        if r[0] == 'un' and r[1] == 'PtrMetadata': return True
        if r[0] == 'len': return True
        if r[0] == 'bin' and r[1].replace('WithOverflow', '') == 'Add': 
            # x = x + c, directly or over the pair of a checked addition
            for q in (r[2], r[3]):
                if is_const(q): continue
                qp = q.get('cp') or q.get('mv')
                if is_const(r[3]) and str((qp['l'], qp['p'])) in seen: return True
                if counts(body, q, seen): return True
        if r[0] == 'cast' and counts(body, r[2], seen): return True
        if r[0] == 'use' and counts(body, r[1], seen): return True
    return False

def has_ptr(v):
    if v.k in ('ptr', 'guard'): return True
    if v.k == 'agg': return any(has_ptr(x) for _, x in v.a[2])
    return False
