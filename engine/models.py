"""Abstract semantics of the library operations the analysed crates use."""
import re
from absint import *

def norm(path):
    # strip generic arguments
    out = []; d = 0; i = 0
    while i < len(path):
        c = path[i]
        if c == '<':
            if path.startswith('<impl ', i):
                j = i; dd = 0
                while True:
                    if path[j] == '<': dd += 1
                    if path[j] == '>' and path[j - 1] != '-': dd -= 1
                    j += 1
                    if dd == 0: break
                inner = path[i + 6:j - 1]
                if d == 0: out.append('slice' if inner.startswith('[') else inner)
                i = j; continue
            d += 1
        elif c == '>' and path[i - 1] != '-': d -= 1
        elif d == 0: out.append(c)
        i += 1
    s = ''.join(out)
    return re.sub(r'(::)+', '::', s)

MAPS = {'BTreeMap', 'HashMap', 'DashMap', 'BTreeSet', 'HashSet', 'DashSet', 'IndexMap'}
SETS = {'BTreeSet', 'HashSet', 'DashSet'}
VECS = {'Vec', 'VecDeque', 'slice', 'LinkedList'}
SHARED = re.compile(r'RwLock|Mutex|DashMap|DashSet|Condvar|Atomic|RefCell|OnceLock')
ORDERING = 'core::cmp::Ordering'
def ordv(n): return T('agg', ORDERING, n, ())

def kind_of_ty(s):
    s = re.sub(r"^&('\w+ )?(mut )?", '', s)
    m = re.match(r'(?:std::sync::Arc<|std::boxed::Box<)?([\w:]+)', s)
    if s.startswith('['): return 'slice'
    return m.group(1).split('::')[-1] if m else ''

class Models:
    def __init__(self, I):
        self.I = I; self.p = I.p
    def R(self, st, v=UNIT): return [Outcome('ret', st, v)]

    # ================= dispatch
    def call(self, st, f, args, t, depth):
        I_ = self.I; p = self.p
        path = f.get('npath')
        if path is None: path = f['npath'] = norm(f['path'])
        name = f['name']; trait = f.get('trait', ''); tr = trait.split('::')[-1]
        res = f.get('res')
        for h in (res, f['fn'], path, (tr, name)):
            if h in I_.hooks:
                r = I_.hooks[h](I_, st, f, args, t, depth)
                if r is not None: return r
        if path.startswith('log::') or path.startswith('core::fmt') or path.startswith('std::fmt') or path.startswith('prometheus') or 'lazy_static' in path:
            return self.R(st, T('skip', path))
        # 'log' level comparison guards
        if tr == 'PartialOrd' and f.get('self', {}).get('s', '').startswith('log::'): return self.R(st, FALSE)
        if tr == 'PartialOrd' and any(x['s'].startswith('&log::') for x in t.get('at', [])): return self.R(st, FALSE)
        # declare_id!: the function returns the constant
        if name in ('id', 'ID') and not args and path.startswith(('spl_', 'solana_')): return self.R(st, T('const', path[:-2] + 'ID'))
        if name == 'check_id' and len(args) == 1 and path.startswith(('spl_', 'solana_')): return self.R(st, I_.cmp(st, 'Eq', self.val(st, args[0]), T('const', path[:-8] + 'ID')))
        # closures and fn pointers
        if tr in ('FnOnce', 'FnMut', 'Fn') and name.startswith('call'):
            a = args[1]
            unt = [x for _, x in a.a[2]] if a.k == 'agg' else [a]
            return I_.call_value(st, args[0], unt, t, depth)
        # tuple-struct / variant constructors used as functions
        c = self.ctor(f, args)
        if c is not None: return self.R(st, c)
        if tr in ('Clone', 'ToOwned') and name in ('clone', 'to_owned'): return self.clone(st, f, args, t)
        b = p.b.get(res) if res else None
        if b is None and f.get('reskind') is None: b = p.b.get(f['fn'])
        if b is not None and b['local'] and not self.is_opaque(b):
            if depth < I_.opt['max_depth']:
                if tr == 'PartialEq' and not self.fieldless(b): 
                    return self.cmpcall(st, name, args)
                if tr in ('PartialOrd', 'Ord') and not self.fieldless(b): return self.cmpcall(st, name, args)
                return I_.run_body(b, args, st, depth + 1)
        m = getattr(self, 't_' + tr, None) if tr else None
        if m:
            r = m(st, f, args, t, depth, name)
            if r is not None: return r
        seg = path.split('::')
        cont = seg[-2] if len(seg) > 1 else ''
        m = getattr(self, 'c_%s' % cont, None)
        if m:
            r = m(st, f, args, t, depth, name)
            if r is not None: return r
        if cont in MAPS or cont in VECS or cont in ('OccupiedEntry', 'VacantEntry', 'Entry'):
            r = self.collection(st, cont, f, args, t, depth, name)
            if r is not None: return r
        m = getattr(self, 'f_' + path.replace('::', '_'), None) or getattr(self, 'n_' + name, None)
        if m:
            r = m(st, f, args, t, depth, name)
            if r is not None: return r
        if 'panicking' in path or path.endswith('unwrap_failed') or path.endswith('expect_failed') or (t.get('to') is None and 'process::exit' not in path):
            st.event('panic', t.get('sp'), fn=path)
            return [Outcome('panic', st, None, path)]
        if b is not None and not b['local'] and depth < I_.opt['max_depth']:
            return I_.run_body(b, args, st, depth + 1)
        b = p.b.get(f['fn'])
        if b is not None and not b['local'] and depth < I_.opt['max_depth'] and not b.get('intrait'):
            return I_.run_body(b, args, st, depth + 1)
        return self.opaque(st, f, args, t, path)
    def is_opaque(self, b):
        o = self.I.opt['opaque']
        return b['key'] in o or (short(b.get('self', {}).get('s', '')), b['name']) in o
    def fieldless(self, b):
        adt = b.get('self', {}).get('adt')
        a = self.p.adts.get(adt)
        return bool(a) and a['kind'] == 'enum' and all(not v['fields'] for v in a['variants'])
    def ctor(self, f, args):
        # enum variant constructor: path ...::Enum::Variant
        k = f['fn']
        seg = k.split('::')
        adt = self.p.adts.get('::'.join(seg[:-1])) or self.p.adts.get('::'.join(seg[:-2]))
        for base in ('::'.join(seg[:-1]), '::'.join(seg[:-2])):
            a = self.p.adts.get(base)
            if a and a['kind'] == 'enum':
                nm = f['name'] or seg[-1]
                for v in a['variants']:
                    if v['name'] in (nm, seg[-2]) and len(v['fields']) == len(args) and ('ctor' in k or v['name'] == seg[-1] or seg[-1].startswith('{ctor')):
                        return T('agg', base, v['name'], tuple((fl[0], x) for fl, x in zip(v['fields'], args)))
            if a and a['kind'] == 'struct' and seg[-1].startswith('{ctor') or (a and k == base + '::{ctor#0}'):
                v = a['variants'][0]
                if len(v['fields']) == len(args): return T('agg', base, '', tuple((fl[0], x) for fl, x in zip(v['fields'], args)))
        return None
    PURE = {'satisfies', 'contains_filter'}
    def opaque(self, st, f, args, t, path):
        I_ = self.I
        d = [I_.deep(st, a) for a in args]
        at = t.get('at', [])
        virt = f.get('reskind') == 'virtual'
        name = f['name']
        if virt: nm = f['trait'].split('::')[-1] + '::' + name
        else:
            nm = path
            if f.get('trait') and f.get('self'): nm = '%s<%s>' % (path, short(f['self']['s']))
        val = None
        if virt and name not in self.PURE or self.has_mut(at):
            val = T('ret', nm, T('int', st.fresh()), *d)
        else: val = T('call', nm, *d)
        st.event('call', t.get('sp'), fn=nm, args=tuple(d), raw=tuple(args), ret=val, virt=virt, targs=tuple(f.get('targs', ())))
        self.I.unknown[nm] = self.I.unknown.get(nm, 0) + 1
        for a, ty in zip(args, at):
            if ty['s'].startswith('&mut ') and a.k == 'ptr':
                I_.write(st, a.a[0], a.a[1], T('outof', val, I_.lp(st, a)), t.get('sp'), None)
            elif a.k in ('guard', 'dentry') or (a.k == 'agg' and has_guard(a)):
                if not ty['s'].startswith('&'): self.drop(st, a, t.get('sp'), ty)
        return self.R(st, val)
    def has_mut(self, at): return any(x['s'].startswith('&mut ') for x in at)

    # ================= helpers
    def deref(self, st, a):
        """pointer to T from &Guard / &Arc / &Box / &T"""
        if a.k == 'ptr':
            v = self.I.lp(st, a)
            if v.k == 'guard': return v.a[1]
            if v.k == 'ptr': return v
            return a
        if a.k == 'guard': return a.a[1]
        return canon(a)
    def val(self, st, a):
        """value behind a reference"""
        n = 0
        while n < 6:
            if a.k == 'ptr': a = self.I.lp(st, a)
            elif a.k == 'guard': a = self.I.lp(st, a.a[1])
            else: break
            n += 1
        return a
    def pp(self, st, a):
        """ultimate place pointer (through references to references/guards)"""
        for _ in range(6):
            if a.k == 'ptr':
                v = self.I.lp(st, a)
                if v.k == 'guard': a = v.a[1]; continue
                if v.k == 'ptr': a = v; continue
                return a
            if a.k == 'guard': a = a.a[1]; continue
            return canon(a)
        return a
    def cast(self, st, kind, v, ty):
        if v.k == 'discr' : return v
        m = re.match(r'\*(const|mut) \[\w+; (\d+)\]$', ty['s'])
        if m and kind == 'PtrToPtr' and v.k in ('rawptr', 'ptr'):
            b, lo = (v.a[0], v.a[1]) if v.k == 'rawptr' else (v, I(0))
            x = self.val(st, b); w = self.subslice(st, x, lo, self.I.arith('Add', lo, I(int(m.group(2)))))
            return self.I.ref(st, w)
        if 'Transmute' in kind or 'Pointer' in kind: return v
        if kind == 'PtrToPtr': return v
        if v.k == 'bool': return I(1 if v.a[0] else 0)
        s = ty['s']
        if v.k == 'int' or s in ('u64', 'usize', 'i64', 'u128', 'i128', 'isize'): return v
        if s == 'u32' and v.k == 'len': return v          # fewer than 2^32 elements
        if s in ('u32', 'i32') and v.k == 'op' and v.a[0] == 'Add' and v.a[1].k == 'len' and v.a[2].k == 'int' and v.a[2].a[0] < 16: return v     # fewer than 2^32 elements
        if s in ('u8', 'u16', 'u32', 'i32', 'i8', 'i16'): return T('trunc', s, v)
        return v

    # ================= clone & references
    def clone(self, st, f, args, t):
        a = args[0]
        ty = (f.get('self') or {}).get('s', '')
        if not ty and t.get('at'): ty = t['at'][0]['s']
        if ('sync::Arc<' in ty or 'rc::Rc<' in ty) and re.match(r"^(&('\w+ )?)*(std::sync::|std::rc::)?(Arc|Rc)<", ty) and SHARED.search(ty):
            v = self.I.lp(st, a) if a.k == 'ptr' else a
            if v.k == 'ptr': return self.R(st, v)
            return self.R(st, a if a.k == 'ptr' else canon(v))
        v = self.I.lp(st, a) if a.k == 'ptr' else a
        if v.k == 'guard': return self.R(st, self.I.lp(st, v.a[1]))
        return self.R(st, v)
    def t_Deref(self, st, f, args, t, depth, name): return self.R(st, self.deref(st, args[0]))
    t_DerefMut = t_Deref
    def t_AsRef(self, st, f, args, t, depth, name):
        ta = f.get('targs', [])
        if len(ta) > 1 and short(ta[0]) == 'Pubkey' and ta[1] == '[u8]':
            # the bytes of a key
            v = self.I.deep(st, self.val(st, args[0]))
            return self.R(st, self.I.ref(st, T('bytes', 'key', 'key', v)))
        return self.R(st, self.deref(st, args[0]))
    t_AsMut = t_AsRef; t_Borrow = t_AsRef; t_BorrowMut = t_AsRef
    def n_as_slice(self, st, f, args, t, depth, name): return self.R(st, self.deref(st, args[0]))
    n_as_mut_slice = n_as_slice; n_as_str = None
    def n_as_str(self, st, f, args, t, depth, name):
        if 'String' in f['path']: return self.R(st, self.deref(st, args[0]))
    def c_Arc(self, st, f, args, t, depth, name):
        if name == 'new':
            if any(SHARED.search(x) for x in f.get('targs', [])[:1]):
                r = T('root', 'shared', st.fresh()); st.heap[r] = args[0]
                return self.R(st, ptr(r))
            return self.R(st, args[0])
        if name == 'clone': return self.clone(st, f, args, t)
        if name == 'ptr_eq':
            a, b = (self.I.lp(st, x) if x.k == 'ptr' else x for x in args)
            if a is b: return self.R(st, TRUE)
            if a.k == b.k == 'ptr' and a.a[0].k == b.a[0].k == 'root': return self.R(st, FALSE)
            return self.R(st, T('ptreq', *sorted((a, b), key=lambda x: x.id)))
        if name in ('strong_count', 'weak_count'): return self.R(st, T('call', name, T('int', st.fresh())))
        if name in ('make_mut', 'get_mut_unchecked'): return self.R(st, self.deref(st, args[0]))
        if name in ('try_unwrap', ): return self.R(st, Ok(args[0]))
        if name == 'unwrap_or_clone': return self.R(st, self.val(st, args[0]))
    c_Rc = c_Arc
    def c_Cow(self, st, f, args, t, depth, name):
        if name in ('into_owned', 'to_owned'): return self.R(st, self.I.deep(st, args[0]))
    def c_Box(self, st, f, args, t, depth, name):
        if name in ('new', 'from', 'pin'): return self.R(st, args[0])
        if name == 'new_uninit': return self.R(st, self.I.ref(st, T('uninitbox', T('int', st.fresh()))))
        if name in ('write',): return self.R(st, args[1])
    def f_std_boxed_box_assume_init_into_vec_unsafe(self, st, f, args, t, depth, name):
        v = self.val(st, args[0])
        while v.k == 'agg' and v.a[0] != 'array' and len(v.a[2]) == 1: v = v.a[2][0][1]
        return self.R(st, self.to_coll(v))
    def to_coll(self, v):
        if v.k == 'agg' and v.a[0] == 'array':
            return coll(EMPTY, tuple(('push', x) for _, x in v.a[2]))
        if v.k == 'repeat': return coll(v, ())
        return v
    def n_into_vec(self, st, f, args, t, depth, name):
        if 'slice' in f['path'] or 'impl [T]' in f['path']: return self.R(st, self.to_coll(self.val(st, args[0])))
    def n_from_elem(self, st, f, args, t, depth, name): return self.R(st, T('repeat', args[0], args[1]))
    def n_to_vec(self, st, f, args, t, depth, name): return self.R(st, self.to_coll(self.val(st, args[0])))
    n_into_boxed_slice = n_to_vec

    # ================= default / conversion
    def t_Default(self, st, f, args, t, depth, name):
        s = f['self']['s']; k = kind_of_ty(s)
        if k in MAPS or k in VECS: return self.R(st, coll())
        if s in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64'): return self.R(st, I(0))
        if s == 'bool': return self.R(st, FALSE)
        if k == 'Option': return self.R(st, NONE)
        if k in ('Arc', 'RwLock', 'Mutex', 'Box'):
            m = re.search(r'(BTreeMap|HashMap|DashMap|BTreeSet|HashSet|Vec|VecDeque)<', s)
            v = coll() if m else T('default', s)
            if k == 'Arc' and SHARED.search(s):
                r = T('root', 'shared', st.fresh()); st.heap[r] = v
                return self.R(st, ptr(r))
            return self.R(st, v)
        if s in ('std::string::String', '&str'): return self.R(st, T('str', ''))
        return self.R(st, T('default', short(s)))
    def from_impl(self, src, dst):
        for b in self.p.traitimpl.get(('core::convert::From', 'from'), []):
            if b['argc'] == 1 and tyeq(b['self']['s'], dst) and tyeq(b['locals'][1]['ty']['s'], src): return b
        return None
    def t_Into(self, st, f, args, t, depth, name):
        ta = f.get('targs', [])
        if len(ta) >= 2:
            src, dst = ta[0], ta[1]
            b = self.from_impl(src, dst)
            if b: return self.I.run_body(b, args, st, depth + 1)
            return self.conv(st, src, dst, args[0], t)
        return self.R(st, T('into', '?', self.I.deep(st, args[0])))
    def t_From(self, st, f, args, t, depth, name):
        dst = f['self']['s']; src = f['targs'][1] if len(f.get('targs', [])) > 1 else '?'
        b = self.from_impl(src, dst)
        if b: return self.I.run_body(b, args, st, depth + 1)
        return self.conv(st, src, dst, args[0], t)
    NUM = {'u8', 'u16', 'u32', 'u64', 'usize', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'bool'}
    def conv(self, st, src, dst, a, t):
        if tyeq(src, dst): return self.R(st, a)
        if src == 'bool' and dst in self.NUM: return [Outcome('ret', s, I(1 if b else 0)) for s, b in self.I.decide(st, a)]
        if src in self.NUM and dst in self.NUM: return self.R(st, a)
        if short(dst) == 'Pubkey' and re.match(r'&?\[u8', src): return self.R(st, self.unkey(self.val(st, a)))
        k = kind_of_ty(dst)
        if k in ('Arc', 'Box'): return self.R(st, a)
        if k == 'Vec' : return self.R(st, self.to_coll(self.val(st, a)))
        ka, kb = kind_of_ty(src), k
        if 'COption' in (ka, kb) and ka in ('Option', 'COption') and kb in ('Option', 'COption'):
            adt = lambda x: OPT if x == 'Option' else self.copt()
            return [Outcome('ret', s, T('agg', adt(kb), vn, (('0', self.I.payload(s, a, vn)),) if vn == 'Some' else ())) for s, vn in self.I.enum_cases(st, a, adt(ka))]
        if k == 'COption': return self.R(st, T('agg', self.copt(), 'Some', (('0', a),)))
        if k == 'Option': return self.R(st, Some(a))
        if (k in SETS or k in MAPS) and a.k == 'agg' and a.a[0] == 'array':
            if k in SETS: return self.R(st, T('coll', EMPTY, tuple(('add', x) for _, x in a.a[2])))
            return self.R(st, T('coll', EMPTY, tuple(('set', self.I.proj(st, x, ('f', '0')), self.I.proj(st, x, ('f', '1'))) for _, x in a.a[2])))
        v = self.I.deep(st, a)
        r = T('into', short(dst), v)
        st.event('conv', t.get('sp'), src=src, dst=dst, arg=v, ret=r)
        return self.R(st, r)
    def t_TryInto(self, st, f, args, t, depth, name):
        ta = f.get('targs', [])
        dst = ta[1] if len(ta) > 1 else f['targs'][0]
        v = self.I.deep(st, args[0])
        m = re.match(r'(?:&(?:mut )?)?\[u8; (\w+)\]', dst)
        if m and v.k == 'slice':
            ln = slice_len(v)
            if ln is not None and (str(ln) == m.group(1) or not m.group(1).isdigit()): return self.R(st, Ok(v))
        if m and v.k == 'slice' and not m.group(1).isdigit(): return self.R(st, Ok(v))
        if m and not m.group(1).isdigit(): return self.R(st, Ok(v))
        if m and m.group(1).isdigit():
            n = self.length(st, v)
            if n.k == 'int': return self.R(st, Ok(v)) if n.a[0] == int(m.group(1)) else self.R(st, Err(T('call', 'TryFromSliceError')))
        b = None
        for x in self.p.traitimpl.get(('core::convert::TryFrom', 'try_from'), []):
            if tyeq(x['self']['s'], dst) and (len(ta) < 2 or tyeq(x['locals'][1]['ty']['s'], ta[0])): b = x
        if b: return self.I.run_body(b, args, st, depth + 1)
        if self.widens(ta[0] if len(ta) > 1 else '', dst): return self.R(st, Ok(v))
        return self.fixed(st, dst, v)
    def fixed(self, st, dst, v):
        """bytes as a key or an array: exactly when there are as many of them"""
        m = re.match(r'(?:&(?:mut )?)?\[u8; (\d+)\]$', dst)
        n = 32 if short(dst) == 'Pubkey' else int(m.group(1)) if m else None
        r = T('call', 'try_into', T('str', dst), v)
        if n is None or v.k in ('call', 'tostr', 'str'): return self.R(st, r)
        w = self.unkey(v) if short(dst) == 'Pubkey' else v
        return [Outcome('ret', s, Ok(w) if b else Err(T('call', 'TryFromSliceError'))) for s, b in self.I.decide(st, self.I.cmp(st, 'Eq', self.length(st, v), I(n)))]
    WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}
    def widens(self, src, dst):
        a, b = self.WIDTH.get(src), self.WIDTH.get(dst)
        return a is not None and b is not None and a <= b
    def t_TryFrom(self, st, f, args, t, depth, name):
        ta = f.get('targs', [])
        if self.widens(ta[1] if len(ta) > 1 else ta[0] if ta else '', f['self']['s']): return self.R(st, Ok(args[0]))
        return self.fixed(st, f['self']['s'], self.I.deep(st, args[0]))
    def t_ToString(self, st, f, args, t, depth, name): return self.R(st, T('tostr', self.I.deep(st, args[0])))
    def t_FromStr(self, st, f, args, t, depth, name):
        r = T('call', 'from_str', T('str', short(f['self']['s'])), self.I.deep(st, args[0])); return self.R(st, r)
    def t_Try(self, st, f, args, t, depth, name): return None
    def t_FromResidual(self, st, f, args, t, depth, name):
        v = args[0]
        # residual: Result<Infallible, E> or Option<Infallible>
        if v.k == 'agg' and v.a[1] == 'Err':
            e = aggf(v, '0')
            ta = f.get('targs', [])
            m1 = re.search(r'Infallible, (.*)>$', ta[1]) if len(ta) > 1 else None
            m0 = re.search(r'Result<.*, ([^,]*)>$', ta[0]) if ta else None
            if m1 and m0 and not tyeq(m1.group(1), m0.group(1)):
                b = self.from_impl(m1.group(1), m0.group(1))
                if b:
                    out = []
                    for o in self.I.run_body(b, [e], st, depth + 1):
                        out.append(Outcome('ret', o.st, Err(o.val)) if o.kind == 'ret' else o)
                    return out
            return self.R(st, Err(e))
        if v.k == 'agg' and v.a[1] == 'None': return self.R(st, NONE)
        return None
    def t_Hash(self, st, f, args, t, depth, name): return self.R(st)
    def t_Hasher(self, st, f, args, t, depth, name):
        if name == 'finish': return self.R(st, T('call', 'hash'))
        return self.R(st)
    def t_Drop(self, st, f, args, t, depth, name): return self.R(st)

    # ================= comparison
    def cmpcall(self, st, name, args):
        a, b = self.val(st, args[0]), self.val(st, args[1])
        if name in ('eq', 'ne'):
            out = []
            for s, x in self.eqv(st, a, b):
                out.append(Outcome('ret', s, x if name == 'eq' else self.I.lnot(x)))
            return out
        if name in ('lt', 'le', 'gt', 'ge'):
            if self.simple(a) and self.simple(b):
                return self.R(st, self.I.cmp(st, {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[name], a, b))
            out = []
            for s, o in self.cmp3(st, a, b):
                r = {'lt': o == 'Less', 'le': o != 'Greater', 'gt': o == 'Greater', 'ge': o != 'Less'}[name]
                out.append(Outcome('ret', s, B(r)))
            return out
        if name in ('cmp', 'partial_cmp'):
            out = []
            for s, o in self.cmp3(st, a, b):
                v = ordv(o)
                out.append(Outcome('ret', s, Some(v) if name == 'partial_cmp' else v))
            return out
        if name in ('max', 'min'):
            out = []
            x, y = args[0], args[1]
            for s, o in self.cmp3(st, a, b):
                if name == 'max': r = x if o == 'Greater' else y
                else: r = y if o == 'Greater' else x
                out.append(Outcome('ret', s, r))
            return out
        return None
    def t_PartialEq(self, st, f, args, t, depth, name): return self.cmpcall(st, name, args)
    t_PartialOrd = t_PartialEq; t_Ord = t_PartialEq
    def c_cmp(self, st, f, args, t, depth, name):
        if name in ('max', 'min'): return self.cmpcall(st, name, args)
    def simple(self, v): return v.k not in ('agg', 'coll')
    def eqv(self, st, a, b):
        """list of (state, boolean term)"""
        a, b = self.val(st, a), self.val(st, b)
        if a is b: return [(st, TRUE)]
        if a.k == 'agg' or b.k == 'agg':
            x, y = (a, b) if a.k == 'agg' else (b, a)
            if x.a[0] in ('tuple', 'array') or x.a[1] == '':
                work = [(st, True)]; arr = x.a[0] == 'array'
                if arr and not (y.k == 'agg' and y.a[0] == 'array'): work = self.I.decide(st, self.I.cmp(st, 'Eq', self.length(st, y), I(len(x.a[2]))))
                elif arr and len(x.a[2]) != len(y.a[2]): return [(st, FALSE)]
                for f, v in x.a[2]:
                    w2 = []
                    for s, ok in work:
                        if not ok: w2.append((s, False)); continue
                        o = self.I.proj(s, y, ('at', I(int(f))) if arr else ('f', f))
                        for s2, tv in self.eqv(s, v, o):
                            w2 += self.I.decide(s2, tv)
                    work = w2
                return [(s, B(ok)) for s, ok in work]
            out = []
            for s, vn in self.I.enum_cases(st, y, x.a[0]):
                if vn != x.a[1]: out.append((s, FALSE)); continue
                work = [(s, True)]
                for f, v in x.a[2]:
                    w2 = []
                    for s1, ok in work:
                        if not ok: w2.append((s1, False)); continue
                        o = self.I.proj(s1, y, ('v', vn, f))
                        for s2, tv in self.eqv(s1, v, o): w2 += self.I.decide(s2, tv)
                    work = w2
                out += [(s1, B(ok)) for s1, ok in work]
            return out
        return [(st, self.I.cmp(st, 'Eq', a, b))]
    def cmp3(self, st, a, b):
        a, b = self.val(st, a), self.val(st, b)
        if a is b: return [(st, 'Equal')]
        x = a if a.k == 'agg' else b if b.k == 'agg' else None
        if x is not None and (x.a[0] == 'tuple' or x.a[1] == ''):
            work = [(st, 'Equal')]
            for f, _ in x.a[2]:
                w2 = []
                for s, o in work:
                    if o != 'Equal': w2.append((s, o)); continue
                    w2 += self.cmp3(s, self.I.proj(s, a, ('f', f)), self.I.proj(s, b, ('f', f)))
                work = w2
            return work
        if x is not None:
            adt = x.a[0]
            out = []
            for s, va in self.I.enum_cases(st, a, adt):
                for s2, vb in self.I.enum_cases(s, b, adt):
                    names = [q['name'] for q in self.p.adts[adt]['variants']]
                    ia, ib = names.index(va), names.index(vb)
                    if ia != ib: out.append((s2, 'Less' if ia < ib else 'Greater'))
                    else:
                        fl = self.p.adts[adt]['variants'][ia]['fields']
                        work = [(s2, 'Equal')]
                        for f, _ in fl:
                            w2 = []
                            for s3, o in work:
                                if o != 'Equal': w2.append((s3, o)); continue
                                w2 += self.cmp3(s3, self.I.proj(s3, a, ('v', va, f)), self.I.proj(s3, b, ('v', vb, f)))
                            work = w2
                        out += work
            return out
        if a.k == 'discr' or b.k == 'discr':
            out = []
            for s, x in (self.I.variants_of(st, a) if a.k == 'discr' else [(st, a)]):
                for s2, y in (self.I.variants_of(s, b) if b.k == 'discr' else [(s, b)]):
                    if x.k == 'int' and y.k == 'int': out.append((s2, 'Less' if x.a[0] < y.a[0] else 'Greater' if x.a[0] > y.a[0] else 'Equal'))
                    else: out += self._cmp3(s2, x, y)
            return out
        return self._cmp3(st, a, b)
    def _cmp3(self, st, a, b):
        out = []
        for sym, nm in (('<', 'Less'), ('=', 'Equal'), ('>', 'Greater')):
            if sym in st.rel(a, b):
                s = st.fork()
                if s.assume(a, b, frozenset(sym)):
                    s.trace = (s.trace, (T('cmp', {'<': 'Lt', '=': 'Eq', '>': 'Gt'}[sym], a, b), True))
                    out.append((s, nm))
        return out
    def cmp_enum(self, st, a, b):
        return [(s, ordv(o)) for s, o in self.cmp3(st, a, b)]
    def n_discriminant_value(self, st, f, args, t, depth, name):
        v = self.val(st, args[0])
        ty = t['at'][0]
        adt = ty.get('adt')
        if adt is None and v.k == 'agg': adt = v.a[0]
        if adt is None: return None
        return self.R(st, self.I.discr(st, v, {'adt': adt, 's': adt}))
    def n_discriminant(self, st, f, args, t, depth, name): return self.n_discriminant_value(st, f, args, t, depth, name)

    # ================= mem / Option
    def f_std_mem_replace(self, st, f, args, t, depth, name):
        p = args[0]; old = self.I.lp(st, p)
        self.I.write(st, p.a[0], p.a[1], args[1], t.get('sp'), None)
        return self.R(st, old)
    def f_std_mem_take(self, st, f, args, t, depth, name):
        p = args[0]; old = self.I.lp(st, p)
        ty = (f.get('targs') or [''])[0]
        k = kind_of_ty(ty)
        v = NONE if k == 'Option' else coll() if (k in MAPS or k in VECS or old.k == 'coll') else I(0) if ty in self.NUM else T('default', short(ty))
        self.I.write(st, p.a[0], p.a[1], v, t.get('sp'), None)
        return self.R(st, old)
    def f_std_mem_swap(self, st, f, args, t, depth, name):
        p, q = args; a, b = self.I.lp(st, p), self.I.lp(st, q)
        self.I.write(st, p.a[0], p.a[1], b, t.get('sp'), None); self.I.write(st, q.a[0], q.a[1], a, t.get('sp'), None)
        return self.R(st)
    def f_std_mem_drop(self, st, f, args, t, depth, name):
        self.drop(st, args[0], t.get('sp'), t['at'][0] if t.get('at') else {'s': '?'})
        return self.R(st)
    f_core_mem_drop = f_std_mem_drop
    def f_std_mem_forget(self, st, f, args, t, depth, name): return self.R(st)
    def c_Option(self, st, f, args, t, depth, name):
        if name == 'unwrap_or_default' and f.get('targs'):
            ty = f['targs'][0]; k = kind_of_ty(ty)
            if k in MAPS or k in VECS or k == 'Option' or ty in self.NUM or ty in ('bool', 'std::string::String', '&str'):
                out = []
                for s, vn in self.I.enum_cases(st, args[0], OPT):
                    if vn == 'Some': out += self.R(s, self.I.payload(s, args[0], 'Some'))
                    else: out += self.t_Default(s, {'self': {'s': ty}}, [], t, depth, 'default')
                return out
        if name == 'take':
            p = args[0]; old = self.I.lp(st, p)
            self.I.write(st, p.a[0], p.a[1], NONE, t.get('sp'), None)
            return self.R(st, old)
        if name == 'replace':
            p = args[0]; old = self.I.lp(st, p)
            self.I.write(st, p.a[0], p.a[1], Some(args[1]), t.get('sp'), None)
            return self.R(st, old)
        if name == 'insert':
            p = args[0]
            self.I.write(st, p.a[0], p.a[1], Some(args[1]), t.get('sp'), None)
            return self.R(st, ptr(p.a[0], p.a[1] + (('v', 'Some', '0'),)))
        if name in ('get_or_insert_with', 'get_or_insert'):
            out = []; p = self.pp(st, args[0])
            for s, vn in self.I.enum_cases(st, self.I.lp(st, p), OPT):
                tgt = ptr(p.a[0], p.a[1] + (('v', 'Some', '0'),))
                if vn == 'Some': out.append(Outcome('ret', s, tgt)); continue
                os = self.I.call_value(s, args[1], [], t, depth) if name.endswith('with') else [Outcome('ret', s, args[1])]
                for o in os:
                    if o.kind == 'ret':
                        self.I.write(o.st, p.a[0], p.a[1], Some(o.val), t.get('sp'), None)
                        out.append(Outcome('ret', o.st, tgt))
                    else: out.append(o)
            return out
        if name in ('iter', 'into_iter'):
            return self.R(st, T('iter', T('src', 'opt', args[0]), T('pos', 'base', 0), ()))
        return None
    def copt(self): return next(k for k in self.p.adts if k.endswith('::COption'))
    def c_COption(self, st, f, args, t, depth, name):
        adt = self.copt(); byref = args and args[0].k == 'ptr'
        if name not in ('is_some', 'is_none', 'map', 'and_then', 'unwrap_or', 'unwrap_or_else', 'unwrap', 'expect', 'or', 'as_ref', 'ok_or', 'filter'): return None
        v = self.val(st, args[0]); out = []
        for s, vn in self.I.enum_cases(st, v, adt):
            x = self.I.payload(s, v, 'Some') if vn == 'Some' else None
            some = lambda y: T('agg', adt, 'Some', (('0', y),))
            none = T('agg', adt, 'None', ())
            if name in ('is_some', 'is_none'): out += self.R(s, B((vn == 'Some') == (name == 'is_some')))
            elif name in ('map', 'and_then'):
                if vn == 'None': out += self.R(s, none); continue
                for o in self.I.call_value(s, args[1], [x], t, depth):
                    out.append(Outcome('ret', o.st, some(o.val) if name == 'map' else o.val) if o.kind == 'ret' else o)
            elif name == 'unwrap_or': out += self.R(s, x if x is not None else args[1])
            elif name == 'unwrap_or_else': out += self.R(s, x) if x is not None else self.I.call_value(s, args[1], [], t, depth)
            elif name == 'ok_or': out += self.R(s, Ok(x) if x is not None else Err(args[1]))
            elif name == 'or': out += self.R(s, v if x is not None else args[1])
            elif name == 'as_ref': out += self.R(s, some(ptr(args[0].a[0], args[0].a[1] + (('v', 'Some', '0'),)) if byref else x) if x is not None else none)
            elif name in ('unwrap', 'expect'):
                if x is not None: out += self.R(s, x)
                else:
                    s.event('panic', t.get('sp'), fn='COption::' + name)
                    out.append(Outcome('panic', s, None, 'COption::' + name))
            else: return None
        return out
    def c_num(self, st, f, args, t, depth, name): return None
    # keys and their bytes
    def unkey(self, v):
        if v.k == 'bytes' and v.a[0] == 'key': return v.a[2]
        return T('call', 'key', v)
    def c_Pubkey(self, st, f, args, t, depth, name):
        if name == 'to_bytes': return self.R(st, T('bytes', 'key', 'key', self.val(st, args[0])))
        if name in ('new_from_array', 'new'): return self.R(st, self.unkey(self.val(st, args[0])))
    def n_as_ptr(self, st, f, args, t, depth, name): return self.R(st, self.deref(st, args[0]))
    def n_offset(self, st, f, args, t, depth, name):
        if '*const' not in f['path'] and '*mut' not in f['path']: return None
        a = args[0]
        if a.k == 'rawptr': return self.R(st, T('rawptr', a.a[0], self.I.arith('Add', a.a[1], args[1])))
        return self.R(st, T('rawptr', a, args[1]))
    n_add = n_offset
    def segments(self, st, v):
        """consecutive parts of a byte sequence built from nothing: (start, part as an operation)"""
        if v.k != 'coll' or v.a[0] is not EMPTY or any(o[0] not in ('push', 'ext') for o in v.a[1]): return None
        pos = I(0); out = []
        for o in v.a[1]:
            out.append((pos, o))
            pos = self.I.arith('Add', pos, I(1) if o[0] == 'push' else self.length(st, o[1]))
        return out + [(pos, None)]
    def subslice(self, st, v, lo, hi):
        if lo.k == 'int' and lo.a[0] == 0 and v.k != 'slice' and hi is self.length(st, v): return v
        sg = self.segments(st, v)
        if sg:
            i = next((k for k, (p, _) in enumerate(sg) if p is lo), None)
            j = next((k for k, (p, _) in enumerate(sg) if p is hi and (i is None or k >= i)), None)
            if i is not None and j is not None:
                part = sg[i:j]
                if len(part) == 1 and part[0][1][0] == 'ext': return part[0][1][1]
                return T('coll', EMPTY, tuple(o for _, o in part))
        if v.k == 'slice': return T('slice', v.a[0], self.I.arith('Add', v.a[1], lo), self.I.arith('Add', v.a[1], hi))
        return T('slice', v, lo, hi)
    def n_to_le_bytes(self, st, f, args, t, depth, name): return self.R(st, T('bytes', 'le', f['path'].split('impl ')[-1].split('>')[0], args[0]))
    def n_to_be_bytes(self, st, f, args, t, depth, name): return self.R(st, T('bytes', 'be', f['path'].split('impl ')[-1].split('>')[0], args[0]))
    def n_to_ne_bytes(self, st, f, args, t, depth, name): return self.R(st, T('bytes', 'ne', f['path'].split('impl ')[-1].split('>')[0], args[0]))
    def n_from_le_bytes(self, st, f, args, t, depth, name): return self.R(st, self.frombytes('le', f, self.val(st, args[0])))
    def n_from_be_bytes(self, st, f, args, t, depth, name): return self.R(st, self.frombytes('be', f, self.val(st, args[0])))
    def n_from_ne_bytes(self, st, f, args, t, depth, name): return self.R(st, self.frombytes('ne', f, self.val(st, args[0])))
    def frombytes(self, e, f, v):
        ty = f['path'].split('impl ')[-1].split('>')[0]
        if v.k == 'bytes' and v.a[0] == e: return v.a[2]
        return T('frombytes', e, ty, v)
    def n_saturating_sub(self, st, f, args, t, depth, name): return self.R(st, T('satsub', *args))
    def n_wrapping_add(self, st, f, args, t, depth, name): return self.R(st, self.I.arith('Add', *args))
    def n_saturating_add(self, st, f, args, t, depth, name): return self.R(st, self.I.arith('Add', *args))
    def n_checked_sub(self, st, f, args, t, depth, name):
        a, b = args; out = []
        for s, x in self.I.decide(st, self.I.cmp(st, 'Ge', a, b)):
            out.append(Outcome('ret', s, Some(self.I.arith('Sub', a, b)) if x else NONE))
        return out

    # ================= locks
    def elsewhere(self, st, p):
        """with the option 'concurrent': other threads may have changed a map since it was last used here, unless part of it is held"""
        if not self.I.opt.get('concurrent') or p.a[0].k != 'obj': return
        used = False; held = {}
        for e in st.events():
            if e['kind'] == 'rel': held.pop(e['id'], None)
            elif e['kind'] in ('acq', 'touch'):
                q = e['place']; mine = q.a[0] is p.a[0] and q.a[1][:len(p.a[1])] == p.a[1]
                used = used or mine
                if e['kind'] == 'acq' and mine: held[e['id']] = True
        if used and not held:
            i = st.fresh(); nv = T('havoc', T('tag', 'elsewhere%d' % i))
            st.event('elsewhere', None, place=p, before=self.I.lp(st, p), after=nv)
            self.I.store(st, p.a[0], p.a[1], nv)
    def lockname(self, st, p): return T('lock', p.a[0], p.a[1])
    def acquire(self, st, p, mode, sp, blocking=True):
        i = st.fresh()
        if self.I.opt.get('relock') and p.a[0].k == 'obj':
            # another thread may have changed the content since it was last released here
            if any(e['kind'] == 'acq' and e['place'] is p for e in st.events()):
                self.I.store(st, p.a[0], p.a[1], self.I.opt['relock'](self.I, st, self.I.lp(st, p), T('havoc', T('tag', 'relocked%d' % i))))
        g = T('guard', T('int', i), p, mode)
        st.event('acq', sp, id=i, mode=mode, place=p, blocking=blocking)
        return g
    def c_Mutex(self, st, f, args, t, depth, name):
        if name == 'new': return self.R(st, args[0])
        if name == 'lock': return self.R(st, Ok(self.acquire(st, self.pp(st, args[0]), 'lock', t.get('sp'))))
        if name == 'try_lock':
            s2 = st.fork()
            return self.R(st, Ok(self.acquire(st, self.pp(st, args[0]), 'lock', t.get('sp'), False))) + self.R(s2, Err(T('call', 'WouldBlock')))
        if name == 'into_inner': return self.R(st, Ok(args[0]))
        if name == 'get_mut': return self.R(st, Ok(self.pp(st, args[0])))
    def c_RwLock(self, st, f, args, t, depth, name):
        if name == 'new': return self.R(st, args[0])
        if name in ('read', 'write'): return self.R(st, Ok(self.acquire(st, self.pp(st, args[0]), name, t.get('sp'))))
        if name in ('try_read', 'try_write'):
            s2 = st.fork()
            s2.event('trylockfail', t.get('sp'), place=self.pp(st, args[0]))
            return self.R(st, Ok(self.acquire(st, self.pp(st, args[0]), name[4:], t.get('sp'), False))) + self.R(s2, Err(T('call', 'WouldBlock')))
        if name == 'into_inner': return self.R(st, Ok(args[0]))
        if name == 'get_mut': return self.R(st, Ok(self.pp(st, args[0])))
    def c_Condvar(self, st, f, args, t, depth, name):
        if name == 'new': return self.R(st, T('condvar', T('int', st.fresh())))
        if name in ('notify_all', 'notify_one'):
            st.event('notify', t.get('sp'), which=name, place=self.pp(st, args[0]))
            return self.R(st)
        if name in ('wait', 'wait_timeout', 'wait_while', 'wait_timeout_while', 'wait_timeout_ms'):
            g = args[1]
            q = g.a[1] if g.k == 'guard' else None      # a guard which was handed over from outside
            if q is None:
                q = ptr(T('obj', T('guarded', g)), ())
            timed = 'timeout' in name
            dur = args[2] if timed else None
            pred = args[-1] if name.endswith('_while') else None
            st.event('condwait', t.get('sp'), which=name, place=self.pp(st, args[0]), guard=g, dur=self.I.deep(st, dur) if dur is not None else None, pred=pred)
            # protected value may have changed while waiting
            old = self.I.lp(st, q)
            self.I.store(st, q.a[0], q.a[1], T('havoc', T('tag', 'waited%d' % st.fresh())))
            def res(s, to):
                s.event('waitres', t.get('sp'), timeout=to)
                return Ok(tup(g, T('waitres', to, T('int', s.fresh())))) if timed else Ok(g)
            if pred is None: return self.R(st, res(st, T('timeout', T('int', st.fresh()))))
            out = []
            for o in self.I.call_value(st, pred, [q], t, depth):
                if o.kind != 'ret': out.append(o); continue
                for s, b in self.I.decide(o.st, o.val):
                    if b and not timed: continue            # still waiting
                    out.append(Outcome('ret', s, res(s, B(b))))
            return out
    def c_WaitTimeoutResult(self, st, f, args, t, depth, name):
        if name == 'timed_out':
            w = self.val(st, args[0])
            return self.R(st, w.a[0] if w.k == 'waitres' else T('timedout', w))
    def c_PoisonError(self, st, f, args, t, depth, name):
        if name in ('into_inner', 'get_ref', 'get_mut'): return self.R(st, T('call', name, args[0]))
    def drop(self, st, v, sp, ty):
        for g in guards_in(v): st.event('rel', sp, id=g.a[0].a[0])
    # atomics
    def c_Atomic(self, st, f, args, t, depth, name):
        if name == 'new': return self.R(st, args[0])
        p = self.pp(st, args[0]); v = self.I.lp(st, p)
        if name == 'load': return self.R(st, v)
        def wr(s, nv):
            s.event('atomic', t.get('sp'), op=name, place=p, old=v, new=nv)
            self.I.store(s, p.a[0], p.a[1], nv)
        if name == 'store': wr(st, args[1]); return self.R(st)
        if name == 'swap': wr(st, args[1]); return self.R(st, v)
        if name == 'fetch_add': wr(st, self.I.arith('Add', v, args[1])); return self.R(st, v)
        if name == 'fetch_sub': wr(st, self.I.arith('Sub', v, args[1])); return self.R(st, v)
        if name in ('fetch_max', 'fetch_min'):
            out = []
            for s, o in self.cmp3(st, v, args[1]):
                nv = v if (o == 'Greater') == (name == 'fetch_max') or o == 'Equal' else args[1]
                s.event('atomic', t.get('sp'), op=name, place=p, old=v, new=nv)
                self.I.store(s, p.a[0], p.a[1], nv); out.append(Outcome('ret', s, v))
            return out
        if name in ('compare_exchange', 'compare_exchange_weak'):
            out = []
            for s, x in self.I.decide(st, self.I.cmp(st, 'Eq', v, args[1])):
                if x:
                    s.event('atomic', t.get('sp'), op=name, place=p, old=v, new=args[2])
                    self.I.store(s, p.a[0], p.a[1], args[2])
                    out.append(Outcome('ret', s, Ok(v)))
                else: out.append(Outcome('ret', s, Err(v)))
            return out
    c_AtomicU64 = c_Atomic; c_AtomicU32 = c_Atomic; c_AtomicUsize = c_Atomic; c_AtomicBool = c_Atomic
    def c_AtomicBool_(self): pass
    def n_from_secs(self, st, f, args, t, depth, name): return self.R(st, T('dur', 's', args[0]))

    # ================= collections
    def coll_at(self, st, v, k):
        """value stored under k in a collection value with an operation log"""
        log = v.a[1]; n = len(log)
        i = n - 1
        while i >= 0:
            op = log[i]
            if op[0] == 'set':
                r = st.rel(op[1], k) if self.simple(op[1]) and self.simple(k) else (frozenset('=') if op[1] is k else ALL3)
                if r == frozenset('='): return op[2]
                if '=' in r: return T('at', v, k)
            elif op[0] == 'push':
                ix = self.length(st, T('coll', v.a[0], log[:i]))
                r = st.rel(ix, k)
                if r == frozenset('='): return op[1]
                if '=' in r and not (k.k == 'elem'): return T('at', v, k)
            elif op[0] == 'add': pass
            elif op[0] == 'rem':
                r = st.rel(op[1], k)
                if '=' in r and len(r) > 1: return T('at', v, k)
                if r == frozenset('='): return T('removed', v, k)
            elif op[0] in ('clear',): return T('removed', v, k)
            elif op[0] in ('retainp', 'from', 'below'): pass
            elif op[0] == 'ext':
                lo = self.length(st, T('coll', v.a[0], log[:i]))
                r = st.rel(k, lo)
                if '<' in r and len(r) > 1: return T('at', T('coll', v.a[0], log[:i + 1]), k)
                if r != frozenset('<'):
                    hi = self.I.arith('Add', lo, self.length(st, op[1]))
                    if st.rel(k, hi) != frozenset('<'): return T('at', T('coll', v.a[0], log[:i + 1]), k)
                    return self.I.proj(st, op[1], ('at', self.I.arith('Sub', k, lo)))
            elif op[0] in ('popfirst', 'poplast', 'retain', 'havoc', 'pushfront', 'truncate'): return T('at', T('coll', v.a[0], log[:i + 1]), k)
            i -= 1
        if v.a[0] is EMPTY: return T('removed', v, k)
        if v.a[0].k == 'repeat': return v.a[0].a[0]
        return T('at', v.a[0], k)
    def has(self, st, v, k):
        """list of (state, bool): is key k present in map/set value v"""
        if v.k != 'coll': return self.has_base(st, v, k)
        log = v.a[1]
        if self.I.opt.get('opaque_members') and k.k in ('elem', 'at') and v.a[0] is EMPTY and len(log) > 0 and all(op[0] == 'add' for op in log):
            # being a member of the whole set is what matters, not which one it is
            return [(st, True)] if any(op[1] is k for op in log) else self.has_base(st, v, k)
        for i in range(len(log) - 1, -1, -1):
            op = log[i]
            if op[0] in ('set', 'add', 'rem'):
                out = []
                for s, x in self.eqv(st.fork(), op[1], k):
                    for s2, b in self.I.decide(s, x):
                        if b: out.append((s2, op[0] != 'rem'))
                        else: out += self.has(s2, T('coll', v.a[0], log[:i]), k)
                return out
            if op[0] == 'clear': return [(st, False)]
            if op[0] in ('from', 'below'):
                out = []
                for s, b in self.I.decide(st, self.I.cmp(st, 'Ge' if op[0] == 'from' else 'Lt', k, op[1])):
                    out += self.has(s, T('coll', v.a[0], log[:i]), k) if b else [(s, False)]
                return out
            if op[0] == 'retainp':
                out = []
                for s, b in self.has(st, T('coll', v.a[0], log[:i]), k):
                    if not b: out.append((s, False)); continue
                    out += self.retained(s, op[1], k, None if op[2] else self.coll_at(s, T('coll', v.a[0], log[:i]), k))
                return out
            if op[0] == 'push':
                return self.has(st, T('coll', v.a[0], log[:i]), k)
            return self.has_base(st, T('coll', v.a[0], log[:i + 1]), k)
        if v.a[0] is EMPTY: return [(st, False)]
        return self.has_base(st, v.a[0], k)
    def has_base(self, st, v, k):
        if v.k == 'coll' and not v.a[1]: v = v.a[0]
        if v is EMPTY: return [(st, False)]
        # iteration elements and first/last keys are present
        if k.k in ('elem', 'first', 'last', 'relem') and (k.a[0] is v or k.a[0].k == 'subrange' and k.a[0].a[0] is v): return [(st, True)]
        e = T('cmp', 'Eq', T('len', v), I(0))
        if st.rel(T('len', v), I(0)) == frozenset('='): return [(st, False)]
        h = T('has', v, k)
        out = []
        for s, b in self.I.decide(st, h):
            if b:
                if not s.assume(T('len', v), I(0), frozenset('>')): continue
            out.append((s, b))
        return out
    def retained(self, st, clo, k, val):
        """does a retain predicate keep key k (and value val): list of (state, bool)"""
        I_ = self.I; out = []
        a = [I_.ref(st, k)]
        if val is not None: a.append(I_.ref(st, val))
        for o in I_.call_value(st, clo, a, {}, 1):
            if o.kind != 'ret': continue
            if val is not None and I_.lp(o.st, a[1]) is not val: o.st.event('opaquemut', None, fn='retain predicate changes the values')
            out += I_.decide(o.st, o.val)
        return out
    def snap_clo(self, st, clo):
        """closure whose captures do not refer to locals any more"""
        c = self.val(st, clo) if clo.k == 'ptr' else clo
        if c.k != 'clo': return c
        return T('clo', c.a[0], tuple(self.I.ref(st, self.I.deep(st, x)) if x.k == 'ptr' else x for x in c.a[1]))
    def keep_items(self, st, items, fn):
        """fork over which of the items a predicate keeps: list of (state, kept items)"""
        work = [(st, [])]
        for it in items: work = [(s2, acc + [it] if b else acc) for s, acc in work for s2, b in fn(s, it)]
        return work
    def permute(self, st, xs, less):
        """sorted orders of xs: list of (state, order); less(st,a,b) -> [(st,'Less'|'Equal'|'Greater')]"""
        res = [(st, [])]
        for x in xs:
            nxt = []
            for s, l in res:
                work = [(s, len(l))]
                while work:
                    s1, i = work.pop()
                    if i == 0: nxt.append((s1, [x] + l)); continue
                    for s2, o in less(s1, l[i - 1], x):
                        if o == 'Greater': work.append((s2, i - 1))
                        else: nxt.append((s2, l[:i] + [x] + l[i:]))
            res = nxt
        return res
    def length(self, st, v):
        if v.k == 'coll':
            base, log = v.a
            if not log: return I(0) if base is EMPTY else self.length(st, base) if base.k in ('repeat', 'slice', 'agg', 'bytes', 'str') else T('len', base)
            op = log[-1]
            if op[0] in ('push', 'pushfront'): return self.I.arith('Add', self.length(st, T('coll', base, log[:-1])), I(1))
            if op[0] == 'clear': return I(0)
            if op[0] == 'rem' and base is EMPTY:
                ex = self.exact_map(st, v)
                if ex is not None: return I(len(ex))
            if base is EMPTY and op[0] in ('set', 'add') and all(o[0] == op[0] for o in log):
                ks = [o[1] for o in log]
                if len(set(ks)) == 1: return I(1)
                if all(st.rel(x, y) and '=' not in st.rel(x, y) for i, x in enumerate(ks) for y in ks[i + 1:]): return I(len(ks))
            if op[0] == 'set' and any(o[0] in ('push',) for o in log[:-1]) : return self.length(st, T('coll', base, log[:-1]))
            if op[0] == 'set' and base.k in ('repeat', 'slice', 'agg'): return self.length(st, T('coll', base, log[:-1]))
            if op[0] == 'set' and len(log) <= 4:            # within what is there already: a position written again
                pre = T('coll', base, log[:-1]) if len(log) > 1 else base
                n = self.length(st, pre)
                if st.rel(op[1], n) == frozenset('<'): return n
            if op[0] in ('set', 'add') and len(log) <= 4 and log[:-1] and st.rel(self.length(st, T('coll', base, log[:-1])), I(0)) == frozenset('='): return I(1)
            if op[0] == 'ext':
                return self.I.arith('Add', self.length(st, T('coll', base, log[:-1])), self.length(st, op[1]))
            return T('len', v)
        if v.k == 'agg' and v.a[0] == 'array': return I(len(v.a[2]))
        if v.k == 'slice':
            n = slice_len(v)
            return I(n) if n is not None else T('len', v)
        if v.k == 'bytes': return I({'key': 32, 'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'i64': 8, 'i32': 4, 'u128': 16}.get(v.a[1], 0)) if v.a[1] in ('key', 'u8', 'u16', 'u32', 'u64', 'i64', 'i32', 'u128') else T('len', v)
        if v.k == 'str': return I(len(v.a[0].encode()))
        if v.k == 'repeat' : 
            n = v.a[1]
            if isinstance(n, str): return I(int(n)) if n.isdigit() else T('len', v)
            return n
        if v is EMPTY: return I(0)
        return T('len', v)
    def mut(self, st, p, op, sp, **kw):
        v = self.I.lp(st, p)
        base, log = (v.a[0], v.a[1]) if v.k == 'coll' else (v, ())
        if op[0] == 'clear': nv = coll() 
        else: nv = T('coll', base, log + (op,))
        st.event('mut', sp, place=p, op=op, before=v, after=nv, **kw)
        self.I.store(st, p.a[0], p.a[1], nv)
        return v
    def optref(self, s, b, p, k): return Some(ptr(p.a[0], p.a[1] + (('at', k),))) if b else NONE
    def collection(self, st, cont, f, args, t, depth, name):
        I_ = self.I; sp = t.get('sp'); R = self.R
        dash = 'dashmap' in f['path']
        if name in ('new', 'with_capacity', 'with_hasher', 'default', 'with_capacity_and_hasher', 'with_shard_amount'): return R(st, coll())
        if cont in ('OccupiedEntry', 'VacantEntry', 'Entry'): return self.entry_op(st, cont, f, args, t, depth, name, dash)
        if not args: return None
        p = self.pp(st, args[0])
        if args[0].k not in ('ptr', 'guard'):
            if name in ('into_iter', 'into_keys', 'into_values'): 
                return R(st, self.mkiter('val', args[0], cont, {'into_keys': 'keys', 'into_values': 'values'}.get(name)))
            if name in ('into_boxed_slice', 'into_inner', 'into'): return R(st, args[0])
        if dash: self.elsewhere(st, p)
        v = I_.lp(st, p)
        kv = lambda i=1: self.keyval(st, args[i])
        if dash and name in ('len', 'is_empty', 'clear', 'retain', 'shrink_to_fit', 'alter', 'alter_all', 'iter', 'iter_mut'):
            st.event('touch', sp, place=p, mode='dread' if name in ('len', 'is_empty', 'iter') else 'dwrite')
        if name == 'len': return R(st, self.length(st, v))
        if name == 'is_empty':
            return R(st, I_.cmp(st, 'Eq', self.length(st, v), I(0)))
        if name in ('reserve', 'shrink_to_fit', 'make_contiguous', 'shrink_to'): return R(st)
        if name in ('capacity',): return R(st, T('call', 'capacity'))
        if name == 'clear': self.mut(st, p, ('clear',), sp, cont=cont); return R(st)
        if name in ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'drain', 'into_iter', 'range', 'as_ref_iter'):
            proj = {'keys': 'keys', 'values': 'values', 'values_mut': 'values'}.get(name)
            if name == 'drain':
                it = self.mkiter('val', v, cont, proj)
                self.mut(st, p, ('clear',), sp, cont=cont, drained=True)
                return R(st, it)
            it = self.mkiter('ref', p, cont, proj, dash)
            if name == 'range': 
                r = T('iter', T('src', 'range_of', p, cont, I_.deep(st, args[1])), T('pos', 'base', 0), ())
                return R(st, r)
            return R(st, it)
        if cont in VECS: return self.vec_op(st, cont, f, args, t, depth, name, p, v)
        # ---- maps and sets
        isset = cont in SETS
        if name in ('contains_key', 'contains'):
            if dash: st.event('touch', sp, place=p, mode='dread')
            return [Outcome('ret', s, B(b)) for s, b in self.has(st, v, kv())]
        if name in ('get', 'get_mut', 'get_key_value', 'view', 'try_get'):
            k = kv(); out = []
            for s, b in self.has(st, v, k):
                if dash and name != 'view':
                    if b:
                        q = ptr(p.a[0], p.a[1] + (('at', k),))
                        i = s.fresh(); g = T('guard', T('int', i), q, 'dwrite' if name == 'get_mut' else 'dread')
                        s.event('acq', sp, id=i, mode=g.a[2], place=p, key=k, blocking=True)
                        out.append(Outcome('ret', s, Some(g)))
                    else:
                        s.event('touch', sp, place=p, mode='dwrite' if name == 'get_mut' else 'dread')
                        out.append(Outcome('ret', s, NONE))
                    continue
                if isset: r = Some(I_.ref(s, k)) if b else NONE
                elif name == 'get_key_value': r = Some(tup(I_.ref(s, k), ptr(p.a[0], p.a[1] + (('at', k),)))) if b else NONE
                else: r = self.optref(s, b, p, k)
                out.append(Outcome('ret', s, r))
            return out
        if name in ('insert', 'replace', 'try_insert'):
            k = args[1]; out = []
            if dash: st.event('touch', sp, place=p, mode='dwrite')
            for s, b in self.has(st, v, k):
                v2 = I_.lp(s, p)
                if isset:
                    if not b or True: self.mut(s, p, ('add', k), sp, cont=cont, present=b)
                    out.append(Outcome('ret', s, B(not b)))
                else:
                    old = I_.proj(s, v2, ('at', k)) if b else None
                    self.mut(s, p, ('set', k, args[2]), sp, cont=cont, present=b, dash=dash)
                    out.append(Outcome('ret', s, Some(old) if b else NONE))
            return out
        if name in ('remove', 'remove_entry', 'take'):
            k = kv(); out = []
            if dash: st.event('touch', sp, place=p, mode='dwrite')
            for s, b in self.has(st, v, k):
                old = I_.proj(s, I_.lp(s, p), ('at', k)) if b and not isset else None
                self.mut(s, p, ('rem', k), sp, cont=cont, present=b)
                if isset: r = B(b) if name == 'remove' else (Some(k) if b else NONE)
                elif dash or name == 'remove_entry': r = Some(tup(k, old)) if b else NONE
                else: r = Some(old) if b else NONE
                out.append(Outcome('ret', s, r))
            return out
        if name == 'remove_if' and dash:
            k = kv(); out = []
            st.event('touch', sp, place=p, mode='dwrite')
            for s, b in self.has(st, v, k):
                if not b: out.append(Outcome('ret', s, NONE)); continue
                q = ptr(p.a[0], p.a[1] + (('at', k),))
                for o in I_.call_value(s, args[2], [I_.ref(s, k), q], t, depth):
                    if o.kind != 'ret': out.append(o); continue
                    for s3, c in I_.decide(o.st, o.val):
                        if not c: out.append(Outcome('ret', s3, NONE)); continue
                        old = I_.lp(s3, q)
                        self.mut(s3, p, ('rem', k), sp, cont=cont, present=True)
                        out.append(Outcome('ret', s3, Some(tup(k, old))))
            return out
        if name == 'entry':
            k = args[1]; out = []
            lid = 0
            if dash:
                lid = st.fresh()
                st.event('acq', sp, id=lid, mode='dwrite', place=p, key=k, blocking=True)
            for s, b in self.has(st, v, k):
                adt = self.entry_adt(cont)
                e = T('dentry', T('int', lid), p, k)
                out.append(Outcome('ret', s, T('agg', adt, 'Occupied' if b else 'Vacant', (('0', e),))))
            return out
        if name in ('first_key_value', 'last_key_value', 'first', 'last', 'first_entry', 'last_entry', 'pop_first', 'pop_last'):
            first = 'first' in name
            out = []
            for s, e in I_.decide(st, I_.cmp(st, 'Eq', self.length(st, v), I(0))):
                if e: out.append(Outcome('ret', s, NONE)); continue
                k = self.extreme(s, v, first)
                if name.startswith('pop'):
                    old = I_.proj(s, I_.lp(s, p), ('at', k))
                    self.mut(s, p, ('rem', k), sp, cont=cont, present=True)
                    out.append(Outcome('ret', s, Some(k) if isset else Some(tup(k, old))))
                elif name.endswith('entry'):
                    out.append(Outcome('ret', s, Some(T('dentry', T('int', 0), p, k))))
                elif isset: out.append(Outcome('ret', s, Some(I_.ref(s, k))))
                else: out.append(Outcome('ret', s, Some(tup(I_.ref(s, k), ptr(p.a[0], p.a[1] + (('at', k),))))))
            return out
        if name == 'retain':
            if dash: st.event('touch', sp, place=p, mode='dwrite')
            base, items = self._src_list(st, v, cont)
            clo = args[1]
            if base is EMPTY:
                def keep(s, it):
                    a = [I_.ref(s, it[0])] + ([] if isset else [ptr(p.a[0], p.a[1] + (('at', it[0]),))])
                    return [x for o in I_.call_value(s, clo, a, t, depth) if o.kind == 'ret' for x in I_.decide(o.st, o.val)]
                out = []
                for s, kept in self.keep_items(st, items, keep):
                    for it in items:
                        if it not in kept: self.mut(s, p, ('rem', it[0]), sp, cont=cont, present=True)
                    out.append(Outcome('ret', s, UNIT))
                return out
            self.mut(st, p, ('retainp', self.snap_clo(st, clo), isset), sp, cont=cont)
            return R(st)
        if name in ('extend', 'append'):
            return self.do_extend(st, cont, f, args, t, depth, p)
        if isset and name in ('difference', 'intersection', 'union') and len(args) == 2:
            o = self.val(st, args[1])
            it = self.mkiter('ref', p, cont)
            if name == 'union':
                q = self.pp(st, args[1]); other = self.mkiter('ref', q, cont)
                return R(st, T('iter', T('src', 'chain', it, T('iter', other.a[0], other.a[1], (('among', v, False),))), T('pos', 'base', 0), ()))
            return R(st, T('iter', it.a[0], it.a[1], (('among', o, name == 'intersection'),)))
        if name in ('is_subset', 'is_superset', 'is_disjoint'):
            a, b = self.val(st, args[0]), self.val(st, args[1])
            if name == 'is_superset': a, b = b, a
            if name != 'is_disjoint' and a is b: return R(st, TRUE)
            if a.k == 'coll' and a.a[0] is EMPTY and all(o[0] in ('add', 'push') for o in a.a[1]):
                work = [(st, True)]
                for o in a.a[1]: work = [(s2, x and h == (name != 'is_disjoint')) for s, x in work for s2, h in (self.has(s, b, o[1]) if x else [(s, False)])]
                return [Outcome('ret', s, TRUE if x else FALSE) for s, x in work]
            return R(st, T('subset' if name != 'is_disjoint' else 'disjoint', a, b))
        if name == 'split_off':
            k = kv()
            v2 = T('coll', v.a[0], v.a[1] + (('from', k),)) if v.k == 'coll' else coll(v, (('from', k),))
            self.mut(st, p, ('below', k), sp, cont=cont)
            return R(st, v2)
        return None
    def entry_adt(self, cont):
        for k in self.p.adts:
            if k.endswith('::Entry') and ((cont == 'DashMap' and 'dashmap' in k) or (cont == 'BTreeMap' and 'btree' in k) or (cont == 'HashMap' and 'hash' in k)): return k
        return 'Entry'
    def extreme(self, st, v, first):
        if v.k == 'coll' and v.a[0] is EMPTY:
            ex = self.exact_map(st, v, True)
            if ex: return ex[0 if first else -1][0]
            ks = []
            for o in v.a[1]:
                if o[0] in ('set', 'add'): 
                    if o[1] not in ks: ks.append(o[1])
                elif o[0] == 'rem': ks = [x for x in ks if x is not o[1]]
            best = None
            for k in ks:
                if all((st.rel(k, o) <= frozenset('<=' if first else '>=')) for o in ks): best = k
            if best is not None: return best
        return T('first' if first else 'last', v)
    def keyval(self, st, a): return self.I.deep(st, a)
    def entry_op(self, st, cont, f, args, t, depth, name, dash):
        I_ = self.I; sp = t.get('sp')
        a = args[0]
        e = self.val(st, a) if a.k == 'ptr' else a
        if cont == 'Entry':
            if e.k != 'agg': return None
            d = aggf(e, '0'); occ = e.a[1] == 'Occupied'
            i, p, k = d.a
            q = ptr(p.a[0], p.a[1] + (('at', k),))
            def g(s):
                return T('guard', i, q, 'dwrite') if dash else q
            if name == 'key': return self.R(st, I_.ref(st, k))
            if name in ('or_insert', 'or_default', 'or_insert_with', 'or_try_insert_with', 'or_insert_with_key'):
                if occ: return self.R(st, g(st))
                out = []
                if name == 'or_insert': outs = [Outcome('ret', st, args[1])]
                elif name == 'or_default':
                    ty = t['dt']['s'] if 'dt' in t else ''
                    m = re.search(r'(BTreeMap|HashMap|BTreeSet|HashSet|VecDeque|Vec)<[^&]*$', ty)
                    ft = re.sub(r"^&('\w+ )?mut ", '', ty)
                    kk = kind_of_ty(ft)
                    if kk in MAPS or kk in VECS: dv = coll()
                    elif ft in self.NUM: dv = I(0)
                    else:
                        ga = f.get('targs', ['', ''])
                        kk = kind_of_ty(ga[1]) if len(ga) > 1 else ''
                        if kk in MAPS or kk in VECS: dv = coll()
                        elif kk == 'Arc' and SHARED.search(ga[1]):
                            r = T('root', 'shared', st.fresh()); st.heap[r] = coll(); dv = ptr(r)
                        else: dv = coll() if re.search(r'(Map|Set|Vec|VecDeque)<', ga[1] if len(ga) > 1 else '') else T('default', short(ft))
                    outs = [Outcome('ret', st, dv)]
                else: outs = I_.call_value(st, args[1], [], t, depth)
                for o in outs:
                    if o.kind != 'ret': out.append(o); continue
                    self.mut(o.st, p, ('set', k, o.val), sp, cont='map', present=False, dash=dash)
                    out.append(Outcome('ret', o.st, g(o.st)))
                return out
            if name == 'and_modify':
                if not occ: return self.R(st, e)
                out = []
                for o in I_.call_value(st, args[1], [q], t, depth):
                    out.append(Outcome('ret', o.st, e) if o.kind == 'ret' else o)
                return out
            if name in ('insert', 'insert_entry'):
                self.mut(st, p, ('set', k, args[1]), sp, cont='map', present=occ, dash=dash)
                return self.R(st, g(st))
            return None
        if e.k != 'dentry': return None
        i, p, k = e.a
        q = ptr(p.a[0], p.a[1] + (('at', k),))
        if cont == 'OccupiedEntry':
            if name in ('get', 'get_mut', 'into_mut'): return self.R(st, q)
            if name == 'key': return self.R(st, I_.ref(st, k))
            if name == 'into_ref': return self.R(st, T('guard', i, q, 'dwrite'))
            if name in ('insert', 'replace_entry'):
                old = I_.lp(st, q); self.mut(st, p, ('set', k, args[1]), sp, cont='map', present=True, dash=dash); return self.R(st, old)
            if name in ('remove', 'remove_entry'):
                old = I_.lp(st, q)
                self.mut(st, p, ('rem', k), sp, cont='map', present=True)
                if i.a[0]: st.event('rel', sp, id=i.a[0])
                return self.R(st, tup(k, old) if name == 'remove_entry' else old)
        if cont == 'VacantEntry':
            if name in ('key', 'into_key'): return self.R(st, I_.ref(st, k) if name == 'key' else k)
            if name in ('insert', 'insert_entry'):
                self.mut(st, p, ('set', k, args[1]), sp, cont='map', present=False)
                return self.R(st, T('guard', i, q, 'dwrite') if dash else q)
        return None
    def vec_op(self, st, cont, f, args, t, depth, name, p, v):
        I_ = self.I; R = self.R; sp = t.get('sp')
        ln = self.length(st, v)
        at = lambda ix: ptr(p.a[0], p.a[1] + (('at', ix),))
        if name in ('push', 'push_back'): self.mut(st, p, ('push', args[1]), sp, cont=cont); return R(st)
        if name == 'push_front': self.mut(st, p, ('pushfront', args[1]), sp, cont=cont); return R(st)
        if name in ('split_at', 'split_first', 'split_last'):
            part = lambda s, lo, hi: I_.ref(s, self.subslice(s, v, lo, hi) if v.k in ('slice', 'bytes') or v.k == 'coll' and v.a[0] is EMPTY else T('slice', v, lo, hi))
            if name == 'split_at':
                st.event('slice', sp, base=v, lo=args[1], hi=ln)
                return R(st, tup(part(st, I(0), args[1]), part(st, args[1], ln)))
            out = []
            for s, b in I_.decide(st, I_.cmp(st, 'Gt', ln, I(0))):
                if not b: out.append(Outcome('ret', s, NONE)); continue
                last = I_.arith('Sub', ln, I(1))
                out.append(Outcome('ret', s, Some(tup(at(I(0)), part(s, I(1), ln)) if name == 'split_first' else tup(at(last), part(s, I(0), last)))))
            return out
        if name in ('get', 'get_mut'):
            ix = args[1]
            if ix.k == 'agg' or (t.get('at') and 'Range' in t['at'][1]['s']):
                r = self.slice_of(st, p, v, ix)
                if r.k != 'slice': return R(st, Some(I_.ref(st, r)))
                out = []
                lo, hi = (r.a[1], r.a[2])
                for s, b in (I_.decide(st, I_.cmp(st, 'Le', lo, hi)) if not self.offset_by(lo, hi) else [(st, True)]):
                    if not b: out.append(Outcome('ret', s, NONE)); continue
                    for s2, b2 in ([(s, True)] if hi is ln or (hi.k == 'len' and hi.a[0] is v) else I_.decide(s, I_.cmp(s, 'Le', hi, ln))):
                        out.append(Outcome('ret', s2, Some(I_.ref(s2, r)) if b2 else NONE))
                return out
            return [Outcome('ret', s, Some(at(ix)) if b else NONE) for s, b in I_.decide(st, I_.cmp(st, 'Lt', ix, ln))]
        if name in ('first', 'last', 'front', 'back', 'first_mut', 'last_mut', 'front_mut', 'back_mut', 'pop', 'pop_back', 'pop_front'):
            out = []
            for s, e in I_.decide(st, I_.cmp(st, 'Eq', ln, I(0))):
                if e: out.append(Outcome('ret', s, NONE)); continue
                ix = I(0) if ('f' in name[:1] or name == 'pop_front' or name == 'first') and not name.startswith('pop_b') and name != 'pop' else I_.arith('Sub', ln, I(1))
                if name.startswith('pop'):
                    old = I_.lp(s, at(ix))
                    vv = I_.lp(s, p)
                    if vv.k == 'coll' and vv.a[1] and vv.a[1][-1][0] == 'push' and name != 'pop_front':
                        nv = T('coll', vv.a[0], vv.a[1][:-1])
                        s.event('mut', sp, place=p, op=('pop',), before=vv, after=nv, cont=cont); I_.store(s, p.a[0], p.a[1], nv)
                    else: self.mut(s, p, ('poplast' if name != 'pop_front' else 'popfirst',), sp, cont=cont)
                    out.append(Outcome('ret', s, Some(old)))
                else: out.append(Outcome('ret', s, Some(at(ix))))
            return out
        if name == 'contains':
            x = self.val(st, args[1]); ex = self.exact_list(st, v)
            if ex is not None and len(ex) <= 4:
                work = [(st, False)]
                for e in ex:
                    w2 = []
                    for s, hit in work:
                        if hit: w2.append((s, True)); continue
                        for s2, tv in self.eqv(s, e, x): w2 += I_.decide(s2, tv)
                    work = w2
                return [Outcome('ret', s, B(hit)) for s, hit in work]
            return R(st, T('vcontains', v, x))
        if name in ('extend_from_slice', 'extend', 'append'):
            return self.do_extend(st, cont, f, args, t, depth, p)
        if name in ('remove', 'swap_remove'):
            ix = args[1]; old = I_.lp(st, at(ix))
            ex = self.exact_list(st, v)
            if ex is not None and ix.k == 'int' and ix.a[0] < len(ex):
                i = ix.a[0]
                if name == 'remove': xs = ex[:i] + ex[i + 1:]
                elif i == len(ex) - 1: xs = ex[:-1]
                else: xs = ex[:i] + [ex[-1]] + ex[i + 1:-1]
                self.rebuild(st, p, v, xs, name, sp, cont)
            else: self.mut(st, p, ('remix', ix), sp, cont=cont)
            return R(st, Some(old) if cont == 'VecDeque' else old)
        if name == 'insert': self.mut(st, p, ('insix', args[1], args[2]), sp, cont=cont); return R(st)
        if name == 'truncate': self.mut(st, p, ('truncate', args[1]), sp, cont=cont); return R(st)
        if name == 'resize':
            n, m = self.length(st, v), args[1]
            if n.k == 'int' and (m.k == 'int' and m.a[0] >= n.a[0] or n.a[0] == 0):
                if n.a[0] == 0 or m.a[0] > n.a[0]: self.mut(st, p, ('ext', T('repeat', args[2], m if n.a[0] == 0 else I(m.a[0] - n.a[0]))), sp, cont=cont)
                return R(st)
        if name in ('copy_from_slice', 'clone_from_slice'):
            I_.write(st, p.a[0], p.a[1], self.val(st, args[1]), sp, None); return R(st)
        exact = self.exact_list(st, v)
        if name in ('retain', 'retain_mut'):
            if exact is None: self.mut(st, p, ('retainp', self.snap_clo(st, args[1]), True), sp, cont=cont); return R(st)
            out = []
            def keep(s, x): return [y for o in I_.call_value(s, args[1], [I_.ref(s, x)], t, depth) if o.kind == 'ret' for y in I_.decide(o.st, o.val)]
            for s, kept in self.keep_items(st, exact, keep): out += self.rebuild(s, p, v, kept, name, sp, cont)
            return out
        if exact is not None and name.startswith('sort') and len(exact) > 3:    # one order stands for all: the order of long sequences is not tracked
            st.event('sorted', sp, place=p); return R(st)
        if exact is not None:
            if name == 'reverse': return self.rebuild(st, p, v, exact[::-1], name, sp, cont)
            less = None
            if name in ('sort', 'sort_unstable'): less = self.cmp3
            elif name in ('sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key'):
                def less(s, a, b):
                    out = []
                    for o in I_.call_value(s, args[1], [I_.ref(s, a)], t, depth):
                        if o.kind != 'ret': continue
                        for o2 in I_.call_value(o.st, args[1], [I_.ref(o.st, b)], t, depth):
                            if o2.kind == 'ret': out += self.cmp3(o2.st, o.val, o2.val)
                    return out
            elif name in ('sort_by', 'sort_unstable_by'):
                def less(s, a, b):
                    return [(s2, vn) for o in I_.call_value(s, args[1], [I_.ref(s, a), I_.ref(s, b)], t, depth) if o.kind == 'ret' for s2, vn in I_.enum_cases(o.st, o.val, ORDERING)]
            if less:
                return [y for s, order in self.permute(st, exact, less) for y in self.rebuild(s, p, v, order, name, sp, cont)]
            if name == 'dedup':
                work = [(st, [])]
                for x in exact:
                    w = []
                    for s, acc in work:
                        if not acc: w.append((s, [x])); continue
                        for s1, e in self.eqv(s, acc[-1], x):
                            for s2, bb in I_.decide(s1, e): w.append((s2, acc if bb else acc + [x]))
                    work = w
                return [y for s, acc in work for y in self.rebuild(s, p, v, acc, name, sp, cont)]
        if name in ('sort', 'sort_unstable', 'dedup', 'reverse', 'sort_by', 'sort_by_key', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key', 'dedup_by_key', 'dedup_by'):
            self.mut(st, p, (name,), sp, cont=cont); return R(st)
        if name in ('as_ptr', 'as_slice', 'as_mut_slice'): return R(st, p)
        if name in ('to_vec', 'into_vec'): return R(st, self.to_coll(v))
        if name == 'starts_with':
            x = self.val(st, args[1]); out = []
            lo = v.a[1] if v.k == 'slice' else I(0)
            base = v.a[0] if v.k == 'slice' else v
            hi = v.a[2] if v.k == 'slice' else ln
            end = I_.arith('Add', lo, self.length(st, x))
            for s, b in I_.decide(st, I_.cmp(st, 'Le', end, hi)):
                if not b: out.append(Outcome('ret', s, FALSE)); continue
                for s2, e in self.eqv(s, T('slice', base, lo, end), x): out.append(Outcome('ret', s2, e))
            return out
        if name in ('split_at',): return None
        return None
    def rebuild(self, st, p, v, xs, name, sp, cont):
        nv = coll(EMPTY, tuple(('push', x) for x in xs))
        st.event('mut', sp, place=p, op=(name,), before=v, after=nv, cont=cont); self.I.store(st, p.a[0], p.a[1], nv)
        return self.R(st)
    def do_extend(self, st, cont, f, args, t, depth, p):
        I_ = self.I; sp = t.get('sp')
        a = args[1]
        v = self.val(st, a) if f['name'] != 'extend' else a
        if f['name'] == 'append':
            q = self.pp(st, a); v = I_.lp(st, q)
            self.I.store(st, q.a[0], q.a[1], coll())
        whole = a.k not in ('ptr', 'iter', 'agg', 'coll', 'guard') and cont in VECS and t.get('at') and kind_of_ty(t['at'][1]['s']) == 'Vec'
        if v.k == 'iter' or f['name'] == 'extend' and not whole:
            it = v if v.k == 'iter' else self.toiter(st, a, t['at'][1]['s']) if t.get('at') and kind_of_ty(t['at'][1]['s']) == 'Option' else self.mkiter('val' if a.k != 'ptr' else 'ref', a, kind_of_ty(t['at'][1]['s']) if t.get('at') else cont, None)
            return self.consume(st, it, t, depth, lambda s, e, acc: [('go', Outcome('ret', s, None), self._ext1(s, p, cont, e, sp))], None, lambda s, acc: self.R(s))
        if v.k == 'coll' and v.a[0] is EMPTY and all(o[0] == 'push' for o in v.a[1]) and f['name'] != 'extend_from_slice':
            for o in v.a[1]: self.mut(st, p, o, sp, cont=cont)
        else: self.mut(st, p, ('ext', v), sp, cont=cont)
        return self.R(st)
    def t_Extend(self, st, f, args, t, depth, name):
        if name != 'extend': return None
        cont = kind_of_ty(f['self']['s'])
        if cont not in MAPS and cont not in VECS: return None
        return self.do_extend(st, cont, f, args, t, depth, self.pp(st, args[0]))
    def _ext1(self, s, p, cont, e, sp):
        if cont in SETS: self.mut(s, p, ('add', self.val(s, e) if e.k == 'ptr' else e), sp, cont=cont, present=None)
        elif cont in MAPS:
            k, v = self.I.proj(s, e, ('f', '0')), self.I.proj(s, e, ('f', '1'))
            self.mut(s, p, ('set', k, v), sp, cont=cont, present=None)
        else: self.mut(s, p, ('push', e), sp, cont=cont)
        return None
    def offset_by(self, lo, hi):
        """hi is lo plus something"""
        return lo.k == 'int' and lo.a[0] == 0 or hi.k == 'op' and hi.a[0] == 'Add' and (hi.a[1] is lo or hi.a[2] is lo)
    def slice_of(self, st, p, v, ix):
        r = self.I.deep(st, ix)
        lo, hi = I(0), T('len', v)
        if r.k == 'agg':
            d = dict(r.a[2])
            nm = r.a[0].split('::')[-1]
            lo = d.get('start', I(0)); hi = d.get('end', self.length(st, v))
            if nm == 'RangeToInclusive' : hi = self.I.arith('Add', d['end'] if 'end' in d else d['last'], I(1))
            if nm == 'RangeFull': return v
        elif r.k == 'const' and 'RangeFull' in str(r.a[0]): return v
        if v.k == 'slice': return T('slice', v.a[0], self.I.arith('Add', v.a[1], lo), self.I.arith('Add', v.a[1], hi))
        if v.k == 'coll' and v.a[0] is EMPTY or v.k == 'bytes': return self.subslice(st, v, lo, hi)
        return T('slice', v, lo, hi)
    def t_Index(self, st, f, args, t, depth, name):
        p = self.pp(st, args[0]); v = self.I.lp(st, p)
        ix = args[1]
        at = t['at'][1]['s'] if t.get('at') else ''
        if 'Range' in at or (ix.k == 'agg' and 'Range' in ix.a[0]):
            s = self.slice_of(st, p, v, ix)
            st.event('slice', t.get('sp'), base=v, lo=s.a[1] if s.k == 'slice' else None, hi=s.a[2] if s.k == 'slice' else None)
            if name == 'index_mut':
                return self.R(st, ptr(p.a[0], p.a[1] + (('f', 'range:%s:%s' % (show(s.a[1]), show(s.a[2])) if s.k == 'slice' else 'full'),)))
            return self.R(st, self.I.ref(st, s))
        k = self.I.deep(st, ix)
        cont = kind_of_ty(f['self']['s']) if f.get('self') else ''
        if cont in MAPS:
            out = []
            for s, b in self.has(st, v, k):
                if b: out.append(Outcome('ret', s, ptr(p.a[0], p.a[1] + (('at', k),))))
                else: s.event('panic', t.get('sp'), fn='map index'); out.append(Outcome('panic', s, None, 'map index'))
            return out
        st.event('index', t.get('sp'), base=p, ix=k)
        return self.R(st, ptr(p.a[0], p.a[1] + (('at', k),)))
    t_IndexMut = t_Index

    # guards / refs of dashmap
    def c_Ref(self, st, f, args, t, depth, name):
        g = self.I.lp(st, args[0]) if args[0].k == 'ptr' else args[0]
        if g.k != 'guard': return None
        q = g.a[1]; k = q.a[1][-1][1] if q.a[1] and q.a[1][-1][0] == 'at' else T('call', 'key', q)
        if name in ('value', 'value_mut'): return self.R(st, q)
        if name == 'key': return self.R(st, self.I.ref(st, k))
        if name in ('pair', 'pair_mut'): return self.R(st, tup(self.I.ref(st, k), q))
    c_RefMut = c_Ref; c_RefMulti = c_Ref; c_RefMutMulti = c_Ref

    # ================= iterators
    def mkiter(self, mode, x, cont, proj=None, dash=False):
        return T('iter', T('src', mode, x, cont, proj or '', dash), T('pos', 'base', 0), ())
    def widen_iter(self, o, v, tag):
        pos = v.a[1]
        if v.a[0] is not o.a[0] and v.a[0].k == 'src' and v.a[0].a[0] in ('chain', 'zip', 'flat'): return v
        if pos.k == 'pos' and pos.a[0] == 'base' and isinstance(pos.a[1], int): return T('iter', v.a[0], T('pos', 'base', 'k'), v.a[2])
        if pos.k == 'pos' and pos.a[0] == 'range': return T('iter', v.a[0], T('pos', 'range', 'k'), v.a[2])
        return v
    def toiter(self, st, a, tys=''):
        if a.k == 'iter': return a
        if a.k == 'ptr':
            v = self.I.lp(st, a)
            if v.k == 'iter': return a       # &mut iter
            if v.k in ('ptr', 'guard'): a = self.pp(st, a); v = self.I.lp(st, a)
            k = kind_of_ty(tys)
            if v.k == 'agg' and v.a[0] == OPT or k == 'Option': return T('iter', T('src', 'opt', a), T('pos', 'base', 0), ())
            return self.mkiter('ref', a, k or 'Vec', None, 'dashmap' in tys)
        if a.k == 'agg' and 'Range' in a.a[0]: return T('iter', T('src', 'range', a), T('pos', 'range', 0), ())
        if (a.k == 'agg' and a.a[0] == OPT) or kind_of_ty(tys) == 'Option': return T('iter', T('src', 'opt', a), T('pos', 'base', 0), ())
        return self.mkiter('val', a, kind_of_ty(tys) or 'Vec')
    def t_IntoIterator(self, st, f, args, t, depth, name):
        return self.R(st, self.toiter(st, args[0], t['at'][0]['s'] if t.get('at') else ''))
    def f_std_iter_once(self, st, f, args, t, depth, name): return self.R(st, T('iter', T('src', 'once', args[0]), T('pos', 'base', 0), ()))
    f_core_iter_once = f_std_iter_once; f_core_iter_sources_once_once = f_std_iter_once; f_std_iter_sources_once_once = f_std_iter_once
    def f_std_iter_empty(self, st, f, args, t, depth, name): return self.R(st, T('iter', T('src', 'val', EMPTY, 'Vec', '', False), T('pos', 'base', 0), ()))
    f_core_iter_empty = f_std_iter_empty; f_core_iter_sources_empty_empty = f_std_iter_empty; f_std_iter_sources_empty_empty = f_std_iter_empty
    def exact_list(self, st, v):
        """the elements of a list built from nothing, or None"""
        base, log = v.a if v.k == 'coll' else (v, ())
        if base is EMPTY: items = []
        elif base.k == 'agg' and base.a[0] == 'array': items = [x for _, x in base.a[2]]
        elif base.k == 'repeat':
            n = self.length(st, base)
            if n.k != 'int' or n.a[0] > 16: return None
            items = [base.a[0]] * n.a[0]
        else: return None
        for o in log:
            if o[0] == 'push': items.append(o[1])
            elif o[0] == 'set' and o[1].k == 'int' and 0 <= o[1].a[0] < len(items): items[o[1].a[0]] = o[2]
            elif o[0] == 'ext' and o[1].k == 'repeat' and self.exact_list(st, o[1]) is not None: items += self.exact_list(st, o[1])
            else: return None
        return items
    def exact_map(self, st, v, ordered=False):
        """the content of a map or set built from nothing when it is decided which keys are equal: list of (key, value), or None"""
        if v is EMPTY: return []
        if v.k != 'coll' or v.a[0] is not EMPTY: return None
        items = []
        for o in v.a[1]:
            if o[0] not in ('set', 'add', 'rem'): return None
            hit = None
            for j, (k, _) in enumerate(items):
                r = frozenset('=') if k is o[1] else st.rel(k, o[1])
                if r == frozenset('='): hit = j
                elif '=' in r: return None
            if o[0] == 'rem':
                if hit is not None: del items[hit]
            elif hit is None: items.append((o[1], o[2] if o[0] == 'set' else o[1]))
            elif o[0] == 'set': items[hit] = (items[hit][0], o[2])
        if ordered:
            out = []
            for it in items:
                i = 0
                while i < len(out):
                    r = st.rel(out[i][0], it[0])
                    if r == frozenset('>'): break
                    if r != frozenset('<'): return None
                    i += 1
                out.insert(i, it)
            return out
        return items
    def _src_list(self, st, V, kind):
        """known elements after the opaque base: list of (key, value)"""
        if kind in MAPS or kind in SETS:
            ex = self.exact_map(st, V, 'BTree' in kind)
            if ex is not None: return EMPTY, ex
        if V.k == 'agg' and V.a[0] == 'array': return EMPTY, [(I(i), x) for i, (_, x) in enumerate(V.a[2])]
        if kind in VECS:
            ex = self.exact_list(st, V)
            if ex is not None: return EMPTY, [(I(i), x) for i, x in enumerate(ex)]
        if V.k != 'coll': return V, []
        base, log = V.a
        if any(o[0] not in ('set', 'add', 'push', 'rem') for o in log): return V, []
        items = []
        n = 0
        for i, o in enumerate(log):
            if o[0] == 'set':
                hit = False
                for j, (k, _) in enumerate(items):
                    if k is o[1] or st.rel(k, o[1]) == frozenset('='): items[j] = (k, o[2]); hit = True
                if not hit:
                    if base is not EMPTY and kind in VECS: return V, []
                    items.append((o[1], o[2]))
            elif o[0] == 'add':
                if not any(k is o[1] for k, _ in items): items.append((o[1], o[1]))
            elif o[0] == 'push':
                items.append((self.length(st, T('coll', base, log[:i])), o[1]))
            elif o[0] == 'rem': items = [x for x in items if x[0] is not o[1]]
        return base, items
    def src_next(self, st, it):
        """-> list of (state, elem or None, index, newiter)"""
        src, pos, stages = it.a
        mode = src.a[0]
        I_ = self.I
        if mode == 'opt':
            a = src.a[1]
            if pos.a[1] != 0: return [(st, None, None, it)]
            ref = a.k == 'ptr'
            v = I_.lp(st, a) if ref else a
            while v.k == 'ptr': a = v; ref = True; v = I_.lp(st, a)
            out = []
            for s, vn in I_.enum_cases(st, v, OPT):
                n = T('iter', src, T('pos', 'base', 1), stages)
                if vn == 'None': out.append((s, None, None, n))
                else: out.append((s, ptr(a.a[0], a.a[1] + (('v', 'Some', '0'),)) if ref else I_.payload(s, v, 'Some'), I(0), n))
            return out
        if mode == 'range':
            r = src.a[1]; d = dict(r.a[2]); n = pos.a[1]
            lo = d.get('start', I(0)); hi = d.get('end')
            cur = I_.arith('Add', lo, I(n)) if isinstance(n, int) else T('rng', lo, hi or UNIT, n)
            out = []
            if isinstance(n, int) and hi is not None:
                conds = I_.decide(st, I_.cmp(st, 'Le' if 'Inclusive' in r.a[0] else 'Lt', cur, hi))
            else:
                s2 = st.fork(); conds = [(st, True), (s2, False)]
            for s, b in conds:
                nn = T('iter', src, T('pos', 'range', n + 1 if isinstance(n, int) else n + 'k'), stages)
                out.append((s, cur if b else None, I(n) if isinstance(n, int) else cur, nn))
            return out
        if mode == 'chain':
            out = []
            for s, e, ix, n in self.iter_next(st, src.a[1]):
                if e is not None: out.append((s, e, ix, T('iter', T('src', 'chain', n, src.a[2]), pos, stages)))
                else:
                    for s2, e2, ix2, n2 in self.iter_next(s, src.a[2]):
                        out.append((s2, e2, ix2, T('iter', T('src', 'chain', n, n2), pos, stages)))
            return out
        if mode == 'zip':
            out = []
            for s, e, ix, n in self.iter_next(st, src.a[1]):
                if e is None: out.append((s, None, None, it)); continue
                for s2, e2, ix2, n2 in self.iter_next(s, src.a[2]):
                    out.append((s2, tup(e, e2) if e2 is not None else None, ix, T('iter', T('src', 'zip', n, n2), pos, stages)))
            return out
        if mode == 'flat':
            return self.flat_next(st, it, 0)
        if mode == 'once':
            if pos.a[1] != 0: return [(st, None, None, it)]
            return [(st, src.a[1], I(0), T('iter', src, T('pos', 'base', 1), stages))]
        if mode == 'range_of':
            x = src.a[1]; cont = src.a[2]; proj = ''; dash = False; ref = True
            V0 = I_.lp(st, x)
            V = T('subrange', V0, src.a[3])
            base, items = V, []
        else:
            x = src.a[1]; cont = src.a[2]; proj = src.a[3]; dash = src.a[4]
            ref = mode == 'ref'
            V = I_.lp(st, x) if ref else x
            if V.k == 'ptr': x = V; V = I_.lp(st, V)
            base, items = self._src_list(st, V, cont)
        rev = any(s[0] == 'rev' for s in stages)
        if rev: items = items[::-1]
        ph, n = pos.a
        def mk(s, k, val):
            isset = cont in SETS
            if cont in VECS:
                if not ref: return val if val is not None else T('at', V, k)
                return ptr(x.a[0], x.a[1] + (('at', k),))
            if isset:
                return I_.ref(s, k) if ref else k
            if dash:
                i = s.fresh(); q = ptr(x.a[0], x.a[1] + (('at', k),))
                s.event('acq', None, id=i, mode='diter', place=x, key=k, blocking=True)
                return T('guard', T('int', i), q, 'diter')
            vv = ptr(x.a[0], x.a[1] + (('at', k),)) if ref else (val if val is not None else T('at', V, k))
            if proj == 'keys': return I_.ref(s, k) if ref else k
            if proj == 'values': return vv
            return tup(I_.ref(s, k) if ref else k, vv)
        out = []
        def base_step(st):
            if base is EMPTY: return [('end', st)]
            if isinstance(n, int) and ph == 'base':
                cond = I_.cmp(st, 'Gt', self.length(st, base) if True else T('len', base), I(n))
                lim = I_.opt['bounded'] and n >= I_.opt['loop_exact']
                return [('el', s) if b else ('end', s) for s, b in I_.decide(st, cond) if not (b and lim)]
            s2 = st.fork()
            return [('el', st), ('end', s2)]
        if ph == 'base':
            for kind, s in base_step(st):
                if kind == 'el':
                    if cont in VECS: k = T('rix', base, n) if rev else (I(n) if isinstance(n, int) else T('elem', base, n))
                    elif n == 0 and cont.startswith('BTree'): k = T('last' if rev else 'first', base)
                    else: k = T('relem' if rev else 'elem', base, n)
                    val = T('at', base, k)
                    if mode == 'range_of':
                        if not self.range_facts(s, src.a[3], k): continue
                        val = T('at', V0, k)
                    nn = n + 1 if isinstance(n, int) else n + 'k'
                    s.event('elem', None, src=base, idx=n, key=k, rev=rev)
                    out.append((s, mk(s, k, val), k, T('iter', src, T('pos', 'base', nn), stages)))
                else:
                    s.event('iterend', None, src=base)
                    if items:
                        k, val = items[0]
                        out.append((s, mk(s, k, val), k, T('iter', src, T('pos', 'log', 1), stages)))
                    else: out.append((s, None, None, T('iter', src, T('pos', 'log', 0), stages)))
            return out
        if n < len(items):
            k, val = items[n]
            return [(st, mk(st, k, val), k, T('iter', src, T('pos', 'log', n + 1), stages))]
        return [(st, None, None, it)]
    def flat_next(self, st, it, tries):
        src, pos, stages = it.a
        outer, inner, ty = src.a[1:4]
        out = []
        mk = lambda o, i: T('iter', T('src', 'flat', o, i, ty), pos, stages)
        if inner.k == 'iter':
            for s, e, ix, n in self.iter_next(st, inner):
                if e is not None: out.append((s, e, ix, mk(outer, n)))
                else: out += self.flat_next(s, mk(outer, UNIT), tries)
            return out
        if tries > 12:
            st.event('loopcut', None, head='flat')
            self.pend.append(Outcome('cut', st)); return out
        for s, e, ix, n in self.iter_next(st, outer):
            if e is None: out.append((s, None, None, mk(n, UNIT)))
            else: out += self.flat_next(s, mk(n, self.toiter(s, e, ty)), tries + 1)
        return out
    def range_facts(self, s, r, k):
        """order facts of a key found in a range"""
        if r.k != 'agg': return True
        d = dict(r.a[2]); nm = r.a[0].split('::')[-1]
        lo, hi = d.get('start'), d.get('end')
        if lo is not None and lo.k != 'agg' and not s.assume(k, lo, frozenset('>=')): return False
        if hi is not None and hi.k != 'agg' and not s.assume(k, hi, frozenset('<=' if 'Inclusive' in nm else '<')): return False
        return True
    def iter_next(self, st, it, t=None, depth=0, tries=0):
        """apply stages: list of (state, elem|None, idx, newiter); panics raised as Outcome in self.pend"""
        out = []
        for i, sg in enumerate(it.a[2]):
            if sg[0] == 'take':             # an exhausted take does not ask for another element
                c = sg[2] if len(sg) > 2 else I(0)
                both = self.I.decide(st, self.I.cmp(st, 'Lt', c, sg[1]))
                st = None
                for s, more in both:
                    if more: st = s
                    else: out.append((s, None, None, it))
                if st is None: return out
        for s, e, ix, n in self.src_next(st, it):
            if e is None: out.append((s, None, None, n)); continue
            res = self.stage(s, e, ix, it.a[2], 0, t, depth)
            for kind, s2, v, sgs in res:
                m = n if sgs is it.a[2] else T('iter', n.a[0], n.a[1], sgs)
                if kind == 'elem': out.append((s2, v, ix, m))
                elif kind == 'stop': out.append((s2, None, ix, m))
                elif kind == 'skip':
                    if tries < 2 or self.I.opt['bounded'] or n.a[1].a[0] == 'log': out += self.iter_next(s2, m, t, depth, tries + 1)
                    else:
                        s2.event('loopcut', None, head='iter')
                        self.pend.append(Outcome('cut', s2))
                else: self.pend.append(v)
        return out
    pend = []
    def stage(self, st, e, ix, stages, i, t, depth):
        """one element through the stages from the i-th on: (kind, state, value, stages with their counters)"""
        if i >= len(stages): return [('elem', st, e, stages)]
        sg = stages[i]; k = sg[0]; I_ = self.I
        nx = lambda s, v, sgs=stages: self.stage(s, v, ix, sgs, i + 1, t, depth)
        def counted(c): return stages[:i] + (sg[:1] + ((sg[1],) if k != 'enumerate' else ()) + (I_.arith('Add', c, I(1)),),) + stages[i + 1:]
        if k in ('rev',): return nx(st, e)
        if k in ('cloned', 'copied'):
            v = I_.lp(st, e) if e.k == 'ptr' else e
            return nx(st, v)
        if k == 'enumerate':
            if any(x[0] == 'rev' for x in stages[i + 1:]): return nx(st, tup(ix, e))
            c = sg[1] if len(sg) > 1 else I(0)
            if ix is not None and ix.k == 'elem': return nx(st, tup(ix, e))
            return nx(st, tup(c, e), counted(c))
        out = []
        if k in ('map', 'inspect'):
            a = [e] if k == 'map' else [I_.ref(st, e)]
            for o in I_.call_value(st, sg[1], a, t or {}, depth):
                if o.kind == 'ret': out += nx(o.st, o.val if k == 'map' else e)
                else: out.append(('panic', o.st, o, stages))
            return out
        if k in ('filter', 'take_while', 'skip_while'):
            for o in I_.call_value(st, sg[1], [I_.ref(st, e)], t or {}, depth):
                if o.kind != 'ret': out.append(('panic', o.st, o, stages)); continue
                for s, b in I_.decide(o.st, o.val):
                    if k == 'skip_while':
                        b = not b
                        if b: out += self.stage(s, e, ix, stages[:i] + (('stage-done',),) + stages[i + 1:], i + 1, t, depth); continue
                    if b: out += nx(s, e); continue
                    self.drop(s, e, None, None)       # a guard on an element that is passed over
                    out.append(('skip' if k != 'take_while' else 'stop', s, None, stages))
            return out
        if k in ('filter_map', 'map_while'):
            for o in I_.call_value(st, sg[1], [e], t or {}, depth):
                if o.kind != 'ret': out.append(('panic', o.st, o, stages)); continue
                for s, vn in I_.enum_cases(o.st, o.val, OPT):
                    if vn == 'Some': out += nx(s, I_.payload(s, o.val, 'Some'))
                    else: out.append(('skip' if k == 'filter_map' else 'stop', s, None, stages))
            return out
        if k == 'flatten':
            p = None; v = e
            while v.k == 'ptr': p = v; v = I_.lp(st, p)
            res = v.k == 'agg' and v.a[0] == RES
            for s, vn in I_.enum_cases(st, v, RES if res else OPT):
                if vn in ('Some', 'Ok'): out += nx(s, ptr(p.a[0], p.a[1] + (('v', vn, '0'),)) if p is not None else I_.payload(s, v, vn))
                else: out.append(('skip', s, None, stages))
            return out
        if k in ('take', 'skip'):
            st.event('stage', None, which=k, n=sg[1])
            c = sg[2] if len(sg) > 2 else I(0)
            for s, b in I_.decide(st, I_.cmp(st, 'Lt', c, sg[1])):
                if b and k == 'skip': out.append(('skip', s, None, counted(c)))
                elif b:
                    if sg[1].k == 'int' and sg[1].a[0] >= 3:        # only the first rounds are followed, there can be more
                        s2 = s.fork(); s2.event('more', None, count=c, limit=sg[1]); out.append(('stop', s2, None, stages))
                    out += nx(s, e, counted(c))
                elif k == 'take': out.append(('stop', s, None, stages))
                else: out += nx(s, e)
            return out
        if k == 'among':
            for s, b in self.has(st, sg[1], self.val(st, e)): out += nx(s, e) if b == sg[2] else [('skip', s, None, stages)]
            return out
        if k == 'stage-done': return nx(st, e)
        return nx(st, T('stage', k, e))
    ADAPT = {'map', 'filter', 'filter_map', 'inspect', 'take_while', 'skip_while', 'map_while', 'take', 'skip'}
    ADAPT0 = {'enumerate', 'rev', 'cloned', 'copied', 'fuse', 'by_ref', 'peekable'}
    def t_Iterator(self, st, f, args, t, depth, name):
        I_ = self.I
        a = args[0]
        byref = None
        if a.k == 'ptr':
            v = I_.lp(st, a)
            if v.k == 'ptr': a = v; v = I_.lp(st, v)
            if v.k == 'iter': byref = a; it = v
            else: return None
        elif a.k == 'iter': it = a
        else:
            it = self.toiter(st, a, t['at'][0]['s'] if t.get('at') else '')
        if name == 'next' or name == 'next_back':
            if byref is None: return None
            if name == 'next_back' and not any(x[0] == 'rev' for x in it.a[2]): it = T('iter', it.a[0], it.a[1], it.a[2] + (('rev',),))
            self.pend = pend = []
            old = self.pend
            out = []
            for s, e, ix, n in self.iter_next(st, it, t, depth):
                I_.store(s, byref.a[0], byref.a[1], n)
                out.append(Outcome('ret', s, Some(e) if e is not None else NONE))
            return out + self.pend
        if name in self.ADAPT: return self.R(st, T('iter', it.a[0], it.a[1], it.a[2] + ((name, args[1]),)))
        if name in self.ADAPT0: return self.R(st, T('iter', it.a[0], it.a[1], it.a[2] + ((name,),)) if name not in ('fuse', 'by_ref', 'peekable') else (it if byref is None else byref))
        if name == 'flat_map':
            return self.R(st, T('iter', T('src', 'flat', T('iter', it.a[0], it.a[1], it.a[2] + (('map', args[1]),)), UNIT, (f.get('targs') or ['', ''])[1]), T('pos', 'base', 0), ()))
        if name == 'flatten': return self.R(st, T('iter', it.a[0], it.a[1], it.a[2] + (('flatten',),)))
        if name == 'chain': return self.R(st, T('iter', T('src', 'chain', it, self.toiter(st, args[1], t['at'][1]['s'])), T('pos', 'base', 0), ()))
        if name == 'zip': return self.R(st, T('iter', T('src', 'zip', it, self.toiter(st, args[1], t['at'][1]['s'])), T('pos', 'base', 0), ()))
        go = lambda s, acc: ('go', s, acc)
        def ret(v): return lambda s, acc: self.R(s, v(acc) if callable(v) else v)
        if name in ('all', 'any', 'find', 'position', 'find_map', 'for_each', 'try_for_each', 'fold', 'count', 'collect', 'collect_vec', 'last', 'sum', 'max', 'min', 'max_by_key', 'min_by_key', 'partition', 'nth', 'collect_into', 'eq', 'reduce', 'product', 'unzip', 'cmp', 'try_fold', 'max_by', 'min_by'):
            return self.consumer(st, it, name, f, args, t, depth)
        return None
    t_DoubleEndedIterator = t_Iterator; t_ExactSizeIterator = t_Iterator; t_Itertools = t_Iterator
    def consumer(self, st, it, name, f, args, t, depth):
        I_ = self.I
        clo = args[1] if len(args) > 1 else None
        dst = t['dt']['s'] if t.get('dt') else ''
        def callc(s, xs, k):
            out = []
            for o in I_.call_value(s, clo, xs, t, depth):
                if o.kind == 'ret': out += k(o.st, o.val)
                else: out.append(('done', o, None))
            return out
        if name in ('all', 'any'):
            want = name == 'any'
            def step(s, e, acc):
                return callc(s, [e], lambda s2, v: [('done', Outcome('ret', s3, B(want)), None) if b == want else ('go', Outcome('ret', s3), acc) for s3, b in I_.decide(s2, v)])
            return self.consume(st, it, t, depth, step, None, lambda s, acc: self.R(s, B(not want)))
        if name in ('find', 'position'):
            def step(s, e, acc):
                a = I_.ref(s, e) if name == 'find' else e
                return callc(s, [a], lambda s2, v: [('done', Outcome('ret', s3, Some(e if name == 'find' else acc)), None) if b else (self.drop(s3, e, None, None) if name == 'find' else None, ('go', Outcome('ret', s3), I_.arith('Add', acc, I(1))))[1] for s3, b in I_.decide(s2, v)])
            return self.consume(st, it, t, depth, step, I(0), lambda s, acc: self.R(s, NONE))
        if name == 'find_map':
            def step(s, e, acc):
                return callc(s, [e], lambda s2, v: [('done', Outcome('ret', s3, v if v.k == 'agg' else Some(I_.payload(s3, v, 'Some'))), None) if vn == 'Some' else ('go', Outcome('ret', s3), acc) for s3, vn in I_.enum_cases(s2, v, OPT)])
            return self.consume(st, it, t, depth, step, None, lambda s, acc: self.R(s, NONE))
        if name == 'for_each':
            def step(s, e, acc): return callc(s, [e], lambda s2, v: [('go', Outcome('ret', s2), acc)])
            return self.consume(st, it, t, depth, step, None, lambda s, acc: self.R(s))
        if name in ('fold',):
            clo = args[2]
            def step(s, e, acc): return callc(s, [acc, e], lambda s2, v: [('go', Outcome('ret', s2), v)])
            return self.consume(st, it, t, depth, step, args[1], lambda s, acc: self.R(s, acc))
        if name in ('try_for_each', 'try_fold'):
            fold = name == 'try_fold'
            if fold: clo = args[2]
            def step(s, e, acc):
                def k(s2, v):
                    out = []
                    adt = RES if 'Result' in dst else OPT
                    for s3, vn in I_.enum_cases(s2, v, adt):
                        if vn in ('Ok', 'Some'): out.append(('go', Outcome('ret', s3), I_.payload(s3, v, vn)))
                        else: out.append(('done', Outcome('ret', s3, v), None))
                    return out
                return callc(s, [acc, e] if fold else [e], k)
            okv = Ok if 'Result' in dst else Some
            return self.consume(st, it, t, depth, step, args[1] if fold else UNIT, lambda s, acc: self.R(s, okv(acc if fold else UNIT)))
        if name in ('last', 'nth', 'sum', 'max', 'min', 'count', 'max_by_key', 'min_by_key', 'reduce', 'product', 'eq', 'cmp', 'max_by', 'min_by', 'partition', 'unzip'):
            if name == 'count':
                return self.consume(st, it, t, depth, lambda s, e, acc: [(self.drop(s, e, None, None), ('go', Outcome('ret', s), I_.arith('Add', acc, I(1))))[1]], I(0), lambda s, acc: self.R(s, acc))
            if name in ('max', 'min'):
                def step(s, e, acc):
                    if acc is NONE: return [('go', Outcome('ret', s), Some(e))]
                    o = aggf(acc, '0'); out = []
                    for s2, r in self.cmp3(s, o, e):
                        pick = o if (r == 'Greater') == (name == 'max') and r != 'Equal' else e
                        out.append(('go', Outcome('ret', s2), Some(pick)))
                    return out
                return self.consume(st, it, t, depth, step, NONE, lambda s, acc: self.R(s, acc))
            if name == 'last' and not it.a[2] and it.a[1] is T('pos', 'base', 0) and it.a[0].a[0] in ('ref', 'val', 'range_of') and it.a[0].a[2].startswith('BTree'):
                return [Outcome('ret', s, Some(e) if e is not None else NONE) for s, e, _, _ in self.iter_next(st, T('iter', it.a[0], it.a[1], (('rev',),)))]
            if name == 'last':
                return self.consume(st, it, t, depth, lambda s, e, acc: [('go', Outcome('ret', s), Some(e))], NONE, lambda s, acc: self.R(s, acc))
            r = T('ret', 'Iterator::' + name, T('int', st.fresh()), it.a[0].a[1] if len(it.a[0].a) > 1 and isinstance(it.a[0].a[1], T) else UNIT)
            st.event('call', t.get('sp'), fn='Iterator::' + name, args=tuple(args), raw=tuple(args), ret=r, virt=False, targs=())
            return self.R(st, r)
        # collect
        kind = kind_of_ty(dst)
        inres = None
        if kind in ('Result', 'Option'):
            inres = kind; m = re.match(r'[\w:]+<([\w:]+)', dst); kind = m.group(1).split('::')[-1] if m else 'Vec'
        def add(acc, s, e):
            log = acc.a[1]
            if kind in SETS: return T('coll', acc.a[0], log + (('add', e),))
            if kind in MAPS: return T('coll', acc.a[0], log + (('set', I_.proj(s, e, ('f', '0')), I_.proj(s, e, ('f', '1'))),))
            return T('coll', acc.a[0], log + (('push', e),))
        def step(s, e, acc):
            if inres is None:
                s.event('collect', t.get('sp'), elem=e, into=kind)
                return [('go', Outcome('ret', s), add(acc, s, e))]
            out = []
            for s2, vn in I_.enum_cases(s, e, RES if inres == 'Result' else OPT):
                if vn in ('Ok', 'Some'):
                    s2.event('collect', t.get('sp'), elem=I_.payload(s2, e, vn), into=kind)
                    out.append(('go', Outcome('ret', s2), add(acc, s2, I_.payload(s2, e, vn))))
                else:
                    out.append(('done', Outcome('ret', s2, e if e.k == 'agg' else (Err(I_.payload(s2, e, 'Err')) if vn == 'Err' else NONE)), None))
            return out
        w = (lambda v: v) if inres is None else (Ok if inres == 'Result' else Some)
        return self.consume(st, it, t, depth, step, coll(), lambda s, acc: self.R(s, w(acc)), summarize=lambda s, acc: self.R(s, w(T('coll', acc.a[0], acc.a[1] + (('more',),)))) if False else None)
    def consume(self, st, it, t, depth, step, acc, fin, summarize=None):
        """bounded run of a pipeline: elements 0..iters-1, the rest is cut"""
        out = []
        src = it.a[0]
        work = [(st, it, acc, 0)]
        lim = self.I.opt['loop_exact'] if self.I.opt['bounded'] else self.I.opt['iters']
        if src.a[0] in ('chain', 'flat') and self.I.opt['bounded']: lim = lim * (lim + 2) + 2     # the parts are bounded themselves
        while work:
            s, i, a, n = work.pop()
            saved = self.pend; self.pend = []
            nxt = self.iter_next(s, i, t, depth)
            out += self.pend; self.pend = saved
            for s2, e, ix, i2 in nxt:
                if e is None: out += fin(s2, a); continue
                base_phase = i2.a[1].a[0] != 'log'
                if n >= lim and base_phase:
                    s2.event('loopcut', None, head='consume')
                    out.append(Outcome('cut', s2)); continue
                for kind, o, a2 in step(s2, e, a):
                    if kind == 'done': out.append(o)
                    else: work.append((o.st, i2, a2, n + 1 if base_phase else n))
        return out

def canon(v):
    """pointer to the place an opaque pointer-like value refers to"""
    path = []
    x = v
    while x.k in ('fld', 'vf', 'at'):
        if x.k == 'fld': path.append(('f', x.a[1])); x = x.a[0]
        elif x.k == 'vf': path.append(('v', x.a[1], x.a[2])); x = x.a[0]
        else: path.append(('at', x.a[1])); x = x.a[0]
    return ptr(T('obj', x), tuple(reversed(path)))

def guards_in(v, d=0):
    if d > 6: return []
    if v.k == 'guard': return [v] if v.a[0].a[0] else []
    if v.k == 'dentry': return [v] if v.a[0].a[0] else []
    if v.k == 'agg':
        r = []
        for _, x in v.a[2]: r += guards_in(x, d + 1)
        return r
    return []
def has_guard(v): return bool(guards_in(v))
def which_pred(args): return args[3] if len(args) > 3 else UNIT
def slice_len(v):
    lo, hi = v.a[1], v.a[2]
    if lo.k == 'int' and hi.k == 'int': return hi.a[0] - lo.a[0]
    if hi.k == 'op' and hi.a[0] == 'Add' and hi.a[1] is lo and hi.a[2].k == 'int': return hi.a[2].a[0]
    if hi.k == 'op' and lo.k == 'op' and hi.a[0] == lo.a[0] == 'Add' and hi.a[1] is lo.a[1] and hi.a[2].k == 'int' and lo.a[2].k == 'int': return hi.a[2].a[0] - lo.a[2].a[0]
    return None
def tyeq(a, b):
    f = lambda s: re.sub(r'\b[a-z_0-9]+::', '', s.replace("'_ ", '').replace("'a ", ''))
    return f(a) == f(b)
