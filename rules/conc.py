"""P32: what an operation decides about a shared index is still true when it acts on it."""
from lib import *
from locks import lock_relevant, TRAITS, GUARDTY, owner_class, adt_in, to_path
from panics import CONV
from store_sum import install_abc

def value_type(p, root_ty, path):
    """(class, type of the values) of a map reached by a path"""
    owner = root_ty; t = None; cls = None
    for e in path:
        if e[0] != 'f': continue
        info = p.adts.get(owner)
        fs = {f[0]: f[1] for f in info['variants'][0]['fields']} if info else {}
        t = fs.get(e[1]); t = t if t is None or isinstance(t, str) else t['s']
        if t is None: return None, None
        cls = '%s.%s' % (short(owner), e[1])
        nxt = adt_in(p, re.sub(r'<.*', '', re.sub(r'^(?:[\w:]+<)*', '', t))) or adt_in(p, t)
        owner = nxt or owner
    if t is None: return None, None
    return cls, map_value(t)

def map_value(t):
    m = re.search(r'(?:DashMap|HashMap|BTreeMap)<', t)
    if not m: return None
    d = 0; parts = ['']
    for c in t[m.end():]:
        if c in '<([': d += 1
        if c in '>)]':
            d -= 1
            if d < 0: break
        if c == ',' and d == 0: parts.append(''); continue
        parts[-1] += c
    return parts[1].strip() if len(parts) > 1 else None

def within(t, x, d=0):
    if t is x: return True
    if d > 14: return False
    if isinstance(t, T): return any(within(y, x, d + 1) for y in t.a)
    if isinstance(t, (tuple, list)): return any(within(y, x, d + 1) for y in t)
    return False

def P32(ctx):
    p = ctx.p; dbg = os.environ.get('DBG')
    ws, hot, edges = lock_relevant(p)
    conv = {k for k, b in ws.items() if '{closure' not in k and CONV.search(b['locals'][0]['ty']['s']) and b['name'] != 'clone'}
    cold = {k for k in ws if k not in hot}
    ents = sorted(k for k, b in ws.items() if '{closure' not in k and '__static_ref' not in k and b['name'] != 'clone' and k in hot
                  and not any(GUARDTY.search(b['locals'][i]['ty']['s']) for i in range(b['argc'] + 1)))
    inlined = set()
    for k in ents: inlined |= {x for x in edges[k] if x != k}
    acts = []; accum = set(); n = 0; todo = []; seen = set()
    for k in ents:
        b = ws[k]; tr = b.get('trait', '').split('::')[-1]
        if k in inlined and k not in conv and tr not in TRAITS: continue
        todo.append(k)
    while todo:
        k = todo.pop(0)
        if k in seen: continue
        seen.add(k); b = ws[k]; parts = set()
        selfadt = (b.get('self') or {}).get('adt')
        for le in ((2, 1, 1) if ctx.tier == 'quick' else (3, 2, 1, 1)):
            I_ = ctx.interp(bounded=True, loop_exact=le, concurrent=True, relock=lambda I2, st, old, hv: hv, max_states=300000 if parts else 30000 if ctx.tier == 'quick' else 200000,
                            opaque=(cold | conv | parts) - {k}, summaries=[install_abc] if 'AccountDataByCommitment' not in str(b.get('self')) else None)
            args = [obj('p%d' % i) if b['locals'][i + 1]['ty'].get('refs') else sym('p%d' % i) for i in range(b['argc'])]
            try: outs = ctx.explore(I_, b, args, State()); break
            except Budget:
                if le == 1:
                    # too large as a whole: the operations it consists of are examined by themselves
                    if parts: raise
                    parts = {x for x in edges[k] if x in ents and x != k}; todo += sorted(parts)
        n += 1
        nm = '%s::%s' % (short((b.get('self') or {}).get('s', k.split('::')[-2])), b['name'])
        if dbg: print(nm, le, I_.count, len(outs), flush=True)
        def cls_of(place):
            root, path = to_path(place)
            m = re.match(r'p(\d+)$', root)
            if not m: return None, None, path
            i = int(m.group(1)); ty = b['locals'][i + 1]['ty']['s']
            if not any(x[0] == 'f' for x in path) and re.match(r'(&|mut |std::sync::Arc<|alloc::sync::Arc<|\w+::)*(DashMap|HashMap|BTreeMap)<', ty):
                return 'argument %d of %s' % (i, b['name']), map_value(ty), path
            a = selfadt if i == 0 and selfadt in p.adts else adt_in(p, ty)
            if not a: return None, None, path
            return value_type(p, a, path) + (path,)
        for o in outs:
            for e in o.st.events():
                if e['kind'] == 'mut':
                    c, vt, path = cls_of(e['place'])
                    if c is None: continue
                    if path and path[-1][0] == 'at' or any(x[0] == 'at' for x in path): accum.add(c)
                    elif vt is not None: acts.append((nm, c, vt, e, o, I_))
                elif e['kind'] == 'atomic':
                    acts.append((nm, cls_of(e['place'])[0], 'atomic', e, o, I_))
    if dbg: print('accum', accum)
    for nm, c, vt, e, o, I_ in acts:
        s = o.st
        if vt == 'atomic':
            if e['op'] in ('store', 'swap'):
                facts = []; tr = s.trace
                while tr: facts.append(tr[1][0]); tr = tr[0]
                ctx.ob('counters', '%s: %s is not written from what was read before' % (nm, c), not within(e['new'], e['old']) and not any(within(f, e['old']) for f in facts),
                       lambda: '%s at %s: %s when %s' % (e['op'], span(e['sp']), show(e['new']), pathdesc(s)))
            else: ctx.ob('counters', '%s: %s is changed at once' % (nm, c), True)
            continue
        op = e['op']
        if op[0] == 'rem' and c in accum:
            # an entry which was worked on before, and let go since, may have been added to: what it is now decides
            evs = s.events(); i = evs.index(e); last = None; key = ('at', op[1])
            for x in evs[:i]:
                if x['kind'] == 'mut' and x['place'].a[0] is e['place'].a[0] and x['place'].a[1][:len(e['place'].a[1]) + 1] == tuple(e['place'].a[1]) + (key,): last = 'used'
                elif x['kind'] == 'elsewhere' and x['place'] is e['place'] and last: last = 'let go'
            now = I_.proj(s, e['before'], key); facts = []; tr = s.trace
            while tr: facts.append(tr[1][0]); tr = tr[0]
            ctx.ob('entries', '%s: an entry of %s is not removed for what it was before' % (nm, c), last != 'let go' or any(within(f, now) for f in facts),
                   lambda: '%s removed at %s when %s' % (show(op[1])[:100], span(e['sp']), pathdesc(s)))
            continue
        if op[0] != 'set': continue
        if not (c in accum or re.fullmatch(r'[ui](8|16|32|64|size)', vt) or re.search(r'Mutex<|RwLock<', vt)): continue
        if e.get('present') is False: ctx.ob('entries', '%s: an entry of %s is only created while it is absent' % (nm, c), True); continue
        was = I_.proj(s, e['before'], ('at', op[1]))
        if e.get('dash') is False and 'relocked' not in repr(show(e['before'])) and 'elsewhere' not in repr(show(e['before'])):
            # an ordinary map of which nobody else has had hold since this thread first looked at it: what is written is this thread's decision alone
            ctx.ob('entries', '%s: an entry of %s is decided on while nobody else can change it' % (nm, c), True); continue
        ctx.ob('entries', '%s: an entry of %s is not replaced' % (nm, c), within(op[2], was) or op[2] is was, lambda: '%s := %s was %s at %s when %s' % (show(op[1])[:100], show(op[2])[:200], show(was)[:200], span(e['sp']), pathdesc(s)))
    ctx.ob('coverage', 'operations examined', n >= 30, str(n))
    ctx.ob('coverage', 'kinds of entries that are added to', len(accum) >= 3, ' '.join(sorted(accum)))
