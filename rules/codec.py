"""Account data: P21 every compression method is undone by what reads it."""
from lib import *
MAX = 10 * 1024 * 1024      # the largest data an account can have
AL = {'lz4::block::compress': ('lz4', 'w'), 'zstd::bulk::compress': ('zstd', 'w'), 'zstd::encode_all': ('zstd', 'w'), 'zstd::stream::encode_all': ('zstd', 'w'),
      'lz4::block::decompress': ('lz4', 'r'), 'zstd::bulk::decompress': ('zstd', 'r'), 'zstd::decode_all': ('zstd', 'r'), 'zstd::stream::decode_all': ('zstd', 'r')}

def install_codecs(I_, ctx):
    """compressors succeed; a decompressor gives back what was compressed only for its own format and length convention"""
    def mk(path, algo, way):
        def h(I2, st, f, args, t, depth):
            d = eta(st, I2, args[0])
            if way == 'w':
                own = algo != 'lz4' or (args[2].k == 'bool' and args[2].a[0])
                return I2.m.R(st, agg(RES, 'Ok', **{'0': T('packed', algo, own, d)}))
            def bad(why):
                return I2.m.R(st, agg(RES, 'Err', **{'0': T('codec', why)}))
            if d.k != 'packed': return None
            if d.a[0] != algo: return bad('%s data read as %s' % (d.a[0], algo))
            n = T('len', d.a[2])
            if algo == 'lz4':
                sz = args[1]; vn = variant(I2, st, sz)
                if vn == 'None' and not d.a[1]: return bad('the length is not recorded in the data')
                if vn == 'Some':
                    if d.a[1]: return bad('the length is recorded in the data')
                    if not same(st, I2, I2.payload(st, sz, 'Some'), n): return bad('not the length of the data')
                if vn is None: return None
            elif len(args) > 1:
                c = eta(st, I2, args[1])
                if not (c.k == 'int' and c.a[0] >= MAX) and not same(st, I2, c, n): return bad('capacity %s' % show(c))
            return I2.m.R(st, agg(RES, 'Ok', **{'0': d.a[2]}))
        I_.hooks[path] = h
    for p, (a, w) in AL.items(): mk(p, a, w)

def P21(ctx):
    I_ = ctx.interp(bounded=True, loop_exact=1)
    install_codecs(I_, ctx)
    d, m = sym('d'), sym('method')
    seen = set()
    for o in ctx.explore(I_, ctx.p.one('new', 'Data'), [d, m], State()):
        if o.kind == 'cut': continue
        vn = variant(I_, o.st, m)
        ctx.ob('pairing', 'Data::new: no abnormal exit', o.kind == 'ret', lambda: '%s %s' % (o.why, pathdesc(o.st)))
        if o.kind != 'ret': continue
        seen.add(vn)
        me = I_.ref(o.st, o.val)
        for fn, want in (('data', lambda s: d), ('len', lambda s: T('len', d)), ('is_empty', None)):
            for r in ctx.explore(I_, ctx.p.one(fn, 'Data'), [me], o.st.fork()):
                if r.kind == 'cut': continue
                why = lambda: '%s: %s %s %s' % (vn, r.why, show(r.val)[:300] if r.val is not None else '', pathdesc(r.st))
                if fn == 'is_empty':
                    ctx.ob('pairing', 'is_empty: whether there is no data', r.kind == 'ret' and all((rel == '=') == b for s, b in bool_cases(I_, r.st, r.val) for s2, rel in rels(s, T('len', d), I(0))), why)
                else:
                    ctx.ob('pairing', '%s: what was stored is read back' % fn, r.kind == 'ret' and same(r.st, I_, r.val, want(r.st)), why)
    info = ctx.p.adts[next(k for k in ctx.p.adts if k.startswith('lite_') and k.endswith('::CompressionMethod'))]
    ctx.ob('coverage', 'every compression method examined', {v['name'] for v in info['variants']} == seen, str(sorted(map(str, seen))))
    # a whole account
    acc = sym('account'); n = 0
    for o in ctx.explore(I_, ctx.p.one('from_solana_account', 'Account'), [acc, m], State()):
        if o.kind == 'cut': continue
        ctx.ob('account', 'from_solana_account: no abnormal exit', o.kind == 'ret', lambda: pathdesc(o.st))
        if o.kind != 'ret': continue
        for r in ctx.explore(I_, ctx.p.one('to_solana_account', 'Account'), [I_.ref(o.st, o.val)], o.st.fork()):
            if r.kind == 'cut': continue
            ctx.ob('account', 'to_solana_account: no abnormal exit', r.kind == 'ret', lambda: pathdesc(r.st))
            if r.kind != 'ret': continue
            for f in ('lamports', 'data', 'owner', 'executable', 'rent_epoch'):
                n += 1
                x = I_.proj(r.st, r.val, ('f', f))
                ctx.ob('account', '%s is kept' % f, same(r.st, I_, x, fld(acc, f)), lambda: '%s: %s' % (show(x)[:200], pathdesc(r.st)))
    ctx.ob('coverage', 'account fields compared', n >= 15, str(n))
