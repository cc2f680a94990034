#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's current source (static analysis only)."""
import importlib, json, os, re, signal, sys, time, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'engine'), os.path.join(V, 'rules')]
class StopEarly(BaseException): pass
EARLY = 150
LONG = 330
def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    import facts
    from registry import RULES, EXTRA
    try: d = facts.ensure()
    except facts.BuildError as e:
        print('ERROR: %s' % e); return 2
    from absint import Program, MissingAnchor, Budget
    from lib import Ctx
    prog = Program(d)
    ctx = Ctx(pid, prog, tier)
    known = {}
    kf = os.path.join(V, 'known_findings.txt')
    for line in open(kf) if os.path.exists(kf) else []:
        line = line.rstrip('\n')
        if line.startswith('finding: property=%s ' % pid):
            body = line.split(' ', 2)[2]
            key, _, why = body.partition(' -- ')
            known[key.strip()] = why
    class TooLong(BaseException): pass
    reduced = None
    def broken(): return any(o[1] and '%s|%s' % k not in known and not (c.reduce and k[0] == 'coverage') and (c is ctx or re.search(c.only, '%s|%s' % k)) for c in ctxs for k, o in list(c.obs.items()))
    def alarm(*_):
        # enough is known: what is broken can make the exploration very large
        if broken(): raise StopEarly()
        if not ctx.reduce and time.time() - t0 > LONG: raise TooLong()
        signal.alarm(20)
    signal.signal(signal.SIGALRM, alarm)
    while True:
        ctxs = [ctx]
        signal.alarm(max(1, int(EARLY - (time.time() - t0))))
        try:
            for mod, fns, only in [RULES[pid] + (None,)] + EXTRA.get(pid, []):
                m = importlib.import_module(mod)
                c = ctx
                if only is not None:
                    c = Ctx(pid, prog, tier); c.only = only; c.reduce = ctx.reduce; ctxs.append(c)
                for fn in fns:
                    try: getattr(m, fn)(c)
                    except MissingAnchor as e:
                        ctx.ob('anchor', '%s' % e, False, 'the analysed construct is not in the source any more')
                if c is not ctx and not any(re.search(only, '%s|%s' % k) for k in c.obs): raise Exception('no instance of %s in %s' % (only, fns))
        except StopEarly: print('stopped early')
        except (Budget, TooLong) as e:
            signal.alarm(0)
            if not broken():
                if ctx.reduce: raise
                # more paths than can be followed: follow loops less far, and say so
                reduced = str(e) or 'more than %d s' % LONG
                ctx = Ctx(pid, prog, tier); ctx.reduce = True
                continue
            traceback.print_exc()
        except Exception:
            if not broken(): raise
            traceback.print_exc()
        signal.alarm(0)
        break
    if reduced:
        for c in ctxs:
            for k in [k for k in c.obs if k[0] == 'coverage']: del c.obs[k]
    for c in ctxs[1:]:
        for k, o in c.obs.items():
            if re.search(c.only, '%s|%s' % k):
                x = ctx.obs.setdefault(k, [0, 0, None]); x[0] += o[0]; x[1] += o[1]; x[2] = x[2] or o[2]
        for k, v in c.fns.items(): ctx.fns.setdefault(k, v)
        for k, v in c.opaque.items(): ctx.opaque[k] = ctx.opaque.get(k, 0) + v
        ctx.visited |= c.visited; ctx.npaths += c.npaths
    viol = []; nk = 0
    for (rule, inst), (n, bad, det) in sorted(ctx.obs.items()):
        if not bad: continue
        key = '%s|%s' % (rule, inst)
        if key in known:
            nk += 1
            print('KNOWN-FINDING: property=%s %s (%s)' % (pid, key, known[key])); continue
        viol.append(dict(key=key, failing=bad, checked=n, detail=str(det)[:3000]))
    total = sum(o[0] for o in ctx.obs.values())
    ok = sum(o[0] - o[1] for o in ctx.obs.values())
    E = os.environ.get('VERIF_EVID', os.path.join(V, 'evidence')); os.makedirs(E, exist_ok=True)
    nb = len(ctx.visited)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', wall_s=round(time.time() - t0, 2), violations=len(viol),
              coverage=dict(explanation='static analysis of the type-checked program (MIR) of the four workspace crates: path-sensitive abstract interpretation of the listed entry points, every exit compared with the rule of the property',
                            loops_followed='as far as configured' if not reduced else 'less far than configured, there were too many paths: ' + reduced, rule_instances={'%s|%s' % k: o[0] for k, o in sorted(ctx.obs.items())}, obligations=total, discharged=ok, known=nk,
                            entry_points=ctx.fns, paths=ctx.npaths, functions_analysed=sorted(ctx.visited)[:400], functions_analysed_count=nb,
                            opaque_operations=ctx.opaque, samples=ctx.samples),
              assumptions=['library containers, locks and conversions behave as modelled in engine/models.py', 'loops: the first iterations are followed exactly, later ones from a widened state'])
    json.dump(ev, open(os.path.join(E, pid + '.json'), 'w'), indent=1)
    if viol:
        rp = os.path.join('evidence', pid + '.violation.json')
        json.dump(viol, open(os.path.join(E, pid + '.violation.json'), 'w'), indent=1)
        for v in viol:
            print('  broken: %s (%d of %d instances)\n    %s' % (v['key'], v['failing'], v['checked'], v['detail'][:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if reduced: print('loops were followed less far than usual: %s' % reduced)
    print('OK property=%s obligations=%d/%d paths=%d functions=%d %.1fs' % (pid, ok, total, ctx.npaths, nb, time.time() - t0))
    return 0
if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); rc = 3
    sys.stdout.flush(); sys.exit(rc)
