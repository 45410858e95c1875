"""run the checks of one property: python3 -m sa.runner PROPERTY [quick|thorough]"""
import sys, os, json, time, traceback, multiprocessing
from . import irgen
from .contract import Check, Broken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known-findings.txt')


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith('known: property=%s ' % prop):
                d = dict(x.split('=', 1) for x in ln.split(' -- ')[0].split()[1:])
                out.append((d, ln))
    return out


def with_asserts(prop, tier, rules, q):
    """the same rules on the build with assertions on (in a process of its own)"""
    from . import contract
    from .rules import asserts
    irgen.NDEBUG = False
    contract.post = asserts.judge
    ck = Check(prop, tier)
    err = None
    try:
        for fn in rules:
            fn(ck)
    except (Broken, irgen.AnalysisBroken) as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    q.send((dict(viol=ck.viol, obl=ck.obl, by_rule=ck.by_rule, paths=ck.paths, steps=ck.steps, runs=len(ck.runs)), err))


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    from .rules import PROPS
    if prop not in PROPS:
        print('unknown property', prop)
        return 2
    spec = PROPS[prop]
    t0 = time.time()
    ck = Check(prop, tier)
    broken = None
    from .rules import asserts
    also = None
    if prop in asserts.PIDS:
        cx = multiprocessing.get_context('fork')
        rd, q = cx.Pipe(False)
        also = cx.Process(target=with_asserts, args=(prop, tier, [f for f in spec['rules'] if 'checked' not in f.__module__], q))
        also.start()
        q.close()
    try:
        for fn in spec['rules']:
            fn(ck)
        for (name, least) in spec.get('floors', {}).items():
            if ck.by_rule.get(name, 0) < least:
                raise Broken('rule %s: %d instances, %d confirmed by hand'
                             % (name, ck.by_rule.get(name, 0), least))
        if ck.obl < spec.get('min_obligations', 1):
            raise Broken('only %d obligations generated' % ck.obl)
    except (Broken, irgen.AnalysisBroken) as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    second = None
    if also:
        try:
            second, err = rd.recv()
        except EOFError:
            second, err = dict(viol=[]), 'its process ended early'
        also.join()
        for v in second['viol']:
            if not [w for w in ck.viol if w['rule'] == v['rule'] and w['function'] == v['function']]:
                ck.viol.append(dict(v, config=v['config'] + ', assertions on'))
        second['not completed'] = err
        second['violations'] = len(second.pop('viol'))
        if err:
            print('note: the build with assertions was not analysed to the end: %s' % err.strip().split('\n')[-1])
    known = load_known(prop)
    viol, kf = [], []
    for v in ck.viol:
        for d, ln in known:
            if d.get('function') == v['function'] and d.get('rule') == v['rule'].split(':')[0]:
                kf.append((v, ln))
                break
        else:
            viol.append(v)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': spec['level'],
        'coverage': {
            'explanation': spec['explanation'],
            'functions_analysed': ['%s:%s (%d paths)' % r for r in ck.runs],
            'paths': ck.paths, 'abstract_steps': ck.steps, 'loops_summarised': ck.loops,
            'obligations': ck.obl, 'discharged': ck.obl - sum(v['count'] for v in ck.viol),
            'rules': ck.by_rule, 'broken': broken, 'build_with_assertions': second,
        },
        'assumptions': spec.get('assumptions', []),
        'violations': len(viol),
        'wall_s': round(time.time() - t0, 2),
    }
    agg = {}
    for c, f, n in ck.runs:
        x = agg.setdefault((c, f), [0, 0])
        x[0] += 1
        x[1] += n
    ev['coverage']['functions_analysed'] = ['%s:%s (%d entry states, %d paths)' % (c, f, a, b) for (c, f), (a, b) in agg.items()]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for v, ln in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, ln.split(' -- ', 1)[-1]))
    print('%s: %d analyses, %d paths, %d obligations, %d not discharged, %.1fs' %
          (prop, len(ck.runs), ck.paths, ck.obl, len(ck.viol), time.time() - t0))
    if viol:
        rp = os.path.join(HERE, 'evidence', prop + '.replay.txt')
        with open(rp, 'w') as f:
            for v in viol:
                f.write('rule      %s\nconfig    %s\nfunction  %s\nwhere     %s\ninstances %d\nfound     %s\npath:\n' %
                        (v['rule'], v['config'], v['function'], v['where'], v['count'], v['detail']))
                for t in v['path']:
                    f.write('    %s\n' % t)
                f.write('\n')
        for v in viol:
            print('  %s: %s (%s) rule "%s": %s' % (v['where'], v['function'], v['config'], v['rule'], v['detail']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if broken:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, broken))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
