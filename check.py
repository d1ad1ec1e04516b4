#!/usr/bin/env python3
"""check.py <PROPERTY> [--thorough]: decide one property from /repo's current sources.

exit 0  the property holds on everything analysed (known findings are printed)
exit 1  a line "VIOLATION property=<id> replay=<path>" per violation
exit 3  the analysis could not give a verdict
"""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
import front


def known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {k['key']: k for k in d['findings'] if k['property'] == pid}


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        mod = importlib.import_module('props.' + pid.lower())
        P = front.load()
        R = mod.run(P, tier)
    except front.AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 3
    except Exception:
        print('\n'.join(traceback.format_exc().splitlines()[-12:])[:3000])
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 3
    kn = known(pid)
    seen, viol, old = set(), [], []
    for v in R['violations']:
        if v['key'] in seen:
            continue
        seen.add(v['key'])
        (old if v['key'] in kn else viol).append(v)
    cov = dict(R['coverage'])
    cov.setdefault('explanation', R['explanation'])
    cov['translation_units'] = len(P.units)
    cov['functions_parsed'] = len(P.functions)
    cov['known_findings_seen'] = [v['key'] for v in old]
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, assumptions=R.get('assumptions', []),
              wall_s=round(time.time() - t0, 3), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in R.get('summary', []):
        print(k)
    for v in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, v['where'], v['msg']))
    if viol:
        rep = os.path.join(HERE, 'evidence', pid + '.report.txt')
        with open(rep, 'w') as f:
            for v in viol:
                f.write('%s: [%s] %s\n    rule: %s\n    key: %s\n' % (v['where'], v.get('fn', ''), v['msg'], v.get('rule', R['explanation']), v['key']))
                for d in v.get('detail', []):
                    f.write('    %s\n' % d)
        for v in viol:
            print('%s: [%s] %s' % (v['where'], v.get('fn', ''), v['msg']))
        for v in viol:
            print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rep, HERE)))
            break
        return 1
    print('OK property=%s' % pid)
    return 0


if __name__ == '__main__':
    sys.exit(main())
