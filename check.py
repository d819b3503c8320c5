#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]   decides one property on /repo's current tree.

Generates cases, lets the real code run them (driver), and has TLC judge every recorded run
against the specification in spec/.  Exit 0: accepted.  Exit 1 and a VIOLATION line: rejected twice."""
import json, os, random, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib
from vlib import CheckError

def known_findings():
    """listed findings: property -> list of (key, text); key is the exact program / history that fails"""
    res = {}
    for line in open(os.path.join(vlib.VERIF, 'known-findings.txt')):
        line = line.rstrip('\n')
        if line.startswith('KNOWN '):
            d = json.loads(line[6:])
            res.setdefault(d['property'], []).append(d)
    return res

def judge(suite, exe, stats):
    """-> list of (index, verdict, why, observation)"""
    cases = suite['cases']
    obs = vlib.run_driver(exe, [suite['drive'](c) for c in cases], batch=suite.get('batch', False))
    keep = [i for i, o in enumerate(obs) if o['crash'] != 'not run']        # after too many timeouts the rest is left out
    cases = [cases[i] for i in keep]; obs = [obs[i] for i in keep]
    recs = [suite['record'](c, o) for c, o in zip(cases, obs)]
    res = [None] * len(cases)
    size = suite.get('chunk', 40000)
    for lo in range(0, len(cases), size):
        d = tempfile.mkdtemp(prefix='fuelt')
        try:
            f = os.path.join(d, 'trace.ndjson')
            with open(f, 'w') as h:
                for r in recs[lo:lo + size]:
                    h.write(json.dumps(r) + '\n')
            rc, out = vlib.run_tlc(suite['module'], suite['cfg'], d, env={'FUEL_TRACE': f})
            for line in out.splitlines():
                line = line.strip()
                if line[:1] == '"' and line[1:7] in ('ACCEPT', 'REJECT', 'SKIP|1') or line[1:6] == 'SKIP|':
                    v, i, why = line.strip('"').split('|', 2)
                    if res[lo + int(i) - 1] is None or v == 'REJECT':
                        res[lo + int(i) - 1] = (v, why)
            count(out, stats)
            if rc != 0:
                keep = os.path.join(vlib.BUILD, 'tlc-failure.txt')
                open(keep, 'w').write(out)
                shutil.copy(f, os.path.join(vlib.BUILD, 'tlc-failure.ndjson'))
                tail = [l for l in out.splitlines() if l.startswith('Error') or 'evaluat' in l or 'violated' in l][:6]
                raise CheckError('TLC failed (rc %d) on %s, see %s: %s' % (rc, suite['name'], keep, ' / '.join(tail)))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    out = []
    for i, r in enumerate(res):
        if r is None:
            raise CheckError('no verdict for case %d of %s: %r' % (keep[i], suite['name'], cases[i]))
        out.append((keep[i], r[0], r[1], obs[i]))
    return out

# laws of the properties, checked on the specification itself (a violation is an error of the specification)
LAWS = dict(C07='Arithmetic', C08='Comparison', C10='MapLaws', C11='Conversions')

def laws(pid, stats):
    d = tempfile.mkdtemp(prefix='fuelt')
    try:
        rc, out = vlib.run_tlc('FuelLaws', 'SPECIFICATION Spec\nINVARIANT %s\nVIEW View\n' % LAWS[pid], d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if rc != 0:
        raise CheckError('the specification breaks its own laws (%s): %s' % (LAWS[pid], out[-600:]))
    return count(out, stats)

def count(out, stats):
    for line in out.splitlines():
        if 'distinct states found' in line and 'generated' in line and 'Progress' not in line:
            w = line.split()
            stats['transitions'] += int(w[0].replace(',', ''))
            stats['states'] += int(w[3].replace(',', ''))
            return int(w[3].replace(',', ''))
    return 0

def sub(suite, idx):
    s = dict(suite)
    s['cases'] = [suite['cases'][i] for i in idx]
    return s

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        k = sys.argv.index('--tier'); tier = sys.argv[k + 1]; del sys.argv[k:k + 2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import gen
    exe = vlib.build_driver()
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        r = json.load(open(sys.argv[3]))
        suite = [s for s in gen.suites(pid, r['tier'], random.Random('%s-%d' % (pid, r['seed']))) if s['name'] == r['suite']][0]
        suite['cases'] = [r['case']]
        stats = dict(states=0, transitions=0)
        for i, v, why, o in judge(suite, exe, stats):
            print(json.dumps(o, indent=1)); print(v, why)
            if v == 'REJECT':
                print('VIOLATION property=%s replay=%s' % (pid, sys.argv[3])); sys.exit(1)
        sys.exit(0)
    stats = dict(states=0, transitions=0)
    per = {}
    samples = []
    rejects = []
    n_acc = n_skip = n_prog = n_over = 0
    known = known_findings().get(pid, [])
    known_seen = set()
    left_out = []
    for suite in gen.suites(pid, tier, random.Random('%s-%d' % (pid, seed))):
        ts = time.time()
        if rejects or (tier == 'quick' and ts - t0 > 500):   # a violation is enough; a slow machine does not get everything
            left_out.append(suite['name']); continue
        verdicts = judge(suite, exe, stats)
        bad = [i for i, v, why, o in verdicts if v == 'REJECT']
        if bad:                                  # only a rejection that repeats counts
            bad = bad[:200]
            again = judge(sub(suite, bad), exe, dict(states=0, transitions=0))
            for k, v, why, o in again:
                if v != 'REJECT':
                    continue
                case = suite['cases'][bad[k]]
                kn = [d for d in known if d['suite'] == suite['name'] and d['case'] == gen.case_key(case)]
                if kn:
                    known_seen.add(kn[0]['what'])
                else:
                    rejects.append((suite['name'], case, why, o))
        acc = sum(1 for x in verdicts if x[1] == 'ACCEPT')
        skip = sum(1 for x in verdicts if x[1] == 'SKIP')
        n_acc += acc; n_skip += skip
        why_skip = {}
        for i, v, why, o in verdicts:
            if v == 'SKIP': why_skip[why] = why_skip.get(why, 0) + 1
        pr = [w.split('/') for i, v, w, o in verdicts if v == 'ACCEPT' and '/' in w]
        over = sum(int(x[0]) for x in pr); n_prog += sum(int(x[1]) for x in pr) - over; n_over += over
        per[suite['name']] = dict(programs_passed_over=over, cases=len(verdicts), accepted=acc, outside_specified_domain=skip, rejected=len(bad), seconds=round(time.time() - ts, 1), skip_reasons=why_skip)
        for i, v, why, o in verdicts[:: max(1, len(verdicts) // 3)][:3]:
            samples.append(dict(suite=suite['name'], case=suite['cases'][i], verdict=v))
    pairs = 0
    if pid in LAWS and not rejects:
        if tier == 'quick' and time.time() - t0 > 500: left_out.append('laws of the specification')
        else: pairs = laws(pid, stats)
    for d in known:
        print('KNOWN-FINDING: property=%s %s%s' % (pid, d['what'], '' if d['what'] in known_seen or 'suite' not in d else ' (not reproduced in this run)'))
    os.makedirs(os.path.join(vlib.VERIF, 'evidence'), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=stats['states'], transitions=stats['transitions'], traces_validated_against_impl=n_acc + len(rejects),
                            samples=samples[:12], suites=per, suites_left_out=left_out, pairs_of_values_checked_for_laws_of_the_specification=pairs, programs_judged=n_prog, programs_passed_over=n_over, outside_specified_domain=n_skip),
              wall_s=round(time.time() - t0, 1))
    json.dump(ev, open(os.path.join(vlib.VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for name, v in per.items():
        print('%s %s: %d cases, %d accepted, %d outside the specified domain, %d rejected (%.1f s)' % (pid, name, v['cases'], v['accepted'], v['outside_specified_domain'], v['rejected'], v['seconds']))
    if rejects:
        rd = os.path.join(vlib.VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        for k, (name, case, why, o) in enumerate(rejects[:5]):
            f = os.path.join(rd, '%s-%d.json' % (pid, k))
            json.dump(dict(property=pid, tier=tier, seed=seed, suite=name, case=case, why=why, observation=o), open(f, 'w'), indent=1)
            print('  %s: %r\n    %s' % (name, case, why[:600]))
            print('VIOLATION property=%s replay=%s' % (pid, f))
        sys.exit(1)
    sys.exit(0)

if __name__ == '__main__':
    try:
        main()
    except CheckError as e:
        print('ERROR: %s' % e)
        sys.exit(3)
