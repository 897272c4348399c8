#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough] - decides one property on /repo's working tree.
   run.py --replay FILE            - replays a recorded violation."""
import concurrent.futures as cf, json, os, re, subprocess, sys, tempfile, shutil, time
import build
from checks import CHECKS
VERIF = build.VERIF
MODEL = 'model_checking'
ASSUME = {
    '*': ['operating-system randomness is the controlled source behind getrandom/getentropy/syscall/open/read; other sources count as a violation',
          'the reference models in harness/ref are independent implementations of the specifications and were cross-validated against the known-answer values in the repository',
          'data values outside the enumerated alphabets are not covered (bounds per module in "modules")'],
    'C16': ['memory model: sequentially consistent interleavings plus absence of any conflicting unordered access (checked separately on every pair)'],
    'C17': ['compiled with AddressSanitizer and UndefinedBehaviorSanitizer; left shifts of negative values (shift-base) are excluded'],
}

# Some explorations are shared between properties; what they report counts here only if it is of this kind.
FOCUS = {
    'C05': re.compile(r'but wrote|but changed|wrote outputs?\b|wrote outside|beyond the reported|crashed|exited with status'),
    'C17': re.compile(r'crash|exited with status|wrote outside|heap block|beyond the reported|holds .* blocks|yields only'),
}

def findings():
    r = {}
    try:
        with open(os.path.join(VERIF, 'known-findings.json')) as f:
            for k in json.load(f)['known']:
                r.setdefault(k['property'], {})[k['key']] = k['what']
    except FileNotFoundError:
        pass
    return r

def run_module(exe, conf, module, tier, tmp, workers=8):
    out = os.path.join(tmp, '%s.%s.json' % (conf, module))
    e = dict(os.environ)
    for k in ('MALLOC_PERTURB_', 'MALLOC_CHECK_', 'LD_PRELOAD'):
        e.pop(k, None)
    if conf == 'as':
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=0'
    limit = 780 if tier == 0 else 6 * 3600
    log = open(out + '.log', 'w')
    p = subprocess.Popen([exe, '--run', module, str(tier), str(workers), out], env=e, stdout=log, stderr=log, cwd=tmp, start_new_session=True)
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        pass
    finally:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
    try:
        with open(out) as f:
            r = json.load(f)
    except (OSError, ValueError):
        with open(out + '.log', errors='replace') as f:
            r = {'module': module, 'error': 'exit %s: %s' % (p.returncode, f.read()[-1500:]), 'violations': [], 'known': []}
    r['conf'] = conf
    return r

def main(prop, tier_name):
    t0 = time.time()
    tier = 1 if tier_name == 'thorough' else 0
    todo = [(c, m) for c, m, *t in CHECKS[prop] if not t or t[0] == tier_name]
    try:
        exe = {c: build.build(c) for c in sorted({c for c, _ in todo})}
    except build.BuildError as x:
        print('BUILD FAILED\n' + str(x))
        return 2
    tbuild = time.time() - t0
    tmp = tempfile.mkdtemp(prefix='mcrun-')
    res, err = [], []
    try:
        def one(cm):
            r = run_module(exe[cm[0]], cm[0], cm[1], tier, tmp)
            bad = r.get('error') or (not r['violations'] and (r['cases_run'] != r['cases_total'] or not r['cases_total']))
            if bad:                                     # a worker was lost without a confirmed violation: once more, alone
                r = run_module(exe[cm[0]], cm[0], cm[1], tier, tmp, 4)
            return r
        with cf.ThreadPoolExecutor(2) as ex:
            for r in ex.map(one, todo):
                res.append(r)
                if r.get('error'):
                    err.append('%s: %s' % (r['module'], r['error']))
                elif not r['violations'] and (r['cases_run'] != r['cases_total'] or not r['cases_total']):
                    err.append('%s: ran %d of %d cases; %s' % (r['module'], r['cases_run'], r['cases_total'], r['notes']))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    listed = findings().get(prop, {})
    viol, knowns, other = [], [], []
    for r in res:
        for v in r['violations']:
            if prop in FOCUS and not FOCUS[prop].search(v['msg']):
                other.append('%s: %s' % (r['module'], v['msg']))
                continue
            viol.append(dict(property=prop, conf=r['conf'], module=r['module'], tier=tier, case=v['case'], worker=v['worker'], stride=v['stride'], how=v['how'], describe=v['describe'], message=v['msg']))
        for k in r['known']:
            if prop in FOCUS:
                continue
            if k in listed:
                knowns.append((k, listed[k]))
            else:
                viol.append(dict(property=prop, conf=r['conf'], module=r['module'], tier=tier, case=0, worker=0, stride=1, how='finding', key=k, describe=k, message='unlisted finding ' + k))
    ok = [r for r in res if not r.get('error')]
    cov = dict(states=sum(r['states'] for r in ok), transitions=sum(r['transitions'] for r in ok),
               traces_validated_against_impl=sum(r['traces'] for r in ok),
               samples=[s for r in ok for s in r['samples'][:1]][:12],
               exhaustive=bool(ok) and not err and not viol and not other and all(not r['capped'] and r['cases_run'] == r['cases_total'] for r in ok),
               modules=[{k: r[k] for k in ('module', 'space', 'cases_total', 'cases_run', 'capped', 'states', 'transitions', 'traces', 'domain_points', 'outcomes', 'wall_s')} | {'build': r['conf']} for r in ok],
               build_s=round(tbuild, 1), known_findings=[k for k, _ in knowns], mismatches_of_other_properties=other)
    ev = dict(property=prop, tier=tier_name, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=MODEL, coverage=cov,
              assumptions=ASSUME['*'] + ASSUME.get(prop, []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: states=%d transitions=%d traces=%d modules=%d build=%.1fs total=%.1fs exhaustive=%s' % (prop, tier_name, cov['states'], cov['transitions'], cov['traces_validated_against_impl'], len(ok), tbuild, time.time() - t0, cov['exhaustive']))
    for k, what in knowns:
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    if viol:
        d = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(d, exist_ok=True)
        for n, v in enumerate(viol[:5]):
            path = os.path.join(d, '%s-%s-%d.json' % (prop, v['module'], n))
            v['replay_with'] = 'python3 /verif/run.py --replay ' + path
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print('  %s: case %s [%s] %s' % (v['module'], v['case'], v['describe'][:300], v['message'][:600]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if other:
        print('note: %d mismatch(es) that concern other properties, e.g. %s' % (len(other), other[0][:300]))
    if err:
        print('ERROR: incomplete exploration\n' + '\n'.join(err))
        return 2
    return 0

def replay(path):
    with open(path) as f:
        v = json.load(f)
    exe = build.build(v['conf'])
    cmd = [exe, '--replay', v['module'], str(v['tier']), str(v['case'])] + ([] if v['how'] in ('alone', 'finding') else [str(v['worker']), str(v['stride'])])
    e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0') if v['conf'] == 'as' else None
    return subprocess.call(cmd, env=e)

if __name__ == '__main__':
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print(__doc__)
        sys.exit(2)
    t = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(main(sys.argv[1], t if t in ('quick', 'thorough') else 'quick'))
