#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Builds /repo's current tree with a sanitizer, runs the property's driver(s) under the monitors of
harness/vf.cpp, decides, and writes evidence/PROPERTY.json.
Exit 0: held on everything observed.  1: VIOLATION.  2: no verdict (build or harness failure).
"""
import argparse
import glob
import json
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import vbuild  # noqa: E402

SAN_ENV = {
    # the crash of one case must not hide the rest: workers are respawned by the driver
    'ASAN_OPTIONS': 'detect_leaks=%d:abort_on_error=0:exitcode=77:allocator_may_return_null=1:'
                    'max_allocation_size_mb=4096:detect_stack_use_after_return=0:quarantine_size_mb=64:'
                    'handle_abort=1:handle_sigfpe=1:intercept_tls_get_addr=0:strict_string_checks=0:malloc_context_size=1:'
                    'hard_rss_limit_mb=3600',
    'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=0:report_error_type=1',
    'TSAN_OPTIONS': 'halt_on_error=0:report_thread_leaks=0:exitcode=0:report_signal_unsafe=0:'
                    'history_size=4:second_deadlock_stack=1',
    'LSAN_OPTIONS': 'max_leaks=8',
}


def known_findings():
    """known-findings.txt: 'KEY-GLOB' lines per property, see its head."""
    out = []
    p = os.path.join(VERIF, 'known-findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--seed', default=None)
    ap.add_argument('--workers', default='8')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(a.seed or os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    pid = a.property
    spec = json.load(open(os.path.join(VERIF, 'checks.json')))[pid]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
    evp = os.path.join(VERIF, 'evidence', pid + '.json')
    if os.path.exists(evp):
        os.remove(evp)
    kind = spec.get('build', 'asan')
    driver = spec['driver']
    try:
        exe = vbuild.build(kind, driver)
    except vbuild.BuildError as e:
        print('BUILD FAILED:', str(e)[-3000:])
        return 2
    build_s = time.time() - t0
    rundir = tempfile.mkdtemp(prefix=pid + '-', dir=os.path.join(VERIF, 'out'))
    try:
        return decide(pid, spec, tier, seed, a, exe, rundir, evp, t0, build_s)
    finally:
        if not a.keep:
            shutil.rmtree(rundir, ignore_errors=True)


def decide(pid, spec, tier, seed, a, exe, rundir, evp, t0, build_s):
    env = dict(os.environ)
    for k, v in SAN_ENV.items():
        env[k] = v % (1 if spec.get('leaks') else 0) if '%d' in v else v
    if spec.get('leaks'):
        env['VF_LEAKCHECK'] = '1'
    known = [k for k in known_findings() if k['property'] == pid and k.get('status') == 'open']
    env['VF_KNOWN'] = '\n'.join(k['key'] for k in known)
    limit = 820 - build_s if tier == 'quick' else 6 * 3600
    cmd = [exe, '--seed', str(seed), '--tier', tier, '--out', rundir, '--workers', a.workers]
    if spec.get('build') == 'tsan':
        env['TSAN_OPTIONS'] += ':log_path=' + os.path.join(rundir, 'tsan')
    p = subprocess.Popen(cmd, env=env, cwd=rundir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        pout, _ = p.communicate(timeout=max(limit, 60))
        rc, late = p.returncode, False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        pout, _ = p.communicate()
        rc, late = -9, True
    viol, notes, herr = [], [], False
    for f in sorted(glob.glob(os.path.join(rundir, '*.viol'))):
        for line in open(f, errors='replace'):
            line = line.strip()
            if not line:
                continue
            try:
                v = json.loads(line)
            except ValueError:
                continue
            if 'harness_error' in v:
                herr = True
                notes.append(v['harness_error'])
            elif 'note' in v:
                notes.append(v['note'])
            else:
                viol.append(v)
    runinfo = {}
    rp = os.path.join(rundir, 'run.json')
    if os.path.exists(rp):
        runinfo = json.load(open(rp))
    else:
        herr = True
    cases = checks = 0
    events, groups, samples, distinct = {}, {}, [], {}
    seen_groups = {}
    for f in sorted(glob.glob(os.path.join(rundir, 'w*.json'))):
        try:
            s = json.load(open(f))
        except ValueError:
            continue
        cases += s['cases']
        checks += s['checks']
        for k, n in s['events'].items():
            events[k] = events.get(k, 0) + n
        for k, n in s['groups'].items():
            groups[k] = groups.get(k, 0) + n
        for x in s['samples']:
            gname = x.split('#')[0]
            seen_groups[gname] = seen_groups.get(gname, 0) + 1
            if seen_groups[gname] <= 2:
                samples.append(x)
    for f in glob.glob(os.path.join(rundir, 'w*.set')):
        tag = os.path.basename(f)[:-4].split('.', 2)[2]
        b = open(f, 'rb').read()
        distinct.setdefault(tag, set()).update(struct.unpack('<%dQ' % (len(b) // 8), b[:len(b) // 8 * 8]))
    ndist = {k: len(v) for k, v in distinct.items()}
    # verdict
    hit, new = {}, []
    for v in viol:
        for i, k in enumerate(known):
            if v['key'] == k['key'] and k.get('input_contains', '') in v.get('input', ''):
                hit.setdefault(i, []).append(v)
                break
        else:
            new.append(v)
    said = {}  # every listed finding is named, and looked for, on every run
    for i, k in enumerate(known):
        said[k['what']] = said.get(k['what'], False) or i in hit
    for what, seen in said.items():
        print('KNOWN-FINDING: property=%s %s%s' % (pid, what, '' if seen else ' (not reproduced by this run)'))
    bykey = {}
    for v in new:
        bykey.setdefault(v['key'], []).append(v)
    cov = {
        'evaluations': cases,
        'distinct_nontrivial': sum(ndist.values()),
        'rule': runinfo.get('rule', ''),
        'samples': samples[:40],
        'oracle_checks': checks,
        'events_observed': events,
        'distinct_observed': ndist,
        'cases_by_group': groups,
        'crashed_workers': runinfo.get('crashes', 0),
        'hangs': runinfo.get('hangs', 0),
        'sanitizer_build': ('clang ' + vbuild.FLAGS[spec.get('build', 'asan')]),
        'known_findings_reproduced': len(hit),
        'build_s': round(build_s, 1),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'wall_s': round(time.time() - t0, 1),
          'assumptions': spec.get('assumptions', []),
          'violations': [{'key': k, 'count': len(v), 'first': {x: str(v[0].get(x))[:400] for x in
                                                              ('group', 'case', 'input', 'detail')}}
                         for k, v in list(bykey.items())[:20]]}
    with open(evp + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(evp + '.tmp', evp)
    print('%s %s seed=%d: %d cases, %d oracle checks, %d distinct observations, %.0f s (build %.0f s)' % (
        pid, tier, seed, cases, checks, sum(ndist.values()), time.time() - t0, build_s))
    for n in notes:
        print('note:', n)
    if bykey:
        rdir = os.path.join(VERIF, 'out', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for n, (k, vs) in enumerate(bykey.items()):
            v = vs[0]
            rp = os.path.join(rdir, '%s.%d.json' % (pid, n))
            json.dump({'property': pid, 'seed': seed, 'tier': tier, 'key': k, 'witness': v, 'driver': spec['driver'],
                       'command': '%s --seed %d --tier %s --group %s --case %s' % (
                           exe, seed, tier, v.get('group'), v.get('case'))}, open(rp, 'w'), indent=1)
            if n < 30:
                print('VIOLATION property=%s replay=%s' % (pid, rp))
                print('   %s  group=%s case=%s' % (k, v.get('group'), v.get('case')))
                print('   input: %s' % v.get('input', '')[:300])
                print('   seen:  %s' % v.get('detail', '')[:500 if not a.verbose else 6000].replace('\n', '\n          '))
        return 1
    if late:
        print('NO VERDICT: the driver did not finish in its time (inconclusive)')
        return 2
    if herr or rc not in (0,):
        print('NO VERDICT: harness error (driver exit %s)' % rc)
        try:
            print(pout.decode(errors='replace')[-1500:])
        except Exception:
            pass
        return 2
    # a run that observed too little decides nothing
    need = spec.get('min_distinct', 50)
    if cases < runinfo.get('planned', 1) - runinfo.get('crashes', 0) or sum(ndist.values()) < need:
        print('NO VERDICT: observed too little (%d of %s cases, %d distinct)' % (
            cases, runinfo.get('planned'), sum(ndist.values())))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
