#!/usr/bin/env python3
"""check.py ID [--thorough] [--repo DIR] [--replay FILE] [--keep]

Rebuilds the harnesses of one property from the repository's current working tree, explores every scenario
exhaustively within its bounds, compares with the committed list of known findings and writes evidence/ID.json."""
import sys, os, json, subprocess, tempfile, shutil, time, hashlib, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/tools')
from registry import HARNESS, CHECK, LIBSRC

def main():
    a = sys.argv[1:]
    def opt(n, d=None):
        if n in a:
            i = a.index(n); v = a[i + 1]; del a[i:i + 2]; return v
        return d
    repo = os.path.abspath(opt('--repo', os.environ.get('VERIF_REPO', '/repo')))
    replay = opt('--replay'); only = opt('--only')
    keep = '--keep' in a
    tier = 'thorough' if '--thorough' in a else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    a = [x for x in a if not x.startswith('--')]
    pid = a[0]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='msfmc-%s-' % pid, dir='/tmp')
    try:
        rc = run(pid, repo, tier, seed, work, replay, t0, only)
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
        else: print('work dir', work)
    sys.exit(rc)

BASE = ['-std=c++17', '-DBOOST_NO_CXX11_VARIADIC_TEMPLATES', '-DROS_PACKAGE_NAME="msf"', '-w', '-DBOOST_ALLOW_DEPRECATED_HEADERS']
SAN = {'full': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-D_GLIBCXX_DEBUG', '-DMC_SANITIZED'],
       'addr': ['-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-DMC_SANITIZED']}

def build(names, repo, work):
    gen = work + '/gen'
    r = subprocess.run([sys.executable, V + '/tools/gen.py', repo, gen], capture_output=True, text=True)
    if r.returncode: print(r.stdout, r.stderr); return None
    inc = ['-I' + V + '/stubs', '-I' + V + '/harness', '-I' + gen] + ['-I%s/%s' % (repo, d) for d in
        ('msf_core/include', 'msf_updates/include', 'msf_timing/include', 'msf_core/src', 'msf_distort/src')] + ['-I/usr/include/eigen3']
    jobs = {}   # object path -> (weight, command)
    links = {}
    for n in names:
        h = HARNESS[n]
        if 'py' in h: continue
        cxx = h.get('cxx', 'clang++')
        fl = BASE + h.get('opt', ['-O1']) + SAN.get(h.get('san'), []) + h.get('flags', [])
        tag = hashlib.md5(' '.join([cxx] + fl).encode()).hexdigest()[:8]
        objs = []
        def add(o, w, extra, src):
            o = work + '/' + o
            jobs[o] = (w, [cxx] + fl + extra + inc + ['-c', src, '-o', o]); objs.append(o)
        mgr = h.get('manager'); sel = ['-DMGR_' + mgr.upper(), '-I%s/msf_updates/src/%s_msf' % (repo, mgr)] if mgr else []
        if mgr: add('manager-%s-%s.o' % (mgr, tag), 2, sel, V + '/harness/manager.cpp')
        add(n + '.o', 1, sel, V + '/harness/' + h['src'])
        for l in h.get('libs', LIBSRC):
            src = repo + '/' + l
            if os.path.exists(src): add('%s-%s.o' % (os.path.basename(l), tag), 0, [], src)
        links[n] = [cxx] + [f for f in SAN.get(h.get('san'), []) if f.startswith('-fsan')] + objs + ['-o', '%s/%s' % (work, n), '-lglog', '-lpthread'] + h.get('ldflags', [])
    errs = []
    def do(c):
        r = subprocess.run(c, capture_output=True, text=True)
        if r.returncode: errs.append((' '.join(c), r.stderr))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(do, [c for w, c in sorted(jobs.values(), key=lambda x: -x[0])]))
        if not errs: list(ex.map(do, links.values()))
    if errs:
        for c, e in errs[:3]:
            print('BUILD FAILED:', c)
            print('\n'.join([l for l in e.splitlines() if 'error' in l or 'undefined' in l][:15]))
        return None
    return {n: [sys.executable, V + '/harness/' + HARNESS[n]['py']] if 'py' in HARNESS[n] else ['%s/%s' % (work, n)] for n in names}

def known(pid):
    res = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^finding: property=(\S+) key=(\S+) scenario=(\S+) :: (.*)$', l.strip())
            if m and m.group(1) == pid: res.append((m.group(2), m.group(3), m.group(4)))
    return res

def run(pid, repo, tier, seed, work, replay, t0, only):
    chk = CHECK[pid]
    runs = [r for r in chk['runs'] if len(r) < 3 or r[2] == tier]
    if replay:
        rp = json.load(open(replay)); runs = [r for r in chk['runs'] if r[0] == rp['harness']][:1]
    exes = build(sorted(set(r[0] for r in runs)), repo, work)
    if exes is None: return 2
    tb = time.time() - t0
    env = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1', UBSAN_OPTIONS='print_stacktrace=1:exitcode=99', MC_REPO=repo, GLOG_minloglevel='3', GLOG_logtostderr='1')
    if replay:
        e = exes[rp['harness']]
        return subprocess.run(e + ['--tier', rp.get('tier', tier), '--work', work, '--replay', rp['scenario'] + ':' + ','.join(map(str, rp['choices']))], env=env).returncode
    tot = dict(executions=0, transitions=0, comparisons=0, states=0, outcomes=0)
    scen, samples, vio, maxdev, exh = [], [], [], 0.0, True
    kn = known(pid); isknown = lambda v: any(k[0] == v['key'] and (k[1] == '*' or k[1] == v['scenario']) for k in kn)
    for r in runs:
        h, pat = r[0], r[1]
        if any(not isknown(v) and (v['key'].endswith(':hang') or time.time() - t0 > float(os.environ.get('MC_STOP_AFTER', 300))) for v in vio): exh = False; print('stopped early: violation already found'); break
        out = '%s/%s.json' % (work, h)
        wd = tempfile.mkdtemp(dir=work)
        p = subprocess.run(exes[h] + ['--tier', tier, '--seed', str(seed), '--work', wd, '--out', out, '--only', only or pat] , env=env, capture_output=True, text=True)
        if p.returncode != 0 or not os.path.exists(out):
            print('HARNESS FAILED', h, p.returncode); print(p.stderr[-3000:]); return 2
        d = json.load(open(out)); os.unlink(out)
        for k in tot: tot[k] += d[k]
        maxdev = max(maxdev, d['max_deviation']); exh = exh and d['exhaustive']
        for s in d['scenarios']: s['harness'] = h; scen.append(s)
        if not d['scenarios'] and not only: print('NO SCENARIO in', h, 'matches', pat); return 2
        samples += d['samples'][:6]
        for v in d['violations']: v['harness'] = h; vio.append(v)
    unknown = []; hit = {}
    for v in vio:
        m = [k for k in kn if k[0] == v['key'] and (k[1] == '*' or k[1] == v['scenario'])]
        if m: hit.setdefault(m[0], 0); hit[m[0]] += v['count']
        else: unknown.append(v)
    ev = dict(property=pid, tier=tier, seed=seed, level=chk['level'],
        coverage=dict(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=tot['executions'],
            evaluations=tot['comparisons'], distinct_nontrivial=max(tot['outcomes'], tot['states']) if tot['outcomes'] or tot['states'] else tot['executions'],
            executions=tot['executions'], distinct_outcomes=tot['outcomes'], comparisons_with_reference=tot['comparisons'], max_deviation_from_reference=maxdev,
            rule=chk['rule'], exhaustive=exh, scenarios=scen, samples=samples[:16], build_s=round(tb, 1),
            known_findings_seen=[dict(key=k[0], scenario=k[1], executions=n) for k, n in hit.items()]),
        assumptions=chk.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(unknown))
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    for s in scen: print('%s/%s: %d executions, %d transitions, %d distinct states, %d distinct outcomes, %d comparisons, max deviation %.2g%s, %.1f s' % (
        s['harness'], s['scenario'], s['executions'], s['transitions'], s['distinct_states'], s['distinct_outcomes'], s['comparisons'], s['max_deviation'], '' if s['exhaustive'] else ' (CAPPED)', s['seconds']))
    for k, n in sorted(hit.items()): print('KNOWN-FINDING: property=%s %s (key %s, %d executions)' % (pid, k[2], k[0], n))
    for k in kn:
        if k not in hit: print('note: known finding not seen this run: %s' % k[0])
    if only: print('(partial run)')
    for i, v in enumerate(unknown):
        rp = '%s/evidence/%s.violation%d.json' % (V, pid, i)
        json.dump(dict(property=pid, harness=v['harness'], scenario=v['scenario'], tier=tier, choices=v['choices'], key=v['key'], message=v['msg'], events=v['trace'], executions=v['count'], how='python3 check.py %s --replay <this file>' % pid), open(rp, 'w'), indent=1)
        print('  %s [%s/%s]: %s' % (v['key'], v['harness'], v['scenario'], v['msg'][:500]))
        for e in v['trace'][:30]: print('      ' + e)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    if not unknown: print('%s: property held on everything explored (%d executions, %.1f s)' % (pid, tot['executions'], time.time() - t0))
    return 1 if unknown else 0
main()
