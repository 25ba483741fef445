#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR] [--replay FILE] [--only SCENARIO]

Decides one property: builds the property's harnesses from /repo's current working tree, lets the
model-checking engine enumerate the harnesses' whole (bounded) execution space, writes
evidence/<PROPERTY>.json, prints VIOLATION / KNOWN-FINDING lines.
Exit 0: held on everything explored.  1: violated.  3: the check itself could not run."""
import sys, os, re, json, time, hashlib, subprocess, threading, argparse, concurrent.futures as cf, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(VERIF, 'harness'); LIB = os.path.join(VERIF, 'lib')
BUILD = os.environ.get('MC_BUILD', os.path.join(VERIF, 'build'))
CXX = 'g++-13'
BASE = ['-std=c++20', '-w', '-mavx', '-Wno-changes-meaning', '-DNEOLIB_HOSTED_ENVIRONMENT', '-include', os.path.join(LIB, 'include', 'mc_shim.hpp'), '-pthread']
SEQ = ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-fno-lifetime-dse', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR=1']
CONC = ['-O1', '-g1', '-fsanitize=thread', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
ENGINE = ['-O2', '-g1', '-std=c++20', '-w', '-pthread']

def headers(path):
    d = {}
    for l in open(path):
        m = re.match(r'//\s*@(\w+)\s+(.*)', l)
        if m: d.setdefault(m.group(1), []).extend(m.group(2).split())
        elif l.strip() and not l.startswith('//'): break
    return d

def harnesses():
    r = []
    for f in sorted(os.listdir(H)):
        if f.endswith('.cpp'):
            d = headers(os.path.join(H, f)); d['name'] = f[:-4]; d['path'] = os.path.join(H, f); r.append(d)
    return r

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]
_fh = {}
def fhash(p):
    if p not in _fh:
        try: _fh[p] = hashlib.sha256(open(p, 'rb').read()).hexdigest()
        except OSError: _fh[p] = 'missing'
    return _fh[p]

class BuildError(Exception): pass
_locks = {}; _guard = threading.Lock()

def compile_one(src, flags):
    with _guard: lock = _locks.setdefault(sha(src, ' '.join(flags)), threading.Lock())
    with lock: return compile_one_now(src, flags)  # harnesses of one property share objects

def compile_one_now(src, flags):
    """Object file for src, rebuilt unless neither it nor anything it included changed."""
    os.makedirs(BUILD, exist_ok=True)
    cmd = [CXX] + flags
    key = sha(src, ' '.join(cmd)); obj = os.path.join(BUILD, key + '.o'); dep = os.path.join(BUILD, key + '.dep')
    if os.path.exists(obj) and os.path.exists(dep):
        try:
            d = json.load(open(dep))
            if all(fhash(f) == h for f, h in d.items()): return obj
        except Exception: pass
    me = '%d.%d' % (os.getpid(), threading.get_ident()); mk = os.path.join(BUILD, '%s.%s.d' % (key, me)); tmp = obj + '.%s.tmp' % me
    r = subprocess.run(cmd + ['-MD', '-MF', mk, '-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError('%s\n%s' % (src, r.stdout[:4000]))
    files = re.sub(r'\\\n', ' ', open(mk).read()).split(':', 1)[1].split()
    json.dump({f: fhash(f) for f in files if not f.startswith('/usr/')}, open(dep, 'w')); os.replace(tmp, obj); os.unlink(mk)
    return obj

def build(d, repo, pool):
    conc = 'conc' in d.get('engine', [])
    inc = ['-I' + os.path.join(LIB, 'include'), '-I' + LIB, '-I' + os.path.join(repo, 'include')]
    mode = list(CONC if conc else SEQ)
    extra = [f for f in d.get('flags', []) ]
    if 'noasan' in d.get('opt', []): mode = [m for m in mode if m != '-fsanitize=address']
    flags = BASE + mode + extra + inc
    srcs = [os.path.join(repo, s) for s in d.get('src', [])]
    jobs = [pool.submit(compile_one, d['path'], flags)] + [pool.submit(compile_one, s, flags) for s in srcs]
    if conc: jobs += [pool.submit(compile_one, os.path.join(LIB, 'sched.cpp'), ENGINE + ['-I' + LIB])]
    else: jobs += [pool.submit(compile_one, os.path.join(LIB, 'mc.cpp'), ENGINE + ['-I' + LIB])]
    return d, jobs, conc, mode

def link(d, objs, conc, mode):
    exe = os.path.join(BUILD, d['name'] + '-' + sha(*objs, *[fhash(o) for o in objs], ' '.join(d.get('link', []))))
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        lf = [] if conc else [m for m in mode if m.startswith('-fsanitize')]
        r = subprocess.run([CXX, '-pthread'] + lf + objs + d.get('link', []) + (['-ldl'] if conc else []) + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise BuildError(d['name'] + ' link\n' + r.stdout[:4000])
        os.replace(tmp, exe)
    return exe

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--repo', default='/repo')
    ap.add_argument('--only', default=''); ap.add_argument('--replay'); ap.add_argument('--harness', default=''); ap.add_argument('--build-only', action='store_true')
    a = ap.parse_args(); t0 = time.time(); prop = a.property
    hs = [d for d in harnesses() if (prop == 'ALL' or prop in d.get('props', [])) and a.harness in d['name']]
    if not hs: print('no harness for', prop, file=sys.stderr); return 3
    try:
        with cf.ThreadPoolExecutor(8) as pool:
            built = [build(d, a.repo, pool) for d in hs]
            exes = []
            for d, jobs, conc, mode in built: exes.append((d, link(d, [j.result() for j in jobs], conc, mode), conc))
    except BuildError as e:
        print('BUILD FAILED:', e, file=sys.stderr); return 3
    tb = time.time() - t0
    if a.build_only: print('built in %.1f s' % tb); return 0
    rdir = os.path.join(BUILD, 'replay', prop); os.makedirs(rdir, exist_ok=True)
    if a.replay:
        name = open(a.replay).readline().split()[1]
        for d, exe, conc in exes:
            if name in subprocess.run([exe, '--list'], capture_output=True, text=True).stdout.split(): return subprocess.run([exe, '--replay', a.replay]).returncode
        return 3
    known = []
    for l in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'known:\s+property=(\S+)\s+key=(\S+)\s+(.*)', l)
        if m and m.group(1) == prop: known.append((m.group(2), m.group(3).strip()))
    kf = os.path.join(rdir, 'known.txt'); open(kf, 'w').write(''.join(k + '\n' for k, _ in known))
    budget = 700 if a.tier == 'quick' else 14000
    total = dict(states=0, transitions=0, executions=0, traces_validated_against_impl=0); samples = []; scen = []; viol = 0; internal = False; hits = set(); complete = True; extra = {}
    for d, exe, conc in exes:
        out = os.path.join(rdir, d['name'] + '.json')
        if os.path.exists(out): os.unlink(out)
        left = max(30, budget - (time.time() - t0))
        cmd = [exe, '--tier', a.tier, '--out', out, '--replay-dir', rdir, '--jobs', str(os.cpu_count() or 8), '--budget', '%.0f' % left, '--known', kf]
        if a.only: cmd += ['--only', a.only]
        elif len(d.get('props', [])) > 1: cmd += ['--only', prop + '/']   # scenarios of a shared harness are named PROPERTY/...
        env = dict(os.environ); env['TMPDIR'] = '/tmp'
        r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, env=env, errors='replace'); before = viol
        for l in r.stdout.splitlines():
            m = re.match(r'MC-VIOLATION scenario=(\S+) key=(\S+) replay=(\S+)', l)
            if l.startswith('MC-VIOLATION'):
                viol += 1; print(l); print('VIOLATION property=%s replay=%s' % (prop, m.group(3) if m else out), flush=True)
            else: print(l)
        if r.returncode not in (0, 1): print('harness %s ended with %d' % (d['name'], r.returncode), file=sys.stderr); internal = True
        if r.returncode == 1 and viol == before: viol += 1; print('VIOLATION property=%s replay=%s' % (prop, out), flush=True)
        if os.path.exists(out):
            j = json.load(open(out))
            total['states'] += j['states']; total['transitions'] += j['transitions']; total['executions'] += j['executions']; total['traces_validated_against_impl'] += j['validated']
            samples += j['samples']; complete &= j['complete'] and not j.get('state_table_saturated'); hits |= set(j['known_hits'])
            for s in j['scenarios']: s['harness'] = d['name']; scen.append(s)
    for k, text in known:
        if k in hits: print('KNOWN-FINDING: property=%s %s' % (prop, text))
    ev = dict(property=prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
              coverage=dict(total, samples=samples[:24], exhaustive=bool(complete and not viol and not internal), scenarios=scen, build_s=round(tb, 1),
                            known_findings_hit=sorted(hits)),
              assumptions=sorted(set(sum([[' '.join(d.get('assume', []))] if d.get('assume') else [] for d, _, _ in exes], []))) or ['the alphabets and depth bounds of the scenarios listed in coverage.scenarios', 'g++ 13, x86-64'],
              wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %s in %.1f s (build %.1f s): %d executions, %d transitions, %d states%s' % (prop, 'VIOLATED' if viol else 'NO ANSWER (a harness did not run)' if internal else 'held', time.time() - t0, tb, total['executions'], total['transitions'], total['states'], '' if complete else ' (budget reached)'))
    if viol: return 1
    return 3 if internal else 0

if __name__ == '__main__': sys.exit(main())
