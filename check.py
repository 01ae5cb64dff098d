#!/usr/bin/env python3
"""Decide one property of pscm by bounded symbolic execution of the real code.

usage: check.py PROPERTY [quick|thorough]

Every run: compile /repo/src/c/*.cc to LLVM bitcode, link it with the harness of
the property and the modelled C library, execute it symbolically (engine/), and
confirm every counterexample by running the same harness natively, linked with
the real objects, on the counterexample's input.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PSCM_REPO', '/repo')
SRC = REPO + '/src/c'
BUILD = os.environ.get('SX_BUILD', V + '/build')
CXXF = ['-w', '-std=gnu++20', '-g', '-include', 'limits.h', '-I' + SRC, '-I' + V + '/engine/rt']
BCF = ['-O0', '-Xclang', '-disable-O0-optnone', '-emit-llvm', '-DSX_ENGINE']
JOBS = 8


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def die(msg, code=2):
    log(msg)
    print('CHECK-ERROR ' + msg.splitlines()[0])
    sys.exit(code)


def filehash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()


def engine():
    """build the engine and the modelled C library if needed"""
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(['make', '-s', '-j8', '-C', V + '/engine', 'B=' + BUILD + '/engine'])
        if r.returncode:
            die('engine build failed\n' + r.stdout)
    return BUILD + '/engine/sxe'


def compile_many(jobs):
    """jobs: list of (src, out, flags, compiler); content-addressed cache"""
    def one(j):
        src, out, flags, cc = j
        if os.path.exists(out):
            return None
        tmp = out + '.%d.tmp' % os.getpid()
        r = sh([cc] + flags + ['-c', src, '-o', tmp])
        if r.returncode:
            return '%s: %s' % (src, r.stdout)
        os.rename(tmp, out)
        return None
    with cf.ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        die('compilation failed\n' + '\n'.join(errs))


def srcs():
    return sorted(glob.glob(SRC + '/*.cc'))


def hdrhash():
    return filehash(sorted(glob.glob(SRC + '/*.h')) + [REPO + '/src/main.cc'] + sorted(glob.glob(V + '/engine/rt/*.h')) + sorted(glob.glob(V + '/harness/*.h')))


def prune(keep=60000):
    """keep the object cache bounded"""
    d = BUILD + '/obj'
    fs = sorted(((os.path.getmtime(p), p) for p in glob.glob(d + '/*')))
    tot = sum(os.path.getsize(p) for _, p in fs)
    for m, p in fs:
        if tot < keep * 1024 * 1024 // 60 or time.time() - m < 3600:
            break
        tot -= os.path.getsize(p)
        os.remove(p)


def objs(kind, extra):
    """compile repo sources + extra files; kind in bc/nat/asan. returns list of outputs"""
    hh = hdrhash()
    flags = {'bc': CXXF + BCF, 'nat': CXXF + ['-O1', '-fno-strict-aliasing'],
             'asan': CXXF + ['-O1', '-fsanitize=address,signed-integer-overflow', '-fno-sanitize=signed-integer-overflow', '-fno-omit-frame-pointer',
                     '-fsanitize-ignorelist=' + V + '/engine/asan_ignore.txt']}[kind]
    os.makedirs(BUILD + '/obj', exist_ok=True)
    jobs, outs = [], []
    for s in srcs() + extra:
        fl, cc = flags, 'clang++-18'
        if s.endswith('.c'):
            fl, cc = ['-w', '-g', '-fno-builtin'] + BCF, 'clang-18'
        inc = [V + '/harness/' + i for i in re.findall(r'^#include "(\w+\.cc)"', open(s).read(), re.M)] if s.startswith(V) else []
        k = hashlib.sha256((filehash([s] + inc) + hh + ' '.join(fl)).encode()).hexdigest()[:24]
        o = '%s/obj/%s.%s.%s' % (BUILD, os.path.basename(s), k, 'bc' if kind == 'bc' else 'o')
        jobs.append((s, o, fl, cc))
        outs.append(o)
    compile_many(jobs)
    for o in outs:
        os.utime(o)
    return outs


class Prop:
    def __init__(self, pid):
        self.pid = pid
        self.src = '%s/harness/%s.cc' % (V, pid)
        txt = open(self.src).read()
        self.opts = {'quick_timeout': 60, 'thorough_timeout': 600, 'max_instr': 30000000, 'query_ms': 20000, 'mem': 3000, 'max_paths': 100000000,
                     'max_enum': 300}
        for m in re.finditer(r'^// @(\w+) (.*)$', txt, re.M):
            v = m.group(2).strip()
            self.opts[m.group(1)] = int(v) if re.fullmatch(r'-?\d+', v) else v
        self.harnesses = re.findall(r'^\s*H\((\w+)\)', txt, re.M)
        for m in re.finditer(r'^\s*HX\((\w+)', txt, re.M):
            self.harnesses.append(m.group(1))
        self.bounds = re.findall(r'^// @bound (.*)$', txt, re.M)
        self.assume = re.findall(r'^// @assume (.*)$', txt, re.M)
        self.params = dict(re.findall(r'^// @param_thorough (\w+)=(-?\d+)', txt, re.M))


class Native:
    def __init__(self, prop):
        self.p = prop
        self.exe = {}

    def get(self, kind):
        if kind not in self.exe:
            o = objs(kind, [V + '/engine/rt/rt_common.cc', V + '/engine/rt/native.cc', self.p.src])
            exe = '%s/native_%s_%s_%d' % (BUILD, self.p.pid, kind, os.getpid())
            wrap = ['-Wl,--wrap=' + w for w in sorted(set(re.findall(r'\b__wrap_(\w+)\(', open(self.p.src).read())))]
            r = sh(['clang++-18', '-o', exe] + o + wrap + (['-fsanitize=address'] if kind == 'asan' else []))
            if r.returncode:
                die('native link failed\n' + r.stdout)
            self.exe[kind] = exe
        return self.exe[kind]

    def run(self, kind, harness, inputs, params, timeout=25):
        d = tempfile.mkdtemp(prefix='sxn')
        try:
            with open(d + '/in', 'w') as f:
                for n, v in inputs:
                    f.write('I %s %s\n' % (n, v))
            env = dict(os.environ, MALLOC_PERTURB_='65', ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=66:handle_segv=1:max_malloc_fill_size=1000000:malloc_fill_byte=190:allocator_may_return_null=1')
            cmd = [self.get(kind), harness, d + '/in', d + '/out'] + ['%s=%s' % kv for kv in params.items()]
            try:
                r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, cwd=d, timeout=timeout)
                rc, err = r.returncode, r.stderr.decode(errors='replace')[-4000:]
            except subprocess.TimeoutExpired:
                rc, err = -14, 'timeout'
            out = open(d + '/out', errors='replace').read() if os.path.exists(d + '/out') else ''
            return rc, out, err
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def close(self):
        for e in self.exe.values():
            try:
                os.remove(e)
            except OSError:
                pass


def confirm(nat, prop, h, e, params):
    """replay one counterexample natively; returns (confirmed, description)"""
    inp = e['inputs']
    kind = e['kind']
    rc, out, err = nat.run('nat', h, inp, params)
    last = out.strip().splitlines()[-1] if out.strip() else ''
    if 'ASSUME-FAIL' in out or 'KILL' in out:
        return False, 'native run left the assumptions'
    if kind == 'assert-violated':
        m = re.search(r'ASSERT-FAIL (.*)', out)
        if m:
            return True, 'native: assertion %s fails' % m.group(1)
        if rc < 0 and rc != -14:
            return True, 'native: killed by signal %d' % -rc
        rc2, out2, err2 = nat.run('asan', h, inp, params)
        m = re.search(r'ASSERT-FAIL (.*)', out2)
        if m:
            return True, 'native(asan): assertion %s fails' % m.group(1)
        if 'AddressSanitizer' in err2:
            return True, 'native(asan): ' + re.search(r'AddressSanitizer: ?(\S+)', err2).group(1)
        return False, 'native run passes (rc=%d)' % rc
    if kind == 'step-limit':
        if rc == -14:
            return True, 'native: no answer within 20 s'
        if rc < 0:
            return True, 'native: killed by signal %d' % -rc
        return False, 'native run terminates (rc=%d)' % rc
    if kind in ('exit', 'wrong-exit-code'):
        m = re.search(r'EXPECT-EXIT (\d+)', out)
        if 'DONE' in out:
            return False, 'native run does not exit'
        if rc < 0:
            return True, 'native: killed by signal %d' % -rc
        if kind == 'exit':
            return (rc not in (77, 78, 79)), 'native: process exited with status %d' % rc
        return (m is not None and rc != int(m.group(1))), 'native: exit status %d' % rc
    # crashes and memory errors
    if rc < 0 and rc != -14:
        return True, 'native: killed by signal %d' % -rc
    if rc == -14:
        return True, 'native: no answer within 20 s'
    if 'ASSERT-FAIL' in out:
        return True, 'native: assertion fails after ' + kind
    rc2, out2, err2 = nat.run('asan', h, inp, params)
    m = re.search(r'AddressSanitizer: ?(\S+)', err2)
    if m:
        return True, 'native(asan): ' + m.group(1)
    if rc2 < 0:
        return True, 'native(asan): signal %d' % -rc2
    if kind == 'div-overflow' or kind == 'div-by-zero':
        return (rc < 0), 'rc=%d' % rc
    return False, 'native run passes (rc=%d, asan rc=%d)' % (rc, rc2)


def load_known():
    p = V + '/known_findings.json'
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = sys.argv[3:]
    t0 = time.time()
    if pid == 'warm':
        engine()
        objs('bc', [V + '/engine/rt/libc.c', V + '/engine/rt/rt_common.cc'])
        return 0
    prop = Prop(pid)
    sxe = engine()
    if os.path.exists(BUILD + '/obj'):
        prune()
    params = dict(prop.params) if tier == 'thorough' else {}
    params['thorough'] = 1 if tier == 'thorough' else 0
    params.update(kv.split('=') for kv in os.environ.get('SX_PARAMS', '').split(',') if kv)
    bcs = objs('bc', [V + '/engine/rt/libc.c', V + '/engine/rt/rt_common.cc', prop.src])
    work = tempfile.mkdtemp(prefix='sx_%s_' % pid)
    nat = Native(prop)
    try:
        return run(pid, tier, seed, only, t0, prop, sxe, params, bcs, work, nat)
    finally:
        nat.close()
        shutil.rmtree(work, ignore_errors=True)


def run(pid, tier, seed, only, t0, prop, sxe, params, bcs, work, nat):
    r = sh(['llvm-link-18', '-o', work + '/all.bc'] + bcs)
    if r.returncode:
        die('llvm-link failed\n' + r.stdout)
    tmo = prop.opts[tier + '_timeout']
    nh = max(1, len(only or prop.harnesses))
    hs = only or prop.harnesses
    cmd = [sxe, work + '/all.bc', '--repo', SRC, '--out', work, '--timeout', str(tmo), '--max-instr', str(prop.opts['max_instr']),
           '--query-timeout', str(prop.opts['query_ms']), '--mem', str(prop.opts['mem']), '--max-paths', str(prop.opts['max_paths']),
           '--max-enum', str(prop.opts['max_enum']), '--jobs', str(JOBS), '--samples', '6' if tier == 'quick' else '16']
    for h in hs:
        cmd += ['--sel', h]
    for k, v in params.items():
        cmd += ['--param', '%s=%s' % (k, v)]
    tb = time.time()
    hard = 840 if tier == 'quick' else 7200
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=max(30, hard - (tb - t0) - 60))
        if os.environ.get('SX_VERBOSE'):
            log(r.stderr[-6000:])
        engerr = r.stderr
    except subprocess.TimeoutExpired as ex:
        engerr = 'engine timeout'
        sh(['pkill', '-f', work + '/all.bc'])
    te = time.time() - tb

    known = [k for k in load_known() if k['property'] == pid]
    res, missing = {}, []
    for h in hs:
        f = '%s/%s.json' % (work, h)
        if os.path.exists(f):
            res[h] = json.load(open(f))
        else:
            missing.append(h)
    viol, knownhits, unconf = [], {}, []
    for h, d in res.items():
        bysig = {}
        for e in d['errors']:
            bysig.setdefault(e['sig'], []).append(e)
        for sig, es in bysig.items():
            ok = None
            for e in es:
                c, how = confirm(nat, prop, h, e, params)
                if c:
                    ok = (e, how)
                    break
                unc = (e, how)
            if ok is None:
                unconf.append({'harness': h, 'sig': sig, 'why': unc[1], 'inputs': unc[0]['inputs'][:40], 'trace': unc[0]['trace'][:600]})
                continue
            e, how = ok
            kf = None
            for k in known:
                if k['harness'] == h and re.fullmatch(k['sig'], sig):
                    kf = k
                    break
            if kf:
                knownhits.setdefault(kf['id'], (kf, h, sig, how))
            else:
                viol.append((h, sig, e, how))

    # native validation of sampled paths
    validated, mismatches, vsamples = 0, [], []
    if time.time() - t0 < (500 if tier == 'quick' else 6000):
        tasks = [(h, s) for h, d in res.items() for s in d['samples']]
        if not viol:
            nat.get('nat')

        def val(t):
            h, s = t
            lines = open(s, errors='replace').read().splitlines()
            inp = [l[2:].rsplit(' ', 1) for l in lines if l.startswith('I ')]
            want = [l for l in lines if l[:2] in ('O ', 'B ', 'R ')]
            rc, out, err = nat.run('nat', h, inp, params)
            got = [l for l in out.splitlines() if l[:2] in ('O ', 'B ', 'R ')]
            want = [re.sub(r' 0+(?=[0-9a-f])', ' ', l) if l[0] == 'O' else l for l in want]
            return h, inp, want, got, rc
        if not viol:
            with cf.ThreadPoolExecutor(JOBS) as ex:
                for h, inp, want, got, rc in ex.map(val, tasks):
                    exits = [w for w in want if w.startswith('O exit')]
                    if want == got or (exits and [w for w in want if not w.startswith('O exit')] == got and rc == int(exits[-1].split()[2], 16)):
                        validated += 1
                        if len(vsamples) < 12:
                            vsamples.append({'harness': h, 'inputs': {n: v for n, v in inp[:24]}, 'observed': got[:12]})
                    else:
                        i = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
                        mismatches.append({'harness': h, 'inputs': inp[:40], 'engine': want[i:i + 2], 'native': got[i:i + 2], 'rc': rc})

    tot = lambda f: sum(f(d) for d in res.values())
    funcs = sorted(set(x for d in res.values() for x in d['functions'] if not x.startswith('_Z')))
    vac = []
    for h, d in res.items():
        if 'end' not in d['reach'] and not any(k.startswith('end') for k in d['reach']) and not d['errors']:
            vac.append(h)
    killed = {}
    for d in res.values():
        for k, v in d['killed'].items():
            killed[k] = killed.get(k, 0) + v
    nassert = tot(lambda d: sum(a['checks'] for a in d['asserts'].values()))
    cov = {
        'states': tot(lambda d: d['paths']),
        'transitions': tot(lambda d: d['instructions']),
        'traces_validated_against_impl': validated,
        'samples': vsamples or [{'note': 'no sampled path'}],
        'harnesses': {h: {'paths': d['paths'], 'forks': d['forks'], 'instructions': d['instructions'], 'asserts': d['asserts'], 'reach': d['reach'],
                          'stopped': d['stopped'], 'killed': d['killed'], 'wall_s': round(d['wall'], 2)} for h, d in res.items()},
        'functions_encoded': funcs,
        'functions_encoded_count': len(funcs),
        'bounds': prop.bounds,
        'obligations': nassert,
        'obligations_proved_by_solver': tot(lambda d: sum(a['proved'] for a in d['asserts'].values())),
        'obligations_decided_by_simplification': tot(lambda d: sum(a['trivial'] for a in d['asserts'].values())),
        'solver': {k: round(tot(lambda d: d['solver'][k]), 3) for k in ('queries', 'z3calls', 'cache', 'model_hits', 'sat', 'unsat', 'unknown', 'time')},
        'killed_paths': killed,
        'bound_exceeded': {h: d['stopped'] for h, d in res.items() if d['stopped']},
        'engine_missing_results': missing,
        'vacuous_harnesses': vac,
        'unconfirmed_counterexamples': unconf[:10],
        'engine_native_mismatches': mismatches[:10],
        'known_findings_seen': sorted(knownhits),
        'engine_wall_s': round(te, 2),
        'exhaustive': not killed and not missing and not any(d['stopped'] for d in res.values()),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': prop.assume + [
              'the C library is the model in engine/rt/libc.c; code under test is the -O0 bitcode of every file of src/c',
              'values outside the stated bounds, and paths listed under killed_paths or bound_exceeded, are not covered'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(V + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (V, pid), 'w') as f:
        json.dump(ev, f, indent=1)
    log('%s %s: %d harnesses, %d paths, %d asserts, %.1fs engine, %.1fs total; solver %s' % (pid, tier, len(res), cov['states'], nassert, te, time.time() - t0, cov['solver']))
    for h, d in res.items():
        log('  %-28s paths=%-6d t=%.1f stop=%s killed=%s errs=%d' % (h, d['paths'], d['wall'], d['stopped'], d['killed'], len(d['errors'])))
    for u in unconf:
        log('  UNCONFIRMED', u['harness'], u['sig'], u['why'], u['inputs'][:8], '\n' + u['trace'])
    for m in mismatches[:5]:
        log('  MISMATCH', m)
    if missing:
        log('  MISSING', missing, engerr[-1500:])
    if vac:
        log('  VACUOUS', vac)
    for kid, (k, h, sig, how) in sorted(knownhits.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, kid, k['what']))
    if viol:
        rd = V + '/replay'
        os.makedirs(rd, exist_ok=True)
        for i, (h, sig, e, how) in enumerate(viol):
            f = '%s/%s_%s_%d.json' % (rd, pid, h, i)
            with open(f, 'w') as fh:
                json.dump({'property': pid, 'harness': h, 'signature': sig, 'kind': e['kind'], 'label': e['label'], 'where': e['where'], 'detail': e['detail'],
                           'confirmed_by': how, 'inputs': e['inputs'], 'trace': e['trace'].splitlines(),
                           'replay': 'python3 %s/replay.py %s' % (V, f)}, fh, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, f))
            print('  %s: %s (%s) %s' % (h, sig, how, ' '.join('%s=0x%s' % (n, v) for n, v in e['inputs'][:12])))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
