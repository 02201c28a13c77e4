#!/usr/bin/env python3
"""Runs one check:  run.py PROPERTY [quick|thorough]

Builds what it needs from /repo's current working tree in a temporary directory, lets the verifier (vc/, spec/)
discharge the obligations of the property, replays the property on the compiled code (harness/), writes
evidence/<PROPERTY>.json and prints VIOLATION / KNOWN-FINDING lines.
"""
import hashlib
import glob
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)

HARNESS = {}
for _h, _ps in {'values': 'C01 C04 C09 C21', 'header': 'C02 C03 C05 C06 C20', 'tensors': 'C07 C08',
                'archive': 'C10 C11 C12 C13 C14 C15 C16 C17 C22', 'misc': 'C18 C19 C23'}.items():
    for _p in _ps.split():
        HARNESS[_p] = _h
LIB = ['npy', 'dtype', 'npz', 'zip', 'tensor']
CXX = ['g++', '-std=c++17', '-I' + REPO + '/include', '-I' + REPO + '/src']
VARIANTS = {
    # name: (flags, flags for miniz)
    'pattern': (['-O1', '-g', '-ftrivial-auto-var-init=pattern'], None),
    'zero': (['-O1', '-g', '-ftrivial-auto-var-init=zero'], None),
    'asan': (['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=undefined'], None),
    'tsan': (['-O1', '-g', '-fsanitize=thread'], None),
}


class BuildError(Exception):
    pass


def sh(cmd, timeout=300, env=None, cwd=None, errors=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b'').decode('utf-8', 'replace'), (x.stderr or b'').decode('utf-8', 'replace')


def compile_objects(tmp, variant, sources):
    """sources: list of (path, object name, extra flags); returns {object name: path or error}"""
    flags, _ = VARIANTS[variant]

    def one(job):
        src, name, extra = job
        out = os.path.join(tmp, variant + '-' + name + '.o')
        rc, so, se = sh(CXX + flags + extra + ['-c', src, '-o', out], timeout=240)
        return name, (out if rc == 0 else None), se
    with ThreadPoolExecutor(8) as ex:
        return {n: (o, e) for n, o, e in ex.map(one, sources)}


def extras():
    """further files of the library, if it has been split"""
    return [(p, 'x-' + os.path.basename(p)[:-4], []) for p in sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')))
            if os.path.basename(p)[:-4] not in LIB]


def lib_sources():
    return extras() + [(os.path.join(REPO, 'src', s + '.cpp'), s, []) for s in LIB] + \
           [(os.path.join(REPO, 'src', 'miniz', 'miniz.cpp'), 'miniz', [])]


def link(tmp, variant, objs, name):
    out = os.path.join(tmp, name)
    rc, so, se = sh(CXX[:2] + VARIANTS[variant][0] + objs + ['-o', out, '-pthread'], timeout=240)
    if rc != 0:
        raise BuildError('linking %s:\n%s' % (name, se[-3000:]))
    return out


def build(tmp, variant, harness, extra=()):
    srcs = lib_sources() + [(os.path.join(HERE, 'harness', harness + '.cpp'), 'h-' + harness, list(extra))]
    res = compile_objects(tmp, variant, srcs)
    for n in LIB + ['miniz']:
        if not res[n][0]:
            raise BuildError('src/%s.cpp does not compile:\n%s' % (n, res[n][1][-3000:]))
    h = res['h-' + harness]
    if not h[0] and harness == 'archive':
        srcs[-1] = (srcs[-1][0], 'h-' + harness, ['-DNO_INTERNALS'])
        h = compile_objects(tmp, variant, srcs[-1:])['h-' + harness]
    if not h[0]:
        raise BuildError('harness/%s.cpp does not compile against the library:\n%s' % (harness, h[1][-3000:]))
    return link(tmp, variant, [res[n][0] for n in LIB + ['miniz']] + [res[n][0] for _, n, _ in extras() if res[n][0]] + [h[0]], variant + '-' + harness)


class Result:
    def __init__(self):
        self.failures = []   # concrete failing inputs: text
        self.cases = 0
        self.parts = []      # what ran
        self.notes = []
        self.programs = []   # (what, executable, environment) of every program that ran, for deeper()


def run_program(res, what, exe, prop, seed, tier, tmp, env=None, timeout=420, digest=None, deeper=False):
    scratch = tempfile.mkdtemp(prefix='s', dir=tmp)
    t0 = time.time()
    if not deeper:
        res.programs.append((what, exe, env))
    rc, so, se = sh([exe, prop, str(seed), tier, scratch], timeout=timeout, env=env, cwd=scratch)
    part = {'what': what, 'seconds': round(time.time() - t0, 2)}
    res.parts.append(part)
    lines = so.splitlines()
    fails = [l for l in lines if l.startswith('FAIL ')]
    oks = [l for l in lines if l.startswith('OK cases=')]
    for l in lines:
        if l.startswith('DIGEST ') and digest is not None:
            digest.append((what, l.split()[1]))
    last = ''
    p = os.path.join(scratch, 'last-input.hex')
    if os.path.exists(p):
        last = open(p, errors='replace').readline().strip()
    cmd = '%s %s %d %s' % (what, prop, seed, tier)
    if fails:
        res.failures.append('%s: %s' % (cmd, fails[0][5:]))
    elif oks and rc == 0:
        n = int(oks[0].split('=')[1])
        part['cases'] = n
        if not deeper:      # deeper() repeats some of the inputs
            res.cases += n
    elif rc is None and deeper:
        part['stopped'] = 'after %d s, nothing found' % timeout
    elif rc is None:
        res.failures.append('%s: did not finish within %d s; last input %s' % (cmd, timeout, last or 'unknown'))
    else:
        res.failures.append('%s: ended with status %s; last input %s\n%s' % (cmd, rc, last or 'unknown', se[-6000:]))
    shutil.rmtree(scratch, ignore_errors=True)
    return not fails and bool(oks) and rc == 0


def concrete(prop, seed, tier, tmp):
    """replays the property on the compiled code"""
    res = Result()
    h = HARNESS[prop]
    long = 420 if tier == 'quick' else 3000
    poison = {'MALLOC_PERTURB_': '165'}
    if prop == 'C18':
        digests = []
        with ThreadPoolExecutor(3) as ex:
            exes = list(ex.map(lambda v: build(tmp, v, h), ['asan', 'pattern', 'zero']))
        env = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:quarantine_size_mb=16:malloc_context_size=6', 'UBSAN_OPTIONS': 'print_stacktrace=1'}
        with ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(run_program, res, 'harness/misc.cpp with AddressSanitizer and UndefinedBehaviorSanitizer', exes[0], prop, seed, tier, tmp, env, long, digests),
                  ex.submit(run_program, res, 'harness/misc.cpp, memory filled with 0xFE/0x5A', exes[1], prop, seed, tier, tmp, poison, long, digests),
                  ex.submit(run_program, res, 'harness/misc.cpp, memory filled with zeros', exes[2], prop, seed, tier, tmp, {'MALLOC_PERTURB_': '255'}, long, digests)]
            [f.result() for f in fs]
        if not res.failures and len(set(d for _, d in digests)) > 1:
            res.failures.append('seed %d: the observed results depend on the content of uninitialised memory: %s' % (seed, digests))
        return res
    exe = build(tmp, 'pattern', h)
    run_program(res, 'harness/%s.cpp' % h, exe, prop, seed, tier, tmp, poison, long)
    if prop == 'C19' and not res.failures:
        exe = build(tmp, 'tsan', h)
        run_program(res, 'harness/misc.cpp with ThreadSanitizer', exe, prop, seed, tier, tmp,
                    {'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1'}, long)
        if res.failures and 'FATAL: ThreadSanitizer' in res.failures[-1]:
            res.notes.append('ThreadSanitizer cannot run here: ' + res.failures.pop()[-300:])
            res.programs.pop()
    if prop in ('C10', 'C17') and not res.failures:
        r = compile_objects(tmp, 'pattern', [(os.path.join(HERE, 'harness', 'zip64.cpp'), 'zip64', [])])['zip64']
        if r[0]:
            try:
                exe = link(tmp, 'pattern', [os.path.join(tmp, 'pattern-%s.o' % n) for n in ('npy', 'dtype', 'tensor')] + [o for o in (os.path.join(tmp, 'pattern-%s.o' % n) for _, n, _ in extras()) if os.path.exists(o)] + [r[0]], 'zip64')
                run_program(res, 'harness/zip64.cpp', exe, prop, seed, tier, tmp, poison, long)
            except BuildError as e:
                res.notes.append('harness/zip64.cpp skipped: ' + str(e)[-300:])
        else:
            res.notes.append('harness/zip64.cpp skipped, it does not fit the current internal functions: ' + r[1][:300])
    return res


def deeper(res, prop, seed, tmp, seconds):
    """a longer replay, run when the verifier left an obligation of the property open and the first replay found
    nothing: the same programs with the deeper enumeration and with further seeds.  Running out of time here is no
    failure."""
    jobs = []
    for what, exe, env in list(res.programs):
        jobs += [(what, exe, env, seed, 'thorough'), (what, exe, env, seed + 1000, 'thorough')]
        jobs += [(what, exe, env, seed + k, 'quick') for k in (1, 2, 3)]
    digests = {}
    t0 = time.time()

    def one(j):
        what, exe, env, sd, tier = j
        left = seconds - (time.time() - t0)
        if left < 5 or res.failures:
            return
        d = []
        run_program(res, what, exe, prop, sd, tier, tmp, env, left, d, True)
        for w, x in d:
            digests.setdefault((sd, tier), set()).add(x)
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(one, jobs))
    bad = [k for k, v in digests.items() if len(v) > 1]
    if prop == 'C18' and not res.failures and bad:
        res.failures.append('seed %d %s: the observed results depend on the content of uninitialised memory' % bad[0])


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l[len('finding: property=%s ' % prop):])
    return out


def write_replay(prop, seed, tier, text):
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'replay-%s.txt' % prop)
    with open(p, 'w') as f:
        f.write('property %s, seed %d, tier %s\nreplay: cd %s && VERIF_SEED=%d python3 run.py %s %s\n\n%s\n' % (prop, seed, tier, HERE, seed, prop, tier, text))
    return p


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    code = 0
    try:
        proof = None
        if os.path.exists(os.path.join(HERE, 'spec', 'driver.py')):
            from spec import driver
            proof = driver.start(prop, tier, seed, tmp)
        res = concrete(prop, seed, tier, tmp)
        if proof is not None:
            proof = proof.finish()
            if not res.failures and not proof.complete():
                deeper(res, prop, seed, tmp, max(30, min(240, 600 - (time.time() - t0))) if tier == 'quick' else 1500)
        violations = []
        known = known_findings(prop)
        for f in res.failures:
            hit = [k for k in known if k.split(' :: ')[0] in f]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]))
            else:
                violations.append(('input', f))
        if proof is not None and not violations:
            for f in proof.refuted:
                violations.append(('obligation', f))
        text = '\n\n'.join(v[1] for v in violations)
        if proof is not None and proof.refuted:
            text += '\n\nfailed obligations:\n' + '\n'.join(proof.refuted)
        evidence(prop, tier, seed, t0, res, proof, len(violations))
        if violations:
            p = write_replay(prop, seed, tier, text)
            print(text[:4000])
            tail = '' if any(v[0] == 'input' for v in violations) else ' no-failing-input-found'
            print('VIOLATION property=%s replay=%s%s' % (prop, p, tail))
            code = 1
        else:
            print('property %s held: %d cases on the compiled code%s' % (prop, res.cases, proof.summary() if proof is not None else ''))
    except BuildError as e:
        print('ERROR: ' + str(e))
        code = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def evidence(prop, tier, seed, t0, res, proof, nviol):
    cov = {
        'evaluations': res.cases,
        'distinct_nontrivial': res.cases,
        'rule': 'each case is one comparison of an observable result of the compiled library with an independent oracle, on an input that no other case of the run repeats (systematic enumeration plus seeded random inputs)',
        'samples': [dict(p) for p in res.parts] or ['none'],
        'bounded': 'the replay on compiled code is bounded testing and is not counted as proved',
    }
    level = 'exploration'
    assumptions = list(res.notes)
    if proof is not None:
        level, extra, asm = proof.evidence()
        cov.update(extra)
        assumptions += asm
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    p = os.path.join(HERE, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    main()
