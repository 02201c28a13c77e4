"""Starts the verifier for a property beside the replay on compiled code, and collects what it found."""
import json
import os
import subprocess
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/veriftools/pyvenv/bin/python3'
LIMIT = {'quick': 100, 'thorough': 600}
ALL = ('C18', 'C19')       # these run every contract

TRUSTED = ['clang 18 (translation of the sources to LLVM IR, -O0, x86-64), and that the compiled program means what that IR means',
           'the verification condition generator in vc/ (executor, loop invariant inference, byte-sequence reasoning)',
           'z3 4.x and cvc5 1.1.2 (an obligation counts only when one of them, or the term simplifier in vc/terms.py, decides it)',
           'contracts assumed for the C++ standard library (vc/intrinsics.py): strings, vectors, sets, maps, streams, allocation, exceptions',
           'host is little-endian with IEEE-754 floating point']


class Proof:
    def __init__(self, prop, tier, seed, tmp):
        self.prop, self.tier = prop, tier
        self.out = os.path.join(tmp, 'proof.json')
        d = os.path.join(tmp, 'ir')
        os.makedirs(d, exist_ok=True)
        self.limit = LIMIT[tier] * (3 if prop in ALL else 1)
        self.log = open(os.path.join(tmp, 'proof.log'), 'w')
        self.p = subprocess.Popen([PYTHON, '-m', 'spec.prove', prop, REPO, d, self.out, str(self.limit), tier], cwd=HERE,
                                  stdout=self.log, stderr=subprocess.STDOUT)
        self.t0 = time.time()
        self.results = []
        self.error = None

    def finish(self):
        try:
            self.p.wait(max(5, self.limit + 30 - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            self.error = 'the verifier did not finish in time'
        self.log.close()
        try:
            with open(self.out) as f:
                self.results = json.load(f)
        except (OSError, ValueError):
            with open(self.log.name) as f:
                self.error = self.error or ('the verifier gave no result: ' + f.read()[-1500:])
        return self

    # ---- what run.py asks
    @property
    def refuted(self):
        return ['%s: %s' % (r['task'], x) for r in self.results for x in r.get('refuted', [])]

    def counts(self):
        dis = sum(r.get('discharged', 0) for r in self.results)
        bad = sum(len(r.get('refuted', [])) + len(r.get('unknown', [])) for r in self.results)
        # a task the verifier could not finish leaves at least one obligation open
        bad += sum(1 for r in self.results if r.get('imprecise') or not r.get('discharged'))
        return dis, dis + bad

    def done(self, r):
        return not r.get('imprecise') and not r.get('refuted') and not r.get('unknown') and r.get('discharged', 0) > 0

    def complete(self):
        return not self.error and bool(self.results) and all(self.done(r) for r in self.results)

    def summary(self):
        if self.error:
            return '; ' + self.error.splitlines()[0]
        dis, n = self.counts()
        t = '; %d of %d obligations discharged in %d contracts' % (dis, n, len(self.results))
        for r in self.results:
            if not self.done(r):
                t += '\n  undecided by the verifier, bounded replay only: %s: %s' % (r['task'], (r.get('imprecise') or '; '.join(r.get('unknown', [])[:2]))[:300])
        return t

    def evidence(self):
        dis, n = self.counts()
        whole = [r for r in self.results if self.done(r)]
        full = bool(self.results) and len(whole) == len(self.results) and not self.error
        level = 'proof' if full and any(not r.get('bounded') for r in self.results) else 'exploration'
        back = {}
        for r in self.results:
            for k, v in (r.get('backends') or {}).items():
                back[k] = back.get(k, 0) + v
        cov = {
            'obligations': n, 'discharged': dis,
            'checker_cmd': 'python3 run.py %s %s (vc/ generates the obligations from the LLVM IR of /repo\'s current sources)' % (self.prop, self.tier),
            'trusted_base': TRUSTED,
            'contracts': [{'contract': r['task'], 'state': 'discharged' if self.done(r) else 'undecided, bounded replay only',
                           'bounded': r.get('bounded') or None,
                           'functions': r.get('functions', []), 'obligations': r.get('discharged', 0) + len(r.get('unknown', [])) + len(r.get('refuted', [])),
                           'discharged': r.get('discharged', 0), 'queries': r.get('queries', 0), 'solver_s': r.get('solver', 0), 'wall_s': r.get('seconds', 0),
                           'why_undecided': r.get('imprecise') or r.get('unknown', [])[:3] or None,
                           'loops_with_invariants': r.get('loops', []),
                           'bounds': r.get('bounds', [])} for r in self.results],
            'functions_under_contract': sorted(set(f for r in whole for f in r.get('functions', []))),
            'functions_executed_symbolically': sorted(set(f for r in self.results for f in r.get('ran', []))),
            'obligation_names': sorted(set(o for r in whole for o in r.get('obligations', [])))[:200],
            'back_ends': back, 'solver_s': round(sum(r.get('solver', 0) for r in self.results), 2),
            'vacuity': 'every contract has at least one postcondition whose path condition is not contradictory; contracts where this failed count as undecided',
        }
        asm = sorted(set(a for r in self.results for a in r.get('assumed', [])))
        asm.append('streams given by the caller have no field width set and the default exception mask')
        asm += ['bounded: ' + r['task'] + ': ' + r['bounded'] for r in self.results if r.get('bounded')]
        if self.error:
            asm.append(self.error)
        return level, cov, asm


def start(prop, tier, seed, tmp):
    return Proof(prop, tier, seed, tmp)
