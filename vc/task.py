"""Proof tasks: a task sets up a symbolic pre-state, runs functions of the library and states postconditions."""
import re
import time
import traceback
import z3
from .verify import *

TASKS = {}


class TaskDef:
    def __init__(self, prop, name, fn, functions, bounded, weight, kind, thorough):
        self.prop, self.name, self.fn, self.functions, self.bounded, self.weight, self.kind, self.thorough_only = \
            prop, name, fn, functions, bounded, weight, kind, thorough


def task(prop, name, functions=(), bounded=None, weight=1, kind='z3', thorough=False):
    """functions: the functions of the library the obligations are generated from (found at run time as well)"""
    def deco(fn):
        for p in ([prop] if isinstance(prop, str) else prop):
            TASKS.setdefault(p, []).append(TaskDef(p, name, fn, list(functions), bounded, weight, kind, thorough))
        return fn
    return deco


class Enough(Exception):
    """enough obligations have been refuted"""


class Ctx:
    def __init__(self, env, deadline=None):
        self.env = env
        self.ex = env.executor()
        self.posts = []
        self.mode = None
        self.refuted = 0
        self.assumed = set()
        self.bounds = set()

    # ---- running
    def start(self):
        return self.env.initial()

    def call(self, st, fn, args):
        f = fn if not isinstance(fn, str) else self.env.find(fn)
        rs = self.ex.call_function(st, f, args)
        for r in rs:
            self.prune(r)
        return rs

    def prune(self, s):
        if s.status == 'exc':
            t = s.exc.tname if s.exc else '?'
            ok = t == 'std::exception' or 'std::exception' in EXC_BASES.get(t, [])
            self.ex.obls.append(Obl('only standard exceptions are thrown (%s)' % t, True if ok else None, None))

    def run_all(self, states, fn, args):
        """fn applied to every normal state; args: list or callable(state)"""
        out = []
        for s in states:
            s.status = None
            out += self.call(s, fn, args(s) if callable(args) else args)
        return out

    def cases(self, st, fn, limit=400):
        """fn(state), split into cases where it needs to know a condition"""
        stack = [st]
        while stack:
            s = stack.pop()
            m = len(self.posts)
            mo = len(self.ex.obls)
            try:
                fn(s.clone())
            except Fork as f:
                limit -= 1
                if limit < 0:
                    raise Imprecise('too many case splits in a postcondition')
                del self.posts[m:]
                del self.ex.obls[mo:]
                for x in (f.cond, bnot(f.cond)):
                    if x is False:
                        continue
                    s2 = s.clone()
                    s2.assume(x)
                    if feasible(s2.pc):
                        stack.append(s2)

    # ---- postconditions
    def sink(self):
        # what is stated inside a loop is stated again in every attempt at an invariant
        return self.ex.obls if self.ex.in_finite or self.ex.loop_depth else self.posts

    def post(self, st, cond, name):
        o = Obl(name, None, 'postcondition', kind='post')
        self.sink().append(o)
        o.pc = list(st.pc)
        if cond is True:
            o.status = True
            return
        o.goal = cond
        o.status = prove(st.pc, cond)
        if o.status is False and T.genuine(o.pc + [z3.Not(cond) if is_t(cond) else True]):
            self.refuted += not (self.ex.in_finite or self.ex.loop_depth)
            if self.refuted > 12 and self.mode is None:
                raise Enough()

    def form(self, st, cond, name):
        """the code has the form the contract argument is made for; if not, nothing is decided (and no alarm raised)"""
        o = Obl(name, None, 'postcondition', kind='post')
        self.sink().append(o)
        o.status = True if cond is True else None
        o.why = 'the code has another form'
        o.pc, o.goal = list(st.pc), cond if is_t(cond) else z3.BoolVal(bool(cond))

    def kept(self, st, cond, name):
        """the representation is as the contract argument takes it to be; if not, nothing is decided"""
        o = Obl(name, None, 'postcondition', kind='post')
        self.sink().append(o)
        o.pc, o.goal = list(st.pc), cond if is_t(cond) else z3.BoolVal(bool(cond))
        o.status = True if cond is True or prove(st.pc, cond) is True else None
        o.why = 'another representation'

    def post_rope(self, st, got, want, name):
        o = Obl(name, None, 'postcondition', kind='post')
        self.sink().append(o)
        rs = with_forks(lambda p: prove_rope_eq(got, want, p), st.pc)
        if all(r.status is True for r in rs):
            o.status = True
            return
        bad = [r for r in rs if r.status is False] or [r for r in rs if r.status is not True]
        o.status = bad[0].status
        o.why = '%s; got %.300r want %.300r' % (bad[0].why, got, want)
        o.goal = bad[0].goal
        o.pc = list(st.pc)

    def post_fork(self, st, fn, name):
        """fn(pc) -> condition; may Fork"""
        o = Obl(name, None, 'postcondition', kind='post')
        self.sink().append(o)

        def one(p):
            c = fn(p)
            r = prove(p, c)
            return Eq(r, goal=c)
        rs = with_forks(one, st.pc)
        if all(r.status is True for r in rs):
            o.status = True
            return
        bad = [r for r in rs if r.status is False] or [r for r in rs if r.status is not True]
        o.status, o.goal, o.pc = bad[0].status, bad[0].goal, list(st.pc)

    def ret(self, states, name='returns normally'):
        """all states must return normally; gives those that do"""
        out = []
        for s in states:
            if s.status == 'ret':
                out.append(s)
            else:
                self.post(s, False, '%s (throws %s)' % (name, s.exc.tname if s.exc else '?'))
        return out

    def exc_is(self, s, *names):
        return s.status == 'exc' and any(s.exc.tname == n or n in EXC_BASES.get(s.exc.tname, []) for n in names)


from .execu import Obl, EXC_BASES


class Result:
    def __init__(self, d):
        self.prop, self.name, self.functions, self.bounded = d.prop, d.name, list(d.functions), d.bounded
        self.discharged = 0
        self.refuted = []
        self.unknown = []
        self.seconds = 0.0
        self.solver = 0.0
        self.queries = 0
        self.backends = {}
        self.imprecise = None
        self.ran = []
        self.summarised = []
        self.assumed = []
        self.obligations = []

    @property
    def ok(self):
        return self.imprecise is None and not self.refuted and not self.unknown and self.discharged > 0


def render_model(pc, goal):
    try:
        fs = list(pc) + ([z3.Not(goal)] if is_t(goal) else [])
        r, m = solve(fs, 3000, want_model=True)
        if r == 'sat' and m is not None:
            t = ', '.join(sorted('%s = %s' % (d.name(), m[d]) for d in m.decls() if d.arity() == 0))[:600]
            fn = '; '.join('%s: %s' % (d.name(), str(m[d]).replace('\n', ' ')[:200]) for d in m.decls() if d.arity() > 0)[:800]
            return t + (' | ' + fn if fn else '')
    except Exception:
        pass
    return ''


def run_task(env, d, budget, mode=None):
    """mode: None, all obligations; 'safety', only those about memory, initialisation and undefined behaviour (C18); 'frame',
    only that nothing outside the arguments is written (C19)"""
    T.DEADLINE[0] = time.time() + budget
    T.STATS = T.STATS.__class__()
    from . import terms
    terms.STATS = T.STATS
    t0 = time.time()
    r = Result(d)
    c = Ctx(env)
    c.mode = mode
    try:
        d.fn(c)
    except Enough:
        pass
    except Imprecise as e:
        r.imprecise = 'outside the verifier\'s reach: %s' % e
    except NoCode as e:
        r.imprecise = 'not found in the code: %s' % e
    except T.TimeUp:
        r.imprecise = 'time limit of %d s' % budget
    except Fork as e:
        r.imprecise = 'unresolved case split'
    except z3.Z3Exception as e:
        r.imprecise = 'solver: %s' % e
    except Exception as e:
        r.imprecise = 'internal: %s: %s' % (type(e).__name__, e)
        r.trace = traceback.format_exc()
    T.DEADLINE[0] = None
    seen = {}
    every = {None: c.ex.obls + c.posts, 'safety': [o for o in c.ex.obls if o.kind == 'safety'], 'frame': []}[mode]
    # a contract that the safety of its callers rests on: if it does not hold, their safety is open
    base = c.ex.obls + c.posts if mode == 'safety' and d.prop == 'C18' else []
    for o in every:
        if o.status is True:
            r.discharged += 1
            seen[(o.kind, o.name)] = seen.get((o.kind, o.name), 0) + 1
        elif o.status is False and T.genuine((o.pc or []) + ([z3.Not(o.goal)] if is_t(o.goal) else [])):
            r.refuted.append('%s [%s] at %s. %s %s' % (o.name, o.kind, o.where, o.why,
                                                        render_model(o.pc or [], o.goal) if len(r.refuted) < 4 else ''))
        else:
            r.unknown.append('%s [%s] at %s %s' % (o.name, o.kind, o.where, o.why[:300]))
    counted = set(map(id, every))
    for o in base:
        if id(o) in counted:
            continue
        if o.status is True:
            r.discharged += 1
            seen[(o.kind, o.name)] = seen.get((o.kind, o.name), 0) + 1
        else:
            r.unknown.append('%s [%s] at %s, which memory safety rests on %s' % (o.name, o.kind, o.where, o.why[:300]))
    shared = sorted(set(c.ex.global_writes), key=str)
    where = {n for n, w in shared if w}
    shared = ['%s %s' % (n, w) for n, w in shared if w or n not in where]
    if mode == 'frame':
        r.discharged = c.ex.stores
        seen[('frame', 'the write is to an argument, to the call\'s own objects or to per-thread scratch memory')] = c.ex.stores
        r.refuted = ['state shared by all calls is written: %s' % x for x in shared][:8]
    elif shared and r.imprecise is None:
        r.imprecise = 'state shared by all calls is written, its value on entry is not known: %s' % shared[0]
    # vacuity: some postcondition must be checked on a path that exists
    if mode is None and r.imprecise is None and not r.refuted and not r.unknown:
        pcs = {}
        for o in c.posts:
            if o.pc is not None:
                pcs.setdefault(tuple(f.get_id() if is_t(f) else f for f in o.pc), o.pc)
        alive = not pcs
        T.DEADLINE[0] = time.time() + 10
        try:
            for pc in sorted(pcs.values(), key=len)[:24]:
                if solve(list(pc), 1500)[0] != 'unsat':
                    alive = True
                    break
        except T.TimeUp:
            alive = True
        T.DEADLINE[0] = None
        if mode is None and (not alive or not c.posts):
            r.imprecise = 'vacuous: no postcondition on a feasible path'
    r.obligations = sorted('%s: %s x%d' % (k, n, q) for (k, n), q in seen.items())
    r.seconds = time.time() - t0
    r.solver = T.STATS.time
    r.queries = T.STATS.queries
    r.backends = dict(T.STATS.by_backend)
    r.ran = sorted(n for n in c.ex.functions_run)
    r.summarised = sorted('%s:%s' % x for x in c.ex.loops_summarised)
    r.bounds = sorted(c.bounds | set(c.ex.bounded))
    r.assumed = sorted(c.assumed | set(getattr(c.ex, 'assumed', ())))
    r.global_writes = shared
    return r
