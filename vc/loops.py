"""Loops of the symbolic executor.

A loop whose exit decisions are all determined is executed iteration by iteration.  Any other loop is summarised: every
component of the state that an iteration changes is given a closed form F(k) in the number k of completed iterations,
and the forms are verified as an inductive invariant: they hold on entry for k = 0, and an arbitrary iteration started in
a state where all of them hold for k ends in a state where all of them hold for k + 1.  The obligations of the loop body
are those of that arbitrary iteration, so they cover every iteration; the exits are those of an arbitrary iteration, with
k determined from the exit condition where possible.
"""
import z3
from .terms import *
from . import terms as T
from .rope import *
from .mem import *


# ----------------------------------------------------------------- substitution of the counter in ropes
class Subst:
    """replaces constants (a list of (const, value) pairs) in terms, ropes and values"""

    def __init__(self, pairs):
        self.pairs = [(a, ex(b)) for a, b in pairs]
        self.cache = {}

    def term(self, t):
        if not is_t(t):
            return t
        if not self.pairs:
            return t
        r = z3.substitute(t, *self.pairs)
        if r.eq(t):
            return t
        if z3.is_bool(r):
            s = simp_bool(r)
            return s
        if z3.is_bv(r):
            return r
        return norm2(r)

    def touches(self, t):
        return is_t(t) and any(mentions(t, a) for a, _ in self.pairs)

    def src(self, s):
        c = self.cache.get(id(s))
        if c is not None:
            return c[1]
        L = self.term(s.length) if s.length is not None else None
        j = mk('subst_j', 0, None)
        e = s.at(j)
        args = tuple(self.value(a) for a in s.args)
        if not self.touches(e) and not self.touches(s.length) and all(a is b for a, b in zip(args, s.args)):
            r = s
        else:
            key = (id(s), tuple((a.get_id(), pin(b)) for a, b in self.pairs))
            r = _srccache.get(key)
            if r is None:
                e2 = self.term(e)

                def fun(i, e2=e2, j=j):
                    return subst(e2, j, i) if is_t(e2) else e2
                r = Source(s.name + "'", L, fun=fun, lo=s.lo, hi=s.hi, tag=s.tag, args=args)
                _srccache[key] = r
                _keep.append(s)
        self.cache[id(s)] = (s, r)
        return r

    def piece(self, p):
        if isinstance(p, Lit):
            its = [self.value(x) for x in p.items]
            if all(a is b for a, b in zip(its, p.items)):
                return p
            return Lit(its)
        if isinstance(p, Slice):
            return Slice(self.src(p.src), self.term(p.off), self.term(p.n))
        if isinstance(p, Rep):
            return Rep(self.term(p.item), self.term(p.n))
        if isinstance(p, Dec):
            return Dec(self.term(p.v))
        if isinstance(p, Big):
            n = self.term(p.n)
            g = p.fam.generic
            touched = any(self.touches(c) or self.rope(r) is not r for c, r in g)
            if not touched:
                return p.with_n(n)
            key = (p.fam.id, tuple((a.get_id(), pin(b)) for a, b in self.pairs))
            fam = _famcache.get(key)
            if fam is None:
                base = p.fam
                me = self

                def alts(j):
                    return [(me.term(c), me.rope(r)) for c, r in base.body(j)]
                fam = Big(0, alts).fam
                _famcache[key] = fam
            return Big(n, fam.alts, fam)
        if isinstance(p, Accum):
            return p
        raise Imprecise('substitution in %r' % (p,))

    def rope(self, r):
        ps = [self.piece(p) for p in r.ps]
        if all(a is b for a, b in zip(ps, r.ps)):
            return r
        return Rope(ps)

    def value(self, v):
        if isinstance(v, (int, bool)):
            return v
        if is_t(v):
            r = self.term(v)
            return v if is_t(r) and r.eq(v) else r
        if isinstance(v, Rope):
            return self.rope(v)
        if isinstance(v, Ptr):
            o = self.value(v.off)
            return v if o is v.off else Ptr(v.rid, o)
        if isinstance(v, FP):
            o = self.value(v.bits)
            return v if o is v.bits else FP(o, v.w)
        if isinstance(v, dict):
            return {o: (s, self.value(x)) for o, (s, x) in v.items()}
        if isinstance(v, StrVal):
            r = self.rope(v.rope)
            return v if r is v.rope else v.with_(rope=r)
        if v is UNDEF or v is STALE or isinstance(v, (FnPtr, VTab, VecVal, str)) or v is None:
            return v
        if isinstance(v, (OStr, IStr)):
            raise Imprecise('stream created per iteration')
        raise Imprecise('substitution in %r' % (v,))


_srccache = {}
_famcache = {}
_keep = []


class Accum:
    """what the earlier iterations appended (placeholder while the form is being found)"""
    _n = [0]

    def __init__(self, k):
        Accum._n[0] += 1
        self.id = Accum._n[0]
        f = mkfun('acclen!%d' % self.id, 0, None)
        self.len = f(ex(k))

    def length(self):
        return self.len

    def __repr__(self):
        return 'Accum#%d' % self.id


# ----------------------------------------------------------------- components
FOCUS = {}      # array region -> index of the one element that the loop being summarised works on


def get_comp(st, key):
    rid, kind = key[0], key[1]
    if kind == 'elem':
        e = st.regions[rid].content.get(FOCUS[rid], st.pc)
        v = e[key[2]][1]
        return getattr(v, key[3]) if key[3] is not None else v
    if kind == 'ghost':
        return st.ghost.get(key[2])
    r = st.regions.get(rid)
    if r is None:
        return None
    if kind == 'cell':
        c = r.cells.get(key[2])
        if c is None:
            return None
        v = c[1]
        if key[3] is not None:
            return getattr(v, key[3]) if isinstance(v, Obj) else None
        return v
    if kind == 'len':
        return r.length
    if kind == 'content':
        return r.content
    raise KeyError(kind)


def set_comp(st, key, val):
    rid, kind = key[0], key[1]
    if kind == 'elem':
        e = dict(st.regions[rid].content.get(FOCUS[rid], st.pc))
        sz, v = e[key[2]]
        e[key[2]] = (sz, v.with_(**{key[3]: val}) if key[3] is not None else val)
        r = st.wr(rid)
        r.content = r.content.push(('set', FOCUS[rid], e))
        return
    if kind == 'ghost':
        st.ghost[key[2]] = val
        return
    r = st.wr(rid)
    if kind == 'cell':
        off, attr = key[2], key[3]
        if attr is not None:
            c = r.cells.get(off)
            if c is None or not isinstance(c[1], Obj):
                raise Imprecise('object component lost')
            r.cells[off] = (c[0], c[1].with_(**{attr: val}))
        elif val is None:
            r.cells.pop(off, None)
        else:
            sz = key[4]
            r.cells[off] = (sz, val)
    elif kind == 'len':
        r.length = val
    elif kind == 'content':
        r.content = val


def same_value(a, b, pc=None):
    if a is b:
        return True
    if scalar(a) and scalar(b):
        c = T.eq(toint_(a), toint_(b))
        if c is True:
            return True
        if c is False or pc is None:
            return False
        return prove(pc, c) is True
    if type(a) is not type(b):
        return False
    if isinstance(a, Ptr):
        if a.rid != b.rid:
            return False
        c = T.eq(a.off, b.off)
        return c is True or (c is not False and pc is not None and prove(pc, c) is True)
    if isinstance(a, FP):
        return a.w == b.w and same_value(a.bits, b.bits, pc)
    if isinstance(a, (FnPtr,)):
        return a == b
    if isinstance(a, VTab):
        return same_value(a.place, b.place, pc)
    if isinstance(a, Rope):
        if a.ps == b.ps:
            return True
        if pc is None:
            try:
                r = prove_rope_eq(a, b, [])
                return r.status is True
            except (Fork, Imprecise):
                return False
        rs = with_forks(lambda p: prove_rope_eq(a, b, p), pc)
        return all(r.status is True for r in rs)
    if isinstance(a, Content):
        if a.base is b.base and len(a.layers) == len(b.layers):
            return all(x is y or same_layer(x, y, pc) for x, y in zip(a.layers, b.layers))
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(a[o][0] == b[o][0] and same_value(a[o][1], b[o][1], pc) for o in a)
    if isinstance(a, Obj):
        for s in a.__slots__:
            x, y = getattr(a, s), getattr(b, s)
            if x is y:
                continue
            if isinstance(x, (str, int)) and isinstance(y, (str, int)) and x == y:
                continue
            if isinstance(x, tuple) and isinstance(y, tuple) and x == y:
                continue
            if not same_value(x, y, pc):
                return False
        return True
    if isinstance(a, Agg):
        return len(a.vals) == len(b.vals) and all(same_value(x, y, pc) for x, y in zip(a.vals, b.vals))
    return False


def same_layer(x, y, pc):
    if x[0] != y[0]:
        return False
    if x[0] == 'set':
        return same_value(x[1], y[1], pc) and same_value(x[2], y[2], pc)
    if x[0] == 'rope':
        return same_value(x[1], y[1], pc) and same_value(x[2], y[2], pc)
    if x[0] == 'aff':
        return x[1] == y[1] and x[2] is y[2] and same_value(x[3], y[3], pc)
    return False


def toint_(v):
    if isinstance(v, bool):
        return int(v)
    if is_t(v) and z3.is_bool(v):
        return ite(v, 1, 0)
    return v


def diff(head, back, pc=None):
    """component keys in which the two states differ"""
    out = []
    for rid, rh in head.regions.items():
        rb = back.regions.get(rid)
        if rb is None or rb is rh:
            continue
        if rh.kind == 'flat':
            for off in set(rh.cells) | set(rb.cells):
                ch, cb = rh.cells.get(off), rb.cells.get(off)
                if ch is not None and cb is not None and ch[1] is cb[1]:
                    continue
                if ch is None or cb is None:
                    out.append((rid, 'cell', off, None, (ch or cb)[0]))
                    continue
                vh, vb = ch[1], cb[1]
                if isinstance(vh, Obj) and type(vh) is type(vb) and vh.comps and (not isinstance(vh, (IStr, OStr)) or True):
                    for attr, _ in vh.comps:
                        if not same_value(getattr(vh, attr), getattr(vb, attr)):
                            out.append((rid, 'cell', off, attr, ch[0]))
                    continue
                if ch[0] == cb[0] and same_value(vh, vb):
                    continue
                out.append((rid, 'cell', off, None, max(ch[0], cb[0])))
        elif rh.kind == 'arr':
            if not same_value(rh.length, rb.length):
                out.append((rid, 'len'))
            if rh.content is not rb.content and not same_value(rh.content, rb.content):
                out += focus_diff(rid, rh.content, rb.content, head, back) or [(rid, 'content')]
    for g in set(head.ghost) | set(back.ghost):
        if g in ('forall', 'inst'):
            continue        # facts, not state
        if head.ghost.get(g) is not back.ghost.get(g) and not same_value(head.ghost.get(g), back.ghost.get(g)):
            out.append((None, 'ghost', g))
    return out


# ----------------------------------------------------------------- forms
class Form:
    pass


class IntForm(Form):
    def __init__(self, fn, what, wrap=None):
        self.fn, self.what, self.wrap = fn, what, wrap

    def value(self, k):
        v = self.fn(k)
        return self.wrap(v) if self.wrap else v

    def check(self, k, got, pc):
        want = self.value(add(k, 1))
        accept = getattr(self.fn, 'accept', None)
        if accept is not None and self.wrap is None and accept(k, got, pc):
            return True
        return same_value(got, want, pc)

    def __repr__(self):
        return 'Int(%s)' % self.what


class RopeForm(Form):
    def __init__(self, r0, big, tails):
        self.r0, self.big = r0, big
        self.tails = tails
        self.tries = 0

    def value(self, k):
        return self.r0 + Rope((self.big.with_n(k),))

    def check(self, k, got, pc):
        # got must be value(k) ++ body(k) on this path
        want = self.value(k).ps
        gp = list(got.ps)
        if len(want) and not isinstance(want[-1], Big):
            want = want       # value(0)
        # strip the common prefix
        i = 0
        while i < len(want) and i < len(gp) and piece_same(want[i], gp[i]):
            i += 1
        if i < len(want):
            return False
        tail = Rope(gp[i:])
        try:
            alts = self.big.body(k)
            for c, r in alts:
                q = quick(c, pc) if c is not True else True
                if q is False:
                    continue
                pc2 = pc if c is True else pc + [c]
                rs = with_forks(lambda p: prove_rope_eq(tail, r, p), pc2)
                if not all(x.status is True for x in rs):
                    return False
        except (Fork, Imprecise):
            return False
        return True

    def __repr__(self):
        return 'Rope(%r ++ %r)' % (self.r0, self.big)


def piece_same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Big):
        return a.fam is b.fam and T.eq(a.n, b.n) is True
    if isinstance(a, Lit):
        return len(a.items) == len(b.items) and all(T.eq(x, y) is True for x, y in zip(a.items, b.items))
    if isinstance(a, Slice):
        return a.src is b.src and T.eq(a.off, b.off) is True and T.eq(a.n, b.n) is True
    if isinstance(a, Dec):
        return T.eq(a.v, b.v) is True
    if isinstance(a, Rep):
        return T.eq(a.n, b.n) is True and T.eq(a.item, b.item) is True
    return False


class ContentForm(Form):
    def __init__(self, c0, a, writes):
        self.c0, self.a, self.writes = c0, a, writes
        self.tries = 0

    def value(self, k):
        if isinstance(k, int) and k == 0:
            return self.c0
        return Content(self.c0.base, self.c0.layers + (('aff', self.a, self.writes, k),))

    def check(self, k, got, pc):
        head = self.value(k)
        n = len(head.layers)
        if len(got.layers) < n or got.base is not head.base:
            return False
        for x, y in zip(head.layers, got.layers):
            if not (x is y or same_layer(x, y, pc)):
                return False
        new = got.layers[n:]
        if len(new) != len(self.writes):
            return False
        left = list(self.writes)
        for l in new:
            if l[0] != 'set':
                return False
            for w in left:
                b, fn = w
                if prove(pc, T.eq(l[1], add(b, mul(self.a, k)))) is True and same_value(l[2], fn(k), pc):
                    left.remove(w)
                    break
            else:
                return False
        return not left

    def __repr__(self):
        return 'Content(%d*k + %s)' % (self.a, [b for b, _ in self.writes])


class StaleForm(Form):
    what = 'stale'

    def value(self, k):
        return 0 if isinstance(k, int) else STALE

    def check(self, k, got, pc):
        return True


class ConstForm(Form):
    """the same after every iteration but the first state (k >= 1: v1)"""

    def __init__(self, v0, v1):
        self.v0, self.v1 = v0, v1

    def value(self, k):
        if isinstance(k, int) and k == 0:
            return self.v0
        return ite(T.eq(k, 0), self.v0, self.v1)

    def check(self, k, got, pc):
        return same_value(got, self.v1, pc)


class HavocContent(Form):
    def __init__(self, c0):
        self.c0 = c0
        self.name = fresh_name('hvcontent')

    def value(self, k):
        return Content(self.c0.base, self.c0.layers + (('hv', self.name, k),))

    def check(self, k, got, pc):
        return True


# ----------------------------------------------------------------- driver
class _NotStable(Exception):
    pass


def without_focus(c, idx):
    ls = c.layers
    while ls and ls[-1][0] == 'set' and T.eq(ls[-1][1], idx) is True:
        ls = ls[:-1]
    return Content(c.base, ls)


def focus_diff(rid, a, b, head, back):
    idx = FOCUS.get(rid)
    if idx is None or not same_value(without_focus(a, idx), without_focus(b, idx)):
        return None
    x, y = a.get(idx, head.pc), b.get(idx, back.pc)
    if not isinstance(x, dict) or not isinstance(y, dict) or x.keys() != y.keys():
        return None
    out = []
    for off in x:
        vx, vy = x[off][1], y[off][1]
        if isinstance(vx, Obj) and type(vx) is type(vy) and vx.comps:
            out += [(rid, 'elem', off, at, x[off][0]) for at, _ in vx.comps if not same_value(getattr(vx, at), getattr(vy, at))]
        elif not same_value(vx, vy):
            out.append((rid, 'elem', off, None, x[off][0]))
    return out


def run_body(self, st, header, depth, body):
    """one iteration from st (at the loop header); returns terminal states"""
    from .execu import LoopCtx
    ctx = LoopCtx(depth, header, body)
    st.status = None
    self.loop_depth += 1
    try:
        return self.run([st], depth, ctx)
    finally:
        self.loop_depth -= 1


def attempted(self, f, *a):
    """what was stated for iterations of an attempt that was given up does not count"""
    mark = len(self.obls)
    try:
        return f(self, *a)
    except Exception:
        del self.obls[mark:]
        raise


def do_loop(self, st, header, octx):
    depth = len(st.frames)
    outer_base = self.bases[-1]
    fn = st.frames[-1].fn
    body = fn.loops[header]
    name = (fn.name, header)
    mark = len(self.obls)
    gmark = len(self.global_writes)
    res = None
    must_sum = name in self.summary_only
    inv = self.finite.get(fn.dname) or (self.finite_any if self.finite_any is not None and own_code(fn) else None)
    if inv is not None and inv.unroll_first and not must_sum:
        res = unroll_loop(self, st, header, depth, body)
        if res is not None:
            inv = None
        else:
            del self.obls[mark:]
            del self.global_writes[gmark:]
    if inv is not None:
        res = attempted(self, finite_loop, st, header, depth, body, inv)
    elif res is None and not must_sum:
        res = unroll_loop(self, st, header, depth, body)
    if inv is not None:
        self.loops_summarised.add(name)
    elif res is None:
        del self.obls[mark:]
        del self.global_writes[gmark:]
        focus = {}
        try:
            res = attempted(self, summarise_loop, st, header, depth, body, focus)
        except Imprecise:
            if not focus:
                raise
            # the same element in every iteration
            del self.obls[mark:]
            del self.global_writes[gmark:]
            for rid in focus:
                FOCUS[rid] = focus[rid]
            try:
                res = attempted(self, summarise_loop, st, header, depth, body, {})
            finally:
                for rid in focus:
                    FOCUS.pop(rid, None)
        self.loops_summarised.add(name)
    else:
        self.loops_unrolled.add(name)
    out = []
    for s in res:
        if s.status == 'exit':
            out.append(('exit', s))
        elif len(s.frames) < outer_base:
            out.append(('done', s))
        elif s.status == 'ret':
            s.status = None
            ins = s.retcall
            caller = s.frames[-1]
            if ins.dst is not None:
                caller.locals[ins.dst] = s.retval
            if ins.op == 'invoke':
                g = self.goto(s, ins.x['normal'], octx)
                out.extend(('done', x) for x in (g if g is not None else [s]))
            else:
                caller.idx += 1
                out.append(('done', s))
        elif s.status == 'exc':
            s.status = None
            out.extend(('done', x) for x in self.throw(s, s.exc, outer_base, octx))
        else:
            raise Imprecise('loop state %s' % s.status)
    return out


def own_code(fn):
    return 'npy::' in fn.dname.split('(')[0] or fn.dname.startswith(('(anonymous namespace)', 'void (anonymous namespace)'))


class Invariant:
    """how a loop is checked one arbitrary iteration at a time: everything an iteration may change is arbitrary at the head
    but for what holds(st) says (checked on entry and after every iteration) and the local flags, of which every reachable
    combination is taken.  back(head, st) may state what an iteration does."""

    unroll_first = False    # loops whose iterations can be counted are unrolled instead

    def holds(self, st):
        return True

    def since(self, st0, st):
        """the same in relation to the state in which the loop was entered"""
        return True

    def forms(self, st0, key, kind):
        """what a component may be at the head: functions of the state there, the strongest first; the last resort is an
        arbitrary value"""
        return []

    def is_flag(self, key, region, value):
        return key[1] == 'cell' and region.name.startswith('local') and key[4] == 1

    def ghost_flag(self, name):
        return False

    def entry(self, st):
        pass

    def back(self, head, st):
        pass

    def exit(self, st):
        pass


def finite_loop(self, st0, header, depth, body, inv):
    havoc, flags = {}, []
    mark = len(self.obls)
    gmark = len(self.global_writes)

    def holds(st, where):
        p = prove(st.pc, band(inv.holds(st), inv.since(st0, st)))
        if p is not True:
            raise Imprecise('the invariant does not hold %s' % where)

    def head_of(vals):
        h = st0.clone()
        for key, v in zip(flags, vals):
            set_comp(h, key, v)
        late = lambda x: bool(x[1][1]) and getattr(x[1][1][0], 'late', False)      # needs the others
        for key, (kind, forms) in sorted(havoc.items(), key=lambda x: (x[0][1] != 'ghost', late(x))):
            set_comp(h, key, forms[0](h) if forms else arbitrary(h, key, kind))
        for x in (inv.holds(h), inv.since(st0, h)):
            if x is not True:
                h.assume(x)
        return h
    self.in_finite += 1
    try:
        for attempt in range(60):
            holds(st0, 'on entry')
            del self.obls[mark:]
            del self.global_writes[gmark:]
            work = [tuple(get_comp(st0, key) for key in flags)]
            seen = [work[0]]
            out = []
            grown = False
            pending = []
            while work and not grown:
                head = head_of(work.pop())
                for b in run_body(self, head.clone(), header, depth, body):
                    if b.status != 'back':
                        out.append(b)
                        continue
                    for key in diff(head, b):
                        if key in havoc or key in flags:
                            continue
                        grown = True
                        v = get_comp(b, key)
                        h = get_comp(head, key)
                        if key[1] == 'ghost' and inv.ghost_flag(key[2]):
                            flags.append(key)
                        elif key[1] == 'cell' and h is not None and inv.is_flag(key, head.regions[key[0]], v):
                            flags.append(key)
                        else:
                            havoc[key] = ((h, v), list(inv.forms(st0, key, (h, v))))
                    if grown:
                        break
                    for key, (kind, forms) in havoc.items():
                        if forms and key[1] != 'ghost' and not getattr(forms[0], 'any', False) and not same_value(get_comp(b, key), forms[0](b), b.pc):
                            forms.pop(0)
                            grown = True
                    if grown:
                        break
                    holds(b, 'after an iteration')
                    vals = []
                    for key in flags:
                        v = get_comp(b, key)
                        if is_t(v):
                            raise Imprecise('a flag is not determined')
                        vals.append(v)
                    vals = tuple(vals)
                    if vals not in seen:
                        if len(seen) > 64:
                            raise Imprecise('too many combinations of flags')
                        seen.append(vals)
                        work.append(vals)
                    pending.append((head, b))
            if not grown:
                e = st0.clone()
                e.status = None
                inv.entry(e)
                for h, b in pending:
                    b2 = b.clone()
                    b2.status = None
                    inv.back(h, b2)
                if not out:
                    raise Imprecise('a loop without exit')
                for b in out:
                    if b.status == 'exit':
                        inv.exit(b)
                return out
        raise Imprecise('no stable set of changed components')
    finally:
        self.in_finite -= 1


def arbitrary(st, key, kind):
    h, v = kind
    if key[1] == 'ghost':
        return ()
    if h is None:
        if st.regions[key[0]].name.startswith('local'):
            return None             # a variable of one iteration
        h = v                       # set by some iteration
    if h is UNDEF or h is STALE:
        return STALE
    if isinstance(h, bool) or (is_t(h) and z3.is_bool(h)):
        return fresh_bool('any')
    if key[1] == 'len':
        return fresh('any.len', 0, 1 << 60)
    if key[1] == 'content':
        r = st.regions[key[0]]
        return Content(Source(fresh_name('any'), None, hi=(1 << (8 * r.es)) - 1).at)
    if key[3] in ('vpos', 'gcount'):
        return fresh('any.pos', 0, 1 << 63)
    if is_intlike(h):
        return fresh('any', 0, (1 << (8 * key[4])) - 1)
    if isinstance(h, VecVal):
        rid = st.alloc_arr(h.es, fresh('any.len', 0, 1 << 60),
                           Content(Source(fresh_name('any'), None, hi=(1 << (8 * h.es)) - 1).at), 'arr', ety=st.regions[h.rid].ety)
        return VecVal(rid, h.es)
    if isinstance(h, Rope):
        return Source(fresh_name('any'), fresh('any.len', 0, 1 << 60)).whole()
    return STALE


def conjuncts(c):
    if is_t(c) and z3.is_and(c):
        for x in c.children():
            yield from conjuncts(x)
    elif is_t(c) and z3.is_not(c) and z3.is_or(c.arg(0)):
        for x in c.arg(0).children():
            yield from conjuncts(bnot(x))
    else:
        yield c


def exit_candidates(e, k, base, mark):
    """values of k at which one of the exit's conditions changes"""
    cands = []
    for c in e.pc[base:]:
        for x in conjuncts(c):
            if not is_t(x):
                continue
            if z3.is_not(x):
                x = x.arg(0)
            if x.num_args() != 2 or not z3.is_int(x.arg(0)):
                continue
            dd = sub(x.arg(0), x.arg(1))
            d, _ = lin(dd)
            q = d.get(k.get_id(), (0, None))[0]
            if not q:
                continue
            rest = sub(mul(q, k), dd)
            if q < 0:
                rest, q = mul(-1, rest), -q
            v = divc(rest, q) if q != 1 else rest
            for cand in (v, add(v, 1), 0):
                if is_t(cand) and (mentions(cand, k) or _new_consts(cand, mark)):
                    continue
                if all(T.eq(cand, y) is not True for y in cands):
                    cands.append(cand)
    return cands


def solve_exit(e, k, base, mark):
    """the number of completed iterations at this exit, if the path determines it; else the two it can be"""
    cs = exit_candidates(e, k, base, mark)
    for cand in cs:
        if prove(e.pc, T.eq(k, cand)) is True:
            return [cand]
    if len(cs) > 1 and any(c == 0 for c in cs if isinstance(c, int)):
        for cand in cs:
            if is_t(cand) and prove(e.pc, bor(T.eq(k, cand), T.eq(k, 0))) is True:
                return [0, cand]
    return None


def assume_facts(st, K, facts, inst):
    """every iteration before K went on: the facts at K - 1 and at the given points"""
    st.assume(implies(ge(K, 1), facts(sub(K, 1))))
    for j in inst:
        st.assume(implies(band(ge(j, 0), lt(j, K)), facts(j)))


def unroll_loop(self, st, header, depth, body):
    """-> terminal states, or None if the loop has to be summarised"""
    frontier = [st]
    done = []
    forks = 0
    it = 0
    bound = self.loop_bound
    while frontier:
        it += 1
        if it > self.unroll_limit:
            return None
        new = []
        ndone = len(done)
        f0 = forks
        for s in frontier:
            r = run_body(self, s.clone(), header, depth, body)
            backs = [x for x in r if x.status == 'back']
            others = [x for x in r if x.status != 'back']
            if backs and others:
                forks += 1
                if bound is None and forks > self.fork_budget:
                    return None
            for x in backs:
                x.status = None
                x.frames[-1].prev, x.frames[-1].block, x.frames[-1].idx = x.frames[-1].prev, header, 0
                new.append(x)
            done.extend(others)
        if new and len(done) > ndone and forks == f0 and bound is None:
            forks += 1
            if forks > self.fork_budget:
                return None
        if bound is not None and it > bound and forks:
            # bounded mode: longer runs of this loop are not explored
            if new:
                self.bounded.append('%s: loops cut after %d iterations' % (st.frames[-1].fn.dname, bound))
            return done
        if len(new) > self.max_frontier:
            if bound is None:
                return None
            raise Imprecise('too many paths in a loop')
        frontier = new
    return done


def summarise_loop(self, st0, header, depth, body, focus):
    if self.loop_bound is not None:
        raise Imprecise('summary in bounded mode')
    k = fresh('k', 0, None)
    forms = {}
    queues = {}
    facts = None
    inst = []
    facts_repr = None
    updates = 0
    base_obls = len(self.obls)
    base_gw = len(self.global_writes)
    retried = set()
    for rnd in range(24):
        del self.obls[base_obls:]
        del self.global_writes[base_gw:]
        mark_const = T._fresh[0]
        head = st0.clone()
        for key, f in forms.items():
            set_comp(head, key, f.value(k))
        if facts is not None:
            assume_facts(head, k, facts, inst)
        base = len(head.pc)
        if self.debug_loops:
            print('  round', rnd, {kk: repr(f)[:300] for kk, f in forms.items()}, 'facts', facts and facts(k), 'inst', inst)
        res = run_body(self, head.clone(), header, depth, body)
        backs = [s for s in res if s.status == 'back']
        others = [s for s in res if s.status != 'back']
        if not others and not backs:
            raise Imprecise('a loop without exit')
        if not backs:
            if not forms:
                return others       # never iterates
            # the forms so far exclude iteration: only the entry case remains
        stable = True
        keys = []
        for b in backs:
            for key in diff(head, b):
                if key not in keys:
                    keys.append(key)
        for key in keys:
            if key not in forms:
                if rnd == 0 and key[1] == 'content':
                    note_focus(focus, key, head, backs)
                forms[key] = guess(self, st0, head, backs, key, k, base, mark_const, queues)
                stable = False
        if stable:
            for key, f in list(forms.items()):
                for b in backs:
                    got = get_comp(b, key)
                    if not f.check(k, got, b.pc):
                        nxt = refine(self, st0, head, backs, key, k, base, mark_const, queues, f)
                        if self.debug_loops:
                            print('  demote', key, f, '->', nxt, 'got', got)
                        forms[key] = nxt
                        stable = False
                        break
        # continuing condition
        nf = continue_fact(backs, base, k, mark_const)
        fr = repr(nf(k))
        if facts is None or not stable or (fr != facts_repr and updates < 3):
            if stable:
                updates += 1
            if facts is None or fr != facts_repr:
                stable = False
            facts = nf
            facts_repr = fr
        else:
            fk = facts(k)
            for b in backs:
                if prove(b.pc, fk) is not True:
                    facts = nf
                    facts_repr = fr
                    stable = False
                    break
        for e in others:
            for x in exit_candidates(e, k, base, mark_const):
                if is_t(x) and all(T.eq(x, y) is not True for y in inst) and len(inst) < 6:
                    inst.append(x)
                    stable = False
        if stable:
            # everything else has a form: now the accumulated sequences and the written elements
            for key, f in list(forms.items()):
                if isinstance(f, AccumForm):
                    forms[key] = rope_guess(self, f.r0, head, backs, key, k, base, mark_const)
                    forms[key].tries = f.tries
                    stable = False
                    # counters given up because they depend on the length of this sequence
                    for k2, f2 in list(forms.items()):
                        if type(f2) is StaleForm and k2 not in retried and is_intlike(get_comp(st0, k2)):
                            retried.add(k2)
                            forms.pop(k2)
                            queues.pop(k2, None)
                elif isinstance(f, PendingContent):
                    refine_pending(f)
                    g = content_guess(self, f.c0, head, backs, key, k, base, mark_const, f)
                    g.tries = f.tries
                    forms[key] = g
                    stable = False
        if stable:
            if not others:
                raise Imprecise('a loop without exit')
            break
    else:
        raise Imprecise('no loop invariant found')
    st0_facts = facts
    # exits
    out = []
    done_K = []
    for e in others:
        e.ghost = dict(e.ghost)
        Ks = solve_exit(e, k, base, mark_const)
        if Ks is None:
            add_all_facts(e, k, st0_facts)
            out.append(e)
            continue
        for K in Ks:
            if any(T.eq(K, x) is True for x in done_K):
                continue
            done_K.append(K)
            h2 = st0.clone()
            h2.assume(ge(K, 0))
            for key, f in forms.items():
                set_comp(h2, key, f.value(K))
            assume_facts(h2, K, st0_facts, inst)
            add_all_facts(h2, K, st0_facts)
            if not feasible(h2.pc):
                continue
            m = len(self.obls)
            res2 = run_body(self, h2, header, depth, body)
            del self.obls[m:]       # instances of the arbitrary iteration
            for s in res2:
                if s.status != 'back':
                    out.append(s)
    return out


def note_focus(focus, key, head, backs):
    n = len(head.regions[key[0]].content.layers)
    idx = None
    for b in backs:
        ls = b.regions[key[0]].content.layers
        new = ls[n:] if len(ls) > n else ls[n - 1:]
        if len(new) != 1 or new[0][0] != 'set' or not isinstance(new[0][2], dict):
            return
        if idx is not None and T.eq(idx, new[0][1]) is not True:
            return
        idx = new[0][1]
    if idx is not None and key[0] not in FOCUS:
        focus[key[0]] = idx


def add_all_facts(st, K, facts):
    st.ghost['forall'] = tuple(st.ghost.get('forall', ())) + ((K, facts),)


def _new_consts(t, mark):
    """constants of t created after mark"""
    out = []
    for x in atoms(t).values() if is_t(t) else ():
        n = x.decl().name()
        if x.num_args() == 0 and '!' in n:
            try:
                i = int(n.rsplit('!', 1)[1])
            except ValueError:
                continue
            if i > mark and not n.startswith('bigk!') and not n.startswith('acclen'):
                out.append(x)
    return out


_ufize = {}


def ufize(x, k):
    """a constant chosen in iteration k, as a function of k"""
    n = x.decl().name()
    if z3.is_bool(x):
        f = z3.Function(n + '@', z3.IntSort(), z3.BoolSort())
    else:
        lo, hi = VARB.get(n, (None, None))
        f = mkfun(n + '@', lo, hi)
    return f(ex(k))


def lift(v, k, mark, consts):
    """substitution k -> j for a value computed in iteration k: returns fn(j)"""
    def fn(j):
        pairs = [(x, ufize(x, j)) for x in consts]
        if not (is_t(j) and j.eq(k)) or pairs:
            pairs = [(k, j)] + pairs
        return Subst(pairs).value(v)
    return fn


def consts_of_value(v, mark, acc):
    if is_t(v):
        for x in _new_consts(v, mark):
            if all(not x.eq(y) for y in acc):
                acc.append(x)
    elif isinstance(v, Rope):
        for p in v.ps:
            if isinstance(p, Lit):
                for i in p.items:
                    consts_of_value(i, mark, acc)
            elif isinstance(p, Slice):
                consts_of_value(p.off, mark, acc)
                consts_of_value(p.n, mark, acc)
                consts_of_value(p.src.at(mk('subst_j', 0, None)), mark, acc)
                for a in p.src.args:
                    consts_of_value(a, mark, acc)
            elif isinstance(p, Rep):
                consts_of_value(p.item, mark, acc)
                consts_of_value(p.n, mark, acc)
            elif isinstance(p, Dec):
                consts_of_value(p.v, mark, acc)
            elif isinstance(p, Big):
                consts_of_value(p.n, mark, acc)
                for c, r in p.fam.generic:
                    consts_of_value(c, mark, acc)
                    consts_of_value(r, mark, acc)
    elif isinstance(v, dict):
        for _, x in v.values():
            consts_of_value(x, mark, acc)
    elif isinstance(v, StrVal):
        consts_of_value(v.rope, mark, acc)
    elif isinstance(v, (Ptr,)):
        consts_of_value(v.off, mark, acc)
    elif isinstance(v, FP):
        consts_of_value(v.bits, mark, acc)


def continue_fact(backs, base, k, mark):
    conds = []
    consts = []
    for b in backs:
        c = band(*b.pc[base:])
        conds.append(c)
        consts_of_value(c, mark, consts)
    c = bor(*conds) if conds else False
    if isinstance(c, bool):
        return lambda j: c
    consts = [x for x in consts if not x.eq(k)]
    return lift(c, k, mark, consts)


def is_intlike(v):
    return isinstance(v, int) or (is_t(v) and z3.is_int(v))


def guess(self, st0, head, backs, key, k, base, mark, queues):
    v0 = get_comp(st0, key)
    vals = [get_comp(b, key) for b in backs]
    if key[1] == 'cell' and key[3] is None and v0 is None:
        return DeadForm()
    if v0 is UNDEF or v0 is STALE:
        return StaleForm()
    if isinstance(v0, (bool,)) or (is_t(v0) and z3.is_bool(v0)):
        q = queues.setdefault(key, bool_candidates(self, head, key, v0))
        return q.pop(0)
    if is_intlike(v0) and all(is_intlike(v) for v in vals):
        q = queues.setdefault(key, int_candidates(self, st0, head, key, v0, vals, k, mark))
        return q.pop(0)
    if isinstance(v0, Ptr) and all(isinstance(v, Ptr) and v.rid == v0.rid for v in vals):
        wrap = lambda o, rid=v0.rid: Ptr(rid, o)
        q = queues.setdefault(key, int_candidates(self, st0, head, key, v0.off, [v.off for v in vals], k, mark, wrap))
        return q.pop(0)
    if isinstance(v0, Rope):
        return AccumForm(v0, k)
    if isinstance(v0, Content):
        return PendingContent(v0)
    if isinstance(v0, FP) and all(isinstance(v, FP) for v in vals):
        return StaleForm()
    if isinstance(v0, Ptr):
        return StaleForm()
    if isinstance(v0, Obj) or any(isinstance(v, Obj) for v in vals):
        return DeadForm()
    return StaleForm()


class DeadForm(Form):
    """a variable local to one iteration"""
    what = 'dead'

    def value(self, k):
        return None

    def check(self, k, got, pc):
        return True


def bool_candidates(self, head, key, v0):
    """set in the iteration that takes the last element of a sequence"""
    q = []
    if key[1] == 'cell' and v0 is False:
        for r in head.regions.values():
            if r.kind != 'flat':
                continue
            for c in r.cells.values():
                if isinstance(c[1], IStr) and isinstance(c[1].rope, Rope):
                    for p in c[1].rope.ps:
                        if isinstance(p, Big):
                            q.append(IntForm(lambda j, n=p.n: ge(j, n), 'k >= %s' % (p.n,)))
    q.append(BoolForm(v0))
    return q


class BoolForm(Form):
    def __init__(self, v0):
        self.v0 = v0

    def value(self, k):
        raise Imprecise('boolean state changed by a loop')

    def check(self, k, got, pc):
        return False


def int_candidates(self, st0, head, key, v0, vals, k, mark, wrap=None):
    q = []
    hv = get_comp(head, key)
    if isinstance(hv, Ptr):
        hv = hv.off
    deltas = [sub(v, hv) for v in vals]
    d0 = deltas[0]
    if all(T.eq(d, d0) is True for d in deltas) and not (is_t(d0) and (mentions(d0, k) or _new_consts(d0, mark))):
        q.append(IntForm(lambda j: add(v0, mul(d0, j)), '%s + %s*k' % (v0, d0), wrap))
    # deltas modulo 2^64 (pointers and sizes counting down)
    for w in (64, 32):
        if isinstance(d0, int) and d0 >= (1 << (w - 1)) and all(T.eq(d, d0) is True for d in deltas):
            dd = d0 - (1 << w)
            q.insert(0, IntForm(lambda j, dd=dd: add(v0, mul(dd, j)), '%s - %s*k' % (v0, -dd), wrap))
    # the same hidden by a reduction modulo 2^w
    if is_t(vals[0]) and vals[0].decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(vals[0].arg(1)):
        w = vals[0].arg(1).as_long()
        d = sub(norm(vals[0].arg(0)), hv)
        if isinstance(d, int) and w in (1 << 64, 1 << 32):
            d = (d + (w >> 1)) % w - (w >> 1)
            q.insert(0, IntForm(lambda j, d=d: add(v0, mul(d, j)), '%s + %s*k' % (v0, d), wrap))
    if key[1] == 'cell' and key[3] == 'vpos':
        s = get_comp(head, key[:3] + ('rope',) + key[4:])
        if isinstance(s, Rope):
            for p in s.ps:
                if isinstance(p, Big) and p.fam.fixed is None:
                    fam = p.fam
                    q.append(IntForm(lambda j, fam=fam: add(v0, fam.psum(j)), '%s + psum' % v0, wrap))
    gs = []
    for g in self.ghosts:
        at = getattr(g, 'at_entry', None)
        gs += at(self, st0, key) if at is not None else [g]
    for g in gs:
        try:
            g0 = g(0)
        except Exception:
            continue
        if prove(st0.pc, T.eq(g0, v0)) is True:
            q.append(IntForm(g, 'ghost', wrap))
        elif getattr(g, 'shift', False):
            q.append(IntForm(lambda j, g=g, g0=g0: add(sub(g(j), g0), v0), 'ghost', wrap))
    # the same after every iteration
    if len(vals) and all(T.eq(v, vals[0]) is True for v in vals) and \
            not (is_t(vals[0]) and (mentions(vals[0], k) or _new_consts(vals[0], mark))) and wrap is None:
        q.append(ConstForm(v0, vals[0]))
    q.append(StaleForm())
    return q


def refine(self, st0, head, backs, key, k, base, mark, queues, f):
    if isinstance(f, (StaleForm, DeadForm)):
        return f
    if key in queues and queues[key]:
        # try again with fresh deltas first
        v0 = get_comp(st0, key)
        return queues[key].pop(0)
    if isinstance(f, RopeForm):
        g = AccumForm(f.r0, k)
        g.tries = f.tries + 1
        if g.tries > 3:
            raise Imprecise('no form for an accumulated sequence')
        return g
    if isinstance(f, ContentForm):
        g = PendingContent(f.c0)
        g.tries = f.tries + 1
        refine_pending(g)
        return g
    return StaleForm()


def split_tail(r0, hv, got, f=None):
    """got = hv ++ tail"""
    hp, gp = list(hv.ps), list(got.ps)
    i = 0
    while i < len(hp) and i < len(gp) and piece_same(hp[i], gp[i]):
        i += 1
    if i == len(hp):
        return Rope(gp[i:])
    if i == len(hp) - 1 and i < len(gp):
        a, b = hp[i], gp[i]
        if isinstance(a, Lit) and isinstance(b, Lit) and b.items[:len(a.items)] == a.items:
            return Rope([Lit(b.items[len(a.items):])] + gp[i + 1:])
        if isinstance(a, Rep) and isinstance(b, Rep) and T.eq(a.item, b.item) is True:
            return Rope([Rep(b.item, sub(b.n, a.n))] + gp[i + 1:])
    return None


class AccumForm(Form):
    """first guess for a sequence that grows: opaque"""

    def __init__(self, r0, k):
        self.r0 = r0
        self.acc = Accum(k)
        self.tries = 0

    def value(self, k):
        return Rope(self.r0.ps + (self.acc,))

    def check(self, k, got, pc):
        return True


def rope_guess(self, v0, head, backs, key, k, base, mark):
    hv = get_comp(head, key)
    alts = []
    consts = []
    for b in backs:
        t = split_tail(v0, hv, get_comp(b, key))
        if t is None:
            raise Imprecise('a sequence is rewritten in a loop')
        c = band(*b.pc[base:])
        alts.append([c, t])
        consts_of_value(c, mark, consts)
        consts_of_value(t, mark, consts)
    merged = []
    for c, t in alts:
        for m in merged:
            if repr(m[1]) == repr(t):
                m[0] = bor(m[0], c)
                break
        else:
            merged.append([c, t])
    if len(merged) == 1:
        merged[0][0] = True
    consts = [x for x in consts if not x.eq(k)]

    def fam(j):
        pairs = [(x, ufize(x, j)) for x in consts]
        if not (is_t(j) and j.eq(k)):
            pairs = [(k, j)] + pairs
        s = Subst(pairs)
        return [(s.term(c), s.rope(t)) for c, t in merged]
    return RopeForm(v0, Big(0, fam), merged)


def content_guess(self, c0, head, backs, key, k, base, mark, old=None):
    hv = get_comp(head, key)
    n = len(hv.layers)
    news = []
    for b in backs:
        got = get_comp(b, key)
        if got.base is not hv.base or len(got.layers) < n:
            # an overwrite of the last layer
            if got.base is hv.base and len(got.layers) == n:
                pass
            raise Imprecise('array rewritten in a loop')
        for x, y in zip(hv.layers, got.layers):
            if not (x is y or same_layer(x, y, None)):
                raise Imprecise('array rewritten in a loop')
        new = got.layers[n:]
        if any(l[0] != 'set' for l in new):
            raise Imprecise('block write in a loop')
        news.append((band(*b.pc[base:]), new))
    if not all(len(x[1]) == len(news[0][1]) for x in news):
        raise Imprecise('conditional element write in a loop')
    m = len(news[0][1])
    writes = []
    aset = set()
    for i in range(m):
        idx = news[0][1][i][1]
        if not all(same_value(x[1][i][1], idx, list(head.pc)) for x in news):
            raise Imprecise('conditional element position in a loop')
        d, c = lin(idx)
        a = d.get(k.get_id(), (0, None))[0]
        if a == 0 and old is None and not any(True for _ in ()):
            # position not yet expressed with k: the index variable has no form yet
            return PendingContent(c0)
        b0 = sub(idx, mul(a, k))
        if a == 0 or (is_t(b0) and (mentions(b0, k) or _new_consts(b0, mark))):
            return PendingContent(c0)
        aset.add(a)
        val = news[0][1][i][2]
        if not all(same_value(x[1][i][2], val) for x in news):
            # a conditional value
            v = None
            for cnd, new in reversed(news):
                if not scalar(new[i][2]):
                    raise Imprecise('conditional element value')
                v = new[i][2] if v is None else ite(cnd, new[i][2], v)
            val = v
        if val is UNDEF or val is STALE:
            return PendingContent(c0)
        consts = []
        consts_of_value(val, mark, consts)
        consts = [x for x in consts if not x.eq(k)]
        writes.append((b0, lift(val, k, mark, consts)))
    if len(aset) != 1:
        raise Imprecise('mixed strides')
    return ContentForm(c0, aset.pop(), tuple(writes))


class PendingContent(Form):
    """elements were written, positions not known yet"""

    def __init__(self, c0):
        self.c0 = c0
        self.tries = 0

    def value(self, k):
        if isinstance(k, int) and k == 0:
            return self.c0
        return Content(self.c0.base, self.c0.layers + (('hv', 'pending', k),))

    def check(self, k, got, pc):
        return True


def refine_pending(f):
    f.tries += 1
    if f.tries > 4:
        raise Imprecise('no form for the elements written in a loop')
