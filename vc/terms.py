"""Integer terms: python ints or z3 Int expressions, kept in linear normal form.

Machine integers of width w are represented by their unsigned value in
[0, 2^w).  Wrap-around is explicit: an operation whose mathematical result is
not provably in range is reduced modulo 2^w.
"""
import time
import z3

z3.set_param('smt.random_seed', 1)

VARB = {}       # constant name -> (lo, hi)
FUNB = {}       # function name -> (lo, hi)
FUNAX = {}      # function name -> callable(args) -> list of z3 Bool (sound axiom instances)
PINNED = {}     # keep asts alive (ids are cache keys)


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.by_backend = {}


STATS = Stats()


def is_t(x):
    return isinstance(x, z3.ExprRef)


def mk(name, lo=None, hi=None):
    VARB[name] = (lo, hi)
    return z3.Int(name)


_fresh = [0]


def fresh(prefix, lo=None, hi=None):
    _fresh[0] += 1
    return mk('%s!%d' % (prefix, _fresh[0]), lo, hi)


def fresh_bool(prefix):
    _fresh[0] += 1
    return z3.Bool('%s!%d' % (prefix, _fresh[0]))


def fresh_name(prefix):
    _fresh[0] += 1
    return '%s!%d' % (prefix, _fresh[0])


def mkfun(name, lo=None, hi=None, arity=1, ax=None):
    FUNB[name] = (lo, hi)
    if ax is not None:
        FUNAX[name] = ax
    return z3.Function(name, *([z3.IntSort()] * (arity + 1)))


def ex(x):
    """to z3"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def pin(t):
    i = t.get_id()
    if i not in PINNED:
        PINNED[i] = t
    return i


# ---------------------------------------------------------------- linear form
_lin_cache = {}


def lin(t):
    """-> (dict id->(coef, atom), const)"""
    if isinstance(t, bool):
        return {}, int(t)
    if isinstance(t, int):
        return {}, t
    i = pin(t)
    r = _lin_cache.get(i)
    if r is None:
        r = _lin_cache[i] = _lin(t)
    return r


def _lin(t):
    k = t.decl().kind()
    if z3.is_int_value(t):
        return {}, t.as_long()
    if k == z3.Z3_OP_ADD:
        d, c = {}, 0
        for a in t.children():
            da, ca = lin(a)
            c += ca
            for i, (q, at) in da.items():
                n = d.get(i, (0, at))[0] + q
                if n:
                    d[i] = (n, at)
                else:
                    d.pop(i, None)
        return d, c
    if k == z3.Z3_OP_SUB:
        ch = t.children()
        d, c = lin(ch[0])
        d = dict(d)
        for a in ch[1:]:
            da, ca = lin(a)
            c -= ca
            for i, (q, at) in da.items():
                n = d.get(i, (0, at))[0] - q
                if n:
                    d[i] = (n, at)
                else:
                    d.pop(i, None)
        return d, c
    if k == z3.Z3_OP_UMINUS:
        d, c = lin(t.arg(0))
        return {i: (-q, at) for i, (q, at) in d.items()}, -c
    if k == z3.Z3_OP_MUL:
        ch = t.children()
        const = 1
        rest = []
        for a in ch:
            d, c = lin(a)
            if not d:
                const *= c
            else:
                rest.append((a, d, c))
        if not rest:
            return {}, const
        if len(rest) == 1:
            _, d, c = rest[0]
            if const == 0:
                return {}, 0
            return {i: (q * const, at) for i, (q, at) in d.items()}, c * const
        if const == 0:
            return {}, 0
        # distribute products of sums when small
        acc = ({(): 1})
        for _, d, c in rest:
            new = {}
            for mono, q in acc.items():
                for i, (qq, at) in d.items():
                    m2 = tuple(sorted(mono + (i,)))
                    new[m2] = new.get(m2, 0) + q * qq
                if c:
                    new[mono] = new.get(mono, 0) + q * c
            acc = new
            if len(acc) > 24:
                acc = None
                break
        if acc is None:
            atom = z3.simplify(t)
            if atom.decl().kind() in (z3.Z3_OP_ADD,) or z3.is_int_value(atom):
                return _lin(atom)
            return {pin(atom): (1, atom)}, 0
        d, c = {}, 0
        for mono, q in acc.items():
            q *= const
            if q == 0:
                continue
            if mono == ():
                c += q
            elif len(mono) == 1:
                i = mono[0]
                n = d.get(i, (0, PINNED[i]))[0] + q
                if n:
                    d[i] = (n, PINNED[i])
                else:
                    d.pop(i, None)
            else:
                at = PINNED[mono[0]]
                for m in mono[1:]:
                    at = at * PINNED[m]
                i = pin(at)
                d[i] = (d.get(i, (0, at))[0] + q, at)
        return d, c
    return {pin(t): (1, t)}, 0


def unlin(d, c):
    if not d:
        return c
    t = None
    for i in sorted(d):
        q, at = d[i]
        x = at if q == 1 else z3.IntVal(q) * at
        t = x if t is None else t + x
    if c:
        t = t + z3.IntVal(c)
    pin(t)
    return t


def norm(t):
    if isinstance(t, (bool, int)):
        return int(t)
    d, c = lin(t)
    return unlin(d, c)


def _comb(a, b, qb):
    da, ca = lin(a)
    db, cb = lin(b)
    if not db and cb == 0:
        return a if not isinstance(a, bool) else int(a)
    d = dict(da)
    for i, (q, at) in db.items():
        n = d.get(i, (0, at))[0] + q * qb
        if n:
            d[i] = (n, at)
        else:
            d.pop(i, None)
    return unlin(d, ca + qb * cb)


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return int(a) + int(b)
    return _comb(a, b, 1)


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return int(a) - int(b)
    return _comb(a, b, -1)


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(b, int):
        a, b = b, a
    if isinstance(a, int):
        if a == 0:
            return 0
        d, c = lin(b)
        return unlin({i: (q * a, at) for i, (q, at) in d.items()}, c * a)
    return norm(ex(a) * ex(b))


def divc(a, c):
    """floor division by a positive constant"""
    if isinstance(a, int):
        return a // c
    if c == 1:
        return a
    d, k = lin(a)
    if all(q % c == 0 for q, _ in d.values()):
        return unlin({i: (q // c, at) for i, (q, at) in d.items()}, k // c)
    # split off the divisible part
    dd = {i: (q // c, at) for i, (q, at) in d.items() if q % c == 0}
    rest = {i: v for i, v in d.items() if v[0] % c != 0}
    kq, kr = divmod(k, c)
    r = unlin(rest, kr)
    lo, hi = bounds(r)
    if lo is not None and hi is not None and lo // c == hi // c:
        return unlin(dd, kq + lo // c)
    # (x div a) div c = x div (a*c)
    if is_t(r) and r.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(r.arg(1)) and r.arg(1).as_long() > 0:
        r2 = divc(r.arg(0), r.arg(1).as_long() * c)
        return add(unlin(dd, kq), r2)
    q = ex(r) / z3.IntVal(c)
    pin(q)
    return add(unlin(dd, kq), q)


def modc(a, c):
    if isinstance(a, int):
        return a % c
    if c == 1:
        return 0
    d, k = lin(a)
    rest = {i: (q % c, at) for i, (q, at) in d.items() if q % c != 0}
    # keep the original coefficients if that stays in range
    rest0 = {i: (q, at) for i, (q, at) in d.items() if q % c != 0}
    for r, kk in ((rest0, k % c), (rest0, k), (rest, k % c)):
        t = unlin(r, kk)
        lo, hi = bounds(t)
        if lo is not None and hi is not None and lo // c == hi // c:
            return sub(t, (lo // c) * c)
    t = unlin(rest, k % c)
    if isinstance(t, int):
        return t % c
    # (x mod a) mod c with c | a
    if t.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)):
        a2 = t.arg(1).as_long()
        if a2 % c == 0:
            return modc(t.arg(0), c)
    if t.decl().kind() == z3.Z3_OP_ITE:
        x, y = modc(t.arg(1), c), modc(t.arg(2), c)
        if isinstance(x, int) or isinstance(y, int):
            return ite(t.arg(0), x, y)
    r = ex(t) % z3.IntVal(c)
    pin(r)
    return r


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, int) and isinstance(b, int) and a == b and type(a) == type(b):
        return a
    if is_t(a) and is_t(b) and a.eq(b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or (is_t(a) and z3.is_bool(a)):
        if a is True and b is False:
            return c
        if a is False and b is True:
            return bnot(c)
        r = z3.If(c, ex(a), ex(b))
        pin(r)
        return r
    r = z3.If(c, ex(a), ex(b))
    pin(r)
    return r


# ------------------------------------------------------------------- bounds
_bcache = {}


def bounds(t):
    if isinstance(t, int):
        return int(t), int(t)
    i = pin(t)
    r = _bcache.get(i)
    if r is None:
        r = _bcache[i] = _bounds(t)
    return r


def _bounds(t):
    if z3.is_bv(t) or z3.is_bool(t):
        return None, None
    k = t.decl().kind()
    if z3.is_int_value(t):
        v = t.as_long()
        return v, v
    if k == z3.Z3_OP_UNINTERPRETED:
        n = t.decl().name()
        if t.num_args() == 0:
            return VARB.get(n, (None, None))
        return FUNB.get(n, (None, None))
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS) or (k == z3.Z3_OP_MUL):
        if k == z3.Z3_OP_MUL:
            nonconst = [a for a in t.children() if not z3.is_int_value(a)]
            if len(nonconst) > 1:
                lo, hi = 1, 1
                for a in t.children():
                    l, h = bounds(a)
                    if l is None or l < 0 or lo is None:
                        return None, None
                    lo = lo * l
                    hi = None if (hi is None or h is None) else hi * h
                return lo, hi
        d, c = lin(t)
        lo = hi = c
        for q, at in d.values():
            if len(d) == 1 and at.eq(t):
                return None, None
            l, h = bounds(at)
            if q < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + q * l
            hi = None if hi is None or h is None else hi + q * h
        return lo, hi
    if k == z3.Z3_OP_ITE:
        a, b = bounds(t.arg(1)), bounds(t.arg(2))
        lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
        hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
        return lo, hi
    if k == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)):
        c = t.arg(1).as_long()
        l, h = bounds(t.arg(0))
        if l is not None and l >= 0 and h is not None and h < c:
            return l, h
        return 0, c - 1
    if k == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)):
        c = t.arg(1).as_long()
        l, h = bounds(t.arg(0))
        return (None if l is None else l // c, None if h is None else h // c)
    return None, None


# ---------------------------------------------------------------- booleans
def bnot(c):
    if isinstance(c, bool):
        return not c
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def band(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return False
            continue
        if z3.is_false(c):
            return False
        if z3.is_true(c):
            continue
        out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def bor(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c:
                return True
            continue
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            continue
        out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def implies(a, b):
    return bor(bnot(a), b)


def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or (is_t(a) and z3.is_bool(a)) or (is_t(b) and z3.is_bool(b)):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(b, int):
            a, b = b, a
        if isinstance(a, int):
            return b if a else bnot(b)
        if a.eq(b):
            return True
        return a == b
    if is_t(a) and z3.is_bv(a) or is_t(b) and z3.is_bv(b):
        return z3.simplify(a == b)
    d = sub(a, b)
    if isinstance(d, int):
        return d == 0
    lo, hi = bounds(d)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    # If(c, k1, k2) == k with constants
    for x, y in ((a, b), (b, a)):
        if is_t(x) and isinstance(y, int) and x.decl().kind() == z3.Z3_OP_ITE:
            p, q = x.arg(1), x.arg(2)
            inp, inq = [(l is None or l <= y) and (h is None or y <= h) for l, h in (bounds(p), bounds(q))]
            if not inp and not inq:
                return False
            if not inp:
                return band(bnot(x.arg(0)), eq(unconst(q), y))
            if not inq:
                return band(x.arg(0), eq(unconst(p), y))
    r = ex(a) == ex(b)
    pin(r)
    return r


def unconst(t):
    return t.as_long() if z3.is_int_value(t) else t


def ne(a, b):
    return bnot(eq(a, b))


def le(a, b):
    d = sub(b, a)
    if isinstance(d, int):
        return d >= 0
    lo, hi = bounds(d)
    if lo is not None and lo >= 0:
        return True
    if hi is not None and hi < 0:
        return False
    return ex(a) <= ex(b)


def lt(a, b):
    return le(add(a, 1), b)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def subst(t, var, val):
    if not is_t(t):
        return t
    r = z3.substitute(t, (var, ex(val)))
    if z3.is_bool(r):
        s = z3.simplify(r)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return r
    if z3.is_bv(r):
        return r
    return norm2(r)


def norm2(t):
    """normalise also below div/mod/ite"""
    if not is_t(t) or z3.is_bv(t):
        return t
    k = t.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        ch = [norm2(c) for c in t.children()]
        r = ch[0]
        if k == z3.Z3_OP_UMINUS:
            return mul(-1, r)
        for c in ch[1:]:
            r = add(r, c) if k == z3.Z3_OP_ADD else sub(r, c) if k == z3.Z3_OP_SUB else mul(r, c)
        return r
    if k == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
        return divc(norm2(t.arg(0)), t.arg(1).as_long())
    if k == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
        return modc(norm2(t.arg(0)), t.arg(1).as_long())
    if k == z3.Z3_OP_ITE and not z3.is_bool(t):
        return ite(simp_bool(t.arg(0)), norm2(t.arg(1)), norm2(t.arg(2)))
    if k == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
        r = t.decl()(*[ex(norm2(c)) for c in t.children()])
        pin(r)
        return r
    if z3.is_int_value(t):
        return t.as_long()
    return t


def simp_bool(c):
    if not is_t(c):
        return c
    s = z3.simplify(c)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return c


def mentions(t, var):
    if not is_t(t):
        return False
    vid = var.get_id()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() == vid:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        stack.extend(x.children())
    return False


def const_names(t, acc=None):
    """names of uninterpreted constants in t"""
    acc = set() if acc is None else acc
    if not is_t(t):
        return acc
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x.decl().name())
        stack.extend(x.children())
    return acc


# ---------------------------------------------------------------- solving
_atoms_cache = {}


def atoms(t):
    """uninterpreted applications (constants and functions) in t, as a dict"""
    i = pin(t)
    r = _atoms_cache.get(i)
    if r is not None:
        return r
    r = {}
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r[x.get_id()] = x
        stack.extend(x.children())
    for x in r.values():
        pin(x)
    _atoms_cache[i] = r
    return r


def side_conditions(fs, depth=2):
    done = {}
    out = []
    todo = {}
    for f in fs:
        todo.update(atoms(f))
    for level in range(depth + 1):
        new = {}
        for i, x in todo.items():
            if i in done:
                continue
            done[i] = x
            n = x.decl().name()
            if x.num_args() == 0:
                lo, hi = VARB.get(n, (None, None))
            else:
                lo, hi = FUNB.get(n, (None, None))
            if z3.is_int(x):
                if lo is not None:
                    out.append(x >= lo)
                if hi is not None:
                    out.append(x <= hi)
            if n in FUNAX and (level < depth or x.num_args() == 0):
                for a in FUNAX[n](*x.children()):
                    if isinstance(a, bool):
                        assert a
                        continue
                    out.append(a)
                    new.update(atoms(a))
        todo = new
    return out


MONO = {}       # name of a prefix sum -> (lower bound of its summands, summand)


def sums_in(fs):
    """{name: {id: application}} of the prefix sums in formulas"""
    out = {}
    for f in fs:
        for i, x in atoms(f).items():
            n = x.decl().name()
            if n in MONO:
                out.setdefault(n, {})[i] = x
    return out


def mono_pairs(olds, news):
    """a lemma by induction: the prefix sum over b elements is at least that over a <= b, plus the least for each in between"""
    out = []
    for n, m in news.items():
        o = olds.get(n, {})
        lo, summand = MONO[n]
        seen = list(o.values())
        for i, x in m.items():
            if i in o:
                continue
            for y in seen[-6:]:
                a, b = x.arg(0), y.arg(0)
                for u, v, fu, fv in ((a, b, x, y), (b, a, y, x)):
                    c = lt(u, v)
                    if c is not False:
                        out.append(z3.Implies(z3.And(0 <= u, ex(c)), z3.And(fu + ex(summand(norm(u))) + lo * (v - u - 1) <= fv, fu + lo * (v - u) <= fv)))
            seen.append(x)
    return out


_qcache = {}
DEADLINE = [None]
DEFAULT_TIMEOUT = 8000


class TimeUp(Exception):
    pass


class Incremental:
    """one solver that keeps the common beginning of successive queries"""

    def __init__(self):
        self.s = z3.Solver()
        self.ids = []
        self.side = [set()]
        self.sums = [{}]
        self.cache = {}
        self.to = None
        self.dead = 0

    def sides(self, f, i):
        r = self.cache.get(i)
        if r is None:
            r = [(pin(x), x) for x in side_conditions([f])]
            self.cache[i] = r
        return r

    def check(self, fl, ids):
        k = 0
        n = min(len(ids), len(self.ids))
        while k < n and ids[k] == self.ids[k]:
            k += 1
        if len(self.ids) > k:
            self.s.pop(len(self.ids) - k)
            del self.ids[k:]
            del self.side[k + 1:]
            del self.sums[k + 1:]
        for j in range(k, len(ids)):
            self.s.push()
            known = self.side[-1]
            new = set(known)
            for i, x in self.sides(fl[j], ids[j]):
                if i not in new:
                    new.add(i)
                    self.s.add(x)
            self.s.add(fl[j])
            olds = self.sums[-1]
            if MONO:
                news = sums_in([fl[j]])
                if any(i not in olds.get(n, ()) for n, m in news.items() for i in m):
                    for x in mono_pairs(olds, news):
                        self.s.add(x)
                    olds = dict(olds)
                    for n, m in news.items():
                        d = dict(olds.get(n, {}))
                        d.update(m)
                        olds[n] = d
            self.sums.append(olds)
            self.ids.append(ids[j])
            self.side.append(new)
        return str(self.s.check())


_inc = [None]
INC_TIMEOUT = 250


def incremental(fl, ids):
    if _inc[0] is None or len(_inc[0].cache) > 20000:
        _inc[0] = Incremental()
        _inc[0].s.set('timeout', INC_TIMEOUT)
    i = _inc[0]
    if i.dead > 0:
        # it has just given up on this path: leave it alone for a few queries
        i.dead -= 1
        return 'unknown'
    try:
        r = i.check(fl, ids)
    except z3.Z3Exception:
        _inc[0] = None
        return 'unknown'
    if r == 'unknown':
        i.dead = 3
    return r


def solve(fs, timeout=None, want_model=False):
    """-> ('unsat'|'sat'|'unknown', model)"""
    fl = []
    for f in fs:
        if isinstance(f, bool):
            if not f:
                return 'unsat', None
            continue
        fl.append(f)
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise TimeUp()
    key = tuple(sorted(set(pin(f) for f in fl)))
    c = _qcache.get(key)
    if c is not None and (not want_model or c[0] != 'sat' or c[1] is not None):
        return c
    t0 = time.time()
    if not want_model:
        r = incremental(fl, [f.get_id() for f in fl])
        if r != 'unknown':
            STATS.queries += 1
            STATS.time += time.time() - t0
            STATS.by_backend['z3'] = STATS.by_backend.get('z3', 0) + 1
            _qcache[key] = (r, None)
            return r, None
    sc = side_conditions(fl)
    if MONO:
        sc = sc + mono_pairs({}, sums_in(fl))
    s = z3.Solver()
    to = timeout or DEFAULT_TIMEOUT
    if DEADLINE[0] is not None:
        to = max(50, min(to, int(1000 * (DEADLINE[0] - time.time()) + 50)))
    s.set('timeout', to)
    s.add(*fl)
    s.add(*sc)
    r = str(s.check())
    m = s.model() if r == 'sat' and want_model else None
    be = 'z3'
    if r == 'unknown' and not want_model:
        r2 = cvc5_check(s, to)
        if r2 == 'unsat':
            r = r2
            be = 'cvc5'
    dt = time.time() - t0
    STATS.queries += 1
    STATS.time += dt
    STATS.by_backend[be] = STATS.by_backend.get(be, 0) + 1
    if r == 'unknown':
        STATS.unknown += 1
    _qcache[key] = (r, m)
    return r, m


FULLAX = {}     # functions whose axioms leave something open by default -> the axioms that do not


def abstract(n):
    """too little is known of this function for a counterexample to mean anything"""
    return n.startswith('hv') or 'acclen' in n or n.startswith(('scan!', 'number!', 'decdig', '@')) or n.endswith('@')


def genuine(fs, small=3):
    """does a counterexample to these formulas say anything about the code?  Not if it rests on a value that the executor has
    havocked, and not if it rests on a value of a recursive function that its definition excludes: with arguments up to
    `small` and the definitions unfolded as far as these go, there must still be one"""
    fl = [f for f in fs if is_t(f)]
    rec = {}
    for f in fl:
        for i, x in atoms(f).items():
            n = x.decl().name()
            if abstract(n):
                return False
            if x.num_args() and n in FUNAX:
                rec[i] = x
    if not rec:
        return True
    done, out = {}, []
    todo = {}
    for f in fl:
        todo.update(atoms(f))
    for level in range(small + 4):
        new = {}
        for i, x in todo.items():
            if i in done:
                continue
            done[i] = x
            n = x.decl().name()
            if abstract(n):
                return False
            lo, hi = (FUNB if x.num_args() else VARB).get(n, (None, None))
            if z3.is_int(x):
                if lo is not None:
                    out.append(x >= lo)
                if hi is not None:
                    out.append(x <= hi)
            ax = FULLAX.get(n) or FUNAX.get(n)
            if ax:
                for a in ax(*x.children()):
                    if is_t(a):
                        out.append(a)
                        new.update(atoms(a))
        todo = new
    for x in rec.values():
        if x.decl().name() not in FULLAX:
            for a in x.children():
                if z3.is_int(a):
                    out.append(a <= small)
    s = z3.Solver()
    s.set('timeout', 5000)
    s.add(*fl)
    s.add(*out)
    return str(s.check()) == 'sat'


USE_CVC5 = [True]


def cvc5_check(solver, to):
    if not USE_CVC5[0]:
        return 'unknown'
    import subprocess
    import tempfile
    import os
    txt = '(set-logic ALL)\n' + solver.to_smt2()
    fd, path = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(txt)
        p = subprocess.run(['cvc5', '--tlimit=%d' % min(to, 8000), path], capture_output=True, text=True,
                           timeout=min(to, 8000) / 1000 + 10)
        o = p.stdout.strip().split('\n')[0]
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(path)


def prove(pc, goal, timeout=None):
    """True / False / None (unknown)"""
    if isinstance(goal, bool):
        if goal:
            return True
        r, _ = solve(list(pc), timeout)
        return True if r == 'unsat' else (False if r == 'sat' else None)
    r, _ = solve(list(pc) + [z3.Not(goal)], timeout)
    return True if r == 'unsat' else (False if r == 'sat' else None)


def feasible(pc, timeout=3000):
    r, _ = solve(list(pc), timeout)
    return r != 'unsat'


def model_of(fs, timeout=None):
    return solve(fs, timeout, want_model=True)


def signed(v, w):
    """unsigned representation -> signed mathematical value"""
    if isinstance(v, int):
        return v - (1 << w) if v >> (w - 1) else v
    lo, hi = bounds(v)
    if hi is not None and hi < (1 << (w - 1)):
        return v
    if lo is not None and lo >= (1 << (w - 1)):
        return sub(v, 1 << w)
    # undo unsigned(x): If(x >= 0, x, x + 2^w)
    return ite(lt(v, 1 << (w - 1)), v, sub(v, 1 << w))


def unsigned(v, w):
    """mathematical value in [-2^(w-1), 2^w) -> unsigned representation"""
    if isinstance(v, int):
        return v % (1 << w)
    lo, hi = bounds(v)
    if lo is not None and lo >= 0 and hi is not None and hi < (1 << w):
        return v
    return modc(v, 1 << w)
