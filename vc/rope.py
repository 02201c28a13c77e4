"""Ropes: symbolic sequences (of bytes, or of wide characters)."""
import z3
from .terms import *
from . import terms as T


class Fork(Exception):
    """the current step must be split on a condition"""

    def __init__(self, cond):
        self.cond = cond


class Imprecise(Exception):
    """the machinery cannot decide something here (never a verdict about the code)"""


class Source:
    """an opaque sequence: element i is fun(i), 0 <= i < length"""

    def __init__(self, name, length, fun=None, lo=0, hi=255, tag=None, args=()):
        self.name = name
        self.length = length
        self.lo, self.hi = lo, hi
        if fun is None:
            f = mkfun('el_' + name, lo, hi)
            fun = lambda i: f(ex(i))
        self._fun = fun
        self.tag = tag
        self.args = args

    def at(self, i):
        r = self._fun(i)
        if is_t(r):
            pin(r)
        return r

    def whole(self):
        return Rope((Slice(self, 0, self.length),))


class Lit:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def length(self):
        return len(self.items)

    def __repr__(self):
        if all(isinstance(x, int) for x in self.items):
            try:
                return repr(bytes(self.items))
            except ValueError:
                pass
        return 'Lit%r' % (self.items,)


class Slice:
    __slots__ = ('src', 'off', 'n')

    def __init__(self, src, off, n):
        self.src, self.off, self.n = src, off, n

    def length(self):
        return self.n

    def __repr__(self):
        return '%s[%s:+%s]' % (self.src.name, self.off, self.n)


class Rep:
    __slots__ = ('item', 'n')

    def __init__(self, item, n):
        self.item, self.n = item, n

    def length(self):
        return self.n

    def __repr__(self):
        return 'Rep(%s*%s)' % (self.item, self.n)


_declen = mkfun('declen', 1, 20)
_decdig = mkfun('decdig', 48, 57, arity=2)


def _declen_ax(v):
    r = _declen(v)
    out = []
    for d in (1, 2, 3, 4, 5, 9, 10, 19):
        out.append((r <= d) == (v < 10 ** d))
    return out


T.FUNAX['declen'] = _declen_ax
T.FULLAX['declen'] = lambda v: [(_declen(v) <= d) == (v < 10 ** d) for d in range(1, 20)]


class Dec:
    """decimal text of a non-negative integer"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def length(self):
        if isinstance(self.v, int):
            return len(str(self.v))
        return _declen(self.v)

    def digit(self, i):
        return _decdig(ex(self.v), ex(i))

    def __repr__(self):
        return 'Dec(%s)' % (self.v,)


class Big:
    """concatenation of body(k), 0 <= k < n.  alts(k) -> [(cond, Rope)], the conds are exhaustive and exclusive"""
    _count = [0]

    def __init__(self, n, alts, fam=None):
        self.n = n
        self.alts = alts
        if fam is None:
            Big._count[0] += 1
            fam = BigFam(Big._count[0], alts)
        self.fam = fam

    def length(self):
        return self.fam.psum(self.n)

    def with_n(self, n):
        return Big(n, self.alts, self.fam)

    def body(self, k):
        return self.fam.body(k)

    def __repr__(self):
        return 'Big#%d(n=%s, %r)' % (self.fam.id, self.n, self.fam.body(z3.Int('k')))


class BigFam:
    def __init__(self, id, alts):
        self.id = id
        self.alts = alts
        self.kvar = mk('bigk!%d' % id, 0, None)
        self.generic = alts(self.kvar)
        L = None
        fixed = True
        for c, r in self.generic:
            n = r.length()
            if L is None:
                L = n
            elif not T.eq(L, n) is True:
                fixed = False
        if not is_t(L) or not mentions(L, self.kvar):
            pass
        else:
            fixed = False
        self.fixed = L if fixed else None
        if not fixed:
            self.blo, self.bhi = None, None
            bs = [T.bounds(r.length()) if is_t(r.length()) else (r.length(),) * 2 for c, r in self.generic]
            if all(b[0] is not None for b in bs):
                self.blo = min(b[0] for b in bs)
            if all(b[1] is not None for b in bs):
                self.bhi = max(b[1] for b in bs)
            name = 'psum!%d' % id
            mkfun(name, 0, None)
            self.f = z3.Function(name, z3.IntSort(), z3.IntSort())
            T.FUNAX[name] = self.ax
            if self.blo is not None and self.blo >= 0:
                T.MONO[name] = (self.blo, self.bodylen)

    def ax(self, k):
        # S(0) = 0; S(k) = S(k-1) + len(body(k-1)) for k >= 1
        out = [z3.Implies(k == 0, self.f(k) == 0)]
        km = norm(k - 1)
        out.append(z3.Implies(k >= 1, self.f(k) == self.f(ex(km)) + ex(self.bodylen(km))))
        # by induction: every element is between the bounds
        if self.blo is not None:
            out.append(z3.Implies(k >= 0, self.f(k) >= self.blo * k))
        if self.bhi is not None:
            out.append(z3.Implies(k >= 0, self.f(k) <= self.bhi * k))
        return out

    def bodylen(self, k):
        if self.fixed is not None:
            return self.fixed
        alts = self.body(k)
        r = alts[-1][1].length()
        for c, rp in alts[:-1][::-1]:
            r = ite(c, rp.length(), r)
        return r

    def psum(self, n):
        if isinstance(n, int) and n == 0:
            return 0
        if self.fixed is not None:
            return mul(self.fixed, n)
        r = self.f(ex(n))
        pin(r)
        return r

    def body(self, k):
        return self.alts(k)


class Rope:
    __slots__ = ('ps', '_len')

    def __init__(self, pieces=()):
        out = []
        for p in pieces:
            n = p.length()
            if isinstance(n, int) and n <= 0:
                continue
            if isinstance(p, Rep) and isinstance(p.n, int) and p.n <= 64:
                p = Lit([p.item] * p.n)
            if isinstance(p, Dec) and isinstance(p.v, int):
                p = Lit(str(p.v).encode())
            if out:
                q = out[-1]
                if isinstance(p, Lit) and isinstance(q, Lit):
                    out[-1] = Lit(q.items + p.items)
                    continue
                if isinstance(p, Slice) and isinstance(q, Slice) and p.src is q.src and T.eq(add(q.off, q.n), p.off) is True:
                    out[-1] = Slice(q.src, q.off, add(q.n, p.n))
                    continue
                if isinstance(p, Rep) and isinstance(q, Rep) and T.eq(p.item, q.item) is True:
                    out[-1] = Rep(q.item, add(q.n, p.n))
                    continue
            out.append(p)
        self.ps = tuple(out)
        self._len = None

    def length(self):
        if self._len is None:
            n = 0
            for p in self.ps:
                n = add(n, p.length())
            self._len = n
        return self._len

    def __add__(self, o):
        return Rope(self.ps + o.ps)

    def __repr__(self):
        return ' ++ '.join(map(repr, self.ps)) or '""'

    def concrete(self):
        if not self.ps:
            return b''
        if len(self.ps) == 1 and isinstance(self.ps[0], Lit) and all(isinstance(x, int) for x in self.ps[0].items):
            return self.ps[0].items
        return None


def lit(b):
    if isinstance(b, str):
        b = b.encode('latin1')
    return Rope((Lit(b),))


EMPTY = Rope()


def decide(cond, pc):
    """bool, or Fork"""
    if isinstance(cond, bool):
        return cond
    r = prove(pc, cond, 3000)
    if r is True:
        return True
    r2 = prove(pc, bnot(cond), 3000)
    if r2 is True:
        return False
    raise Fork(cond)


def quick(cond, pc):
    """True/False if decidable, else None (no fork)"""
    if isinstance(cond, bool):
        return cond
    if prove(pc, cond, 3000) is True:
        return True
    if prove(pc, bnot(cond), 3000) is True:
        return False
    return None


def big_index(big, rel, pc):
    """rel: offset into big, known 0 <= rel < length.  -> (j, inner) with 0 <= inner < len(body(j))"""
    fam = big.fam
    if fam.fixed is not None:
        L = fam.fixed
        if isinstance(L, int):
            j = divc(rel, L)
            inner = modc(rel, L)
            return j, inner
        raise Imprecise('index into a concatenation with symbolic element size')
    d, c = lin(rel)
    for i, (q, at) in d.items():
        if q == 1 and at.decl().name() == fam.f.name():
            j = at.arg(0)
            j = norm(j)
            inner = sub(rel, at)
            for _ in range(4):
                bl = fam.bodylen(j)
                if decide(lt(inner, 0), pc):
                    j = sub(j, 1)
                    inner = add(inner, fam.bodylen(j))
                    continue
                if decide(lt(inner, bl), pc):
                    return j, inner
                inner = sub(inner, bl)
                j = add(j, 1)
            raise Imprecise('big_index')
    # near the start
    j = 0
    inner = rel
    for _ in range(6):
        bl = fam.bodylen(j)
        r = quick(lt(inner, bl), pc)
        if r is True:
            return j, inner
        if r is None:
            raise Fork(lt(inner, bl))
        inner = sub(inner, bl)
        j = j + 1
    raise Imprecise('position inside a concatenation')


def pick_alt(alts, pc):
    if len(alts) == 1:
        return alts[0][1]
    for c, r in alts[:-1]:
        if decide(c, pc):
            return r
    return alts[-1][1]


def locate(rope, pos, pc, hint=None):
    """piece index and relative offset of position pos (0 <= pos < length known)"""
    start = 0
    cum = 0
    n = len(rope.ps)
    for i in range(n):
        p = rope.ps[i]
        L = p.length()
        rel = sub(pos, cum)
        if i == n - 1:
            return i, rel
        if decide(lt(rel, L), pc):
            return i, rel
        cum = add(cum, L)
    raise Imprecise('locate in empty rope')


def piece_at(p, rel, pc):
    if isinstance(p, Lit):
        if isinstance(rel, int):
            return p.items[rel]
        r = p.items[-1]
        for i in range(len(p.items) - 2, -1, -1):
            c = T.eq(rel, i)
            r = ite(c, p.items[i], r)
        return r
    if isinstance(p, Slice):
        return p.src.at(add(p.off, rel))
    if isinstance(p, Rep):
        return p.item
    if isinstance(p, Dec):
        return p.digit(rel)
    if isinstance(p, Big):
        j, inner = big_index(p, rel, pc)
        r = pick_alt(p.body(j), pc)
        return rope_at(r, inner, pc)
    raise Imprecise('piece_at')


def rope_at(rope, pos, pc):
    i, rel = locate(rope, pos, pc)
    return piece_at(rope.ps[i], rel, pc)


def piece_slice(p, rel, n, pc):
    """pieces of p[rel : rel+n], known to be inside"""
    if isinstance(p, Lit):
        if isinstance(rel, int) and isinstance(n, int):
            return (Lit(p.items[rel:rel + n]),)
        if isinstance(rel, int):
            L = len(p.items) - rel
            if quick(T.eq(n, L), pc) is True:
                return (Lit(p.items[rel:]),)
            for m in range(0, L + 1):
                if m == L or decide(T.eq(n, m), pc):
                    return (Lit(p.items[rel:rel + m]),)
        raise Imprecise('slice of literal at symbolic offset')
    if isinstance(p, Slice):
        return (Slice(p.src, add(p.off, rel), n),)
    if isinstance(p, Rep):
        return (Rep(p.item, n),)
    if isinstance(p, Dec):
        if quick(band(T.eq(rel, 0), T.eq(n, p.length())), pc) is True:
            return (p,)
        raise Imprecise('slice of decimal')
    if isinstance(p, Big):
        if quick(band(T.eq(rel, 0), T.eq(n, p.length())), pc) is True:
            return (p,)
        if quick(T.eq(n, 0), pc) is True:
            return ()
        # a range of whole elements starting at a boundary, or within one element
        j, inner = big_index(p, rel, pc)
        bodyr = pick_alt(p.body(j), pc)
        if quick(le(add(inner, n), bodyr.length()), pc) is True:
            return rope_slice(bodyr, inner, n, pc).ps
        if isinstance(inner, int) and inner == 0:
            L = p.fam.fixed
            if isinstance(L, int) and L > 0 and modc(n, L) == 0 and is_t(n):
                return (Big(divc(n, L), lambda k, j=j, p=p: p.body(add(k, j))),)
            end = add(rel, n)
            if quick(T.eq(end, p.length()), pc) is True:
                fam = p.fam
                return (Big(sub(p.n, j), lambda k, j=j, p=p: p.body(add(k, j))),)
        raise Imprecise('slice of concatenation')
    raise Imprecise('piece_slice')


def rope_slice(rope, off, n, pc):
    """rope[off : off+n]; 0 <= off, off+n <= length known"""
    if isinstance(n, int) and n == 0 or not rope.ps:
        return EMPTY
    if T.eq(off, 0) is True and T.eq(n, rope.length()) is True:
        return rope
    out = []
    cum = 0
    remaining = n
    started = False
    for i, p in enumerate(rope.ps):
        L = p.length()
        if not started:
            rel = sub(off, cum)
            last = i == len(rope.ps) - 1
            if is_t(rel) and quick(T.eq(rel, 0), pc) is True:
                rel = 0
            if T.eq(rel, 0) is True:
                started = True
                rel = 0
            elif last and quick(T.eq(n, 0), pc) is True:
                return EMPTY
            elif last or decide(lt(rel, L), pc):
                started = True
            else:
                cum = add(cum, L)
                continue
        else:
            rel = 0
        avail = sub(L, rel)
        r = quick(le(remaining, avail), pc)
        if r is None:
            if i == len(rope.ps) - 1:
                r = True
            else:
                raise Fork(le(remaining, avail))
        if r:
            out.extend(piece_slice(p, rel, remaining, pc))
            return Rope(out)
        if T.eq(rel, 0) is True:
            out.append(p)
        else:
            out.extend(piece_slice(p, rel, avail, pc))
        remaining = sub(remaining, avail)
        cum = add(cum, L)
    if quick(T.eq(remaining, 0), pc) is True:
        return Rope(out)
    raise Imprecise('rope_slice out of range')


# ------------------------------------------------------------- bytes <-> ints
def byte_of(v, j):
    return modc(divc(v, 256 ** j), 256)


def _byte_origin(b):
    """if b is byte j of v: (v, j)"""
    if not is_t(b):
        return None
    k = b.decl().kind()
    x = b
    if k == z3.Z3_OP_MOD and z3.is_int_value(b.arg(1)) and b.arg(1).as_long() == 256:
        x = b.arg(0)
    if x.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(x.arg(1)):
        q = x.arg(1).as_long()
        j = 0
        while q > 1 and q % 256 == 0:
            q //= 256
            j += 1
        if q == 1:
            return x.arg(0), j
    return x, 0


def compose(bs):
    """little-endian bytes -> integer"""
    if all(isinstance(b, int) for b in bs):
        return sum(b << (8 * i) for i, b in enumerate(bs))
    m = len(bs)
    for b in bs:
        o = _byte_origin(b)
        if o is None:
            continue
        v, j = o
        lo, hi = bounds(v)
        if lo is None or lo < 0 or hi is None or hi >= 256 ** m:
            continue
        if all(T.eq(byte_of(v, i), bs[i]) is True for i in range(m)):
            return v
    r = 0
    for i, b in enumerate(bs):
        r = add(r, mul(256 ** i, b))
    return r


def recompose(t):
    """sum of 256^j * byte_j(v) -> v where recognised"""
    if not is_t(t):
        return t
    d, c = lin(t)
    if c != 0 or not d or len(d) > 8:
        return t
    bs = {}
    for q, at in d.values():
        j = 0
        while q > 1 and q % 256 == 0:
            q //= 256
            j += 1
        if q != 1 or j in bs or j > 7:
            return t
        bs[j] = at
    m = max(bs) + 1
    lst = [bs.get(j, 0) for j in range(m)]
    for b in lst:
        o = _byte_origin(b)
        if o is None:
            continue
        v, j = o
        lo, hi = bounds(v)
        if lo is None or lo < 0 or hi is None:
            continue
        width = 1
        while 256 ** width <= hi:
            width += 1
        if width != m:
            # also accept when v has more (all zero) bytes
            continue
        if all(T.eq(byte_of(v, i), lst[i]) is True for i in range(m)):
            return v
    return t


# -------------------------------------------------------------- equality (proof)
class Eq:
    """result of a rope comparison"""

    def __init__(self, status, why='', goal=None):
        self.status = status    # True / False / None
        self.why = why
        self.goal = goal        # the failing atomic goal

    def __repr__(self):
        return 'Eq(%s, %s)' % (self.status, self.why)


def prove_rope_eq(a, b, pc, depth=0):
    """prove a == b under pc.  May raise Fork."""
    la, lb = a.length(), b.length()
    g = T.eq(la, lb)
    # try structural matching first (it does not need the length goal)
    try:
        r = _match(list(a.ps), list(b.ps), pc, depth)
    except Imprecise as e:
        r = Eq(None, 'matching: %s' % e)
    if r.status is True:
        return r
    if r.status is None and not isinstance(g, bool):
        p = prove(pc, g)
        if p is False:
            return Eq(False, 'lengths differ: %s vs %s' % (la, lb), g)
    elif r.status is None and g is False:
        return Eq(False, 'lengths differ', False)
    return r


def _prove_goal(goal, pc, why):
    if goal is True:
        return None
    p = prove(pc, goal)
    if p is True:
        return None
    return Eq(False if p is False else None, why, goal)


def _match(xs, ys, pc, depth):
    xs = list(xs)
    ys = list(ys)
    steps = 0
    while xs or ys:
        steps += 1
        if steps > 3000:
            return Eq(None, 'too long')
        if not xs or not ys:
            rest = xs or ys
            for p in rest:
                L = p.length()
                r = _prove_goal(T.eq(L, 0), pc, 'trailing piece %r' % (p,))
                if r:
                    return r
            return Eq(True)
        x, y = xs[0], ys[0]
        if isinstance(x, Lit) and isinstance(y, Lit):
            m = min(len(x.items), len(y.items))
            goals = []
            for i in range(m):
                g = T.eq(x.items[i], y.items[i])
                if g is False:
                    r = prove(pc, False)
                    if r is True:
                        return Eq(True)
                    return Eq(False if r is False else None,
                              'byte %s vs %s in %r / %r' % (x.items[i], y.items[i], x, y), False)
                if g is not True:
                    goals.append(g)
            if goals:
                r = _prove_goal(z3.And(*goals) if len(goals) > 1 else goals[0], pc, 'bytes %r vs %r' % (x, y))
                if r:
                    return r
            _consume(xs, x, m)
            _consume(ys, y, m)
            continue
        if isinstance(x, Dec) and isinstance(y, Dec):
            r = _prove_goal(T.eq(x.v, y.v), pc, 'decimal %s vs %s' % (x.v, y.v))
            if r:
                return r
            xs.pop(0)
            ys.pop(0)
            continue
        if isinstance(x, Rep) and isinstance(y, Rep):
            q = quick(T.eq(x.n, y.n), pc)
            if q is True:
                ge0 = z3.And(*[c for c in [ex(gt(x.n, 0))]])
                r = _prove_goal(implies(gt(x.n, 0), T.eq(x.item, y.item)), pc, 'repeated item')
                if r:
                    return r
                xs.pop(0)
                ys.pop(0)
                continue
            if decide(le(x.n, y.n), pc):
                r = _prove_goal(implies(gt(x.n, 0), T.eq(x.item, y.item)), pc, 'repeated item')
                if r:
                    return r
                xs.pop(0)
                ys[0] = Rep(y.item, sub(y.n, x.n))
            else:
                r = _prove_goal(implies(gt(y.n, 0), T.eq(x.item, y.item)), pc, 'repeated item')
                if r:
                    return r
                ys.pop(0)
                xs[0] = Rep(x.item, sub(x.n, y.n))
            continue
        if isinstance(x, Slice) and isinstance(y, Slice):
            same = x.src is y.src or _congruent(x.src, y.src, pc, depth)
            if quick(T.eq(x.n, y.n), pc) is True:
                m = x.n
            elif decide(le(x.n, y.n), pc):
                m = x.n
            else:
                m = y.n
            if same:
                if quick(T.eq(m, 0), pc) is not True:
                    r = _prove_goal(implies(gt(m, 0), T.eq(x.off, y.off)), pc, 'different part of %s: %s vs %s' % (x.src.name, x.off, y.off))
                    if r:
                        return r
            else:
                k = fresh('ix', 0, None)
                fs = streq_facts([(x.src, add(x.off, k)), (y.src, add(y.off, k))])
                r = _prove_goal(T.eq(x.src.at(add(x.off, k)), y.src.at(add(y.off, k))), list(pc) + [ex(lt(k, m))] + fs,
                                'contents of %s vs %s' % (x.src.name, y.src.name))
                if r:
                    return r
            _consume(xs, x, m)
            _consume(ys, y, m)
            continue
        # Big against Big
        if isinstance(x, Big) and isinstance(y, Big):
            if x.fam is y.fam:
                r = _prove_goal(T.eq(x.n, y.n), pc, 'repetition counts %s vs %s' % (x.n, y.n))
                if r:
                    return Eq(None, r.why, r.goal)
                xs.pop(0)
                ys.pop(0)
                continue
            q = quick(T.eq(x.n, y.n), pc)
            if q is True:
                r = _big_bodies(x, y, pc, depth)
                if r.status is True:
                    # record equal prefix sums
                    xs.pop(0)
                    ys.pop(0)
                    continue
                return r
            qn = quick(T.eq(x.n, 0), pc)
            if qn is True:
                xs.pop(0)
                continue
            qn = quick(T.eq(y.n, 0), pc)
            if qn is True:
                ys.pop(0)
                continue
            # elements of different fixed sizes: regroup the smaller ones
            Lx, Ly = x.fam.fixed, y.fam.fixed
            if isinstance(Lx, int) and isinstance(Ly, int) and 0 < min(Lx, Ly) < max(Lx, Ly) <= 64 and max(Lx, Ly) % min(Lx, Ly) == 0:
                A, p = (xs, x) if Lx < Ly else (ys, y)
                r = max(Lx, Ly) // min(Lx, Ly)
                if modc(p.n, r) == 0:
                    A[0] = _regroup(p, r)
                    continue
            # counts differ: split off what is missing in front of the shorter one
            if True:
                dlt = sub(x.n, y.n)
                if isinstance(dlt, int) and abs(dlt) <= 4:
                    lng, oth = (xs, x) if dlt > 0 else (ys, y)
                    # peel the last element of the longer
                    m = sub(oth.n, abs(dlt))
                    if decide(ge(m, 0), pc):
                        tail = []
                        for i in range(abs(dlt)):
                            tail.extend(pick_alt(oth.body(add(m, i)), pc).ps)
                        lng[0:1] = [oth.with_n(m)] + tail
                        continue
                    # fall through: count of the longer is small
                    lng[0:1] = list(_unroll(oth, pc))
                    continue
                r = _prove_goal(T.eq(x.n, y.n), pc, 'repetition counts %s vs %s' % (x.n, y.n))
                if r is not None:
                    return Eq(None, r.why, r.goal)
                r = _big_bodies(x, y, pc, depth)
                if r.status is not True:
                    return r
                xs.pop(0)
                ys.pop(0)
                continue
        # Big against Slice / Rep with fixed size elements
        for A, B, p, q, swap in ((xs, ys, x, y, False), (ys, xs, y, x, True)):
            if isinstance(p, Big) and isinstance(q, (Slice, Rep)):
                if quick(T.eq(p.n, 0), pc) is True:
                    A.pop(0)
                    break
                L = p.fam.fixed
                if isinstance(L, int) and L > 0 and L <= 64:
                    tot = mul(L, p.n)
                    if quick(le(tot, q.length()), pc) is True:
                        conv = _as_big(q, L, p.n)
                        r = _big_bodies(p, conv, pc, depth)
                        if r.status is not True:
                            return r
                        A.pop(0)
                        _consume(B, q, tot)
                        break
                    # the other is shorter: split the Big at a boundary
                    if quick(gt(tot, q.length()), pc) is True:
                        ql = q.length()
                        mm = modc(ql, L)
                        if mm == 0:
                            cnt = divc(ql, L)
                            A[0:1] = [p.with_n(cnt), Big(sub(p.n, cnt), lambda k, p=p, cnt=cnt: p.body(add(k, cnt)))]
                            break
                    raise Fork(le(tot, q.length()))
                return Eq(None, 'cannot align %r with %r' % (p, q))
        else:
            pass
        if not (xs and ys) or xs[0] is not x or ys[0] is not y:
            continue
        # something against Lit
        for A, B, p, q in ((xs, ys, x, y), (ys, xs, y, x)):
            if isinstance(q, Lit):
                if isinstance(p, Slice) or isinstance(p, Rep):
                    m = len(q.items)
                    Lp = p.length()
                    if quick(ge(Lp, m), pc) is True:
                        pass
                    elif quick(T.eq(Lp, 0), pc) is True:
                        A.pop(0)
                        break
                    else:
                        # find how many items p can supply
                        mm = None
                        for t in range(m):
                            if decide(T.eq(Lp, t), pc):
                                mm = t
                                break
                        if mm is not None:
                            m = mm
                        if m == 0:
                            A.pop(0)
                            break
                    goals = []
                    for i in range(m):
                        v = p.item if isinstance(p, Rep) else p.src.at(add(p.off, i))
                        goals.append(T.eq(v, q.items[i]))
                    g = band(*goals)
                    r = _prove_goal(g, pc, 'bytes of %r vs %r' % (p, q))
                    if r:
                        return r
                    _consume(A, p, m)
                    _consume(B, q, m)
                    break
                if isinstance(p, Dec):
                    lo, hi = bounds(p.v)
                    # decide through the number of digits
                    for d in range(1, 21):
                        if d == 20 or decide(lt(p.v, 10 ** d), pc):
                            break
                    if d > 3:
                        return Eq(None, 'decimal against literal')
                    items = [add(48, modc(divc(p.v, 10 ** (d - 1 - i)), 10)) for i in range(d)]
                    A[0] = Lit(items)
                    break
                if isinstance(p, Big):
                    qn = quick(T.eq(p.n, 0), pc)
                    if qn is True:
                        A.pop(0)
                        break
                    if isinstance(p.n, int) and p.n <= 64:
                        A[0:1] = list(_unroll(p, pc))
                        break
                    if decide(gt(p.n, 0), pc):
                        # peel first element
                        head = pick_alt(p.body(0), pc).ps
                        p2 = p
                        A[0:1] = list(head) + [Big(sub(p.n, 1), lambda k, p2=p2: p2.body(add(k, 1)))]
                        if steps > 200:
                            return Eq(None, 'peeling')
                        break
                    A.pop(0)
                    break
        else:
            for A, p in ((xs, x), (ys, y)):
                if quick(T.eq(p.length(), 0), pc) is True:
                    A.pop(0)
                    break
            else:
                return Eq(None, 'cannot align %r with %r' % (x, y))
    return Eq(True)


def _regroup(big, r):
    """the same bytes as elements of r consecutive ones"""
    def alts(k):
        acc = [(True, EMPTY)]
        for j in range(r):
            b = big.body(add(mul(r, k), j))
            acc = [(band(c, c2), rp + rp2) for c, rp in acc for c2, rp2 in b]
        return acc
    return Big(divc(big.n, r), alts)


def _unroll(big, pc):
    n = big.n
    if not isinstance(n, int):
        for i in range(6):
            if decide(T.eq(n, i), pc):
                n = i
                break
        else:
            raise Imprecise('unroll')
    out = []
    for i in range(n):
        out.extend(pick_alt(big.body(i), pc).ps)
    return out


def _as_big(q, L, n):
    if isinstance(q, Rep):
        return Big(n, lambda k: [(True, Rope((Lit([q.item] * L),)))])
    return Big(n, lambda k: [(True, Rope((Lit([q.src.at(add(q.off, add(mul(L, k), r))) for r in range(L)]),)))])


def _big_bodies(x, y, pc, depth):
    if depth > 4:
        return Eq(None, 'nesting')
    k = fresh('bk', 0, None)
    pc2 = list(pc) + [ex(lt(k, x.n))]
    ax, ay = x.body(k), y.body(k)
    for ca, ra in ax:
        for cb, rb in ay:
            c = band(ca, cb)
            if c is False:
                continue
            pc3 = pc2 + ([c] if c is not True else [])
            if not feasible(pc3):
                continue
            r = with_forks(lambda pcx: prove_rope_eq(ra, rb, pcx, depth + 1), pc3)
            for e in r:
                if e.status is not True:
                    return Eq(e.status, 'element of repetition: ' + e.why, e.goal)
    if x.fam.fixed is None and y.fam.fixed is None:
        link_psums(x.fam, y.fam)
    return Eq(True)


_links = {}


def link_psums(f, g):
    """the two families have (provably) equal elements below the compared count; equal counts give equal sums.
    Recorded as an axiom on the count terms that occur."""
    # handled by callers through explicit equalities (see specs)
    _links.setdefault(f.id, set()).add(g.id)


def with_forks(fn, pc, limit=64):
    """run fn(pc), splitting on Fork; list of results"""
    out = []
    stack = [list(pc)]
    while stack:
        p = stack.pop()
        try:
            out.append(fn(p))
        except Fork as f:
            limit -= 1
            if limit < 0:
                out.append(Eq(None, 'too many case splits'))
                return out
            for c in (f.cond, bnot(f.cond)):
                if c is True:
                    stack.append(p)
                elif c is False:
                    continue
                else:
                    p2 = p + [c]
                    if feasible(p2):
                        stack.append(p2)
    return out


def _consume(lst, p, m):
    L = p.length()
    if T.eq(L, m) is True:
        lst.pop(0)
        return
    if isinstance(p, Lit):
        lst[0] = Lit(p.items[m:])
    elif isinstance(p, Slice):
        lst[0] = Slice(p.src, add(p.off, m), sub(p.n, m))
    elif isinstance(p, Rep):
        lst[0] = Rep(p.item, sub(p.n, m))
    else:
        raise Imprecise('consume')


def _congruent(s, t, pc, depth):
    """same uninterpreted operation on equal arguments"""
    if s.tag is None or s.tag != t.tag or len(s.args) != len(t.args):
        return False
    for a, b in zip(s.args, t.args):
        if isinstance(a, Rope):
            rs = with_forks(lambda p: prove_rope_eq(a, b, p, depth + 1), pc)
            if not all(r.status is True for r in rs):
                return False
        else:
            if prove(pc, T.eq(a, b)) is not True:
                return False
    return True


def eq_cond(a, b, pc):
    """condition (bool or z3) for a == b, as the program computes it.  May Fork."""
    for x, y in ((a, b), (b, a)):
        c = y.concrete()
        if c is not None or (len(y.ps) == 1 and isinstance(y.ps[0], Lit)) or not y.ps:
            items = y.ps[0].items if y.ps else ()
            m = len(items)
            lc = T.eq(x.length(), m)
            if lc is False:
                return False
            if lc is not True and not (len(x.ps) == 1 and isinstance(x.ps[0], Slice)):
                if not decide(lc, pc):
                    return False
                lc = True
            if m == 0:
                return lc
            if len(x.ps) == 1 and isinstance(x.ps[0], Slice):
                s = x.ps[0]
                return band(lc, *[T.eq(s.src.at(add(s.off, i)), items[i]) for i in range(m)])
            return band(*[T.eq(rope_at(x, i, pc), items[i]) for i in range(m)])
    if T.eq(a.length(), b.length()) is False:
        return False
    q = quick(T.eq(a.length(), b.length()), pc)
    if q is False:
        return False
    r = _try(lambda: _match(list(a.ps), list(b.ps), pc, 0))
    if r is not None and r.status is True:
        return True
    key = (repr(a), repr(b))
    v = _eqpred.get(key)
    if v is None:
        v = _eqpred[key] = (fresh_bool('hv_streq'), a, b)
    return band(v[0], T.eq(a.length(), b.length()))


_eqpred = {}


def streq_facts(terms, rounds=2):
    """what the string comparisons decided so far say about these (source, index) pairs"""
    out = []
    seen = set()
    pairs = []
    for v, a, b in _eqpred.values():
        if len(a.ps) == 1 and len(b.ps) == 1 and isinstance(a.ps[0], Slice) and isinstance(b.ps[0], Slice):
            pairs.append((v, a.ps[0], b.ps[0]))
            pairs.append((v, b.ps[0], a.ps[0]))
    for _ in range(rounds):
        new = []
        for src, i in terms:
            for v, a, b in pairs:
                if a.src is not src:
                    continue
                k = sub(i, a.off)
                j = add(b.off, k)
                key = (v.get_id(), id(a), str(i))
                if key in seen:
                    continue
                seen.add(key)
                out.append(ex(implies(band(v, ge(k, 0), lt(k, a.n), lt(k, b.n)), T.eq(src.at(i), b.src.at(j)))))
                new.append((b.src, j))
        terms = new
    return [f for f in out if not isinstance(f, bool)]


def _try(f):
    try:
        return f()
    except (Fork, Imprecise):
        return None
