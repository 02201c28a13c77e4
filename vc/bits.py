"""Bit-level operations on symbolic integers.

The executor keeps integers as mathematical ones.  Where a task asks for it (Exec.symbolic_bits), an exclusive or, an
and/or of two symbolic values, or an element of a constant table at a symbolic position becomes a fresh symbol that is
only bounded (so that safety obligations about it are still decided), and its definition is kept here.  A closed form
for a loop that computes with such values is checked after expanding the definitions, over 64-bit vectors."""
import z3
from . import terms as T
from .terms import is_t, bounds, fresh, pin

DEFS = {}       # name of the symbol -> (op, args)
SECONDS = [0.0]


class NoBits(Exception):
    pass


def define(op, args, hi):
    for n, (o, a) in DEFS.items():
        if o == op and len(a) == len(args) and all(x is y or (is_t(x) and is_t(y) and x.eq(y)) or
                                                   (isinstance(x, int) and isinstance(y, int) and x == y) for x, y in zip(a, args)):
            return z3.Int(n)
    v = fresh('hvbits', 0, hi)
    DEFS[v.decl().name()] = (op, list(args))
    return v


def pow2(n):
    return n > 0 and n & (n - 1) == 0


def to_bv(t, atom):
    """the 64-bit vector of the integer term t; atom(term) -> 64-bit vector for the terms it knows, else None"""
    memo = {}
    W = 64

    def ranged(x):
        lo, hi = bounds(x)
        if lo is None or hi is None or lo < 0 or hi >= 1 << W:
            raise NoBits('unbounded %s' % (x,))

    def num(x):
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int):
            return z3.BitVecVal(x, W)
        i = pin(x)
        if i not in memo:
            memo[i] = build(x)
        return memo[i]

    def cond(x):
        if isinstance(x, bool):
            return z3.BoolVal(x)
        k = x.decl().kind()
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return x
        if k == z3.Z3_OP_AND:
            return z3.And([cond(y) for y in x.children()])
        if k == z3.Z3_OP_OR:
            return z3.Or([cond(y) for y in x.children()])
        if k == z3.Z3_OP_NOT:
            return z3.Not(cond(x.arg(0)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT) and z3.is_int(x.arg(0)):
            # equality holds modulo 2^64 of both sides in any case when their difference is small
            d = T.sub(T.norm(x.arg(0)), T.norm(x.arg(1)))
            if isinstance(d, int):
                v = {z3.Z3_OP_EQ: d == 0, z3.Z3_OP_LE: d <= 0, z3.Z3_OP_GE: d >= 0, z3.Z3_OP_LT: d < 0, z3.Z3_OP_GT: d > 0,
                     z3.Z3_OP_DISTINCT: d != 0}[k]
                return z3.BoolVal(v)
            lo, hi = bounds(d)
            if lo is None or hi is None or lo < -(1 << 62) or hi > 1 << 62:
                raise NoBits('comparison')
            b, z = num(d), z3.BitVecVal(0, W)
            return {z3.Z3_OP_EQ: b == z, z3.Z3_OP_LE: b <= z, z3.Z3_OP_GE: b >= z, z3.Z3_OP_LT: b < z, z3.Z3_OP_GT: b > z,
                    z3.Z3_OP_DISTINCT: b != z}[k]
        raise NoBits('condition %s' % (x,))

    def build(x):
        a = atom(x)
        if a is not None:
            return a
        if z3.is_int_value(x):
            return z3.BitVecVal(x.as_long(), W)
        k = x.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0 and x.decl().name() in DEFS:
            op, args = DEFS[x.decl().name()]
            if op == 'table':
                i = num(args[0])
                r = z3.BitVecVal(args[1][-1], W)
                for j in range(len(args[1]) - 2, -1, -1):
                    r = z3.If(i == j, z3.BitVecVal(args[1][j], W), r)
                return r
            u, v = num(args[0]), num(args[1])
            return {'xor': u ^ v, 'and': u & v, 'or': u | v}[op]
        ch = x.children()
        if k == z3.Z3_OP_ADD:
            r = num(ch[0])
            for y in ch[1:]:
                r = r + num(y)
            return r
        if k == z3.Z3_OP_SUB:
            r = num(ch[0])
            for y in ch[1:]:
                r = r - num(y)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -num(ch[0])
        if k == z3.Z3_OP_MUL:
            r = num(ch[0])
            for y in ch[1:]:
                r = r * num(y)
            return r
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(ch[1]) and pow2(ch[1].as_long()):
            m = ch[1].as_long()
            if k == z3.Z3_OP_MOD:       # of anything: two's complement agrees
                if m >= 1 << W:
                    raise NoBits('modulus')
                lo, hi = bounds(ch[0])
                return num(ch[0]) & (m - 1)
            ranged(ch[0])
            return z3.LShR(num(ch[0]), m.bit_length() - 1)
        if k == z3.Z3_OP_ITE:
            return z3.If(cond(ch[0]), num(ch[1]), num(ch[2]))
        raise NoBits('%s' % (x,))
    return num(t)


def valid(f, ms=30000):
    import time
    t0 = time.time()
    s = z3.SolverFor('QF_BV')
    s.set('timeout', ms)
    s.add(z3.Not(f))
    r = s.check()
    dt = time.time() - t0
    T.STATS.queries += 1
    T.STATS.time += dt
    T.STATS.by_backend['z3 (bit-vectors)'] = T.STATS.by_backend.get('z3 (bit-vectors)', 0) + 1
    return r == z3.unsat
