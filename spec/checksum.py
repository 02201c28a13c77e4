"""C15: npy_crc32 is the CRC-32 of ZIP, for every sequence of bytes.

The register of the bitwise definition is R(0) = 2^32 - 1, R(k + 1) = STEP(R(k), byte k), STEP being eight shifts by one
bit with the polynomial 0xEDB88320; the result is the complement of R(number of bytes).  The loop invariant of the code
is that its variable holds R(k) (or the complement of it); that one iteration of the code computes STEP is proved over
bit-vectors, for every register and every byte."""
from spec.common import *
from vc import bits as B
ONES = (1 << 32) - 1
POLY = 0xEDB88320


def bit_step(r, b):
    """8 steps of the definition, on 64-bit vectors"""
    one = z3.BitVecVal(1, 64)
    r = r ^ b
    for _ in range(8):
        r = z3.If(r & one == one, z3.LShR(r, 1) ^ z3.BitVecVal(POLY, 64), z3.LShR(r, 1))
    return r


class Register:
    def __init__(self, c, data):
        self.c, self.data = c, data
        self.name = fresh_name('crcreg')
        self.f = mkfun(self.name, 0, ONES)
        self.seen = set()

    def at(self, k):
        if isinstance(k, int) and k == 0:
            return ONES
        r = self.f(ex(k))
        pin(r)
        return r

    def start_of(self, v):
        """q where v is R(q) or its complement: (q, complement)"""
        for comp in (False, True):
            x = sub(ONES, v) if comp else v
            if T.eq(x, ONES) is True:
                return 0, comp
            if is_t(x) and x.decl().name() == self.name:
                return norm(x.arg(0)), comp
        return None

    def at_entry(self, ex_, st0, key):
        v0 = get_int(st0, key)
        if v0 is None:
            return []
        q = self.start_of(v0)
        if q is None:
            return []
        return [Closed(self, q[0], s, q[1]) for s in (1, 2, 4, 8, 16)]


def get_int(st, key):
    from vc.loops import get_comp
    try:
        v = get_comp(st, key)
    except Exception:
        return None
    return v if isinstance(v, int) or (is_t(v) and z3.is_int(v)) else None


class Closed:
    """the variable is R(q + s k), or its complement"""

    def __init__(self, reg, q, s, comp):
        self.reg, self.q, self.s, self.comp = reg, q, s, comp
        self.done = {}

    def __call__(self, k):
        r = self.reg.at(add(self.q, mul(self.s, k)))
        return sub(ONES, r) if self.comp else r

    def accept(self, k, got, pc):
        if not is_t(got):
            return False
        key = (pin(got), self.s)
        if key in self.done:
            return self.done[key]
        ok = self.done[key] = self.prove(k, got, pc)
        if ok:
            self.reg.c.ex.obls.append(Obl('one iteration is %d step%s of the bitwise CRC-32 definition' % (self.s, 's' * (self.s > 1)), True,
                                          'loop', kind='inv'))
        return ok

    def prove(self, k, got, pc):
        pos = add(self.q, mul(self.s, k))
        r0 = self.reg.at(pos)
        rv = z3.BitVec('reg', 64)
        bs = [(self.reg.data.at(add(pos, j)), z3.BitVec('byte%d' % j, 64)) for j in range(self.s)]

        def atom(x):
            if is_t(r0) and x.eq(r0):
                return rv
            for t, v in bs:
                if is_t(t) and x.eq(t):
                    return v
            if is_t(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() not in B.DEFS:
                for t, v in bs + [(r0, rv)]:
                    if prove(pc, T.eq(x, t)) is True:
                        return v
            return None
        try:
            g = B.to_bv(got, atom)
        except B.NoBits:
            return False
        want = rv
        for t, v in bs:
            want = bit_step(want, v)
        if self.comp:
            want = z3.BitVecVal(ONES, 64) - want
        hyp = [z3.ULE(rv, ONES)] + [z3.ULE(v, 255) for t, v in bs]
        return B.valid(z3.Implies(z3.And(hyp), g == want))


@task('C15', 'npy_crc32 of any bytes', ['npy::npy_crc32(string const&)', 'mz_crc32'])
def crc32(c):
    st = c.start()
    c.ex.symbolic_bits = True
    data = mk_src('data', mk('data.len', 0, 1 << 62))
    reg = Register(c, data)
    c.ex.ghosts = [reg]
    st.assume(T.eq(reg.f(z3.IntVal(0)), ONES))
    b = mk_string(st, data.whole())
    for s in c.ret(c.call(st, 'npy::npy_crc32(string const&)', [b])):
        c.post(s, T.eq(s.retval, sub(ONES, reg.f(ex(data.length)))), 'the result is the complement of the register after all bytes')
        c.post_rope(s, I.sv(c.ex, s, b).rope, data.whole(), 'the bytes are left alone')

