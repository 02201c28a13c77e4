"""C01, C09: unicode elements on the wire."""
from spec.common import *
from spec.shapes import any_elements
from spec.tensors import longest
from vc.loops import Invariant, get_comp, is_intlike
from spec.values import in_stream, out_stream, header_info, NATIVE, BIG

T_ = 'wstring'


def wstrings(st, n, name='el'):
    con, val = any_elements(st, 'wstring', n, name)
    rid = st.alloc_arr(32, n, con, 'data')
    return Ptr(rid, 0), val


def not_longer(n, G, name='el'):
    """the lemma of spec/tensors.py: no element is longer than the longest"""
    ln = mkfun(name + '_length', 0, 1 << 40)
    T.FUNAX[name + '_length'] = lambda i: [implies(band(ge(i, 0), lt(i, n)), le(ln(i), G(n)))]


def units(rope, big):
    """the bytes of the characters"""
    p, = rope.ps
    n = rope.length()

    def alts(j):
        bs = [byte_of(p.src.at(j), b) for b in range(4)]
        return [(True, Rope((Lit(bs[::-1] if big else bs),)))]
    return Rope((Big(n, alts),))


def wire(val, n, m, big):
    def alts(i):
        s = val(i)[0].rope
        return [(True, units(s, big) + Rope((Rep(0, mul(sub(m, s.length()), 4)),)))]
    return Rope((Big(n, alts),))


def write_task(c):
    fn = 'void npy::write_values<%s, char>(std::ostream&, %s const*, unsigned long, npy::endian_t)' % (T_, T_)
    for e in (NATIVE, BIG, 2):
        st = c.start()
        n = mk('n', 0, 1 << 50)
        p, val = wstrings(st, n)

        class X:
            pass
        x = X()
        x.val = val
        G = longest(st, x)
        c.ex.ghosts = [G]
        not_longer(n, G)
        pre = mk_src('before', mk('before.len', 0, 1 << 40))
        o = out_stream(st, pre.whole())

        def after(s):
            want = pre.whole() + wire(val, n, G(n), e == BIG)
            c.post_rope(s, get_obj(s, o).rope, want, 'the characters of each element, each in four bytes, padded with zeros to the longest element (order %d)' % e)
        for s in c.ret(c.call(st, fn, [o, p, n, e])):
            c.cases(s, after)


class Kept:
    """the length of element i after j of its units: one more than the index of the last that is not zero"""

    def __init__(self, name, val, rid):
        self.f = mkfun(name, 0, None, arity=2, ax=lambda i, j: [
            implies(le(j, 0), T.eq(self.f(i, j), 0)),
            implies(ge(j, 1), T.eq(self.f(i, j), ite(T.eq(val(i, sub(j, 1)), 0), self.f(i, ex(sub(j, 1))), j))),
            implies(ge(j, 0), le(self.f(i, j), j))])      # by induction, see kept_lemma
        self.rid = rid

    def __call__(self, i, j):
        return self.f(ex(i), ex(j))

    def at_entry(self, exr, st0, key):
        """in the loop over the units of element i: the element the cursor is at"""
        out = []
        for r in st0.regions.values():
            if r.kind == 'flat':
                for _, v in r.cells.values():
                    if isinstance(v, Ptr) and v.rid == self.rid:
                        i = divc(v.off, 32)
                        out.append(lambda j, i=i: self(i, j))
        return out


def kept_lemma(c):
    """the number of units kept is at most the number of units (induction step), and is right"""
    st = c.start()
    v = mkfun('some_unit', 0, (1 << 32) - 1, arity=2)
    f = mkfun('some_kept', 0, None, arity=2)
    i, j, q = mk('i', 0, None), mk('j', 0, None), mk('q', 0, None)
    nxt = ite(T.eq(v(i, j), 0), f(i, j), j + 1)
    s = st.clone()
    s.assume(le(f(i, j), j))
    c.post(s, le(nxt, add(j, 1)), 'no more than there are')
    s = st.clone()
    s.assume(le(f(i, j), j))
    s.assume(implies(gt(f(i, j), 0), bnot(T.eq(v(i, f(i, j) - 1), 0))))
    c.post(s, implies(gt(nxt, 0), bnot(T.eq(v(i, nxt - 1), 0))), 'the last one kept is not zero')
    s = st.clone()
    s.assume(implies(band(ge(q, f(i, j)), lt(q, j)), T.eq(v(i, q), 0)))
    s.assume(le(f(i, j), j))
    c.post(s, implies(band(ge(q, nxt), le(q, j)), T.eq(v(i, q), 0)), 'those after it are zero')


def read_task(c):
    fn = 'void npy::read_values<%s, char>(std::istream&, %s*, unsigned long, npy::header_info const&)' % (T_, T_)
    for e in (NATIVE, BIG, 2):
        st = c.start()
        n = mk('n', 0, 1 << 40)
        m = mk('m', 0, 1 << 20)
        total = mul(n, m)
        u = Source('unit', total, hi=(1 << 32) - 1)
        val = lambda i, j: u.at(add(mul(i, m), j))

        def alts(x):
            bs = [byte_of(u.at(x), b) for b in range(4)]
            return [(True, Rope((Lit(bs[::-1] if e == BIG else bs),)))]
        rid = st.alloc_arr(32, n, Content(lambda i: {0: (32, StrVal(EMPTY, 4))}), 'data')
        K = Kept('kept%d' % e, val, rid)
        c.ex.ghosts = [K]
        after_ = mk_src('after', mk('after.len', 0, 1 << 40))
        inp = in_stream(st, Rope((Big(total, alts),)) + after_.whole())
        sh = st.alloc_arr(8, 0, Content(None), 'shape', ety=('int', 64))
        h = header_info(c, st, 0, e, 0, sh, m)

        def after(s):
            i = get_obj(s, inp)
            c.post(s, T.eq(i.vpos, mul(mul(n, m), 4)), 'consumes exactly the elements (order %d)' % e)
            k = fresh('i', 0, None)
            s.assume(lt(k, n))
            s.ghost['inst'] = (k,)

            def element(s2):
                got = s2.regions[rid].content.get(k, s2.pc)[0][1]
                want = Source('unit_of', m, fun=lambda j: val(k, j), hi=(1 << 32) - 1)
                c.post_rope(s2, got.rope, rope_slice(want.whole(), 0, K(k, m), s2.pc), 'every element is the units up to the last that is not zero')
            c.cases(s, element)
        for s in c.ret(c.call(st, fn, [inp, Ptr(rid, 0), n, h])):
            c.cases(s, after)


task('C09', 'write_values<wstring>', ['void npy::write_values<%s, char>' % T_])(write_task)
task('C09', 'read_values<wstring>', ['void npy::read_values<%s, char>' % T_])(read_task)
task('C09', 'what is kept of an element', [])(kept_lemma)



class ShortLoop(Invariant):
    """what the loops over the elements and over the units of one element consume while the stream is good: 4m bytes an
    element, 4 bytes a unit; what they keep of it is not looked at
    (hv: arbitrary, so that nothing is refuted on account of it)"""

    def __init__(self, stream, rid, n, m):
        self.stream, self.rid, self.n, self.m = stream, rid, n, m
        self.loops = []         # headers, the outer one first
        self.counters = {}

    def is_flag(self, key, region, value):
        return Invariant.is_flag(self, key, region, value) or key[1] == 'cell' and key[3] in ('failx', 'eofx')

    def loop(self, st0):
        h = st0.frames[-1].block
        if h not in self.loops:
            self.loops.append(h)
        return h

    def counter(self, st0):
        c = self.counters.get(self.loop(st0))
        return max(c, key=lambda x: x[0]) if c else None

    def steps(self, st0, st):
        k = self.counter(st0)
        return sub(get_comp(st, k), get_comp(st0, k)) if k is not None else 0

    def consumed(self, st0, st):
        unit = mul(self.m, 4) if self.loop(st0) == self.loops[0] else 4
        return add(get_obj(st0, self.stream).vpos, mul(unit, self.steps(st0, st)))

    def forms(self, st0, key, kind):
        h, v = kind

        def form(f, late=False, any=True):
            f.any, f.late = any, late
            return [f]
        if key[1] == 'content' and key[0] == self.rid:
            return form(lambda st: any_elements(st, 'wstring', None, fresh_name('hvkept'))[0])
        if key[1] != 'cell':
            return []
        if key[3] == 'vpos':
            return form(lambda st: fresh('hvpos', 0, 1 << 63) if get_obj(st, self.stream).failx else self.consumed(st0, st), late=True)
        if key[3] is None and key[4] == 8 and is_intlike(h) and is_intlike(v) and T.eq(sub(v, h), 1) is True:
            self.counters.setdefault(self.loop(st0), []).append(key)
            return form(lambda st: fresh('hvcount', 0, 1 << 62))
        if isinstance(h, Ptr) and h.rid == self.rid:
            return form(lambda st: Ptr(h.rid, add(h.off, mul(32, self.steps(st0, st)))), late=True, any=False)
        if key[3] is None and is_intlike(h):
            return form(lambda st: fresh('hv', 0, (1 << (8 * key[4])) - 1))
        return []

    def since(self, st0, st):
        i = get_obj(st, self.stream)
        return bor(i.failx, band(T.eq(i.vpos, self.consumed(st0, st)), le(i.vpos, i.rope.length()),
                                 le(self.steps(st0, st), self.n if self.loop(st0) == self.loops[0] else self.m)))


def short_task(c, e, r):
    """data that ends before the last element (r bytes into a unit): the stream has failed afterwards, which is what load checks"""
    fn = 'void npy::read_values<%s, char>(std::istream&, %s*, unsigned long, npy::header_info const&)' % (T_, T_)
    st = c.start()
    n = mk('n', 0, 1 << 40)
    m = mk('m', 0, 1 << 20)
    q = mk('q', 0, 1 << 60)     # complete units
    st.assume(lt(q, mul(n, m)))
    u = Source('unit', q, hi=(1 << 32) - 1)
    def alts(x):
        bs = [byte_of(u.at(x), b) for b in range(4)]
        return [(True, Rope((Lit(bs[::-1] if e == BIG else bs),)))]
    rid = st.alloc_arr(32, n, Content(lambda i: {0: (32, StrVal(EMPTY, 4))}), 'data')
    rope = Rope((Big(q, alts),)) + mk_src('cut', r).whole() if r else Rope((Big(q, alts),))
    inp = in_stream(st, rope)
    sh = st.alloc_arr(8, 0, Content(None), 'shape', ety=('int', 64))
    h = header_info(c, st, 0, e, 0, sh, m)
    c.ex.finite[c.env.find(fn).dname] = ShortLoop(inp, rid, n, m)

    def after(s):
        i = get_obj(s, inp)
        c.post(s, bor(gt(i.vpos, add(mul(q, 4), r)), i.failx), 'the stream has failed')
    for s in c.call(st, fn, [inp, Ptr(rid, 0), n, h]):
        if s.status == 'ret':       # an exception refuses the data as well
            c.cases(s, after)


for _e in (NATIVE, BIG, 2):
    for _r in range(4):
        task('C05', 'read_values<wstring> of too little data (order %d, cut after %d bytes of a character)' % (_e, _r),
             ['void npy::read_values<%s, char>' % T_])(lambda c, a=(_e, _r): short_task(c, *a))
