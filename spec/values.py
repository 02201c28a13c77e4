"""C01, C09, C21: elements."""
from spec.common import *

# C++ type, bytes of one component, components
TYPES = [('signed char', 1, 1), ('unsigned char', 1, 1), ('short', 2, 1), ('unsigned short', 2, 1), ('int', 4, 1), ('unsigned int', 4, 1),
         ('long', 8, 1), ('unsigned long', 8, 1), ('float', 4, 1), ('double', 8, 1), ('std::complex<float>', 4, 2),
         ('std::complex<double>', 8, 2), ('npy::boolean', 1, 1)]
NATIVE, BIG, LITTLE = 0, 1, 2


def elements(st, w, comps, n, name='el'):
    """n elements: the region, and the bit pattern of the component i"""
    src = Source(name, mul(n, comps), hi=(1 << (8 * w)) - 1)
    rid = st.alloc_arr(w, mul(n, comps), Content(src.at), 'data', ety=('int', 8 * w))
    return Ptr(rid, 0), src


def wire(src, w, total, big):
    """the bytes of total components in the byte order"""
    def alts(k):
        v = src.at(k)
        bs = [byte_of(v, j) for j in range(w)]
        return [(True, Rope((Lit(bs[::-1] if big else bs),)))]
    return Rope((Big(total, alts),))


def out_stream(st, rope=EMPTY):
    rid = st.alloc_flat(512, 'ostream')
    st.wr(rid).cells[0] = (8, OStr(rope=rope))
    return Ptr(rid, 0)


def in_stream(st, rope):
    rid = st.alloc_flat(512, 'istream')
    st.wr(rid).cells[0] = (8, IStr(rope))
    return Ptr(rid, 0)


def write_task(c, t, w, comps):
    fn = c.env.find('void npy::write_values<%s, char>(std::ostream&, %s const*, unsigned long, npy::endian_t)' % (t, t))
    for e in (NATIVE, BIG, LITTLE):
        st = c.start()
        n = mk('n', 0, (1 << 62) // (w * comps))
        p, src = elements(st, w, comps, n)
        pre = mk_src('before', mk('before.len', 0, 1 << 40))
        o = out_stream(st, pre.whole())

        def after(s):
            want = pre.whole() + wire(src, w, mul(n, comps), e == BIG)
            c.post_rope(s, get_obj(s, o).rope, want, 'write_values<%s> appends exactly the elements\' bytes (order %d)' % (t, e))
            c.post(s, bnot(get_obj(s, o).fail) if not isinstance(get_obj(s, o).fail, bool) else not get_obj(s, o).fail, 'the stream is good')
        for s in c.ret(c.call(st, fn, [o, p, n, e])):
            c.cases(s, after)


def header_info(c, st, dtype, endian, fortran, shape_rid, maxlen):
    """a npy::header_info object"""
    t = c.env.m.types.get('struct.npy::header_info')
    if t is None or len(t[1]) != 5:
        raise NoCode('struct npy::header_info has changed')
    p = Ptr(st.alloc_flat(c.env.m.sizeof(t), 'header_info'), 0)
    offs = [c.env.m.field_offset(t, i)[0] for i in range(5)]
    r = st.wr(p.rid)
    for o, v, sz in ((offs[0], dtype, 1), (offs[1], endian, 1), (offs[2], fortran, 1), (offs[4], maxlen, 8)):
        r.cells[o] = (sz, v)
    r.cells[offs[3]] = (24, VecVal(shape_rid, 8))
    return p


def read_task(c, t, w, comps):
    fn = c.env.find('void npy::read_values<%s, char>(std::istream&, %s*, unsigned long, npy::header_info const&)' % (t, t))
    for e in (NATIVE, BIG, LITTLE):
        st = c.start()
        n = mk('n', 0, (1 << 62) // (w * comps))
        src = Source('el', mul(n, comps), hi=(1 << (8 * w)) - 1)
        rid = st.alloc_arr(w, mul(n, comps), Content(lambda i: 0), 'data', ety=('int', 8 * w))
        after_ = mk_src('after', mk('after.len', 0, 1 << 40))
        inp = in_stream(st, wire(src, w, mul(n, comps), e == BIG) + after_.whole())
        sh = st.alloc_arr(8, 0, Content(None), 'shape', ety=('int', 64))
        h = header_info(c, st, 0, e, 0, sh, 0)

        def after(s):
            i = get_obj(s, inp)
            c.post(s, T.eq(i.vpos, mul(n, w * comps)), 'read_values<%s> consumes exactly the elements\' bytes (order %d)' % (t, e))
            k = fresh('i', 0, None)
            s.assume(lt(k, mul(n, comps)))
            s.ghost['inst'] = (k,)

            def element(s2):
                got = s2.regions[rid].content.get(k, s2.pc)
                c.post(s2, T.eq(got.bits if isinstance(got, FP) else got, src.at(k)),
                       'read_values<%s> restores every element (order %d)' % (t, e))
            c.cases(s, element)
        for s in c.ret(c.call(st, fn, [inp, Ptr(rid, 0), n, h])):
            c.cases(s, after)


def short_task(c, t, w, comps):
    """data that ends before the last element: the stream has failed afterwards, which is what load checks"""
    fn = c.env.find('void npy::read_values<%s, char>(std::istream&, %s*, unsigned long, npy::header_info const&)' % (t, t))
    for e in (NATIVE, BIG, LITTLE):
        st = c.start()
        n = mk('n', 0, (1 << 62) // (w * comps))
        size = mul(n, w * comps)
        src = mk_src('text', mk('text.len', 0, 1 << 62))
        st.assume(lt(src.length, size))
        rid = st.alloc_arr(w, mul(n, comps), Content(lambda i: 0), 'data', ety=('int', 8 * w))
        inp = in_stream(st, src.whole())
        sh = st.alloc_arr(8, 0, Content(None), 'shape', ety=('int', 64))
        h = header_info(c, st, 0, e, 0, sh, 0)

        def after(s):
            i = get_obj(s, inp)
            c.post(s, bor(gt(i.vpos, src.length), i.failx), 'the stream has failed (order %d)' % e)
        for s in c.ret(c.call(st, fn, [inp, Ptr(rid, 0), n, h])):
            c.cases(s, after)


for _t, _w, _c in TYPES:
    task('C05', 'read_values<%s> of too little data' % _t, ['void npy::read_values<%s, char>' % _t])(lambda c, a=(_t, _w, _c): short_task(c, *a))
for _t, _w, _c in TYPES:
    task('C01', 'write_values<%s>' % _t, ['void npy::write_values<%s, char>' % _t])(lambda c, a=(_t, _w, _c): write_task(c, *a))
    task('C01', 'read_values<%s>' % _t, ['void npy::read_values<%s, char>' % _t])(lambda c, a=(_t, _w, _c): read_task(c, *a))
task('C21', 'read_values<npy::boolean>', ['void npy::read_values<npy::boolean, char>'])(lambda c: read_task(c, 'npy::boolean', 1, 1))
