"""C04, C05, C09, C20: saving and loading a tensor, composed from the header and the values."""
from spec.common import *
from spec.shapes import *
from spec.calls import stub, calls, FAIL
from spec.dtypes import CODES as NPCODES, order_char
from spec.headers import shape_vector
from spec.values import header_info, in_stream, out_stream

HEADER_WRITER = 'void npy::write_npy_header<char>(std::ostream&, string const&, bool, std::vector<unsigned long> const&)'
HEADER_READER = 'npy::header_info npy::read_npy_header<char>(std::istream&)'


def longest(s, x):
    """the length of the longest of the first k elements"""
    return Rec('longest', 0, lambda p, k: ite(gt(x.val(k)[0].rope.length(), p), x.val(k)[0].rope.length(), p), 0, 1 << 40)


def save_tensor(c, t, fortran):
    """save = the header of the tensor's dtype, order and shape, then its values"""
    tt = 'npy::tensor<%s>' % t
    writer = 'void npy::write_values<%s, char>(std::ostream&, %s const*, unsigned long, npy::endian_t)' % (t, t)
    hd = mk_src('header', mk('header.len', 0, 1 << 20)).whole()
    vd = mk_src('values', mk('values.len', 0, 1 << 62)).whole()
    pre = mk_src('before', mk('before.len', 0, 1 << 40)).whole()

    def hw(ex, st, a):
        p, o = I.ost(ex, st, a[0])
        ex.setobj(st, p, o.with_(rope=o.rope + hd))
        return ((a[0], I.sv(ex, st, a[1]).rope, a[2], get_obj(st, a[3]), o), None)

    def vw(ex, st, a):
        p, o = I.ost(ex, st, a[0])
        ex.setobj(st, p, o.with_(rope=o.rope + vd))
        return ((a[0], a[1], a[2], a[3]), None)
    for e in (0, 1, 2):
        x, rs = tensors(c, t, fortran)
        for f in ('get_size(std::vector<unsigned long> const&)', 'get_ravel_strides(std::vector<unsigned long> const&, bool)'):
            c.ex.overrides.pop('%s::%s' % (tt, f), None)
        stub(c, HEADER_WRITER, 'header', hw)
        stub(c, writer, 'values', vw)
        for s in rs:
            identify(c, s, x)
            o = out_stream(s, pre)
            before = dict(s.regions)
            G = longest(s, x) if t == 'wstring' else None
            c.ex.ghosts = [G] if G else []
            for s2 in c.call(s, 'void npy::save<%s, char>(std::ostream&, %s const&, npy::endian_t)' % (tt, tt), [o, x.p, e]):
                def chk(s2):
                    l = calls(s2)
                    c.form(s2, len(l) >= 1 and l[0][0] == 'header', 'one header is written first')
                    if not l or l[0][0] != 'header':
                        return
                    st_, code, f, sh, o0 = l[0][2]
                    c.form(s2, st_ == o, 'to the stream')
                    if t == 'wstring':
                        want = lit('>U' if e == 1 else '<U') + Rope((Dec(G(x.size)),))
                    else:
                        k = NPCODES[CODES[t]]
                        want = lit(order_char(k, e) + k)
                    c.post_rope(s2, code, want, 'the header states the code of the element type in the byte order (%d)' % e)
                    c.post(s2, T.eq(truth(f), bool(fortran)), 'the header states the order')
                    same_numbers(c, s2, sh, x.n, x.D.at, 'the header states the shape')
                    got = get_obj(s2, o).rope
                    if l[0][3]:
                        c.post(s2, c.exc_is(s2, FAIL), 'an exception while writing the header is passed on')
                        c.form(s2, len(l) == 1, 'nothing else is written')
                        c.post_rope(s2, got, pre + hd, 'nothing else is written')
                        return
                    c.form(s2, len(l) == 2 and l[1][0] == 'values', 'the values are written once')
                    if len(l) != 2:
                        return
                    st_, q, n, e2 = l[1][2]
                    c.form(s2, st_ == o, 'to the stream')
                    c.post(s2, isinstance(q, Ptr) and q.rid == x.rid and T.eq(q.off, 0) is True, 'the values are those of the tensor')
                    c.post(s2, T.eq(n, x.size), 'all of them')
                    c.post(s2, T.eq(e2, e), 'in the byte order')
                    c.post_rope(s2, got, pre + hd + vd, 'the header is followed by the values and nothing else')
                    c.post(s2, (s2.status == 'exc') == l[1][3], 'exceptions are passed on')
                    s2.status = None
                    is_tensor(c, s2, x, x.p, 'the tensor is unchanged')
                c.cases(s2, chk)


def is_longest(c):
    """the dtype length of a unicode tensor is the length of its longest element"""
    st = c.start()
    n = mk('n', 0, 1 << 60)
    L = Source('length', n, hi=1 << 40)
    G = Rec('longest', 0, lambda p, k: ite(gt(L.at(k), p), L.at(k), p), 0, 1 << 40)
    W = Rec('witness', 0, lambda p, k: ite(gt(L.at(k), G(k)), k, p), 0, None)
    i, j = mk('i', 0, None), mk('j', 0, None)
    s = st.clone()
    s.assume(implies(lt(j, i), le(L.at(j), G(i))))
    c.post(s, implies(lt(j, add(i, 1)), le(L.at(j), G(add(i, 1)))), 'no element is longer (induction step)')
    s = st.clone()
    s.assume(bor(T.eq(G(i), 0), band(lt(W(i), i), T.eq(L.at(W(i)), G(i)))))
    i1 = add(i, 1)
    c.post(s, bor(T.eq(G(i1), 0), band(lt(W(i1), i1), T.eq(L.at(W(i1)), G(i1)))), 'some element is that long (induction step)')


def load_tensor(c, t):
    """load(stream, info): a tensor of the header's shape and order whose values are those of the stream"""
    tt = 'npy::tensor<%s>' % t
    es, per = ELEM[t]
    for fortran in (0, 1):
        rd = 'void npy::read_values<%s, char>(std::istream&, %s*, unsigned long, npy::header_info const&)' % (t, t)
        x, rs = tensors(c, t, fortran)
        c.form(rs[0], len(rs) == 1, 'one way to construct')
        s = rs[0]
        s.status = None
        ok = z3.Bool('enough_data')
        con, val = any_elements(s, t, x.size, 'read')
        x.val = val
        dt = mk('dtype', 0, 255)
        en = mk('endianness', 0, 2)
        maxlen = mk('max_element_length', 0, SMAX)
        h = header_info(c, s, dt, en, fortran, get_obj(s, x.v).rid, maxlen)
        inp = in_stream(s, mk_src('stream', mk('stream.len', 0, 1 << 62)).whole())
        identify(c, s, x)
        out = raw(s, 128, 'result')

        def rv(ex, st, a):
            r = st.wr(a[1].rid)
            info = (a[0], a[1], a[2], a[3], r.length)
            r.content = con
            p, i = I.ost(ex, st, a[0])
            ex.setobj(st, p, i.with_(failx=bor(i.failx, bnot(ok))))
            return info, None
        stub(c, rd, 'read_values', rv)
        for s2 in c.call(s, '%s::load(std::istream&, npy::header_info const&)' % tt, [out, inp, h]):
            def chk(s2):
                l = calls(s2)
                match = T.eq(dt, CODES[t])
                if not l:
                    c.post(s2, s2.status == 'exc', 'no tensor is returned without its values')
                    if s2.exc and s2.exc.tname == 'std::invalid_argument':
                        return              # get_size refuses the shape
                    if s2.exc and c.exc_is(s2, 'std::length_error', 'std::bad_alloc'):
                        c.post(s2, gt(mul(x.size, es), (1 << 63) - 1), 'more elements than a vector can hold')
                        return
                    c.post(s2, c.exc_is(s2, 'std::runtime_error'), 'another element type is refused with std::runtime_error')
                    c.post(s2, bnot(match), 'only another element type is refused')
                    return
                c.form(s2, len(l) == 1, 'the values are read once')
                c.post(s2, match, 'another element type is refused')
                st_, q, n, h2, cap = l[0][2]
                c.form(s2, st_ == inp, 'from the stream')
                c.form(s2, h2 == h, 'with the header')
                c.post(s2, T.eq(n, x.size), 'as many values as the shape says')
                c.post(s2, band(T.eq(q.off, 0), T.eq(cap, mul(x.size, per))), 'into the elements of the tensor')
                if l[0][3]:
                    c.post(s2, c.exc_is(s2, FAIL), 'exceptions are passed on')
                    return
                if s2.status == 'exc':
                    c.post(s2, c.exc_is(s2, 'std::runtime_error'), 'missing data is refused with std::runtime_error')
                    c.post(s2, bnot(ok), 'only missing data is refused')
                    return
                c.post(s2, ok, 'missing data is refused')
                s2.status = None
                is_tensor(c, s2, x, out, 'loaded')
                c.form(s2, values_of(c, s2, x, out) == q.rid, 'the elements are the values read')
            c.cases(s2, chk)


def load_stream(c, t):
    """load(stream) = read_npy_header, then load(stream, info)"""
    tt = 'npy::tensor<%s>' % t

    def hr(ex, st, a):
        i = I.ost(ex, st, a[1])[1]
        return ((a[0], a[1], i), None)

    def tl(ex, st, a):
        return ((a[0], a[1], a[2]), None)
    st = c.start()
    inp = in_stream(st, mk_src('stream', mk('stream.len', 0, 1 << 62)).whole())
    out = raw(st, 128, 'result')
    sh, _ = shape_vector(c, st, mk('rank', 0, 1 << 40))
    h = header_info(c, st, mk('dtype', 0, 255), mk('endian', 0, 2), mk('order', 0, 1), get_obj(st, sh).rid, mk('maxlen', 0, SMAX))
    fields = dict(st.regions[h.rid].cells)

    def hr2(ex, st, a):
        r = st.wr(a[0].rid)
        for o, v in fields.items():
            r.cells[a[0].off + o] = v
        return hr(ex, st, a)
    stub(c, HEADER_READER, 'header', hr2)
    stub(c, '%s::load(std::istream&, npy::header_info const&)' % tt, 'load', tl)
    for s in c.call(st, '%s npy::load<%s, char>(std::istream&)' % (tt, tt), [out, inp]):
        def chk(s):
            l = calls(s)
            c.form(s, len(l) >= 1 and l[0][0] == 'header', 'the header is read first')
            if not l or l[0][0] != 'header':
                return
            c.form(s, l[0][2][1] == inp, 'from the stream')
            if l[0][3]:
                c.post(s, c.exc_is(s, FAIL), 'an exception while reading the header is passed on')
                c.form(s, len(l) == 1, 'and nothing else is read')
                return
            c.form(s, len(l) == 2 and l[1][0] == 'load', 'the tensor is loaded once')
            if len(l) != 2:
                return
            c.form(s, l[1][2][0] == out and l[1][2][1] == inp and l[1][2][2] == l[0][2][0], 'from the stream, with the header, and returned')
            c.post(s, (s.status == 'exc') == l[1][3], 'exceptions are passed on')
        c.cases(s, chk)


def peek_stream(c):
    def hr(ex, st, a):
        return ((a[0], a[1]), None)
    st = c.start()
    inp = in_stream(st, mk_src('stream', mk('stream.len', 0, 1 << 62)).whole())
    out = raw(st, 128, 'result')
    stub(c, HEADER_READER, 'header', hr)
    for s in c.call(st, 'npy::header_info npy::peek<char>(std::istream&)', [out, inp]):
        l = calls(s)
        c.form(s, len(l) == 1, 'the header is read once')
        if len(l) == 1:
            c.form(s, l[0][2] == (out, inp), 'from the stream, and returned')
            c.post(s, (s.status == 'exc') == l[0][3], 'exceptions are passed on')


task('C20', 'peek(stream) is read_npy_header', [])(peek_stream)
task('C09', 'the longest element', [])(is_longest)
for _t in ELEM:
    _p = ['C04', 'C09'] if _t == 'wstring' else ['C04']
    for _f in (0, 1):
        task(_p, 'save<tensor<%s>>, %s order' % (_t, ('C', 'Fortran')[_f]), [])(lambda c, t=_t, f=_f: save_tensor(c, t, f))
    task(_p + ['C05'], 'tensor<%s>::load' % _t, [])(lambda c, t=_t: load_tensor(c, t))
    task(_p + ['C05', 'C20'], 'load<tensor<%s>>(stream)' % _t, [])(lambda c, t=_t: load_stream(c, t))
