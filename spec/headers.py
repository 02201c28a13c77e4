"""C02, C03, C05, C20: NPY headers."""
from spec.common import *
from spec.values import out_stream, in_stream

MAGIC = b'\x93NUMPY'


def shape_vector(c, st, n, name='dim'):
    """a vector of n dimensions"""
    src = Source(name, n, hi=U64 - 1)
    rid = st.alloc_arr(8, n, Content(src.at), 'shape', ety=('int', 64))
    v = Ptr(st.alloc_flat(24, 'vector'), 0)
    st.wr(v.rid).cells[0] = (24, VecVal(rid, 8))
    return v, src


def dims_text(src, n, pc, form=0):
    """(d0, d1, ...) as NumPy writes it; the two forms are the same text (separators after or before)"""
    if quick(T.eq(n, 0), pc) is True:
        return lit(b'()')
    if quick(T.eq(n, 1), pc) is True:
        return lit(b'(') + Rope((Dec(src.at(0)),)) + lit(b',)')
    if form == 2:
        # one sequence; the same text: its last element is apart in the other forms
        return lit(b'(') + Rope((Big(n, lambda k: [
            (lt(k, sub(n, 1)), Rope((Dec(src.at(k)),)) + lit(b', ')),
            (ge(k, sub(n, 1)), Rope((Dec(src.at(k)),)))]),)) + lit(b')')
    if form:
        return lit(b'(') + Rope((Dec(src.at(0)),)) + \
            Rope((Big(sub(n, 1), lambda k: [(True, lit(b', ') + Rope((Dec(src.at(add(k, 1))),)))]),)) + lit(b')')
    return lit(b'(') + Rope((Big(sub(n, 1), lambda k: [(True, Rope((Dec(src.at(k)),)) + lit(b', '))]),)) + \
        Rope((Dec(src.at(sub(n, 1))),)) + lit(b')')


def same_text(c, s, got, want):
    """if the two are equal, so are their lengths: a lemma about the sums of element lengths"""
    if same_rope(got, want, s.pc):
        s.assume(T.eq(got.length(), want.length()))
        return True
    return False


def dictionary(dtype, fortran, dims):
    return lit(b"{'descr': '") + dtype + lit(b"', 'fortran_order': ") + lit(b'True' if fortran else b'False') + \
        lit(b", 'shape': ") + dims + lit(b', }')


def write_header(c, rank=None):
    fn = c.env.find('void npy::write_npy_header<char>(std::ostream&, string const&, bool, std::vector<unsigned long> const&)')
    for fortran in (0, 1):
        st = c.start()
        n = rank if rank is not None else mk('rank', 2, 1 << 40)
        v, src = shape_vector(c, st, n)
        dtype = mk_src('dtype', mk('dtype.len', 0, 1 << 40)).whole()
        pre = mk_src('before', mk('before.len', 0, 1 << 40)).whole()
        o = out_stream(st, pre)
        dp = mk_string(st, dtype)

        texts = []

        def chk(s):
            r = get_obj(s, o).rope
            d = dictionary(dtype, fortran, dims_text(src, n, s.pc))
            # the dimensions as the code has written them
            if s.status == 'ret':
                texts.extend([q] for q in r.ps if isinstance(q, Big))
            for big in texts:
                j = 0
                for form in (0, 1):
                    w = dims_text(src, n, s.pc, form)
                    cut = Rope((big[0],))
                    if form:
                        cut = Rope((Dec(src.at(0)),)) + cut
                    for g in (lit(b'(') + cut + lit(b')'), lit(b'(') + cut + Rope((Dec(src.at(sub(n, 1))),)) + lit(b')')):
                        if same_text(c, s, g, w):
                            d = dictionary(dtype, fortran, w)
                            j = 1
                            break
                    if j:
                        break
            D = d.length()
            pad = modc(sub(64, modc(add(D, 11), 64)), 64)
            dl = add(add(D, 1), pad)
            if s.status == 'exc':
                c.post(s, c.exc_is(s, 'std::exception'), 'a refusal is a standard exception')
                c.post_rope(s, r, pre, 'nothing is written')
                c.post(s, gt(dl, 0xFFFF), 'only a header whose length does not fit in 16 bits is refused')
                return
            c.post(s, le(dl, 0xFFFF), 'a header whose length does not fit in 16 bits is refused')
            want = pre + lit(MAGIC + b'\x01\x00') + le_bytes(dl, 2) + d + Rope((Rep(32, pad),)) + lit(b'\n')
            c.post_rope(s, r, want, 'the header is the magic string, version, length, dictionary, padding and newline')
            c.post(s, T.eq(modc(sub(r.length(), pre.length()), 64), 0), 'the length of the header is a multiple of 64')
        # a path that has written nothing is judged with the texts the others have written
        for s in sorted(c.call(st, fn, [o, dp, fortran, v]), key=lambda s: s.status != 'ret'):
            c.cases(s, chk)


for _r, _n in ((0, 'rank 0'), (1, 'rank 1'), (None, 'any rank above 1')):
    task('C02', 'write_npy_header, %s' % _n, ['npy::write_npy_header<char>'])(lambda c, r=_r: write_header(c, r))
