"""C03, C05, C20: reading NPY headers."""
from spec.common import *
from spec.headers import MAGIC, dictionary, dims_text, shape_vector
from spec.calls import stub, calls, FAIL
from spec.values import in_stream
from spec.shapes import raw, same_numbers, truth

CTOR = 'npy::header_info::header_info(string const&)'
READ = 'npy::header_info npy::read_npy_header<char>(std::istream&)'


def parser_stub(c):
    def h(ex, st, a):
        return ((a[0], I.sv(ex, st, a[1]).rope), None)
    stub(c, CTOR, 'dictionary', h)


def read_header(c):
    """any bytes: the magic string, the version, the length, the dictionary"""
    st = c.start()
    src = mk_src('stream', mk('stream.len', 0, 1 << 62))
    inp = in_stream(st, src.whole())
    pos = mk('pos', 0, 1 << 62)
    st.assume(le(pos, src.length))
    i = get_obj(st, inp)
    st.wr(inp.rid).cells[0] = (8, i.with_(vpos=pos))
    out = raw(st, 128, 'result')
    parser_stub(c)
    left = sub(src.length, pos)
    b = lambda k: src.at(add(pos, k))
    magic = band(*[T.eq(b(k), MAGIC[k]) for k in range(6)])
    v1 = band(T.eq(b(6), 1), T.eq(b(7), 0))
    v2 = band(T.eq(b(6), 2), T.eq(b(7), 0))
    l1 = add(b(8), mul(256, b(9)))
    l2 = add(l1, add(mul(1 << 16, b(10)), mul(1 << 24, b(11))))
    ok1 = band(ge(left, 10), magic, v1, ge(left, add(10, l1)))
    ok2 = band(ge(left, 12), magic, v2, ge(left, add(12, l2)))
    for s in c.call(st, READ, [out, inp]):
        def chk(s):
            l = calls(s)
            if not l:
                c.post(s, c.exc_is(s, 'std::exception'), 'other input is refused with a standard exception')
                c.post(s, bnot(bor(ok1, ok2)), 'a well-formed header is not refused')
                return
            c.form(s, len(l) == 1, 'the dictionary is parsed once')
            c.post(s, bor(ok1, ok2), 'wrong magic string, version or a truncated header is refused')
            if decide(v1, s.pc):
                h, n = 10, l1
            else:
                h, n = 12, l2
            c.post_rope(s, l[0][2][1], Rope((Slice(src, add(pos, h), n),)), 'the dictionary is the stated number of bytes that follow')
            c.post(s, T.eq(get_obj(s, inp).vpos, add(pos, add(h, n))), 'the stream is left behind the header')
            c.form(s, l[0][2][0] == out, 'its header_info is returned')
            c.post(s, (s.status == 'exc') == l[0][3], 'exceptions are passed on')
            if s.status == 'ret':
                c.post(s, bnot(get_obj(s, inp).failx), 'the stream is good')
        c.cases(s, chk)


def fields(c, s, out):
    t = c.env.m.types.get('struct.npy::header_info')
    offs = [c.env.m.field_offset(t, i)[0] for i in range(5)]
    cells = s.regions[out.rid].cells
    return [cells.get(o, (0, None))[1] for o in offs]


def same_header(c, s, out, dtype, endian, fortran, n, D, maxlen, what=''):
    d, e, f, v, m = fields(c, s, out)
    c.post(s, T.eq(d, dtype), what + 'the element type')
    c.post(s, T.eq(e, endian), what + 'the byte order')
    c.post(s, T.eq(truth(f), bool(fortran)), what + 'the order')
    c.post(s, T.eq(m, maxlen), what + 'the unicode length')
    if not isinstance(v, VecVal):
        raise Imprecise('shape')
    same_numbers(c, s, v, n, D.at, what + 'the shape')


def dims_concrete(src, n):
    t = lit(b'(')
    for i in range(n):
        t = t + (lit(b', ') if i else EMPTY) + Rope((Dec(src.at(i)),))
    return t + (lit(b',)') if n == 1 else lit(b')'))


def parse_written(c, rank, code, dtype, endian, maxlen, fortrans=(0, 1)):
    """the dictionary that write_npy_header writes is parsed back"""
    for fortran in fortrans:
        st = c.start()
        n = rank if rank is not None else mk('rank', 2, 1 << 16)
        v, src = shape_vector(c, st, n)
        text = dictionary(code, fortran, dims_text(src, n, st.pc, 2) if rank is None else dims_concrete(src, rank)) + Rope((Rep(32, mk('spaces', 0, 64)),)) + lit(b'\n')
        st.assume(lt(text.length(), 1 << 16))
        p = mk_string(st, text)
        out = raw(st, 128, 'result')
        for s in c.ret(c.call(st, CTOR, [out, p])):
            c.cases(s, lambda s: same_header(c, s, out, dtype, endian, fortran, n, src, maxlen))


task(['C03', 'C05', 'C20'], 'read_npy_header: magic string, version, length', [READ])(read_header)
CODES = {'i1': 0, 'u1': 1, 'i2': 2, 'u2': 3, 'i4': 4, 'u4': 5, 'i8': 6, 'u8': 7, 'f4': 8, 'f8': 9, 'c8': 10, 'c16': 11, 'b1': 12}


def parse_code(c, code, dtype, endian):
    for r in (0, 1, None):
        parse_written(c, r, lit(code), dtype, endian, 0)


def parse_unicode(c, e):
    n = mk('maxlen', 0, (1 << 31) - 1)
    for r in (0, None):
        parse_written(c, r, lit(b'><'[e - 1:e] + b'U') + Rope((Dec(n),)), 13, e, n)
    c.assumed.add('unicode elements are shorter than 2^31 characters')


for _n, _d in CODES.items():
    for _e in ((0,) if _n[1:] == '1' else (1, 2)):
        task('C03', 'header_info of a written dictionary, %s%s' % ('|><'[_e], _n), [CTOR])(
            lambda c, n=_n, d=_d, e=_e: parse_code(c, ('|><'[e] + n).encode(), d, e))
for _e in (1, 2):
    task(['C03', 'C09'], 'header_info of a written dictionary, %sU' % '|><'[_e], [CTOR])(lambda c, e=_e: parse_unicode(c, e))


@task('C03', 'lemma: the text of the dimensions as one sequence')
def one_sequence(c):
    n = mk('rank', 2, 1 << 40)
    st = c.start()
    src = Source('dim', n, hi=U64 - 1)
    c.post_rope(st, dims_text(src, n, st.pc, 2), dims_text(src, n, st.pc), 'every text of at least two dimensions')
