"""C06: dtype codes."""
from vc.task import *

# NumPy's codes: the type's enumerator in npy::data_type_t and the code without its order character
CODES = ['i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f4', 'f8', 'c8', 'c16', 'b1']
UNICODE = 13
NATIVE, BIG, LITTLE = 0, 1, 2


def order_char(code, endian):
    if code[1:] == '1':
        return '|'
    return '>' if endian == BIG else '<'     # the host is little-endian


def string_at(c, st, p):
    v = c.ex.getobj(st, p)
    if not isinstance(v, StrVal):
        raise Imprecise('no string')
    return v.rope


@task('C06', 'to_dtype: every type and order', ['npy::to_dtype(npy::data_type_t, npy::endian_t)'])
def to_dtype(c):
    for d, code in enumerate(CODES):
        for e in (NATIVE, BIG, LITTLE):
            for s in c.ret(c.call(c.start(), 'npy::to_dtype', [d, e])):
                c.post_rope(s, string_at(c, s, s.retval), lit(order_char(code, e) + code),
                            'to_dtype(%s, %d) is NumPy\'s code' % (code, e))
    for e in (NATIVE, BIG, LITTLE):
        for s in c.call(c.start(), 'npy::to_dtype', [UNICODE, e]):
            c.post(s, c.exc_is(s, 'std::invalid_argument'), 'to_dtype(unicode) throws std::invalid_argument')


@task('C06', 'from_dtype inverts to_dtype', ['npy::from_dtype(string const&)', 'npy::to_dtype(npy::data_type_t, npy::endian_t)'])
def inverse(c):
    for d, code in enumerate(CODES):
        for e in (NATIVE, BIG, LITTLE):
            for s in c.ret(c.call(c.start(), 'npy::to_dtype', [d, e])):
                s.status = None
                for s2 in c.ret(c.call(s, 'npy::from_dtype', [s.retval])):
                    p = s2.retval
                    ty = c.env.find('npy::to_dtype').params[0][0]
                    c.post(s2, T.eq(c.ex.load(s2, p, ty), d), 'from_dtype(to_dtype(%s, %d)) is the type' % (code, e))
                    we = NATIVE if code[1:] == '1' else (BIG if e == BIG else LITTLE)
                    c.post(s2, T.eq(c.ex.load(s2, Ptr(p.rid, add(p.off, ty[1] // 8)), ty), we),
                           'from_dtype(to_dtype(%s, %d)) is the order' % (code, e))


@task('C06', 'from_dtype refuses every other string', ['npy::from_dtype(string const&)'])
def refuses(c):
    st = c.start()
    src = mk_src('code')
    p = mk_string(st, src.whole())
    known = [order_char(code, e) + code for code in CODES for e in (BIG, LITTLE)]
    n = 0
    for s in c.call(st, 'npy::from_dtype', [p]):
        isk = bor(*[eq_cond(src.whole(), lit(k), s.pc) for k in known])
        if s.status == 'exc':
            c.post(s, c.exc_is(s, 'std::exception'), 'the exception is a standard one')
            c.post(s, bnot(isk), 'from_dtype throws only for unknown codes')
        else:
            n += 1
            c.post(s, isk, 'from_dtype accepts only NumPy codes')
    c.post(st, n > 0, 'from_dtype accepts some code')
