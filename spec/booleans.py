"""C21: npy::boolean."""
from spec.common import *

INTS = [('char', 1), ('signed char', 1), ('unsigned char', 1), ('short', 2), ('unsigned short', 2), ('int', 4), ('unsigned int', 4),
        ('long', 8), ('unsigned long', 8), ('long long', 8), ('unsigned long long', 8), ('wchar_t', 4), ('char16_t', 2), ('char32_t', 4)]
FLOATS = [('float', 4), ('double', 8), ('long double', 16)]
B = 'npy::boolean'


def truth(v):
    """0 or 1"""
    if isinstance(v, bool):
        return int(v)
    return ite(v, 1, 0) if is_t(v) and z3.is_bool(v) else v


def place(st, size, name, v=None):
    p = Ptr(st.alloc_flat(size, name), 0)
    if v is not None:
        st.wr(p.rid).cells[0] = (size, v)
    return p


def byte_at(s, p):
    v = s.regions[p.rid].cells[p.off][1]
    return truth(v) if isinstance(v, bool) or (is_t(v) and z3.is_bool(v)) else v


def value(t, w):
    """any value of the type, and whether it is true (different from zero)"""
    n = 80 if t == 'long double' else 8 * w
    bits = mk('bits', 0, (1 << n) - 1)
    if t in ('float', 'double', 'long double'):     # both zeros are false; NaN and everything else is true
        return FP(bits, n), bnot(bor(T.eq(bits, 0), T.eq(bits, 1 << (n - 1))))
    return bits, bnot(T.eq(bits, 0))


def is_value(c, s, p, tr, what):
    v = byte_at(s, p)
    c.post(s, implies(tr, T.eq(v, 1)), what + ': a true value is stored as the byte 1')
    c.post(s, implies(bnot(tr), T.eq(v, 0)), what + ': a false value is stored as the byte 0')


def conversions(c, t, w):
    for assign in (0, 1):
        st = c.start()
        v, tr = value(t, w)
        src = place(st, w, 'source', v)
        old = mk('old', 0, 255)
        p = place(st, 1, 'boolean', old if assign else None)
        fn = '%s& %s::operator=<%s>(%s const&)' % (B, B, t, t) if assign else '%s::boolean<%s>(%s const&)' % (B, t, t)
        for s in c.ret(c.call(st, fn, [p, src])):
            def chk(s):
                is_value(c, s, p, tr, 'assigned' if assign else 'constructed')
                if assign:
                    c.post(s, s.retval == p, 'the assignment returns its object')
                for s2 in c.ret(c.call(cleared(s), B + '::operator bool() const', [p])):
                    c.post(s2, T.eq(truth(s2.retval), truth(tr)), 'it converts back to the truth value')
            c.cases(s, chk)


def cleared(s):
    s = s.clone()
    s.status = None
    return s


def simple(c):
    st = c.start()
    p = place(st, 1, 'boolean')
    for s in c.ret(c.call(st, B + '::boolean()', [p])):
        c.post(s, T.eq(byte_at(s, p), 0), 'starts as false')
    st = c.start()
    p = place(st, 1, 'boolean')
    b = z3.Bool('b')
    for s in c.ret(c.call(st, B + '::boolean(bool)', [p, b])):
        c.cases(s, lambda s: is_value(c, s, p, b, 'constructed from bool'))
    st = c.start()
    v = mk('byte', 0, 255)
    p = place(st, 1, 'boolean', v)
    for s in c.ret(c.call(st, B + '::operator bool() const', [p])):
        c.cases(s, lambda s: c.post(s, T.eq(truth(s.retval), truth(bnot(T.eq(v, 0)))), 'every byte but zero is true'))
        c.post(s, T.eq(byte_at(s, p), v), 'the byte is kept')
    st = c.start()
    v = mk('byte', 0, 255)
    p, q = place(st, 1, 'boolean', v), place(st, 1, 'boolean', mk('other', 0, 255))
    for s in c.ret(c.call(st, 'npy_inst::assign(%s&, %s const&)' % (B, B), [q, p])):
        c.post(s, band(T.eq(byte_at(s, q), v), T.eq(byte_at(s, p), v)), 'a copy keeps the byte')


for _t, _w in INTS + FLOATS:
    task('C21', 'boolean from %s' % _t, [B + '::boolean<%s>' % _t, B + '::operator=<%s>' % _t, B + '::operator bool'])(
        lambda c, a=(_t, _w): conversions(c, *a))
task('C21', 'boolean', [B + '::boolean()', B + '::boolean(bool)', B + '::operator bool'])(simple)
