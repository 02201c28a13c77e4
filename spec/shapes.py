"""C07, C08: shapes, strides and multi-indexes."""
from spec.common import *

SMAX = U64 - 1


class Rec:
    """a function defined by recursion: f(0) = first, f(k + 1) = step(f(k), k)"""

    def __init__(self, name, first, step, lo=0, hi=SMAX):
        self.name = fresh_name(name)
        self.f = mkfun(self.name, lo, hi, ax=self.ax)
        self.first, self.step = first, step

    def ax(self, k):
        km = norm(k - 1)
        return [z3.Implies(k == 0, self.f(k) == ex(self.first)),
                z3.Implies(k >= 1, self.f(k) == ex(self.step(self(km), km)))]

    def __call__(self, k):
        if isinstance(k, int) and k == 0:
            return self.first
        r = self.f(ex(k))
        pin(r)
        return r


def index_vector(st, name, n, w=8):
    """a vector of n numbers of w bytes"""
    src = Source(name, n, hi=(1 << (8 * w)) - 1)
    rid = st.alloc_arr(w, n, Content(src.at), name, ety=('int', 8 * w))
    v = Ptr(st.alloc_flat(24, 'vector'), 0)
    st.wr(v.rid).cells[0] = (24, VecVal(rid, w))
    return v, src


def wrap(x):
    return modc(x, U64)


def product(src):
    return Rec('product', 1, lambda p, k: wrap(mul(p, src.at(k))))


def loop_facts(s, K):
    """what the code has established for every iteration before K"""
    return [f for k, f in s.ghost.get('forall', ()) if T.eq(k, K) is True]


def get_size(c, t):
    """the product of the dimensions, refused where it does not fit"""
    fn = 'npy::tensor<%s>::get_size(std::vector<unsigned long> const&)' % t
    st = c.start()
    n = mk('rank', 0, 1 << 40)
    v, D = index_vector(st, 'shape', n)
    P = product(D)                                                          # as machine numbers
    Q = Rec('count', 1, lambda p, k: mul(p, D.at(k)), 0, None)             # as mathematical numbers
    c.ex.ghosts = [P]
    for s in c.call(st, fn, [v]):
        def chk(s):
            # the state in which the loop has ended after K iterations
            ks = [k for k, f in s.ghost.get('forall', ())]
            K = n if s.status == 'ret' else (ks[-1] if ks else 0)
            if s.status == 'ret':
                c.post(s, T.eq(s.retval, P(n)), 'the result is the product of the dimensions modulo 2^64')
            else:
                c.post(s, c.exc_is(s, 'std::invalid_argument'), 'a shape is refused with std::invalid_argument')
                s.assume(ge(K, 0))
                c.post(s, gt(mul(P(K), D.at(K)), SMAX), 'a shape is refused only where the product of its first dimensions does not fit')
                c.post(s, lt(K, n), 'of dimensions that exist')
            s2 = s.clone()
            j = fresh('j', 0, None)
            s2.assume(lt(j, K))
            for f in loop_facts(s2, K):
                s2.assume(f(j))
            s2.assume(T.eq(P(j), Q(j)))
            c.post(s2, T.eq(P(add(j, 1)), Q(add(j, 1))), 'the product is exact (induction step)')
        c.cases(s, chk)


def strides_of(D, n, fortran):
    """stride of the dimension k; M(i) is the product of the i dimensions that vary fastest"""
    M = Rec('stride', 1, (lambda p, k: wrap(mul(p, D.at(k)))) if fortran else (lambda p, k: wrap(mul(p, D.at(sub(sub(n, 1), k))))))
    return M


def get_strides(c, t):
    fn = 'npy::tensor<%s>::get_ravel_strides(std::vector<unsigned long> const&, bool)' % t
    for fortran in (0, 1):
        st = c.start()
        n = mk('rank', 0, 1 << 40)
        v, D = index_vector(st, 'shape', n)
        out = raw_vector(st)
        M = strides_of(D, n, fortran)
        c.ex.ghosts = [M]
        for s in c.ret(c.call(st, fn, [out, v, fortran])):
            def chk(s):
                r = get_obj(s, out)
                c.post(s, T.eq(s.regions[r.rid].length, n), 'one stride per dimension')
                k = fresh('k', 0, None)
                s.assume(lt(k, n))
                s.ghost['inst'] = (k,)

                def element(s2):
                    # strides are stored slowest dimension first in either order
                    got = s2.regions[r.rid].content.get(k, s2.pc)
                    c.post(s2, T.eq(got, M(sub(sub(n, 1), k))), 'the stride is the product of the faster dimensions')
                c.cases(s, element)
            c.cases(s, chk)


def raw_vector(st):
    return Ptr(st.alloc_flat(24, 'result vector'), 0)


# ----------------------------------------------------------------- tensors
ELEM = {'signed char': (1, 1), 'unsigned char': (1, 1), 'short': (2, 1), 'unsigned short': (2, 1), 'int': (4, 1), 'unsigned int': (4, 1),
        'long': (8, 1), 'unsigned long': (8, 1), 'float': (4, 1), 'double': (8, 1), 'std::complex<float>': (8, 2),
        'std::complex<double>': (16, 2), 'npy::boolean': (1, 1), 'wstring': (32, 1)}
CODES = {'signed char': 0, 'unsigned char': 1, 'short': 2, 'unsigned short': 3, 'int': 4, 'unsigned int': 5, 'long': 6, 'unsigned long': 7,
         'float': 8, 'double': 9, 'std::complex<float>': 10, 'std::complex<double>': 11, 'npy::boolean': 12, 'wstring': 13}


class TensorSpec:
    pass


def build(c, t, fortran, name='', st=None, default=False):
    """tensor(shape, fortran_order) with the contracts of get_size and get_ravel_strides -> (spec, states)"""
    x = TensorSpec()
    st = st or c.start()
    x.t, x.fortran = t, fortran
    x.n = mk(name + 'rank', 0, (1 << 31) - 1)
    x.v, x.D = index_vector(st, name + 'shape', x.n)
    x.M = strides_of(x.D, x.n, fortran)
    x.size = mk(name + 'size', 0, SMAX)
    x.p = raw(st, 128, name + 'tensor')
    tt = 'npy::tensor<%s>' % t

    def size_contract(ex, s, a, ins):
        same_shape(c, s, a[0], x)
        s2 = s.clone()
        return Multi([(s, x.size), (s2, CxxThrow('std::invalid_argument'))])

    def stride_contract(ex, s, a, ins):
        same_shape(c, s, a[1], x)
        c.post(s, T.eq(a[2], fortran), 'the strides are those of the order')
        rid = s.alloc_arr(8, x.n, Content(lambda k: x.M(sub(sub(x.n, 1), k))), 'strides', ety=('int', 64))
        ex.setobj(s, a[0], VecVal(rid, 8))
    for f, h in (('get_size(std::vector<unsigned long> const&)', size_contract), ('get_ravel_strides(std::vector<unsigned long> const&, bool)', stride_contract)):
        c.env.find('%s::%s' % (tt, f))
        c.ex.overrides['%s::%s' % (tt, f)] = h
    c.assumed.add('%s: contracts of get_size and get_ravel_strides (proved separately: C07, C08)' % tt)
    if default:
        return x, c.call(st, '%s::tensor(std::vector<unsigned long> const&)' % tt, [x.p, x.v])
    return x, c.call(st, '%s::tensor(std::vector<unsigned long> const&, bool)' % tt, [x.p, x.v, fortran])


def raw(st, size, name):
    return Ptr(st.alloc_flat(size, name), 0)


def same_shape(c, s, v, x):
    w = get_obj(s, v)
    if v == x.v or w.rid == get_obj(s, x.v).rid:
        return
    same_numbers(c, s, w, x.n, x.D.at, 'the shape is the one given')


def same_numbers(c, s, w, n, f, name):
    """the vector w holds f(0), ..., f(n - 1)"""
    r = s.regions[w.rid]
    c.post(s, T.eq(r.length, n), name + ' (length)')
    k = fresh('k', 0, None)
    s2 = s.clone()
    s2.assume(lt(k, n))
    s2.ghost['inst'] = (k,)

    def one(s3):
        v = s3.regions[w.rid].content.get(k, s3.pc)
        c.post(s3, T.eq(v, f(k)) if is_t(v) or isinstance(v, int) else False, name)
    c.cases(s2, one)


def call1(c, s, fn, args):
    """the only state in which it returns"""
    s = s.clone()
    s.status = None
    r = c.call(s, fn, args)
    if len(r) != 1 or r[0].status != 'ret':
        raise Imprecise('%s: several cases' % fn)
    r[0].status = None
    return r[0], r[0].retval


def values_of(c, s, x, p=None):
    """region of the elements of a tensor"""
    s, q = call1(c, s, 'npy::tensor<%s>::data() const' % x.t, [p or x.p])
    if not isinstance(q, Ptr) or q.off != 0:
        raise Imprecise('data()')
    return q.rid


def observers(c, s, x, p, what):
    """shape, order, rank, size and dtype as reported"""
    tt = 'npy::tensor<%s>' % x.t
    s, q = call1(c, s, tt + '::shape() const', [p])
    same_numbers(c, s, get_obj(s, q), x.n, x.D.at, '%s: shape' % what)
    s, q = call1(c, s, tt + '::ndim() const', [p])
    c.post(s, T.eq(q, x.n), '%s: rank' % what)
    s, q = call1(c, s, tt + '::size() const', [p])
    c.post(s, T.eq(q, x.size), '%s: size' % what)
    s, q = call1(c, s, tt + '::fortran_order() const', [p])
    c.post(s, T.eq(truth(q), bool(x.fortran)), '%s: order' % what)
    s, q = call1(c, s, tt + '::dtype() const', [p])
    c.post(s, T.eq(q, CODES[x.t]), '%s: dtype' % what)
    k = fresh('d', 0, (1 << 31) - 1)
    s = s.clone()
    s.assume(lt(k, x.n))
    for s2 in c.call(s, tt + '::shape(int) const', [p, k]):
        c.cases(s2, lambda s2: c.post(s2, T.eq(s2.retval, x.D.at(k)) if s2.status == 'ret' else False, '%s: one dimension' % what))


def truth(q):
    return ne(q, 0) if is_t(q) and not z3.is_bool(q) or isinstance(q, int) and not isinstance(q, bool) else q


def element(s, rid, i, t):
    """element i: list of components"""
    r = s.regions[rid]
    es, per = ELEM[t]
    out = []
    for j in range(per):
        v = r.content.get(add(mul(i, per), j), s.pc)
        if isinstance(v, FP):
            v = v.bits
        if isinstance(v, dict):
            if len(v) != 1 or not isinstance(v[0][1], StrVal):
                raise Imprecise('an element')
            v = v[0][1]
        out.append(v)
    return out


def same_element(c, s, got, want, name):
    for g, w in zip(got, want):
        if isinstance(w, StrVal):
            c.post_rope(s, g.rope, w.rope, name)
        else:
            c.post(s, T.eq(g, w), name)


def default_element(c, s, got, name):
    for g in got:
        if isinstance(g, StrVal):
            c.post_rope(s, g.rope, EMPTY, name)
        else:
            c.post(s, T.eq(g, 0), name)


def any_elements(s, t, size, name):
    """content of arbitrary elements, and the list of components of element i"""
    es, per = ELEM[t]
    if t == 'wstring':
        ln = mkfun(name + '_length', 0, 1 << 40)
        ch = mkfun(name + '_char', 0, (1 << 32) - 1, arity=2)
        one = lambda i: StrVal(Source(name + '_text', ln(ex(i)), fun=lambda j: ch(ex(i), ex(j)), hi=(1 << 32) - 1).whole(), 4)
        return Content(lambda i: {0: (32, one(i))}), lambda i: [one(i)]
    src = Source(name + '_value', mul(size, per), hi=(1 << (8 * es // per)) - 1)
    return Content(src.at), lambda i: [src.at(add(mul(i, per), j)) for j in range(per)]


def constructor(c, t, fortran, default=False):
    x, rs = build(c, t, fortran, default=default)
    es, per = ELEM[t]
    for s in rs:
        def chk(s):
            if s.status == 'exc':
                if s.exc.tname == 'std::invalid_argument':
                    return      # get_size refuses
                c.post(s, c.exc_is(s, 'std::length_error', 'std::bad_alloc'), 'other exceptions: more elements than a vector can hold')
                c.post(s, gt(mul(x.size, es), (1 << 63) - 1), 'only where there are')
                return
            s.status = None
            observers(c, s, x, x.p, 'constructed')
            rid = values_of(c, s, x)
            c.post(s, T.eq(s.regions[rid].length, mul(x.size, per)), 'as many elements as the product of the shape')
            k = fresh('i', 0, None)
            s.assume(lt(k, x.size))

            def el(s2):
                default_element(c, s2, element(s2, rid, k, t), 'elements are value-initialised')
            c.cases(s, el)
        c.cases(s, chk)


def tensors(c, t, fortran, name='', st=None):
    """a tensor with arbitrary elements"""
    x, rs = build(c, t, fortran, name, st)
    out = []
    for s in rs:
        if s.status != 'ret':
            continue
        s.status = None
        x.rid = values_of(c, s, x)
        r = s.wr(x.rid)
        r.content, x.val = any_elements(s, t, x.size, name)
        out.append(s)
    return x, out


def at_element(c, s, rid, x, fn):
    """fn(state, components, wanted components) for an arbitrary element"""
    k = fresh('i', 0, None)
    s2 = s.clone()
    s2.assume(lt(k, x.size))
    s2.ghost['inst'] = (k,)
    c.cases(s2, lambda s3: fn(s3, element(s3, rid, k, x.t), x.val(k)))


def vec_members(s, p):
    return {o: v for o, (z, v) in s.regions[p.rid].cells.items() if isinstance(v, VecVal)}


def is_tensor(c, s, x, p, what, others=()):
    """p is a tensor equal to x, on its own storage"""
    observers(c, s, x, p, what)
    rid = values_of(c, s, x, p)
    es, per = ELEM[x.t]
    c.post(s, T.eq(s.regions[rid].length, mul(x.size, per)), '%s: number of elements' % what)
    at_element(c, s, rid, x, lambda s, got, want: same_element(c, s, got, want, '%s: elements' % what))
    ms = vec_members(s, p)
    c.form(s, len(ms) == 3, '%s: a tensor has a shape, strides and values' % what)
    for o, v in ms.items():
        if o not in x.members:
            c.form(s, False, '%s: the same members' % what)
        elif x.members[o] == 'strides':
            same_numbers(c, s, v, x.n, lambda k: x.M(sub(sub(x.n, 1), k)), '%s: indexing' % what)
        for q in others:
            for v2 in vec_members(s, q).values():
                c.post(s, v2.rid != v.rid, '%s: storage of its own' % what)


def identify(c, s, x):
    """which member is which"""
    x.members = {}
    s2, q = call1(c, s, 'npy::tensor<%s>::shape() const' % x.t, [x.p])
    sh = get_obj(s2, q).rid
    for o, v in vec_members(s, x.p).items():
        x.members[o] = 'shape' if v.rid == sh else 'values' if v.rid == x.rid else 'strides'


def copies(c, t, fortran, kind):
    tt = 'npy::tensor<%s>' % t
    x, rs = tensors(c, t, fortran)
    for s in rs:
        identify(c, s, x)
        if kind in ('copy', 'move'):
            p = raw(s, 128, 'copy')
            r = c.call(s, '%s::tensor(%s%s)' % (tt, tt, ' const&' if kind == 'copy' else '&&'), [p, x.p])
        elif kind == 'self':
            p = x.p
            r = c.call(s, '%s::operator=(%s const&)' % (tt, tt), [p, x.p])
        else:
            y, rs2 = tensors(c, t, 1 - fortran, 'other.', s)
            r = []
            p = y.p
            for s2 in rs2:
                r += c.call(s2, '%s::operator=(%s%s)' % (tt, tt, ' const&' if kind == 'copy assignment' else '&&'), [p, x.p])
        for s2 in c.ret(r):
            def chk(s2):
                s2.status = None
                if 'assignment' in kind or kind == 'self':
                    c.post(s2, s2.retval == p, '%s: gives the target' % kind)
                is_tensor(c, s2, x, p, kind, [x.p] if kind != 'self' else [])
                if kind.startswith('copy'):
                    is_tensor(c, s2, x, x.p, '%s: the source' % kind)
            c.cases(s2, chk)


def fill(c, t, kind):
    """copy_from and move_from"""
    tt = 'npy::tensor<%s>' % t
    es, per = ELEM[t]
    x, rs = tensors(c, t, 0)
    for s in rs:
        identify(c, s, x)
        m = mk('nitems', 0, (1 << 62) // es)
        con, val = any_elements(s, t, m, 'source')
        w = es // per
        src = s.alloc_arr(w, mul(m, per), con, 'source', ety='struct' if t == 'wstring' else ('int', 8 * w))
        if kind == 'pointer':
            args = [x.p, Ptr(src, 0), m]
            fn = '%s::copy_from(%s const*, unsigned long)' % (tt, t)
        else:
            v = raw_vector(s)
            s.wr(v.rid).cells[0] = (24, VecVal(src, es))
            args = [x.p, v]
            fn = '%s::%s(std::vector<%s>%s)' % (tt, 'move_from' if kind == 'move' else 'copy_from', t, '&&' if kind == 'move' else ' const&')
        for s2 in c.call(s, fn, args):
            def chk(s2):
                if s2.status == 'exc':
                    c.post(s2, c.exc_is(s2, 'std::invalid_argument'), 'refused with std::invalid_argument')
                    c.post(s2, ne(m, x.size), 'only a different number of items is refused')
                    s2.status = None
                    is_tensor(c, s2, x, x.p, 'refused: unchanged')
                    return
                s2.status = None
                c.post(s2, T.eq(m, x.size), 'a different number of items is refused')
                y = TensorSpec()
                y.__dict__.update(x.__dict__)
                y.val = val
                is_tensor(c, s2, y, x.p, 'filled')
                if kind != 'move':
                    rid = values_of(c, s2, x, x.p)
                    c.post(s2, rid != src, 'the source is copied')
                    at_element(c, s2, src, y, lambda s, got, want: same_element(c, s, got, want, 'the source is unchanged'))
            c.cases(s2, chk)


def dimension(c, t):
    """shape(i) gives dimension i, or refuses an i that is none"""
    x, rs = build(c, t, 0)
    for s in rs:
        if s.status != 'ret':
            continue
        s.status = None
        k = mk('index', 0, (1 << 32) - 1)

        def chk(s2):
            if s2.status == 'ret':
                c.post(s2, lt(signed(k, 32), x.n), 'there is such a dimension')
                c.post(s2, T.eq(s2.retval, x.D.at(k)), 'its size')
            else:
                c.post(s2, bnot(lt(k, x.n)), 'only what is not a dimension is refused')
                c.post(s2, c.exc_is(s2, 'std::exception'), 'a standard exception')
        for s2 in c.call(s, 'npy::tensor<%s>::shape(int) const' % t, [x.p, k]):
            c.cases(s2, chk)


# ----------------------------------------------------------------- access to elements
def access(c, t, how):
    """accessors give the element at the position that ravel gives"""
    tt = 'npy::tensor<%s>' % t
    es, per = ELEM[t]
    x, rs = tensors(c, t, 0)
    for s in rs:
        identify(c, s, x)
        kinds = {'vector<int32_t>': 'int', 'vector<size_t>': 'unsigned long'}
        signed = 'size_t' not in how
        w = 4 if signed else 8
        m = mk('indices', 0, 1 << 40)
        v, J = index_vector(s, 'index', m, w)
        val = None
        if how == 'get':
            fn, args = tt + '::get(std::vector<int> const&) const', [x.p, v]
        elif how == 'set':
            a = s.alloc_flat(es, 'value')
            con, one = any_elements(s, t, 1, 'new')
            val = one(0)
            r = s.wr(a)
            for j, q in enumerate(val):
                r.cells[j * (es // per)] = (es // per, q)
            fn, args = tt + '::set(std::vector<int> const&, %s const&)' % t, [x.p, v, Ptr(a, 0)]
        elif how.startswith('size_t'):
            fn, args = tt + '::operator()(std::vector<unsigned long> const&)' + (' const' if 'const' in how else ''), [x.p, v]
        else:
            m = int(how[0])
            cst = 'const' in how
            js = [mk('index%d' % i, 0, (1 << 32) - 1) for i in range(m)]
            fn = '%s%s& %s::operator()<%s>(%s)%s' % (t, ' const' if cst else '', tt, ', '.join(['int'] * m), ', '.join(['int'] * m), ' const' if cst else '')
            args = [x.p] + js
        pos = mk('position', 0, None)

        def rv(ex, st, a, ins):
            st.ghost['ravels'] = st.ghost.get('ravels', 0) + 1
            c.form(st, a[0] == x.p, 'in this tensor')
            u = get_obj(st, a[1])
            if how[0].isdigit():
                c.post(st, T.eq(st.regions[u.rid].length, m), 'as many indices as given')
                for i in range(m):
                    c.post(st, T.eq(st.regions[u.rid].content.get(i, st.pc), js[i]), 'the indices given, in their order')
            else:
                same_numbers(c, st, u, m, J.at, 'the index given')
            st.assume(lt(pos, x.size))
            s3 = st.clone()
            return Multi([(st, pos), (s3, CxxThrow('std::invalid_argument'))])
        f = tt + '::ravel(std::vector<%s> const&) const' % ('int' if signed else 'unsigned long')
        c.env.find(f)
        c.ex.overrides[f] = rv
        for s2 in c.call(s, fn, args):
            def chk(s2):
                c.form(s2, s2.ghost.get('ravels') == 1, 'the position is that of ravel')
                if s2.status == 'exc':
                    c.post(s2, c.exc_is(s2, 'std::invalid_argument'), 'the exception of ravel is passed on')
                    s2.status = None
                    is_tensor(c, s2, x, x.p, 'refused: unchanged')
                    return
                q = s2.retval
                s2.status = None
                if how == 'set':
                    k = fresh('i', 0, None)
                    s2.assume(lt(k, x.size))
                    for same in (True, False):
                        s3 = s2.clone()
                        s3.assume(T.eq(k, pos) if same else ne(k, pos))
                        if same:
                            c.cases(s3, lambda s4: same_element(c, s4, element(s4, x.rid, pos, t), val, 'the element is set'))
                        else:
                            c.cases(s3, lambda s4: same_element(c, s4, element(s4, x.rid, k, t), x.val(k), 'no other element is changed'))
                    return
                c.post(s2, isinstance(q, Ptr) and q.rid == x.rid, 'an element of the tensor')
                if isinstance(q, Ptr):
                    c.post(s2, T.eq(q.off, mul(pos, es)), 'the element at the position')
                is_tensor(c, s2, x, x.p, 'unchanged')
            c.cases(s2, chk)


def iterators(c, t):
    """begin, end, data and values show the same elements"""
    tt = 'npy::tensor<%s>' % t
    es, per = ELEM[t]
    x, rs = tensors(c, t, 0)
    for s in rs:
        for f, off in (('begin()', 0), ('begin() const', 0), ('data()', 0), ('data() const', 0), ('end()', x.size), ('end() const', x.size)):
            s2, q = call1(c, s, '%s::%s' % (tt, f), [x.p])
            c.post(s2, isinstance(q, Ptr) and q.rid == x.rid, f + ': of the tensor')
            c.post(s2, T.eq(q.off, mul(off, es)), f)
        s2, q = call1(c, s, tt + '::values() const', [x.p])
        c.post(s2, get_obj(s2, q).rid == x.rid, 'values')


# ----------------------------------------------------------------- arithmetic of positions
def arithmetic(c):
    """the sum of index times stride, for n dimensions numbered from the fastest: dimension e(i), index x(i)"""
    n = mk('n', 0, 1 << 40)
    E, X, Y = (Source(a, n, hi=SMAX) for a in ('e', 'x', 'y'))
    TM = Rec('count', 1, lambda p, k: mul(p, E.at(k)), 0, None)             # exact
    M = Rec('stride', 1, lambda p, k: wrap(mul(p, E.at(k))))                # as the code computes it
    U = Rec('numpy', 0, lambda p, k: add(p, mul(X.at(k), TM(k))), 0, None)  # NumPy's position
    V = Rec('numpy', 0, lambda p, k: add(p, mul(Y.at(k), TM(k))), 0, None)
    R = Rec('ravel', 0, lambda p, k: wrap(add(p, mul(X.at(sub(sub(n, 1), k)), M(sub(sub(n, 1), k))))))
    base = c.start()
    base.assume(le(TM(n), SMAX))        # the constructor has refused other shapes

    def step(name, hyp, goal, i=None):
        s = base.clone()
        for h in hyp:
            s.assume(h)
        c.post(s, goal, name)
    i, j = mk('i', 0, None), mk('j', 0, None)
    i1, j1 = add(i, 1), add(j, 1)
    pos = [ge(E.at(i), 1), ge(TM(i), 1)]
    nn = lambda a, b: implies(band(ge(a, 0), ge(b, 0)), ge(mul(a, b), 0))
    step('product of numbers that are not negative', [ge(i, 0), ge(j, 0)], ge(mul(i, j), 0))
    # every dimension is at least 1 (else no index is in range)
    step('count: at least 1 (base)', [], ge(TM(0), 1))
    step('count: at least 1 (step)', pos + [nn(sub(TM(i), 1), sub(E.at(i), 1))], ge(TM(i1), 1))
    step('count: grows (step)', pos + [nn(TM(i), sub(E.at(i), 1))], ge(TM(i1), TM(i)))
    step('count: grows, by induction over j (step)', [le(i, j), le(TM(i), TM(j)), le(TM(j), TM(j1))], le(TM(i), TM(j1)))
    step('strides are exact (step)', [lt(i, n), T.eq(M(i), TM(i)), le(TM(i1), TM(n))], T.eq(M(i1), TM(i1)))
    inr = [lt(X.at(i), E.at(i)), lt(Y.at(i), E.at(i))]
    step('position below the count (base)', [], lt(U(0), TM(0)))
    step('position below the count (step)', inr + pos + [lt(U(i), TM(i)), nn(sub(sub(E.at(i), 1), X.at(i)), TM(i))], lt(U(i1), TM(i1)))
    step('position grows (step)', inr + pos + [nn(X.at(i), TM(i))], ge(U(i1), U(i)))
    step('position grows, by induction over j (step)', [le(i, j), le(U(i), U(j)), le(U(j), U(j1))], le(U(i), U(j1)))
    # R(k) + U(n - k) = U(n)
    k = mk('k', 0, None)
    r = sub(sub(n, 1), k)
    step('ravel computes NumPy\'s position (base)', [], T.eq(add(R(0), U(n)), U(n)))
    step('ravel computes NumPy\'s position (step)',
         [lt(k, n), T.eq(add(R(k), U(add(r, 1))), U(n)), T.eq(M(r), TM(r)), lt(U(n), TM(n)), ge(U(r), 0)],
         T.eq(add(R(add(k, 1)), U(r)), U(n)))
    step('ravel computes NumPy\'s position', [T.eq(add(R(n), U(0)), U(n)), lt(U(n), TM(n))], band(T.eq(R(n), U(n)), lt(R(n), TM(n))))
    # different indexes, different positions
    bounds_ = [lt(U(i), TM(i)), lt(V(i), TM(i)), ge(U(i), 0), ge(V(i), 0)]
    step('equal positions: equal indexes (step)',
         inr + pos + bounds_ + [T.eq(U(i1), V(i1)), nn(sub(sub(X.at(i), Y.at(i)), 1), TM(i)), nn(sub(sub(Y.at(i), X.at(i)), 1), TM(i))],
         band(T.eq(X.at(i), Y.at(i)), T.eq(U(i), V(i))))
    # the count is the same from either end
    D = Source('d', n, hi=SMAX)
    P = Rec('count', 1, lambda p, q: mul(p, D.at(q)), 0, None)
    B = Rec('count', 1, lambda p, q: mul(p, D.at(sub(sub(n, 1), q))), 0, None)
    step('count from either end (base)', [], T.eq(mul(P(n), B(0)), P(n)))
    step('count from either end (step)', [lt(i, n), T.eq(mul(P(sub(n, i)), B(i)), P(n))], T.eq(mul(P(sub(sub(n, i), 1)), B(i1)), P(n)))
    step('count from either end', [T.eq(mul(P(0), B(n)), P(n))], T.eq(B(n), P(n)))


task(['C07', 'C18'], 'positions: in range, NumPy\'s, distinct', [])(arithmetic)
def ravel_abs(c, t, fortran):
    """ravel(vector<size_t>) adds up index times stride, all components in range"""
    x, rs = tensors(c, t, fortran)
    n = x.n
    for s in rs:
        m = mk('indices', 0, 1 << 40)
        v, I_ = index_vector(s, 'index', m)
        R = Rec('ravel', 0, ravel_step(x, I_.at))
        c.ex.ghosts = [R]
        for s2 in c.call(s, 'npy::tensor<%s>::ravel(std::vector<unsigned long> const&) const' % t, [x.p, v]):
            c.cases(s2, lambda s2: ravel_post(c, s2, x, R, I_.at, m))


def ravel_step(x, I_):
    """the term of step k (slowest dimension first): component i = n - 1 - k of the fastest-first numbering"""
    def f(p, k):
        i = sub(sub(x.n, 1), k)
        return wrap(add(p, mul(I_(i if x.fortran else k), x.M(i))))
    return f


def ravel_post(c, s, x, R, I_, m, D=None):
    n = x.n
    ks = [k for k, f in s.ghost.get('forall', ())]
    at = (lambda k: sub(sub(n, 1), k)) if x.fortran else (lambda k: k)
    if s.status == 'ret':
        c.post(s, T.eq(m, n), 'as many indices as dimensions')
        c.post(s, T.eq(s.retval, R(n)), 'the sum of index times stride')
        j = fresh('j', 0, None)
        s.assume(lt(j, n))
        for f in loop_facts(s, n):
            s.assume(f(j))
        c.post(s, lt(I_(at(j)), x.D.at(at(j))), 'every index is in range')
    else:
        c.post(s, c.exc_is(s, 'std::invalid_argument'), 'refused with std::invalid_argument')
        bad = False
        for k in ks:
            s.assume(ge(k, 0))
            bad = bor(bad, band(lt(k, n), ge(I_(at(k)), x.D.at(at(k)))))
        c.post(s, bor(ne(m, n), bad), 'only the wrong number of indices or one that is out of range is refused')


def ravel_signed(c, t, fortran):
    """ravel(vector<int32_t>): negative indexes count from the end"""
    x, rs = tensors(c, t, fortran)
    for s in rs:
        m = mk('indices', 0, 1 << 40)
        v, J = index_vector(s, 'index', m, 4)
        A = lambda k: ite(ge(J.at(k), 1 << 31), wrap(add(x.D.at(k), sub(J.at(k), 1 << 32))), J.at(k))
        got = {}

        def inner(ex, st, a, ins):
            w = get_obj(st, a[1])
            c.form(st, a[0] == x.p, 'of this tensor')
            same_numbers(c, st, w, m, A, 'the index is the number of dimensions plus the index if that is negative')
            r = fresh('position', 0, SMAX)
            st.ghost['position'] = r
            s3 = st.clone()
            return Multi([(st, r), (s3, CxxThrow('std::invalid_argument'))])
        f = 'npy::tensor<%s>::ravel(std::vector<unsigned long> const&) const' % t
        c.env.find(f)
        c.ex.overrides[f] = inner
        for s2 in c.call(s, 'npy::tensor<%s>::ravel(std::vector<int> const&) const' % t, [x.p, v]):
            def chk(s2):
                if s2.status == 'ret':
                    c.form(s2, 'position' in s2.ghost, 'the position is that of the unsigned index')
                    if 'position' in s2.ghost:
                        c.post(s2, T.eq(s2.retval, s2.ghost['position']), 'the position is that of the unsigned index')
                    c.post(s2, T.eq(m, x.n), 'as many indices as dimensions')
                else:
                    c.post(s2, c.exc_is(s2, 'std::invalid_argument'), 'refused with std::invalid_argument')
                    if 'position' not in s2.ghost:
                        c.post(s2, ne(m, x.n), 'only the wrong number of indices is refused here')
            c.cases(s2, chk)


for _t in ELEM:
    task(['C07', 'C08', 'C18'], 'tensor<%s>::get_size' % _t, ['npy::tensor<%s>::get_size' % _t])(lambda c, t=_t: get_size(c, t))
    task(['C07', 'C08', 'C18'], 'tensor<%s>::get_ravel_strides' % _t, ['npy::tensor<%s>::get_ravel_strides' % _t])(lambda c, t=_t: get_strides(c, t))
    task(['C08', 'C18'], 'tensor<%s>(shape)' % _t, ['npy::tensor<%s>::tensor' % _t])(lambda c, t=_t: constructor(c, t, 0, True))
    for _f in (0, 1):
        _o = ('C', 'Fortran')[_f]
        task(['C08', 'C18'], 'tensor<%s>(shape, %s order)' % (_t, _o), ['npy::tensor<%s>::tensor' % _t])(lambda c, t=_t, f=_f: constructor(c, t, f))
        task(['C07', 'C18'], 'tensor<%s>::ravel(vector<size_t>), %s order' % (_t, _o), ['npy::tensor<%s>::ravel' % _t])(lambda c, t=_t, f=_f: ravel_abs(c, t, f))
    task(['C07', 'C18'], 'tensor<%s>::ravel(vector<int32_t>)' % _t, ['npy::tensor<%s>::ravel' % _t])(lambda c, t=_t: ravel_signed(c, t, 0))
    task(['C07', 'C08', 'C18'], 'tensor<%s>: a dimension' % _t, ['npy::tensor<%s>::shape(int) const' % _t])(lambda c, t=_t: dimension(c, t))
    for _k in ('copy', 'move', 'copy assignment', 'move assignment', 'self'):
        task('C08', 'tensor<%s>: %s' % (_t, _k), [])(lambda c, t=_t, k=_k: copies(c, t, 1, k))
    for _k in ('pointer', 'vector', 'move'):
        task('C08', 'tensor<%s>: fill from %s' % (_t, _k), [])(lambda c, t=_t, k=_k: fill(c, t, k))
    for _k in ('get', 'set', 'size_t', 'size_t const', '1', '2', '3', '1 const', '2 const', '3 const'):
        task('C07', 'tensor<%s>: access %s' % (_t, _k), [])(lambda c, t=_t, k=_k: access(c, t, k))
    task(['C07', 'C08'], 'tensor<%s>: iterators' % _t, [])(lambda c, t=_t: iterators(c, t))
