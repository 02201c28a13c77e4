"""C05, C18: what the header parser accepts, for any bytes.

The helpers are verified on an arbitrary stream; the loops of the constructor and of read_shape are verified one
arbitrary iteration at a time, against the grammar
    dictionary = '{' { ws 'key' ws ':' ws value ',' ws } '}' ws
    shape      = '(' { digits [ ',' ws ] } ')'
with NumPy's three keys only and each of them present.
"""
from spec.common import *
from spec.parsing import CTOR, fields, CODES
from spec.shapes import raw, truth
from vc.loops import Invariant

SKIP = '(anonymous namespace)::skip_whitespace(std::istream&)'
SHAPE = '(anonymous namespace)::read_shape(std::istream&)'
WS = list(I.WS)


def any_stream(c, st, name='text', bits=True):
    """an input stream in any state over any text"""
    src = mk_src(name, mk(name + '.len', 0, 1 << 62))
    rid = st.alloc_flat(512, 'istream')
    pos = mk(name + '.pos', 0, 1 << 62)
    st.assume(le(pos, src.length))
    o = IStr(src.whole()).with_(vpos=pos)
    if bits:
        o = o.with_(failx=z3.Bool(name + '.fail'), eofx=z3.Bool(name + '.eof'))
    st.wr(rid).cells[0] = (8, o)
    return Ptr(rid, 0), src, pos, o


def good(o):
    return band(bnot(o.failx), bnot(o.eofx))


def first(c, s, src, p, chars, negate=False):
    """first position >= p whose character is (not) one of chars; the length of the text if there is none"""
    if decide(ge(p, src.length), s.pc):
        return src.length
    r = I.first_index(c.ex, s, src.whole(), p, list(chars), negate)
    return src.length if r is None else r


# ----------------------------------------------------------------- skip_whitespace
def skip_ws(c):
    st = c.start()
    inp, src, pos, o = any_stream(c, st)
    isws = lambda i: I.char_set(src.at(i), WS)
    for s in c.ret(c.call(st, SKIP, [inp])):
        def chk(s):
            q = get_obj(s, inp)
            if not decide(good(o), s.pc):
                c.post(s, T.eq(q.vpos, pos), 'a stream that is not good is left where it is')
                return
            c.post(s, band(ge(q.vpos, pos), le(q.vpos, src.length)), 'it stays within the text')
            c.post(s, bnot(q.failx), 'it does not fail')
            c.post(s, T.eq(truth(q.eofx), T.eq(q.vpos, src.length)) if is_t(q.eofx) else
                   (T.eq(q.vpos, src.length) if q.eofx else lt(q.vpos, src.length)), 'the end is noticed there and only there')
            c.post(s, implies(lt(q.vpos, src.length), bnot(isws(q.vpos))), 'it stops at a character that is not whitespace')
            j = mk('j', 0, None)
            s.assume(band(le(pos, j), lt(j, q.vpos)))
            for K, facts in s.ghost.get('forall', ()):
                s.assume(implies(lt(sub(j, pos), K), facts(sub(j, pos))))
            c.post(s, isws(j), 'everything skipped is whitespace')
        c.cases(s, chk)


def skip_contract(c):
    """the contract of skip_whitespace: to the first other character"""
    def h(ex, st, a, ins):
        p, o = I.ist(ex, st, a[0])
        if not I.sentry(ex, st, p, o):
            return None
        L = o.rope.length()
        if decide(ge(o.vpos, L), st.pc):
            r = None
        else:
            r = I.first_index(ex, st, o.rope, o.vpos, WS, True)
        ex.setobj(st, p, o.with_(vpos=L if r is None else r, eofx=True if r is None else o.eofx, gcount=0))
    c.ex.overrides[SKIP] = h
    c.assumed.add('skip_whitespace replaced by its contract (proved by the task of that name)')


# ----------------------------------------------------------------- small helpers
def read_char(c):
    fn = '(anonymous namespace)::read(std::istream&, char)'
    st = c.start()
    inp, src, pos, o = any_stream(c, st)
    ch = mk('expected', 0, 255)
    ok = band(good(o), lt(pos, src.length), T.eq(src.at(pos), ch))
    for s in c.call(st, fn, [inp, ch]):
        def chk(s):
            if s.status == 'exc':
                c.post(s, c.exc_is(s, 'std::exception'), 'refused with a standard exception')
                c.post(s, bnot(ok), 'the expected character is accepted')
                return
            q = get_obj(s, inp)
            c.post(s, ok, 'anything else is refused')
            c.post(s, T.eq(q.vpos, add(pos, 1)), 'one character is taken')
            c.post(s, good(q), 'the stream is good')
        c.cases(s, chk)


def read_string_(c):
    fn = '(anonymous namespace)::read_string(std::istream&)'
    st = c.start()
    inp, src, pos, o = any_stream(c, st)
    out = raw(st, 32, 'result')
    for s in c.call(st, fn, [out, inp]):
        def chk(s):
            q1 = first(c, s, src, add(pos, 1), [39])
            ok = band(good(o), lt(pos, src.length), T.eq(src.at(pos), 39), lt(q1, src.length))
            short = le(sub(q1, pos), 65536)
            if s.status == 'exc':
                c.post(s, c.exc_is(s, 'std::exception'), 'refused with a standard exception')
                c.post(s, bnot(band(ok, short)), 'a quoted string is accepted')
                return
            q = get_obj(s, inp)
            c.post(s, ok, 'anything else is refused')
            c.post_rope(s, I.sv(c.ex, s, out).rope, Rope((Slice(src, add(pos, 1), sub(q1, add(pos, 1))),)), 'the text between the quotes')
            c.post(s, T.eq(q.vpos, add(q1, 1)), 'the stream is left behind the closing quote')
            c.post(s, good(q), 'the stream is good')
        c.cases(s, chk)


def literal(src, p, text):
    return band(le(add(p, len(text)), src.length), *[T.eq(src.at(add(p, i)), ch) for i, ch in enumerate(text)])


def read_bool_(c):
    fn = '(anonymous namespace)::read_bool(std::istream&)'
    st = c.start()
    inp, src, pos, o = any_stream(c, st)
    for s in c.call(st, fn, [inp]):
        def chk(s):
            t, f = band(good(o), literal(src, pos, b'True')), band(good(o), literal(src, pos, b'False'))
            if s.status == 'exc':
                c.post(s, c.exc_is(s, 'std::exception'), 'refused with a standard exception')
                c.post(s, bnot(bor(t, f)), 'True and False are accepted')
                return
            q = get_obj(s, inp)
            v = truth(s.retval)
            c.post(s, bor(band(v, t, T.eq(q.vpos, add(pos, 4))), band(bnot(v), f, T.eq(q.vpos, add(pos, 5)))), 'the value read is the text')
            c.post(s, good(q), 'the stream is good')
        c.cases(s, chk)


task(['C05', 'C18'], 'skip_whitespace on any stream', [SKIP])(skip_ws)
task(['C05', 'C18'], 'read(char) on any stream', ['(anonymous namespace)::read(std::istream&, char)'])(read_char)
task(['C05', 'C18'], 'read_string on any stream', ['(anonymous namespace)::read_string(std::istream&)'])(read_string_)
task(['C05', 'C18'], 'read_bool on any stream', ['(anonymous namespace)::read_bool(std::istream&)'])(read_bool_)


# ----------------------------------------------------------------- shapes
def number(c, s, src, a, b):
    """the value of the digits of the text between a and b"""
    r = I._numval.get(id(src))
    if r is None:
        raise Imprecise('no number was read')
    return r[1](I.ex_(a), I.ex_(b))


class ShapeLoop(Invariant):
    """every iteration takes one number and the separator behind it"""

    def __init__(self, c):
        self.c = c

    def tuple_of(self, st):
        rid = self.key[0]
        return st.regions[rid].cells[self.key[1]][1]

    def holds(self, st):
        self.find(st)
        o = self.tuple_of(st)
        L = o.rope.length()
        return band(ge(o.vpos, 0), le(o.vpos, L), implies(bor(o.failx, o.eofx), T.eq(o.vpos, L)))

    def find(self, st):
        if hasattr(self, 'key'):
            return
        l = [(rid, off) for rid, r in st.regions.items() if r.kind == 'flat' and not r.glob for off, (_, v) in r.cells.items()
             if isinstance(v, IStr) and rid != self.outer]
        if len(l) != 1:
            raise Imprecise('no stream over the text of the shape')
        self.key = l[0]

    def vec(self, st):
        l = [v for rid, r in st.regions.items() if r.kind == 'flat' and not r.glob for _, v in r.cells.values() if isinstance(v, VecVal)]
        if len(l) != 1:
            raise Imprecise('no vector of dimensions')
        r = st.regions[l[0].rid]
        return r.length, r.content

    def entry(self, st):
        self.c.post(st, T.eq(self.vec(st)[0], 0), 'it begins without dimensions')
        self.c.post(st, T.eq(self.tuple_of(st).vpos, 0), 'it begins at the parenthesis')

    def exit(self, st):
        st.ghost['tuple'] = self.tuple_of(st)
        st.ghost['vec'] = self.vec(st)

    def back(self, head, st):
        c = self.c

        def chk(s):
            h, b = self.tuple_of(head), self.tuple_of(s)
            if len(h.rope.ps) != 1:
                raise Imprecise('the text of the shape')
            p = h.rope.ps[0]
            src, end = p.src, add(p.off, p.n)
            x = add(p.off, h.vpos)
            c.post(s, lt(x, end), 'a dimension begins inside the parentheses')
            c.post(s, I.char_set(src.at(x), I.DIGITS), 'a dimension begins with a digit')
            r = I.first_index(c.ex, s, h.rope, h.vpos, I.DIGITS, True)
            y = end if r is None else add(p.off, r)
            v = number(c, s, src, x, y)
            c.post(s, lt(v, U64), 'its value fits')
            l0, c0 = self.vec(head)
            l1, c1 = self.vec(s)
            c.post(s, T.eq(l1, add(l0, 1)), 'one dimension is added')
            c.post(s, T.eq(c1.get(l0, s.pc), v), 'it is the value of the digits')
            i = mk('i', 0, None)
            s2 = s.clone()
            s2.assume(lt(i, l0))
            c.post_fork(s2, lambda pc: T.eq(c1.get(i, pc), c0.get(i, pc)), 'the other dimensions stay')
            z = add(p.off, b.vpos)
            if r is None:
                c.post(s, T.eq(z, end), 'the text ends behind it')
                return
            c.post(s, T.eq(src.at(y), 44), 'a comma separates it from the next')
            if decide(ge(add(r, 1), p.n), s.pc):
                w = end
            else:
                w = I.first_index(c.ex, s, h.rope, add(r, 1), WS, True)
                w = end if w is None else add(p.off, w)
            c.post(s, T.eq(z, w), 'only whitespace follows the comma')
        c.cases(st, chk)


def read_shape_(c):
    st = c.start()
    inp, src, pos, o = any_stream(c, st)
    out = raw(st, 24, 'result')
    skip_contract(c)
    inv = ShapeLoop(c)
    inv.outer = inp.rid
    c.ex.finite[SHAPE] = inv
    n = 0
    for s in c.call(st, SHAPE, [out, inp]):
        def chk(s):
            if s.status == 'exc':
                c.post(s, c.exc_is(s, 'std::exception'), 'refused with a standard exception')
                return
            q1 = first(c, s, src, add(pos, 1), [41])
            c.post(s, band(good(o), lt(pos, src.length), T.eq(src.at(pos), 40), lt(q1, src.length)), 'a text in parentheses, or it is refused')
            q = get_obj(s, inp)
            c.post(s, T.eq(q.vpos, add(q1, 1)), 'the stream is left behind the closing parenthesis')
            c.post(s, good(q), 'the stream is good')
            # the loop ended with all of the text taken
            t = s.ghost['tuple']
            v = get_obj(s, out)
            if not isinstance(v, VecVal):
                raise Imprecise('the result is not a vector')
            r = s.regions[v.rid]
            c.post(s, T.eq(r.length, s.ghost['vec'][0]), 'the dimensions read are returned (their number)')
            j = mk('j', 0, None)
            s2 = s.clone()
            s2.assume(lt(j, r.length))
            def same(pc):
                a, b = r.content.get(j, pc), s.ghost['vec'][1].get(j, pc)
                return a is b or (scalar(a) and scalar(b) and T.eq(a, b))
            c.post_fork(s2, same, 'the dimensions read are returned')
            c.post(s, T.eq(t.vpos, t.rope.length()), 'all of the text between the parentheses was taken')
            c.post_rope(s, t.rope, Rope((Slice(src, add(pos, 1), sub(q1, add(pos, 1))),)), 'the dimensions are read from the text between the parentheses')
        c.cases(s, chk)


task(['C05', 'C18'], 'read_shape on any stream', [SHAPE])(read_shape_)


# ----------------------------------------------------------------- dictionaries
def shape_contract(c):
    """the contract of read_shape: a parenthesised text that is a list of dimensions gives those, any other is refused"""
    dims = mkfun('dims', 0, U64 - 1, arity=2)
    number = mkfun('rank_at', 0, 1 << 60)
    isdims = z3.Function('is_dims', z3.IntSort(), z3.BoolSort())
    c.dims, c.number, c.isdims = dims, number, isdims

    def h(ex, st, a, ins):
        p, o = I.ist(ex, st, a[1])
        src = c.text
        s2 = st.clone()
        at = o.vpos
        if not (len(o.rope.ps) == 1 and isinstance(o.rope.ps[0], Slice) and o.rope.ps[0].src is src):
            raise Imprecise('the text of the dictionary')
        ok = band(good(o), lt(at, src.length), T.eq(src.at(at), 40), isdims(T.ex(at)))
        out = []
        if decide(ok, st.pc):
            q = first(c, st, src, add(at, 1), [41])
            st.assume(lt(q, src.length))
            rid = st.alloc_arr(8, number(T.ex(at)), Content(lambda i, at=at: dims(T.ex(at), T.ex(i))), 'shape', ety=('int', 64))
            st.wr(a[0].rid).cells[a[0].off] = (24, VecVal(rid, 8))
            ex.setobj(st, p, o.with_(vpos=add(q, 1)))
            return None
        raise CxxThrow('std::runtime_error')
    c.ex.overrides[SHAPE] = h
    c.assumed.add('read_shape replaced by its contract (proved by the task of that name)')


def code_contract(c):
    """the contract of from_dtype: the type and order of a known code, an exception for any other text (C06)"""
    c.iscode = z3.Function('is_code', z3.IntSort(), z3.IntSort(), z3.BoolSort())
    c.codet = mkfun('code_type', 0, 12, arity=2)
    c.codee = mkfun('code_order', 0, 2, arity=2)

    def h(ex, st, a, ins):
        r = I.sv(ex, st, a[0]).rope
        if len(r.ps) == 0:
            raise CxxThrow('std::runtime_error')
        if not (len(r.ps) == 1 and isinstance(r.ps[0], Slice) and r.ps[0].src is c.text):
            raise Imprecise('the text of the code')
        x, y = T.ex(r.ps[0].off), T.ex(add(r.ps[0].off, r.ps[0].n))
        if decide(c.iscode(x, y), st.pc):
            p = Ptr(st.alloc_flat(2, 'code'), 0)
            w = st.wr(p.rid)
            w.cells[0] = (1, c.codet(x, y))
            w.cells[1] = (1, c.codee(x, y))
            return p
        raise CxxThrow('std::runtime_error')
    c.ex.overrides['npy::from_dtype(string const&)'] = h
    c.assumed.add('from_dtype replaced by its contract (proved: C06)')


class DictLoop(Invariant):
    """every iteration takes one key with its value"""

    def __init__(self, c, out):
        self.c, self.out = c, out

    def text(self, st):
        l = [v for rid, r in st.regions.items() if r.kind == 'flat' for _, v in r.cells.values() if isinstance(v, IStr)]
        if len(l) != 1:
            raise Imprecise('the stream over the dictionary')
        return l[0]

    def holds(self, st):
        o = self.text(st)
        L = o.rope.length()
        return band(ge(o.vpos, 0), le(o.vpos, L), implies(bor(o.failx, o.eofx), T.eq(o.vpos, L)))

    def entry(self, st):
        o = self.text(st)
        src = self.c.text
        self.c.post(st, band(lt(0, src.length), T.eq(src.at(0), 123), T.eq(o.vpos, 1)), 'a dictionary begins with a brace')

    def exit(self, st):
        st.ghost['exit'] = self.text(st)
        st.ghost['flags'] = self.flags(st)

    def back(self, head, st):
        c, out = self.c, self.out

        def chk(s):
            src = c.text
            L = src.length
            h, b = self.text(head), self.text(s)
            p = first(c, s, src, h.vpos, WS, True)
            c.post(s, band(lt(p, L), T.eq(src.at(p), 39)), 'a key is quoted')
            q = first(c, s, src, add(p, 1), [39])
            c.post(s, lt(q, L), 'the quotes of a key are closed')
            key = Rope((Slice(src, add(p, 1), sub(q, add(p, 1))),))
            r = first(c, s, src, add(q, 1), WS, True)
            c.post(s, band(lt(r, L), T.eq(src.at(r), 58)), 'a colon follows the key')
            v = first(c, s, src, add(r, 1), WS, True)
            d, e, f, shp, m = fields(c, s, out)
            d0, e0, f0, shp0, m0 = fields(c, head, out)
            same = [d is d0 or T.eq(d, d0), e is e0 or T.eq(e, e0), m is m0 or T.eq(m, m0)]
            samef = f is f0 or T.eq(truth(f), truth(f0))
            sames = isinstance(shp, VecVal) and isinstance(shp0, VecVal) and shp.rid == shp0.rid and s.regions[shp.rid].content is head.regions[shp.rid].content
            fl0, fl1 = self.flags(head), self.flags(s)
            if decide(eq_cond(key, lit(b'descr'), s.pc), s.pc):
                c.post(s, band(lt(v, L), T.eq(src.at(v), 39)), 'the dtype code is quoted')
                w = first(c, s, src, add(v, 1), [39])
                c.post(s, lt(w, L), 'the quotes of the dtype code are closed')
                code = Rope((Slice(src, add(v, 1), sub(w, add(v, 1))),))
                self.code(s, src, code, add(v, 1), w, d, e, m)
                z = add(w, 1)
                c.post(s, samef, 'the order stays')
                c.form(s, sames, 'the shape stays')
                self.flag(s, fl0, fl1, 'descr')
            elif decide(eq_cond(key, lit(b'fortran_order'), s.pc), s.pc):
                t = literal(src, v, b'True')
                c.post(s, bor(t, literal(src, v, b'False')), 'the order is True or False')
                c.post(s, T.eq(truth(f), t), 'the order is the value of the text')
                z = ite(t, add(v, 4), add(v, 5))
                for x in same:
                    c.post(s, x, 'the dtype stays')
                c.form(s, sames, 'the shape stays')
                self.flag(s, fl0, fl1, 'order')
            else:
                c.post(s, eq_cond(key, lit(b'shape'), s.pc), 'an unknown key is refused')
                c.post(s, band(lt(v, L), T.eq(src.at(v), 40), c.isdims(T.ex(v))), 'the shape is a list of dimensions')
                w = first(c, s, src, add(v, 1), [41])
                z = add(w, 1)
                if not isinstance(shp, VecVal):
                    raise Imprecise('shape')
                rg = s.regions[shp.rid]
                c.post(s, T.eq(rg.length, c.number(T.ex(v))), 'the shape is the one in the text (rank)')
                j = mk('j', 0, None)
                s2 = s.clone()
                s2.assume(lt(j, rg.length))
                c.post_fork(s2, lambda pc: T.eq(rg.content.get(j, pc), c.dims(T.ex(v), T.ex(j))), 'the shape is the one in the text')
                for x in same:
                    c.post(s, x, 'the dtype stays')
                c.post(s, samef, 'the order stays')
                self.flag(s, fl0, fl1, 'shape')
            c.post(s, band(lt(z, L), T.eq(src.at(z), 44)), 'a comma follows the value')
            y = first(c, s, src, add(z, 1), WS, True)
            c.post(s, T.eq(b.vpos, y), 'only whitespace follows the comma')
        c.cases(st, chk)

    def flags(self, st):
        return {k: st.regions[k[0]].cells[k[2]][1] for k in self.keys(st)}

    def keys(self, st):
        return [(rid, 'cell', off) for rid, r in st.regions.items() if r.kind == 'flat' and r.name.startswith('local') and r.size == 1
                for off, (sz, v) in r.cells.items() if isinstance(v, (int, bool))]

    which = None

    def flag(self, s, fl0, fl1, key):
        """remembers which flag is set by which key: an iteration may set only the flag of its key"""
        ch = [k for k in fl1 if k in fl0 and fl1[k] != fl0[k]]
        self.sets = getattr(self, 'sets', {})
        for k in ch:
            self.sets.setdefault(k, set()).add((key, int(fl1[k])))

    def code(self, s, src, code, a, w, d, e, m):
        c = self.c
        uni = band(ge(sub(w, a), 2), T.eq(src.at(add(a, 1)), 85))
        if not decide(uni, s.pc):
            c.post(s, c.iscode(T.ex(a), T.ex(w)), 'an unknown code is refused')
            c.post(s, band(T.eq(d, c.codet(T.ex(a), T.ex(w))), T.eq(e, c.codee(T.ex(a), T.ex(w))), T.eq(m, 0)), 'the type and byte order of the code')
            return
        c.post(s, band(ge(sub(w, a), 3), bor(T.eq(src.at(a), 60), T.eq(src.at(a), 62)), T.eq(src.at(add(a, 1)), 85)), 'an unknown code is refused')
        r = I.first_index(c.ex, s, code, 2, I.DIGITS, True)
        c.post(s, r is None, 'a unicode length is a number')
        v = number(c, s, src, add(a, 2), w)
        c.post(s, band(T.eq(d, 13), T.eq(m, v), lt(v, 1 << 31)), 'the unicode length')
        c.post(s, T.eq(e, ite(T.eq(src.at(a), 62), 1, 2)), 'the byte order of a unicode code')


def dictionary_(c):
    st = c.start()
    src = mk_src('text', mk('text.len', 0, 1 << 32))
    c.text = src
    p = mk_string(st, src.whole())
    out = raw(st, 128, 'result')
    skip_contract(c)
    shape_contract(c)
    code_contract(c)
    inv = DictLoop(c, out)
    c.ex.finite[c.env.find(CTOR).dname] = inv
    rets = []
    for s in c.call(st, CTOR, [out, p]):
        def chk(s):
            if s.status == 'exc':
                c.post(s, c.exc_is(s, 'std::exception'), 'refused with a standard exception')
                return
            o = s.ghost['exit']
            z = o.vpos
            L = src.length
            c.post(s, band(lt(z, L), T.eq(src.at(z), 125)), 'a dictionary ends with a brace')
            y = first(c, s, src, add(z, 1), WS, True)
            c.post(s, T.eq(y, L), 'only whitespace follows the dictionary')
            rets.append(s)
        c.cases(s, chk)
    # the flags: what is true of every normal return
    sets = getattr(inv, 'sets', {})
    for s in rets:
        got = set()
        for k, l in sets.items():
            r = s.ghost.get('flags', {}).get(k)
            if r == 1 and len(l) == 1:
                got |= {x for x, _ in l}
        c.post(s, got == {'descr', 'order', 'shape'}, 'a dictionary without one of the keys is refused')
    c.form(st, len(rets) > 0, 'some dictionaries are accepted')


task(['C05', 'C18'], 'header_info of any text', [CTOR])(dictionary_)
