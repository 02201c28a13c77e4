"""Assumed contracts of the C++ standard library and the C library.

Every handler is the contract of one library function: it stands for all executions the ISO standard allows on the
states the executor can represent; where the representation does not cover a case it raises Imprecise, which never
counts as a verdict.  Nothing of /repo is modelled here: the library's own functions are always executed from the IR.
"""
import re
import z3
from .terms import *
from . import terms as T
from .rope import *
from .mem import *
from . import ir
from .execu import CxxThrow, Multi, PathEnd, toint, tobool

U64 = 1 << 64
MAXSZ = (1 << 63) - 1


# ----------------------------------------------------------------- names
def strip_alloc(d):
    while True:
        i = d.find(', std::allocator<')
        if i < 0:
            return d
        j = i + len(', std::allocator<')
        depth = 1
        while depth:
            depth += {'<': 1, '>': -1}.get(d[j], 0)
            j += 1
        for suf in (' const&', '&&', '&'):
            if d[j:].startswith(suf):
                j += len(suf)
                break
        d = d[:i] + d[j:]


_simp = {}


def simp(d):
    r = _simp.get(d)
    if r is None:
        s = d.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string')
        s = s.replace('std::__cxx11::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t>>', 'wstring')
        s = strip_alloc(s)
        s = s.replace(', std::char_traits<char>', '').replace(', std::char_traits<wchar_t>', '').replace('[abi:cxx11]', '')
        s = s.replace('std::__cxx11::', 'std::')
        for a, b in (('basic_ostream<char>', 'ostream'), ('basic_istream<char>', 'istream'), ('basic_ios<char>', 'ios'),
                     ('basic_ostringstream<char>', 'ostringstream'), ('basic_istringstream<char>', 'istringstream'),
                     ('basic_ofstream<char>', 'ofstream'), ('basic_ifstream<char>', 'ifstream'), ('ios_base', 'ios')):
            s = s.replace('std::' + a, 'std::' + b)
        s = s.replace('std::string', 'string')
        r = _simp[d] = s
    return r


class Name:
    """class, method, parameter list of a demangled name"""

    def __init__(self, d):
        s = simp(d)
        self.full = s
        self.const = False
        if s.endswith(' const'):
            s = s[:-6]
            self.const = True
        self.params = []
        if s.endswith(')'):
            depth = 0
            i = len(s) - 1
            while i >= 0:
                if s[i] == ')':
                    depth += 1
                elif s[i] == '(':
                    depth -= 1
                    if depth == 0:
                        break
                i -= 1
            self.params = split_top(s[i + 1:-1])
            s = s[:i]
        self.ret, s = split_ret(s)
        self.qual = s
        parts = split_scope(s)
        self.meth = parts[-1]
        self.cls = '::'.join(parts[:-1])
        self.base = strip_targs(self.meth)
        self.targs = ''
        if self.base != self.meth:
            self.targs = self.meth[len(self.base) + 1:-1]

    def elem(self):
        m = re.match(r'std::vector<(.*)>$', self.cls)
        return m.group(1) if m else None


def split_top(s):
    out, depth, cur = [], 0, ''
    for c in s:
        if c in '<([{':
            depth += 1
        elif c in '>)]}':
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def split_ret(s):
    depth = 0
    last = -1
    i = 0
    while i < len(s):
        if s.startswith('operator', i) and (i == 0 or s[i - 1] in ': ') and depth == 0:
            break
        c = s[i]
        if c in '<(':
            depth += 1
        elif c in '>)':
            depth -= 1
        elif c == ' ' and depth == 0:
            last = i
        i += 1
    if s.startswith('(anonymous namespace)'):
        return '', s
    k = s.find('(anonymous namespace)')
    if k > 0 and last < k + 22 and last >= k:
        return s[:k].strip(), s[k:]
    return (s[:last], s[last + 1:]) if last >= 0 else ('', s)


def split_scope(s):
    out, depth, cur, i = [], 0, '', 0
    while i < len(s):
        if s.startswith('operator', i) and depth == 0:
            out.append(s[i:])
            return out
        c = s[i]
        if c in '<(':
            depth += 1
        elif c in '>)':
            depth -= 1
        if c == ':' and depth == 0 and s.startswith('::', i):
            out.append(cur)
            cur = ''
            i += 2
            continue
        cur += c
        i += 1
    out.append(cur)
    return out


def strip_targs(m):
    if m.startswith('operator'):
        for op in ('operator<<=', 'operator>>=', 'operator<<', 'operator>>', 'operator<=', 'operator>=', 'operator->*', 'operator->', 'operator<', 'operator>'):
            if m.startswith(op):
                return op
        i = m.find('<')
        return m if i < 0 else m[:i]
    i = m.find('<')
    return m if i <= 0 else m[:i]


# ----------------------------------------------------------------- elements of vectors
SIZES = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'npy::boolean': 1, 'short': 2, 'unsigned short': 2,
         'int': 4, 'unsigned int': 4, 'float': 4, 'wchar_t': 4, 'long': 8, 'unsigned long': 8, 'double': 8,
         'long long': 8, 'unsigned long long': 8}
# element type -> (size of an element, size of a cell of the region)
COMPLEX = {'std::complex<float>': (8, 4), 'std::complex<double>': (16, 8)}


class Elem:
    def __init__(self, name, module):
        self.name = name
        self.kind = 'scalar'
        self.es = self.cell = SIZES.get(name)
        if self.es:
            return
        if name in COMPLEX:
            self.es, self.cell = COMPLEX[name]
            return
        if name in ('string', 'wstring'):
            self.kind, self.es, self.cell = name, 32, 32
            return
        if name.endswith('*'):
            self.es = self.cell = 8
            return
        self.kind = 'struct'
        for pre in ('struct.', 'class.'):
            t = module.types.get(pre + name) if hasattr(module, 'types') else None
            if t is not None:
                self.es = self.cell = module.sizeof(('named', pre + name))
                self.type = ('named', pre + name)
                return
        raise Imprecise('vector of %s' % name)

    def default(self):
        if self.kind == 'scalar':
            return 0
        if self.kind == 'string':
            return {0: (32, StrVal(EMPTY, 1))}
        if self.kind == 'wstring':
            return {0: (32, StrVal(EMPTY, 4))}
        raise Imprecise('default %s' % self.name)

    @property
    def per(self):
        return self.es // self.cell

    def region(self, st, length, content, name='vector'):
        return st.alloc_arr(self.cell, mul(self.per, length) if self.per > 1 else length, content, name,
                            ety='struct' if self.kind != 'scalar' else ('int', 8 * self.es))


def vec(ex, st, p, what='vector'):
    v = ex.getobj(st, p)
    if not isinstance(v, VecVal):
        if v is UNDEF:
            ex.oblige(st, False, 'the vector is constructed')
        raise Imprecise('not a vector: %r' % (v,))
    return v


def vreg(ex, st, v):
    return st.regions[v.rid]


def vsize(st, v):
    r = st.regions[v.rid]
    if v.es == r.es:
        return r.length
    return divc(mul(r.length, r.es), v.es)


def zero(i):
    return 0


def sv(ex, st, p):
    s = ex.getobj(st, p)
    if not isinstance(s, StrVal):
        if s is UNDEF or s is None:
            ex.oblige(st, False, 'the string is constructed')
        raise Imprecise('not a string: %r' % (s,))
    return s


def cstring(ex, st, p):
    """bytes up to the terminator"""
    r = ex.region(st, p, 'read')
    out = []
    i = 0
    if r.kind == 'str':
        s = ex.getobj(st, r.view)
        if T.eq(p.off, 0) is True:
            if len(s.rope.ps) == 1 and isinstance(s.rope.ps[0], Slice) and T.eq(s.rope.ps[0].src.at(fresh('ix', 0, None)), 0) is False:
                return s.rope
            z = first_index(ex, st, s.rope, 0, [0])
            if z is None:
                return s.rope
        raise Imprecise('C string inside a string')
    while True:
        b = ex.use(st, ex.load(st, Ptr(p.rid, add(p.off, i)), ('int', 8)), 'character')
        if not isinstance(b, int):
            if decide(T.eq(b, 0), st.pc):
                b = 0
        if isinstance(b, int) and b == 0:
            return Rope((Lit(out),)) if out else EMPTY
        out.append(b)
        i += 1
        if i > 4096:
            raise Imprecise('long C string')


def char_set(item, chars):
    return bor(*[T.eq(item, c) for c in chars])


def item_bounds_exclude(p, chars):
    """no element of the piece can be one of chars"""
    if isinstance(p, Dec):
        return all(not (48 <= c <= 57) for c in chars)
    if isinstance(p, Slice):
        ch = getattr(p.src, 'excl', None)
        return ch is not None and all(ch(c) for c in chars)
    if isinstance(p, Rep):
        return all(T.eq(p.item, c) is False for c in chars)
    return False


def first_index(ex, st, rope, start, chars, negate=False):
    """position (>= start) of the first element in chars (or not in chars); None if there is none.  May Fork."""
    pos = 0
    started = T.eq(start, 0) is True
    for p in rope.ps:
        L = p.length()
        rel = 0
        if not started:
            if decide(ge(start, add(pos, L)), st.pc):
                pos = add(pos, L)
                continue
            rel = sub(start, pos)
            started = True
        if isinstance(p, Lit):
            if not isinstance(rel, int):
                rel = ex.concretise(st, rel, len(p.items))
            for i in range(rel, len(p.items)):
                c = char_set(p.items[i], chars)
                if negate:
                    c = bnot(c)
                if decide(c, st.pc):
                    return add(pos, i)
        elif not negate and item_bounds_exclude(p, chars):
            pass
        elif isinstance(p, Dec) and negate and all(c in chars for c in range(48, 58)):
            pass
        elif isinstance(p, Dec) and negate and not any(c in chars for c in range(48, 58)):
            return add(pos, rel)
        elif isinstance(p, Rep):
            c = char_set(p.item, chars)
            if negate:
                c = bnot(c)
            if decide(gt(sub(p.n, rel), 0), st.pc) and decide(c, st.pc):
                return add(pos, rel)
        elif isinstance(p, Big) and not negate and all(
                all(isinstance(q, (Lit, Dec)) and (item_bounds_exclude(q, chars) if isinstance(q, Dec) else
                    all(T.eq(x, c) is False for x in q.items for c in chars)) for q in r.ps) for _, r in p.fam.generic):
            pass
        elif isinstance(p, Big) and negate and decide(gt(sub(L, rel), 0), st.pc):
            for step in range(8):
                at = add(rel, step)
                if step and not decide(lt(at, L), st.pc):
                    break
                c = bnot(char_set(piece_at(p, at, st.pc), chars))
                if decide(c, st.pc):
                    return add(pos, at)
            else:
                raise Imprecise('search in %r' % (p,))
        else:
            # opaque: the position is a function of the sequence
            n = sub(L, rel)
            if isinstance(n, int) and n <= 12:
                for i in range(n):
                    c = char_set(piece_at(p, add(rel, i), st.pc), chars)
                    if negate:
                        c = bnot(c)
                    if decide(c, st.pc):
                        return add(pos, add(rel, i))
            else:
                q = scan_fun(p, chars, negate)(rel)
                # q(rel) = first index >= rel in this piece, or its length
                st.assume(band(ge(q, rel), le(q, L)))
                h0 = char_set(piece_at(p, rel, st.pc), chars)
                st.assume(implies(lt(rel, L), T.eq(bnot(h0) if negate else h0, T.eq(q, rel))))
                if decide(lt(q, L), st.pc):
                    c = char_set(piece_at(p, q, st.pc), chars)
                    st.assume(bnot(c) if negate else c)
                    note_scan(st, p, rel, q, chars, negate)
                    return add(pos, q)
                note_scan(st, p, rel, L, chars, negate)
        pos = add(pos, L)
    return None


_scans = {}


def scan_fun(p, chars, negate):
    if not isinstance(p, Slice):
        raise Imprecise('search in %r' % (p,))
    key = (id(p.src), tuple(sorted(chars)), negate)
    if key not in _scans:
        _scans[key] = (p.src, mkfun('scan!%d' % len(_scans), 0, None, arity=1))
    f = _scans[key][1]

    def q(rel):
        # index in the source of the first hit at or after off + rel
        return sub(f(ex_(add(p.off, rel))), p.off) if False else f_rel(f, p, rel)
    return q


def f_rel(f, p, rel):
    # min(first hit, end of slice) relative to the slice
    a = f(ex_(add(p.off, rel)))
    end = add(p.off, p.n)
    return sub(ite(lt(a, end), a, end), p.off)


def ex_(x):
    return T.ex(x)


def note_scan(st, p, lo, hi, chars, negate):
    """elements lo..hi of p are outside (inside, if negate) chars: usable by instantiation"""
    st.ghost['scans'] = tuple(st.ghost.get('scans', ())) + ((p.src, add(p.off, lo), add(p.off, hi), tuple(chars), negate),)


# ----------------------------------------------------------------- strings
def S(h):
    """handler on a string object: args[0] is the object"""
    return h


def set_str(ex, st, p, rope, es):
    o = ex.getobj(st, p)
    if isinstance(o, StrVal):
        ex.setobj(st, p, o.with_(rope=rope))
    else:
        ex.setobj(st, p, StrVal(rope, es))


def wide_range(ex, st, p, n, es):
    """n elements of size es at p"""
    if es == 1:
        return ex.read_range(st, p, n)
    r = ex.region(st, p, 'read')
    if r.kind == 'str':
        s = ex.getobj(st, r.view)
        if s.es == es:
            return rope_slice(s.rope, divc(p.off, es), n, st.pc)
    if r.kind == 'arr' and r.es == es:
        idx = divc(p.off, es)
        ex.oblige(st, band(ge(idx, 0), le(add(idx, n), r.length)), 'read within bounds of %s' % r.name)
        if isinstance(n, int) and n <= 64:
            return Rope((Lit([r.content.get(add(idx, i), st.pc) for i in range(n)]),))
    raise Imprecise('wide characters at %r' % (p,))


def str_ctor(nm, es):
    P = nm.params

    def h(ex, st, a, ins):
        this = a[0]
        if not P or P[0].startswith('std::allocator'):
            rope = EMPTY
        elif P[0] in ('string const&', 'wstring const&'):
            s = sv(ex, st, a[1])
            if len(P) >= 2 and P[1] == 'unsigned long':
                pos = a[2]
                n = a[3] if len(P) >= 3 and P[2] == 'unsigned long' else MAXSZ
                rope = substr(ex, st, s.rope, pos, n)
            else:
                rope = s.rope
        elif P[0] in ('string&&', 'wstring&&'):
            s = sv(ex, st, a[1])
            rope = s.rope
            ex.setobj(st, a[1], s.with_(rope=EMPTY))
        elif P[0] in ('char const*', 'wchar_t const*') and len(P) >= 2 and P[1] == 'unsigned long':
            rope = wide_range(ex, st, a[1], a[2], es)
        elif P[0] == 'char const*' and (len(P) == 1 or P[1].startswith('std::allocator')):
            rope = cstring(ex, st, a[1])
        elif P[0] == 'unsigned long' and len(P) >= 2 and P[1] in ('char', 'wchar_t'):
            rope = Rope((Rep(a[2], a[1]),))
        elif len(P) >= 2 and P[0] == P[1] and isinstance(a[1], Ptr) and isinstance(a[2], Ptr):
            if a[1].rid != a[2].rid:
                if a[1].rid is None and a[2].rid is None:
                    rope = EMPTY
                else:
                    raise Imprecise('string from a range of two objects')
            else:
                n = divc(sub(a[2].off, a[1].off), es)
                ex.oblige(st, ge(n, 0), 'iterator range in order')
                rope = wide_range(ex, st, a[1], n, es)
        else:
            raise Imprecise('constructor %s' % nm.full)
        ex.setobj(st, this, StrVal(rope, es))
    return h


def substr(ex, st, rope, pos, n):
    L = rope.length()
    if not decide(le(pos, L), st.pc):
        raise CxxThrow('std::out_of_range')
    avail = sub(L, pos)
    if decide(le(n, avail), st.pc):
        return rope_slice(rope, pos, n, st.pc)
    return rope_slice(rope, pos, avail, st.pc)


def arg_rope(ex, st, a, i, typ, es):
    """the sequence denoted by argument i of parameter type typ"""
    if typ in ('string const&', 'wstring const&', 'string&&', 'string', 'wstring&&'):
        return sv(ex, st, a[i]).rope
    if typ == 'char const*':
        return cstring(ex, st, a[i])
    if typ in ('char', 'wchar_t'):
        return Rope((Lit((a[i],)),))
    if typ.startswith('char const (&)') or typ.startswith('char const['):
        return cstring(ex, st, a[i])
    raise Imprecise('sequence argument of type %s' % typ)


def str_method(nm, es):
    m = nm.base
    P = nm.params
    if m in ('basic_string', 'string', 'wstring'):
        return str_ctor(nm, es)
    if m.startswith('~'):
        def h(ex, st, a, ins):
            sv(ex, st, a[0])
            ex.setobj(st, a[0], None)
        return h
    if m in ('size', 'length'):
        return lambda ex, st, a, ins: sv(ex, st, a[0]).rope.length()
    if m == 'empty':
        return lambda ex, st, a, ins: T.eq(sv(ex, st, a[0]).rope.length(), 0)
    if m in ('data', 'c_str', 'begin', 'cbegin'):
        def h(ex, st, a, ins):
            sv(ex, st, a[0])
            return Ptr(ex.strview(st, a[0]), 0)
        return h
    if m in ('end', 'cend'):
        return lambda ex, st, a, ins: Ptr(ex.strview(st, a[0]), mul(es, sv(ex, st, a[0]).rope.length()))
    if m in ('operator[]', 'at'):
        def h(ex, st, a, ins):
            s = sv(ex, st, a[0])
            if m == 'at':
                if not decide(lt(a[1], s.rope.length()), st.pc):
                    raise CxxThrow('std::out_of_range')
            return Ptr(ex.strview(st, a[0]), mul(es, a[1]))
        return h
    if m in ('back', 'front'):
        def h(ex, st, a, ins):
            n = sv(ex, st, a[0]).rope.length()
            ex.oblige(st, gt(n, 0), '%s of a non-empty string' % m)
            return Ptr(ex.strview(st, a[0]), mul(es, sub(n, 1)) if m == 'back' else 0)
        return h
    if m in ('operator=', 'assign'):
        def h(ex, st, a, ins):
            if m == 'assign' and len(P) > 1:
                if P[0] == 'char const*' and P[1] == 'unsigned long':
                    rope = wide_range(ex, st, a[1], a[2], es)
                else:
                    raise Imprecise(nm.full)
            else:
                rope = arg_rope(ex, st, a, 1, P[0], es)
            t = ex.region(st, a[0], 'write')
            if not (t.kind == 'arr' and t.ety == 'struct' and ex.getobj(st, a[0]) is STALE):
                sv(ex, st, a[0])    # (an element of a vector is constructed, whatever a loop has put there)
            set_str(ex, st, a[0], rope, es)
            if P[0] in ('string&&', 'wstring&&') and not (a[1] == a[0]):
                set_str(ex, st, a[1], EMPTY, es)
            return a[0]
        return h
    if m in ('operator+=', 'append', 'push_back'):
        def h(ex, st, a, ins):
            s = sv(ex, st, a[0])
            if m == 'append' and len(P) == 2:
                if P[0] == 'unsigned long':
                    rope = Rope((Rep(a[2], a[1]),))
                elif P[0] == 'char const*' and P[1] == 'unsigned long':
                    rope = wide_range(ex, st, a[1], a[2], es)
                elif isinstance(a[1], Ptr) and isinstance(a[2], Ptr) and a[1].rid == a[2].rid:
                    rope = wide_range(ex, st, a[1], divc(sub(a[2].off, a[1].off), es), es)
                else:
                    raise Imprecise(nm.full)
            elif m == 'append' and len(P) == 3:
                raise Imprecise(nm.full)
            else:
                rope = arg_rope(ex, st, a, 1, P[0], es)
            set_str(ex, st, a[0], s.rope + rope, es)
            return a[0]
        return h
    if m == 'insert' and P[:1] == ['unsigned long'] and len(P) == 2:
        def h(ex, st, a, ins):
            s = sv(ex, st, a[0])
            L = s.rope.length()
            if not decide(le(a[1], L), st.pc):
                raise CxxThrow('std::out_of_range')
            r = arg_rope(ex, st, a, 2, P[1], es)
            set_str(ex, st, a[0], rope_slice(s.rope, 0, a[1], st.pc) + r + rope_slice(s.rope, a[1], sub(L, a[1]), st.pc), es)
            return a[0]
        return h
    if m == 'pop_back':
        def h(ex, st, a, ins):
            s = sv(ex, st, a[0])
            n = s.rope.length()
            ex.oblige(st, gt(n, 0), 'pop_back of a non-empty string')
            set_str(ex, st, a[0], rope_slice(s.rope, 0, sub(n, 1), st.pc), es)
        return h
    if m == 'clear':
        return lambda ex, st, a, ins: (sv(ex, st, a[0]), set_str(ex, st, a[0], EMPTY, es), None)[2]
    if m in ('reserve', 'shrink_to_fit'):
        return lambda ex, st, a, ins: (sv(ex, st, a[0]), None)[1]
    if m == 'resize':
        def h(ex, st, a, ins):
            s = sv(ex, st, a[0])
            L = s.rope.length()
            n = a[1]
            if n is STALE:
                # a value the loop did not account for: any length at all
                n = fresh('hv_size', 0, (1 << 64) - 1)
            if not decide(le(n, MAXSZ // es - 1), st.pc):
                raise CxxThrow('std::length_error')
            fillc = a[2] if len(P) > 1 else 0
            if decide(le(n, L), st.pc):
                r = rope_slice(s.rope, 0, n, st.pc)
            else:
                r = s.rope + Rope((Rep(fillc, sub(n, L)),))
            set_str(ex, st, a[0], r, es)
        return h
    if m == 'substr':
        def h(ex, st, a, ins):
            s = sv(ex, st, a[1])
            ex.setobj(st, a[0], StrVal(substr(ex, st, s.rope, a[2], a[3]), es))
        return h
    if m == 'compare':
        def h(ex, st, a, ins):
            s = sv(ex, st, a[0])
            if len(P) == 1:
                o = arg_rope(ex, st, a, 1, P[0], es)
                x = s.rope
            elif len(P) == 3 and P[:2] == ['unsigned long'] * 2:
                x = substr(ex, st, s.rope, a[1], a[2])
                o = arg_rope(ex, st, a, 3, P[2], es)
            else:
                raise Imprecise(nm.full)
            c = eq_cond(x, o, st.pc)
            sign = fresh('hv_cmp', 1, (1 << 32) - 1)
            return ite(c, 0, sign)
        return h
    if m in ('find', 'find_first_of', 'find_first_not_of', 'rfind'):
        def h(ex, st, a, ins):
            s = sv(ex, st, a[0])
            what = P[0]
            pos = a[2] if len(P) >= 2 else 0
            if m == 'find' and what == 'char' or m == 'find_first_of' and what == 'char':
                if not isinstance(a[1], int):
                    raise Imprecise('search for a symbolic character')
                r = first_index(ex, st, s.rope, pos, [a[1]])
            elif m in ('find_first_not_of', 'find_first_of') and what in ('char const*', 'char', 'string const&'):
                cs = arg_rope(ex, st, a, 1, what, es).concrete()
                if cs is None:
                    raise Imprecise('symbolic character set')
                r = first_index(ex, st, s.rope, pos, list(cs), m == 'find_first_not_of')
            elif m == 'find' and what in ('char const*', 'string const&'):
                n = arg_rope(ex, st, a, 1, what, es).concrete()
                if n is not None and len(n) == 1:
                    r = first_index(ex, st, s.rope, pos, list(n))
                else:
                    raise Imprecise(nm.full)
            else:
                raise Imprecise(nm.full)
            return U64 - 1 if r is None else r
        return h
    if m in ('swap',):
        def h(ex, st, a, ins):
            x, y = sv(ex, st, a[0]), sv(ex, st, a[1])
            ex.setobj(st, a[0], y)
            ex.setobj(st, a[1], x)
        return h
    if m in ('rbegin', 'rend', 'crbegin', 'crend'):
        def h(ex, st, a, ins):
            # a reverse_iterator is one pointer, written to the place of the result
            off = mul(es, sv(ex, st, a[1]).rope.length()) if m.endswith('begin') else 0
            ex.store(st, a[0], Ptr(ex.strview(st, a[1]), off), ir.PTR)
        return h
    return False


def str_op(nm, es):
    m, P = nm.base, nm.params
    if len(P) != 2:
        return None
    if m in ('operator==', 'operator!='):
        def h(ex, st, a, ins):
            c = eq_cond(arg_rope(ex, st, a, 0, P[0], es), arg_rope(ex, st, a, 1, P[1], es), st.pc)
            return c if m == 'operator==' else bnot(c)
        return h
    if m == 'operator+':
        def h(ex, st, a, ins):
            r = arg_rope(ex, st, a, 1, P[0], es) + arg_rope(ex, st, a, 2, P[1], es)
            for i, p in enumerate(P):
                if p == 'string&&':
                    set_str(ex, st, a[i + 1], EMPTY, es)
            ex.setobj(st, a[0], StrVal(r, es))
        return h
    if m in ('operator<', 'operator>', 'operator<=', 'operator>='):
        def h(ex, st, a, ins):
            x, y = (sv(ex, st, q).rope.concrete() for q in (a[0], a[1]))
            if x is None or y is None:
                raise Imprecise('order of symbolic strings')
            x, y = bytes(x), bytes(y)
            return {'operator<': x < y, 'operator>': x > y, 'operator<=': x <= y, 'operator>=': x >= y}[m]
        return h
    return None


# ----------------------------------------------------------------- vectors
def new_vec(ex, st, this, e, length, content):
    rid = e.region(st, length, content)
    ex.setobj(st, this, VecVal(rid, e.es))
    return rid


def check_len(ex, st, n, es):
    if not decide(le(n, MAXSZ // es), st.pc):
        raise CxxThrow('std::length_error')


def elem_value(ex, st, e, p):
    """the value of the element object at p"""
    if e.kind == 'scalar':
        if e.per == 1:
            v = ex.load(st, p, ('int', 8 * e.es))
            return [v.bits if isinstance(v, FP) else v]
        return [ex.load(st, Ptr(p.rid, add(p.off, j * e.cell)), ('int', 8 * e.cell)) for j in range(e.per)]
    if e.kind in ('string', 'wstring'):
        return [{0: (32, sv(ex, st, p))}]
    return [dict(ex.struct_cells(st, p, e.es))]


def move_out(ex, st, e, p):
    if e.kind in ('string', 'wstring'):
        s = sv(ex, st, p)
        ex.setobj(st, p, s.with_(rope=EMPTY))
    elif e.kind == 'struct':
        for o, (sz, v) in ex.struct_cells(st, p, e.es).items():
            if isinstance(v, StrVal):
                ex.setobj(st, Ptr(p.rid, add(p.off, o)), v.with_(rope=EMPTY))


def push_vals(ex, st, v, e, vals):
    n = vsize(st, v)
    check_len(ex, st, add(n, 1), e.es)
    r = st.wr(v.rid)
    base = r.length
    for j, x in enumerate(vals):
        r.content = r.content.push(('set', add(base, j), x))
    r.length = add(base, len(vals))
    ex.note_write(st, r, v.rid)


def vec_method(nm, module):
    en = nm.elem()
    m, P = nm.base, nm.params
    try:
        e = Elem(en, module)
    except Imprecise:
        return None
    own = 'std::vector<%s>' % en
    if m == 'vector':
        def h(ex, st, a, ins):
            this = a[0]
            if not P or P[0].startswith('std::allocator'):
                new_vec(ex, st, this, e, 0, Content(None))
            elif P[0] == own + ' const&':
                v = vec(ex, st, a[1])
                new_vec(ex, st, this, e, vsize(st, v), vreg(ex, st, v).content)
            elif P[0] == own + '&&':
                v = vec(ex, st, a[1])
                ex.setobj(st, this, v)
                new_vec(ex, st, a[1], e, 0, Content(None))
            elif P[0] == 'unsigned long':
                n = a[1]
                check_len(ex, st, n, e.es)
                if len(P) >= 2 and not P[1].startswith('std::allocator'):
                    vals = elem_value(ex, st, e, a[2])
                    if len(vals) != 1:
                        raise Imprecise(nm.full)
                    new_vec(ex, st, this, e, n, Content(lambda i, x=vals[0]: x))
                else:
                    d = e.default()
                    new_vec(ex, st, this, e, n, Content(zero if d == 0 else (lambda i: d)))
            elif P[0].startswith('std::initializer_list'):
                # pointer and length are passed separately
                assign_range(ex, st, this, e, a[1], a[2])
            elif len(P) >= 2 and P[0] == P[1] and isinstance(a[1], Ptr) and isinstance(a[2], Ptr):
                assign_range(ex, st, this, e, a[1], divc(sub(a[2].off, a[1].off), e.es))
            else:
                raise Imprecise(nm.full)
        return h
    if m == '~vector':
        def h(ex, st, a, ins):
            v = vec(ex, st, a[0])
            ex.setobj(st, a[0], None)
            if v.rid in st.regions:
                r = st.wr(v.rid)
                r.alive = False
        return h
    if m == 'size':
        return lambda ex, st, a, ins: vsize(st, vec(ex, st, a[0]))
    if m == 'empty':
        return lambda ex, st, a, ins: T.eq(vsize(st, vec(ex, st, a[0])), 0)
    if m in ('begin', 'cbegin', 'data'):
        return lambda ex, st, a, ins: Ptr(vec(ex, st, a[0]).rid, 0)
    if m in ('end', 'cend'):
        def h(ex, st, a, ins):
            v = vec(ex, st, a[0])
            return Ptr(v.rid, mul(e.es, vsize(st, v)))
        return h
    if m == 'operator[]':
        return lambda ex, st, a, ins: Ptr(vec(ex, st, a[0]).rid, mul(e.es, a[1]))
    if m == 'at':
        def h(ex, st, a, ins):
            v = vec(ex, st, a[0])
            if not decide(lt(a[1], vsize(st, v)), st.pc):
                raise CxxThrow('std::out_of_range')
            return Ptr(v.rid, mul(e.es, a[1]))
        return h
    if m in ('back', 'front'):
        def h(ex, st, a, ins):
            v = vec(ex, st, a[0])
            n = vsize(st, v)
            ex.oblige(st, gt(n, 0), '%s of a non-empty vector' % m)
            return Ptr(v.rid, mul(e.es, sub(n, 1)) if m == 'back' else 0)
        return h
    if m in ('push_back', 'emplace_back'):
        def h(ex, st, a, ins):
            v = vec(ex, st, a[0])
            if m == 'emplace_back' and len(a) != 2:
                raise Imprecise(nm.full)
            if m == 'emplace_back' and e.kind == 'struct' and not (P and strip_ref(P[0]) == en):
                raise Imprecise(nm.full)
            if m == 'emplace_back' and e.kind == 'string' and strip_ref(P[0]) != 'string':
                raise Imprecise(nm.full)
            vals = elem_value(ex, st, e, a[1])
            if P and P[0].endswith('&&') or m == 'emplace_back' and nm.targs and not nm.targs.endswith('&'):
                move_out(ex, st, e, a[1])
            push_vals(ex, st, v, e, vals)
            if m == 'emplace_back':
                return Ptr(v.rid, mul(e.es, sub(vsize(st, v), 1)))
        return h
    if m == 'pop_back':
        def h(ex, st, a, ins):
            v = vec(ex, st, a[0])
            n = vsize(st, v)
            ex.oblige(st, gt(n, 0), 'pop_back of a non-empty vector')
            r = st.wr(v.rid)
            r.length = sub(r.length, e.per)
        return h
    if m in ('reserve', 'shrink_to_fit'):
        def h(ex, st, a, ins):
            vec(ex, st, a[0])
            if m == 'reserve':
                check_len(ex, st, a[1], e.es)
        return h
    if m == 'capacity':
        def h(ex, st, a, ins):
            c = fresh('hv_cap', 0, MAXSZ)
            st.assume(ge(c, vsize(st, vec(ex, st, a[0]))))
            return c
        return h
    if m == 'clear':
        def h(ex, st, a, ins):
            v = vec(ex, st, a[0])
            r = st.wr(v.rid)
            r.length = 0
        return h
    if m == 'resize':
        def h(ex, st, a, ins):
            v = vec(ex, st, a[0])
            n = a[1]
            check_len(ex, st, n, e.es)
            L = vsize(st, v)
            d = e.default()
            if len(P) > 1:
                vals = elem_value(ex, st, e, a[2])
                if len(vals) != 1:
                    raise Imprecise(nm.full)
                d = vals[0]
            if T.eq(L, 0) is True:
                r = st.wr(v.rid)
                r.content = Content(zero if d == 0 else (lambda i: d))
                r.length = mul(n, e.per)
                return
            small = decide(le(n, L), st.pc)
            r = st.wr(v.rid)
            if not small:
                r.content = r.content.push(('rope', mul(L, e.per), Rope((Rep(d, mul(sub(n, L), e.per)),))))
            r.length = mul(n, e.per)
        return h
    if m == 'operator=':
        def h(ex, st, a, ins):
            if P[0] == own + ' const&':
                v = vec(ex, st, a[1])
                w = vec(ex, st, a[0])
                if w.rid != v.rid:
                    new_vec(ex, st, a[0], e, vsize(st, v), vreg(ex, st, v).content)
            elif P[0] == own + '&&':
                v = vec(ex, st, a[1])
                vec(ex, st, a[0])
                if not (a[0] == a[1]):
                    ex.setobj(st, a[0], v)
                    new_vec(ex, st, a[1], e, 0, Content(None))
            else:
                assign_range(ex, st, a[0], e, a[1], a[2])
            return a[0]
        return h
    if m == 'assign':
        def h(ex, st, a, ins):
            if P[0] == 'unsigned long':
                vals = elem_value(ex, st, e, a[2])
                check_len(ex, st, a[1], e.es)
                if len(vals) != 1:
                    raise Imprecise(nm.full)
                new_vec(ex, st, a[0], e, a[1], Content(lambda i, x=vals[0]: x))
            elif isinstance(a[1], Ptr) and isinstance(a[2], Ptr):
                assign_range(ex, st, a[0], e, a[1], divc(sub(a[2].off, a[1].off), e.es))
            else:
                raise Imprecise(nm.full)
        return h
    if m == 'insert' and len(P) >= 3 and P[1] == P[2]:
        def h(ex, st, a, ins):
            v = vec(ex, st, a[0])
            n = vsize(st, v)
            at = divc(a[1].off, e.es)
            if quick(T.eq(at, n), st.pc) is not True or e.kind != 'scalar' or e.per != 1:
                raise Imprecise(nm.full)
            cnt = divc(sub(a[3].off, a[2].off), e.es)
            rope = elems_rope(ex, st, e, a[2], cnt)
            r = st.wr(v.rid)
            r.content = r.content.push(('rope', n, rope))
            r.length = add(n, cnt)
            return Ptr(v.rid, mul(e.es, at))
        return h
    if m == 'swap':
        def h(ex, st, a, ins):
            x, y = vec(ex, st, a[0]), vec(ex, st, a[1])
            ex.setobj(st, a[0], y)
            ex.setobj(st, a[1], x)
        return h
    if m in ('rbegin', 'rend', 'crbegin', 'crend'):
        return None
    return False


def strip_ref(t):
    return t.replace(' const', '').rstrip('&').strip()


def elems_rope(ex, st, e, p, n):
    r = ex.region(st, p, 'read')
    if e.es == 1:
        return ex.read_range(st, p, n)
    if r.kind == 'arr' and r.es == e.cell and e.kind == 'scalar':
        idx = divc(p.off, e.cell)
        cnt = mul(n, e.per)
        ex.oblige(st, band(ge(idx, 0), le(add(idx, cnt), r.length)), 'read within bounds of %s' % r.name)
        c = r.content
        if not c.layers and getattr(c.base, '__self__', None).__class__ is Source:
            return Rope((Slice(c.base.__self__, idx, cnt),))
        pc = list(st.pc)
        src = Source(fresh_name('mem'), None, fun=lambda i: c.get(i, pc))
        return Rope((Slice(src, idx, cnt),))
    if isinstance(n, int) and n <= 64 and e.kind == 'scalar':
        its = []
        for i in range(n):
            its.extend(elem_value(ex, st, e, Ptr(p.rid, add(p.off, i * e.es))))
        return Rope((Lit(its),)) if its else EMPTY
    raise Imprecise('range of elements')


def assign_range(ex, st, this, e, p, n):
    check_len(ex, st, n, e.es)
    if isinstance(n, int) and n <= 64:
        vals = []
        for i in range(n):
            vals.extend(elem_value(ex, st, e, Ptr(p.rid, add(p.off, i * e.es))))
        c = Content(None)
        for i, x in enumerate(vals):
            c = c.push(('set', i, x))
        new_vec(ex, st, this, e, n, c)
        return
    r = ex.region(st, p, 'read')
    if r.kind == 'arr' and r.es == e.cell and T.eq(p.off, 0) is True:
        ex.oblige(st, le(mul(n, e.per), r.length), 'read within bounds of %s' % r.name)
        new_vec(ex, st, this, e, n, r.content)
        return
    rope = elems_rope(ex, st, e, p, n)
    new_vec(ex, st, this, e, n, Content(None, (('rope', 0, rope),)))


# ----------------------------------------------------------------- maps keyed by strings
def mapv(ex, st, p):
    v = ex.getobj(st, p)
    if not isinstance(v, MapVal):
        if v is UNDEF:
            ex.oblige(st, False, 'the map is constructed')
        raise Imprecise('not a map: %r' % (v,))
    return v


def map_lookup(ex, st, mv, key):
    """rid of the node whose key equals key, or None.  May Fork."""
    for k, rid in reversed(mv.entries):
        c = eq_cond(key, k, st.pc)
        if decide(c, st.pc):
            return rid
    if mv.other is not None:
        return mv.other(ex, st, key)
    return None


def map_node(ex, st, key, vsz, fill=None):
    rid = st.alloc_flat(32 + vsz, 'map node', fill=fill)
    ex.setobj(st, Ptr(rid, 0), StrVal(key, 1))
    return rid


def map_method(nm, module):
    m, P = nm.base, nm.params
    mm = re.match(r'std::map<string, (.*), std::less<string>>$', nm.cls)
    if not mm:
        return None
    val = mm.group(1)
    own = nm.cls

    def vsz():
        if val == 'npy::file_entry':
            return module.sizeof(('named', 'struct.npy::file_entry'))
        if val.startswith('std::pair<'):
            return 8
        if val in SIZES:
            return SIZES[val]
        if val in ('string', 'wstring'):
            return 32
        raise Imprecise('map of %s' % val)
    if m == 'map':
        def h(ex, st, a, ins):
            if not P:
                ex.setobj(st, a[0], MapVal((), vsz()))
            elif P[0].startswith('std::initializer_list'):
                n = a[2]
                ents = []
                psz = 32 + vsz()
                if psz % 8:
                    psz += 8 - psz % 8
                for i in range(n):
                    q = Ptr(a[1].rid, add(a[1].off, i * psz))
                    key = sv(ex, st, q).rope
                    if key.concrete() is None:
                        raise Imprecise('symbolic key')
                    if any(k.concrete() == key.concrete() for k, _ in ents):
                        continue
                    rid = map_node(ex, st, key, vsz())
                    for o, (sz, v) in ex.struct_cells(st, Ptr(q.rid, add(q.off, 32)), psz - 32).items():
                        ex.put_cell(st, Ptr(rid, 32 + o), sz, v)
                    st.wr(rid).const = False
                    ents.append((key, rid))
                ex.setobj(st, a[0], MapVal(tuple(ents), vsz()))
            elif P[0] == own + '&&':
                v = mapv(ex, st, a[1])
                ex.setobj(st, a[0], v)
                ex.setobj(st, a[1], MapVal((), v.vsize))
            elif P[0] == own + ' const&':
                raise Imprecise('map copy')
            else:
                raise Imprecise(nm.full)
        return h
    if m == '~map':
        return lambda ex, st, a, ins: ex.setobj(st, a[0], None)
    if m in ('find', 'lower_bound') and m == 'find':
        def h(ex, st, a, ins):
            rid = map_lookup(ex, st, mapv(ex, st, a[0]), sv(ex, st, a[1]).rope)
            return Ptr(rid, -32) if rid is not None else end_of(a[0])
        return h
    if m in ('end', 'cend'):
        return lambda ex, st, a, ins: end_of(a[0])
    if m in ('count', 'contains'):
        def h(ex, st, a, ins):
            rid = map_lookup(ex, st, mapv(ex, st, a[0]), sv(ex, st, a[1]).rope)
            return (1 if rid is not None else 0) if m == 'count' else rid is not None
        return h
    if m == 'at':
        def h(ex, st, a, ins):
            rid = map_lookup(ex, st, mapv(ex, st, a[0]), sv(ex, st, a[1]).rope)
            if rid is None:
                raise CxxThrow('std::out_of_range')
            return Ptr(rid, 32)
        return h
    if m == 'operator[]':
        def h(ex, st, a, ins):
            mv = mapv(ex, st, a[0])
            key = sv(ex, st, a[1]).rope
            rid = map_lookup(ex, st, mv, key)
            if rid is None:
                rid = map_node(ex, st, key, vsz(), fill='zero')
                if val == 'npy::file_entry':
                    ex.setobj(st, Ptr(rid, 32), StrVal(EMPTY, 1))
                elif val == 'string':
                    ex.setobj(st, Ptr(rid, 32), StrVal(EMPTY, 1))
                ex.setobj(st, a[0], mv.with_(entries=mv.entries + ((key, rid),)))
            return Ptr(rid, 32)
        return h
    if m in ('emplace', 'insert', 'try_emplace', 'insert_or_assign', 'erase'):
        return False
    if m in ('size',):
        def h(ex, st, a, ins):
            mv = mapv(ex, st, a[0])
            if mv.other is not None:
                raise Imprecise('size of a symbolic map')
            return len(mv.entries)
        return h
    if m == 'empty':
        def h(ex, st, a, ins):
            mv = mapv(ex, st, a[0])
            if mv.other is not None:
                raise Imprecise('size of a symbolic map')
            return not mv.entries
        return h
    if m == 'clear':
        return lambda ex, st, a, ins: ex.setobj(st, a[0], MapVal((), mapv(ex, st, a[0]).vsize))
    if m == 'operator=' and P[0] == own + '&&':
        def h(ex, st, a, ins):
            v = mapv(ex, st, a[1])
            ex.setobj(st, a[0], v)
            ex.setobj(st, a[1], MapVal((), v.vsize))
            return a[0]
        return h
    return False


def end_of(p):
    return Ptr('end:%s:%s' % (p.rid, p.off), 0)


# ----------------------------------------------------------------- output streams
def ost(ex, st, p):
    if isinstance(p, VTab):
        p = p.place
    o = ex.getobj(st, p)
    if not isinstance(o, (OStr, IStr)):
        raise Imprecise('not a stream: %r' % (o,))
    return p, o


def emit(ex, st, p, rope):
    p, o = ost(ex, st, p)
    if not isinstance(o, OStr):
        raise Imprecise('output to an input stream')
    if o.kind == 'file' and o.open is not True:
        if not decide(o.open, st.pc):
            ex.setobj(st, p, o.with_(fail=True))
            return
    if o.fail is not False:
        if decide(o.fail, st.pc):
            return
    ex.setobj(st, p, o.with_(rope=o.rope + rope))


def ostream_method(nm):
    m, P = nm.base, nm.params
    if m == 'put':
        return lambda ex, st, a, ins: (emit(ex, st, a[0], Rope((Lit((a[1],)),))), a[0])[1]
    if m == 'write':
        def h(ex, st, a, ins):
            n = a[2]
            ex.oblige(st, lt(n, 1 << 63), 'the length of a write is not negative')
            emit(ex, st, a[0], ex.read_range(st, a[1], n))
            return a[0]
        return h
    if m == 'operator<<':
        if P and P[0] in ('unsigned long', 'unsigned int', 'unsigned short', 'unsigned long long', 'int', 'long', 'short', 'long long'):
            w = {'unsigned long': 64, 'long': 64, 'long long': 64, 'unsigned long long': 64, 'int': 32, 'unsigned int': 32,
                 'short': 16, 'unsigned short': 16}[P[0]]

            def h(ex, st, a, ins):
                v = a[1]
                if not ost(ex, st, a[0])[1].loc and not decide(lt(v, 10), st.pc):
                    raise Imprecise('a number written in the locale of the program (it may group the digits)')
                if not P[0].startswith('unsigned'):
                    if not decide(lt(v, 1 << (w - 1)), st.pc):
                        emit(ex, st, a[0], Rope((Lit(b'-'), Dec(sub(1 << w, v)))))
                        return a[0]
                emit(ex, st, a[0], Rope((Dec(v),)))
                return a[0]
            return h
        return False
    if m == 'tellp':
        def h(ex, st, a, ins):
            p, o = ost(ex, st, a[0])
            if o.fail is not False and decide(o.fail, st.pc):
                return Agg([U64 - 1, 0])
            return Agg([o.rope.length(), 0])
        return h
    if m == 'flush':
        def h(ex, st, a, ins):
            p, o = ost(ex, st, a[0])
            if o.kind == 'file' and decide(o.open, st.pc):
                # what was buffered goes to the file: that write may fail
                ex.setobj(st, p, o.with_(fail=bor(o.fail, fresh_bool('werr'))))
            return a[0]
        return h
    return False


def free_shift(nm):
    """ostream& operator<<(ostream&, string/char const*/char)"""
    P = nm.params
    if len(P) == 2 and P[0] == 'std::ostream&':
        def h(ex, st, a, ins):
            emit(ex, st, a[0], arg_rope(ex, st, a, 1, P[1], 1))
            return a[0]
        if P[1] in ('string const&', 'char const*', 'char'):
            return h
    return False


def ostringstream_method(nm):
    m, P = nm.base, nm.params
    if m == 'basic_ostringstream':
        def h(ex, st, a, ins):
            if P and not P[0].startswith('std::_Ios_Openmode'):
                raise Imprecise(nm.full)
            ex.setobj(st, a[0], OStr())
        return h
    if m.startswith('~'):
        return lambda ex, st, a, ins: ex.setobj(st, a[0], None)
    if m == 'str':
        def h(ex, st, a, ins):
            if P:
                raise Imprecise(nm.full)
            p, o = ost(ex, st, a[1])
            ex.setobj(st, a[0], StrVal(o.rope, 1))
        return h
    return False


def path_arg(ex, st, a, i, typ):
    if typ == 'string const&':
        return sv(ex, st, a[i]).rope
    if typ == 'char const*':
        return cstring(ex, st, a[i])
    if re.search(r'filesystem::(__cxx11::)?path', typ):
        o = ex.getobj(st, a[i])
        if isinstance(o, PathVal):
            return o.rope
        raise Imprecise('filesystem path')
    raise Imprecise('file name of type %s' % typ)


OUT_MODES = {16: 'trunc', 16 | 32: 'trunc', 4 | 16: 'trunc', 4 | 16 | 32: 'trunc'}   # out, out|trunc, binary|out, ...


def ofstream_method(nm):
    m, P = nm.base, nm.params
    if m == 'basic_ofstream' or m == 'open':
        def h(ex, st, a, ins):
            if not P:
                ex.setobj(st, a[0], OStr(kind='file', open=False))
                return
            path = path_arg(ex, st, a, 1, P[0])
            mode = a[2] | (16 if True else 0)
            ok = fresh_bool('fopen')
            binary = bool(mode & 4)
            o = OStr(EMPTY, bnot(ok), ok, 'file', path)
            st.ghost['files'] = tuple(st.ghost.get('files', ())) + ((path, mode, ok),)
            ex.setobj(st, a[0], o)
        return h
    if m.startswith('~'):
        def h(ex, st, a, ins):
            p, o = ost(ex, st, a[0])
            if o.open is not False:
                close_file(ex, st, p, o)
            ex.setobj(st, a[0], None)
        return h
    if m == 'is_open':
        return lambda ex, st, a, ins: ost(ex, st, a[0])[1].open
    if m == 'close':
        def h(ex, st, a, ins):
            p, o = ost(ex, st, a[0])
            close_file(ex, st, p, o)
        return h
    return False


def close_file(ex, st, p, o):
    """closing flushes: the write to the file may fail"""
    isopen = decide(o.open, st.pc)
    if not isopen:
        ex.setobj(st, p, o.with_(fail=True))
        return
    werr = bor(o.fail, fresh_bool('werr'))
    st.ghost['closed'] = tuple(st.ghost.get('closed', ())) + ((o.path, o.rope, werr),)
    ex.setobj(st, p, o.with_(fail=bor(o.fail, werr), open=False))


# ----------------------------------------------------------------- input streams
def ist(ex, st, p):
    p, o = ost(ex, st, p)
    if not isinstance(o, IStr):
        raise Imprecise('input from an output stream')
    return p, o


def ifail(o):
    return bor(o.failx, gt(o.vpos, o.rope.length()))


def sentry(ex, st, p, o):
    """unformatted input may proceed?  (a stream at eof or failed refuses)"""
    if o.failx is not False and decide(o.failx, st.pc):
        if not isinstance(o.gcount, int) or o.gcount != 0:
            ex.setobj(st, p, o.with_(gcount=0))
        return False
    if o.eofx is not False and decide(o.eofx, st.pc):
        ex.setobj(st, p, o.with_(failx=True, gcount=0))
        return False
    return True


def sticky(ex, o):
    """a stream that has just failed at its end; written out so that nothing has to be decided later (inside a loop
    that is summarised the position alone says so)"""
    return o if ex.loop_depth and not ex.in_finite else o.with_(failx=True, eofx=True)


def istream_method(nm):
    m, P = nm.base, nm.params
    if m == 'get' and len(P) == 0:
        def h(ex, st, a, ins):
            p, o = ist(ex, st, a[0])
            if not sentry(ex, st, p, o):
                return (1 << 32) - 1
            L = o.rope.length()
            if decide(lt(o.vpos, L), st.pc):
                c = rope_at(o.rope, o.vpos, st.pc)
                ex.setobj(st, p, o.with_(vpos=add(o.vpos, 1), gcount=1))
                return c
            ex.setobj(st, p, sticky(ex, o.with_(vpos=add(o.vpos, 1), gcount=0)))
            return (1 << 32) - 1
        return h
    if m == 'get' and len(P) == 1 and P[0] == 'char&':
        def h(ex, st, a, ins):
            p, o = ist(ex, st, a[0])
            if not sentry(ex, st, p, o):
                return a[0]
            if decide(lt(o.vpos, o.rope.length()), st.pc):
                ex.store(st, a[1], rope_at(o.rope, o.vpos, st.pc), ('int', 8))
                ex.setobj(st, p, o.with_(vpos=add(o.vpos, 1), gcount=1))
            else:
                ex.setobj(st, p, sticky(ex, o.with_(vpos=add(o.vpos, 1), gcount=0)))
            return a[0]
        return h
    if m == 'get' and len(P) == 3 and P[0] == 'char*':
        def h(ex, st, a, ins):
            p, o = ist(ex, st, a[0])
            if not isinstance(a[3], int):
                raise Imprecise('symbolic delimiter')
            n = a[2]
            if not sentry(ex, st, p, o) or not decide(le(o.vpos, o.rope.length()), st.pc):
                ex.store(st, a[1], 0, ('int', 8))
                o = ist(ex, st, p)[1]
                ex.setobj(st, p, o.with_(gcount=0))
                return a[0]
            q = first_index(ex, st, o.rope, o.vpos, [a[3]])
            L = o.rope.length()
            stop = L if q is None else q
            cnt = sub(stop, o.vpos)
            room = sub(n, 1)
            full = not decide(lt(cnt, room) if q is None else le(cnt, room), st.pc)
            if full:
                cnt = room
                if decide(lt(add(o.vpos, cnt), stop), st.pc):
                    # before the first delimiter
                    st.assume(bnot(T.eq(rope_at(o.rope, add(o.vpos, cnt), st.pc), a[3])))
            text = rope_slice(o.rope, o.vpos, cnt, st.pc)
            ex.write_range(st, a[1], text)
            ex.store(st, Ptr(a[1].rid, add(a[1].off, cnt)), 0, ('int', 8))
            none = decide(T.eq(cnt, 0), st.pc)
            ex.setobj(st, p, o.with_(vpos=add(o.vpos, cnt), gcount=cnt, failx=True if none else o.failx,
                                     eofx=True if (q is None and not full) else o.eofx))
            return a[0]
        return h
    if m == 'peek':
        def h(ex, st, a, ins):
            p, o = ist(ex, st, a[0])
            if not sentry(ex, st, p, o):
                return (1 << 32) - 1
            L = o.rope.length()
            if decide(lt(o.vpos, L), st.pc):
                ex.setobj(st, p, o.with_(gcount=0))
                return rope_at(o.rope, o.vpos, st.pc)
            ex.setobj(st, p, o.with_(gcount=0, eofx=True))
            return (1 << 32) - 1
        return h
    if m in ('read',):
        def h(ex, st, a, ins):
            p, o = ist(ex, st, a[0])
            n = a[2]
            ex.oblige(st, lt(n, 1 << 63), 'the length of a read is not negative')
            if not sentry(ex, st, p, o):
                return a[0]
            L = o.rope.length()
            if decide(le(add(o.vpos, n), L), st.pc):
                ex.write_range(st, a[1], rope_slice(o.rope, o.vpos, n, st.pc))
                ex.setobj(st, p, o.with_(vpos=add(o.vpos, n), gcount=n))
                return a[0]
            # the destination must have room for everything asked for
            if decide(lt(o.vpos, L), st.pc):
                av = sub(L, o.vpos)
                ex.write_range(st, a[1], rope_slice(o.rope, o.vpos, av, st.pc))
                ex.setobj(st, p, sticky(ex, o.with_(vpos=add(o.vpos, n), gcount=av)))
            else:
                ex.setobj(st, p, sticky(ex, o.with_(vpos=add(o.vpos, n), gcount=0)))
            return a[0]
        return h
    if m == 'gcount':
        return lambda ex, st, a, ins: ist(ex, st, a[0])[1].gcount
    if m == 'seekg':
        def h(ex, st, a, ins):
            if len(P) == 1:
                # an absolute position (with the state of a conversion, which there is none of)
                a = [a[0], a[1], 0]
            p, o = ist(ex, st, a[0])
            L = o.rope.length()
            o = o.with_(eofx=False)
            if decide(ifail(o), st.pc):
                ex.setobj(st, p, o)
                return a[0]
            if o.kind == 'file' and o.open is not True and not decide(o.open, st.pc):
                ex.setobj(st, p, o.with_(failx=True))
                return a[0]
            off = signed(a[1], 64)
            d = a[2]
            if not isinstance(d, int):
                raise Imprecise('seek direction')
            tgt = add(off, {0: 0, 1: o.vpos, 2: L}[d])
            if decide(band(ge(tgt, 0), le(tgt, L)), st.pc):
                ex.setobj(st, p, o.with_(vpos=tgt))
            else:
                ex.setobj(st, p, o.with_(failx=True))
            return a[0]
        return h
    if m == 'operator>>' and P and P[0] in ('unsigned long&', 'unsigned int&', 'int&', 'long&'):
        return lambda ex, st, a, ins: extract(ex, st, a, P[0])
    if m == 'ignore':
        def h(ex, st, a, ins):
            p, o = ist(ex, st, a[0])
            if len(P) > 1 and not (isinstance(a[2], int) and a[2] in ((1 << 32) - 1,)):
                raise Imprecise('ignore up to a delimiter')
            if not sentry(ex, st, p, o) or decide(ifail(o), st.pc):
                return a[0]
            n = a[1] if P else 1
            L = o.rope.length()
            if decide(le(add(o.vpos, n), L), st.pc):
                ex.setobj(st, p, o.with_(vpos=add(o.vpos, n), gcount=n))
            else:
                ex.setobj(st, p, o.with_(vpos=L, eofx=True))
            return a[0]
        return h
    if m == 'tellg':
        def h(ex, st, a, ins):
            p, o = ist(ex, st, a[0])
            if decide(ifail(o), st.pc) or o.kind == 'file' and o.open is not True and not decide(o.open, st.pc):
                return Agg([U64 - 1, 0])
            return Agg([o.vpos, 0])
        return h
    return False


WS = (32, 9, 10, 11, 12, 13)


def extract(ex, st, a, typ):
    if not ist(ex, st, a[0])[1].loc:
        raise Imprecise('a number read in the locale of the program (it may group the digits)')
    """formatted input of an integer"""
    p, o = ist(ex, st, a[0])
    if not sentry(ex, st, p, o) or not decide(le(o.vpos, o.rope.length()), st.pc):
        ex.setobj(st, p, ist(ex, st, p)[1].with_(failx=True))
        return a[0]
    if typ != 'unsigned long&':
        raise Imprecise('extraction of %s' % typ)
    i = first_index(ex, st, o.rope, o.vpos, list(WS), True)
    L = o.rope.length()
    if i is None:
        ex.setobj(st, p, o.with_(vpos=L, failx=True, eofx=True))
        return a[0]
    k, rel = locate(o.rope, i, st.pc)
    pc = o.rope.ps[k]
    kind, v, at0, end, nxt = number_at(o.rope, k, rel, i, st.pc)
    if kind:
        if at0 is not True:
            raise Imprecise('inside a number')
        if nxt is None:
            return store_num(ex, st, a, p, o, v, end, True)
        if is_t(nxt) or not 48 <= nxt <= 57:
            if is_t(nxt) and quick(bor(lt(nxt, 48), gt(nxt, 57)), st.pc) is not True:
                raise Imprecise('a number followed by something')
            return store_num(ex, st, a, p, o, v, end, False)
        raise Imprecise('a number followed by a digit')
    c = rope_at(o.rope, i, st.pc)
    signed_ = decide(bor(T.eq(c, 43), T.eq(c, 45)), st.pc)
    if isinstance(o.rope.ps[k], Slice):
        i2 = add(i, 1) if signed_ else i
        if not decide(lt(i2, L), st.pc):
            ex.store(st, a[1], 0, ('int', 64))
            ex.setobj(st, p, o.with_(vpos=L, failx=True, eofx=True))
            return a[0]
        r = digit_run(ex, st, o.rope, i2)
        if r is not None:
            q, v = r
            end = L if q is None else q
            if decide(T.eq(end, i2), st.pc):
                ex.store(st, a[1], 0, ('int', 64))
                ex.setobj(st, p, o.with_(vpos=end, failx=True, eofx=True if q is None else o.eofx))
                return a[0]
            if decide(lt(v, U64), st.pc):
                if signed_ and decide(T.eq(c, 45), st.pc):
                    v = modc(sub(0, v), U64)
                return store_num(ex, st, a, p, o, v, end, q is None)
            ex.store(st, a[1], U64 - 1, ('int', 64))
            ex.setobj(st, p, o.with_(vpos=end, failx=True, eofx=True if q is None else o.eofx))
            return a[0]
    # character by character, bounded by the 20 digits of the type
    if signed_:
        raise Imprecise('signed number text')
    digs = []
    j = i
    eof = False
    while True:
        if not decide(lt(j, L), st.pc):
            eof = True
            break
        c = rope_at(o.rope, j, st.pc)
        if not decide(band(ge(c, 48), le(c, 57)), st.pc):
            break
        digs.append(c)
        j = add(j, 1)
        if len(digs) > 24:
            raise Imprecise('a very long number')
    if not digs:
        ex.store(st, a[1], 0, ('int', 64))
        ex.setobj(st, p, o.with_(vpos=j, failx=True, eofx=bor(o.eofx, eof)))
        return a[0]
    v = 0
    for d in digs:
        v = add(mul(10, v), sub(d, 48))
    if decide(lt(v, U64), st.pc):
        return store_num(ex, st, a, p, o, v, j, eof)
    ex.store(st, a[1], U64 - 1, ('int', 64))
    ex.setobj(st, p, o.with_(vpos=j, failx=True, eofx=bor(o.eofx, eof)))
    return a[0]


def number_at(rope, k, rel, pos, pc):
    """is there a decimal text at offset rel of piece k?  -> (yes, value, at its start, position of its end, next character)"""
    p = rope.ps[k]
    if isinstance(p, Dec):
        end = add(pos, p.length())
        return True, p.v, quick(T.eq(rel, 0), pc), end, first_char(rope, k + 1, pc)
    if isinstance(p, Big):
        j, inner = big_index(p, rel, pc)
        body = pick_alt(p.body(j), pc)
        kk, rr = locate(body, inner, pc)
        yes, v, at0, end, nxt = number_at(body, kk, rr, pos, pc)
        if yes and nxt is None:
            if decide(lt(add(j, 1), p.n), pc):
                b2 = pick_alt(p.body(add(j, 1)), pc)
                nxt = first_char(b2, 0, pc)
                if nxt is None:
                    raise Imprecise('an empty element')
            else:
                nxt = first_char(rope, k + 1, pc)
        return yes, v, at0, end, nxt
    return False, None, None, None, None


def first_char(rope, k, pc):
    """the first character of pieces k, k + 1, ...; None at the end"""
    while k < len(rope.ps):
        if decide(gt(rope.ps[k].length(), 0), pc):
            return piece_at(rope.ps[k], 0, pc)
        k += 1
    return None


DIGITS = tuple(range(48, 58))
_numval = {}


def digit_run(ex, st, rope, i):
    """the digits at position i of an opaque text -> (position of the first other character or None, their value), or
    None if the text is not opaque there"""
    k, rel = locate(rope, i, st.pc)
    p = rope.ps[k]
    if not isinstance(p, Slice) or k != len(rope.ps) - 1 or isinstance(p.n, int):
        return None
    q = first_index(ex, st, rope, i, DIGITS, True)
    end = rope.length() if q is None else q
    if id(p.src) not in _numval:
        _numval[id(p.src)] = (p.src, mkfun('number!%d' % len(_numval), 0, None, arity=2))
    a = add(p.off, rel)
    return q, _numval[id(p.src)][1](ex_(a), ex_(add(a, sub(end, i))))


def store_num(ex, st, a, p, o, v, end, eof):
    ex.store(st, a[1], v, ('int', 64))
    ex.setobj(st, p, o.with_(vpos=end, eofx=True if eof else o.eofx))
    return a[0]


def istringstream_method(nm):
    m, P = nm.base, nm.params
    if m == 'basic_istringstream':
        def h(ex, st, a, ins):
            if not P or P[0] not in ('string const&', 'string&&'):
                raise Imprecise(nm.full)
            ex.setobj(st, a[0], IStr(sv(ex, st, a[1]).rope))
        return h
    if m.startswith('~'):
        return lambda ex, st, a, ins: ex.setobj(st, a[0], None)
    return False


def ifstream_method(nm):
    m, P = nm.base, nm.params
    if m == 'basic_ifstream':
        def h(ex, st, a, ins):
            if not P:
                raise Imprecise(nm.full)
            path = path_arg(ex, st, a, 1, P[0])
            ok = fresh_bool('fopen')
            src = st.ghost.get('file_source')
            if src is None:
                n = fresh('filelen', 0, MAXSZ)
                src = Source(fresh_name('file'), n)
            o = IStr(src.whole() if isinstance(src, Source) else src, 'file', path)
            o.open = ok
            o.failx = bnot(ok)
            st.ghost['opened'] = tuple(st.ghost.get('opened', ())) + ((path, a[2], ok),)
            ex.setobj(st, a[0], o)
        return h
    if m.startswith('~'):
        return lambda ex, st, a, ins: ex.setobj(st, a[0], None)
    if m == 'is_open':
        return lambda ex, st, a, ins: ist(ex, st, a[0])[1].open
    if m == 'close':
        def h(ex, st, a, ins):
            p, o = ist(ex, st, a[0])
            if not decide(o.open, st.pc):
                ex.setobj(st, p, o.with_(failx=True))
                return
            # there is nothing to read any more
            ex.setobj(st, p, o.with_(open=False, rope=EMPTY, vpos=0, failx=ifail(o), eofx=bor(o.eofx, gt(o.vpos, o.rope.length()))))
        return h
    return False


def ios_method(nm):
    m, P = nm.base, nm.params

    def state(ex, st, a):
        p, o = ost(ex, st, a[0])
        if isinstance(o, OStr):
            return o.fail, False, o
        return ifail(o), bor(o.eofx, gt(o.vpos, o.rope.length())), o
    if m in ('fail', 'operator!'):
        return lambda ex, st, a, ins: state(ex, st, a)[0]
    if m == 'imbue':
        def h(ex, st, a, ins):
            # a[0] is the locale it had before
            p, o = ost(ex, st, a[1])
            l = ex.getobj(st, a[2])
            if not isinstance(l, LocVal):
                raise Imprecise(nm.full)
            ex.setobj(st, a[0], LocVal(o.loc))
            ex.setobj(st, p, o.with_(loc=l.classic))
        return h
    if m == 'operator bool':
        return lambda ex, st, a, ins: bnot(state(ex, st, a)[0])
    if m == 'eof':
        return lambda ex, st, a, ins: state(ex, st, a)[1]
    if m == 'good':
        return lambda ex, st, a, ins: band(bnot(state(ex, st, a)[0]), bnot(state(ex, st, a)[1]))
    if m == 'bad':
        def h(ex, st, a, ins):
            p, o = ost(ex, st, a[0])
            if isinstance(o, OStr) and o.kind == 'file':
                b = fresh_bool('bad')
                st.assume(implies(b, o.fail))
                return b
            return False          # string buffers have no device that can break
        return h
    if m == 'clear' or m == 'setstate':
        def h(ex, st, a, ins):
            p, o = ost(ex, st, a[0])
            if m == 'clear' and (len(a) < 2 or a[1] == 0):
                if isinstance(o, OStr):
                    ex.setobj(st, p, o.with_(fail=False))
                else:
                    L = o.rope.length()
                    v = T.ite(le(o.vpos, L), o.vpos, L)
                    ex.setobj(st, p, o.with_(failx=False, eofx=False, vpos=v))
                return
            if m == 'setstate' and isinstance(a[1], int):
                if isinstance(o, OStr):
                    ex.setobj(st, p, o.with_(fail=bor(o.fail, bool(a[1] & 5))))
                else:
                    ex.setobj(st, p, o.with_(failx=bor(o.failx, bool(a[1] & 5)), eofx=bor(o.eofx, bool(a[1] & 2))))
                return
            raise Imprecise(nm.full)
        return h
    return False


def locale_method(nm):
    m, P = nm.base, nm.params
    if m == 'classic':
        def h(ex, st, a, ins):
            rid = '@classic-locale'
            if rid not in st.regions:
                st.regions[rid] = Region('flat', 'classic locale', size=8, cells={0: (8, LocVal(True))}, glob=True)
            return Ptr(rid, 0)
        return h
    if m == 'locale' and not P:
        return lambda ex, st, a, ins: ex.setobj(st, a[0], LocVal(False))
    if m in ('locale', 'operator=') and P and P[0] == 'std::locale const&':
        def h(ex, st, a, ins):
            l = ex.getobj(st, a[1])
            if not isinstance(l, LocVal):
                raise Imprecise(nm.full)
            ex.setobj(st, a[0], l)
            return a[0] if m == 'operator=' else None
        return h
    if m == '~locale':
        return lambda ex, st, a, ins: ex.setobj(st, a[0], None)
    return False


# ----------------------------------------------------------------- C functions and the ABI
def c_isspace(ex, st, a, ins):
    c = ex.use(st, a[0], 'argument')
    sc = signed(c, 32)
    ex.oblige(st, band(ge(sc, -1), le(sc, 255)), 'the argument of isspace is an unsigned char or EOF')
    return ite(bor(T.eq(c, 32), band(ge(c, 9), le(c, 13))), 1, 0)


def c_isdigit(ex, st, a, ins):
    c = ex.use(st, a[0], 'argument')
    sc = signed(c, 32)
    ex.oblige(st, band(ge(sc, -1), le(sc, 255)), 'the argument of isdigit is an unsigned char or EOF')
    return ite(band(ge(c, 48), le(c, 57)), 1, 0)


def guard_acquire(ex, st, a, ins):
    r = st.regions[a[0].rid]
    c = r.cells.get(0)
    if c is not None and c[1] == 1:
        return 0
    st.ghost['guards'] = st.ghost.get('guards', ()) + (a[0].rid,)
    return 1


def guard_release(ex, st, a, ins):
    """the static variable is set up.  What later calls find there must not depend on the arguments of this one"""
    r = st.wr(a[0].rid)
    r.cells[0] = (1, 1)
    g = st.ghost.get('guards', ())
    st.ghost['guards'] = tuple(x for x in g if x != a[0].rid)
    if st.ghost['guards']:
        return
    made = [x for x in st.ghost.pop('ginit', ()) if x != a[0].rid]
    st.ghost.pop('guards', None)
    for x in st.reachable(made):
        if not closed_region(st.regions[x]):
            ex.global_writes.append((st.regions[x].name, 'a static variable set up from the arguments of the first call'))
    st.share(made)


def closed_region(r):
    if r.fill is not None and r.fill != 'zero':
        raise Imprecise('the contents of a static variable')
    vals = [v for _, v in (r.cells or {}).values()]
    if r.kind == 'arr':
        if not isinstance(r.length, int):
            return False
        try:
            if r.length > 4096:
                # the same value everywhere
                i = fresh('i', 0, r.length - 1)
                v = r.content.get(i, [])
                if not closed_value(v):
                    raise Imprecise('the contents of a static variable')
                return True
            vals += [r.content.get(i, []) for i in range(r.length)]
        except Fork:
            raise Imprecise('the contents of a static variable')
    elif r.kind != 'flat':
        raise Imprecise('the contents of a static variable')
    return all(closed_value(v) for v in vals)


def closed_value(v):
    if v is None or isinstance(v, (int, bool, str, Ptr, FnPtr, VTab)) or v is UNDEF:
        return True
    if is_t(v):
        return not const_names(v) and z3.is_const(v)
    if isinstance(v, FP):
        return closed_value(v.bits)
    if isinstance(v, Agg):
        return all(closed_value(x) for x in v.vals)
    if isinstance(v, dict):
        return all(closed_value(x) for _, x in v.values())
    if isinstance(v, (StrVal, OStr)):
        return v.rope.concrete() is not None
    if isinstance(v, MapVal):
        return v.other is None and all(k.concrete() is not None for k, _ in v.entries)
    return isinstance(v, VecVal)


def alloc_exc(ex, st, a, ins):
    return Ptr(st.alloc_flat(max(a[0], 16), 'exception'), 0)


def cxa_throw(ex, st, a, ins):
    t = ins.args[1][1]
    d = re.sub(r'^typeinfo for ', '', ex.m.demangle(t[1]))
    raise CxxThrow(d)


def exc_ctor(ex, st, a, ins):
    ex.setobj(st, a[0], ExcVal('?'))


def stoi(ex, st, a, ins):
    """std::stoi(s, 0, 10)"""
    s = sv(ex, st, a[0]).rope
    if not (isinstance(a[2], int) and a[2] == 10) or not (isinstance(a[1], Ptr) and a[1].rid is None):
        raise Imprecise('stoi with a position')
    i = first_index(ex, st, s, 0, list(WS), True)
    if i is None:
        raise CxxThrow('std::invalid_argument')
    k, rel = locate(s, i, st.pc)
    p = s.ps[k]
    if isinstance(p, Dec) and quick(T.eq(rel, 0), st.pc) is True and k == len(s.ps) - 1:
        v = p.v
    else:
        c = rope_at(s, i, st.pc)
        neg = False
        L = s.length()
        if decide(bor(T.eq(c, 43), T.eq(c, 45)), st.pc):
            neg = decide(T.eq(c, 45), st.pc)
            i = add(i, 1)
        digs = []
        r = digit_run(ex, st, s, i) if decide(lt(i, L), st.pc) else None
        if r is not None and not decide(T.eq(L if r[0] is None else r[0], i), st.pc):
            v = sub(0, r[1]) if neg else r[1]
            if not decide(band(ge(v, -(1 << 31)), lt(v, 1 << 31)), st.pc):
                raise CxxThrow('std::out_of_range')
            return unsigned(v, 32)
        while decide(lt(i, L), st.pc):
            c = rope_at(s, i, st.pc)
            if not decide(band(ge(c, 48), le(c, 57)), st.pc):
                break
            digs.append(c)
            i = add(i, 1)
            if len(digs) > 20:
                raise Imprecise('a very long number')
        if not digs:
            raise CxxThrow('std::invalid_argument')
        v = 0
        for d in digs:
            v = add(mul(10, v), sub(d, 48))
        if neg:
            v = sub(0, v)
    if not decide(band(ge(v, -(1 << 31)), lt(v, 1 << 31)), st.pc):
        raise CxxThrow('std::out_of_range')
    return unsigned(v, 32)


def to_string(nm):
    w = {'unsigned long': 64, 'unsigned int': 32, 'int': 32, 'long': 64, 'unsigned long long': 64, 'long long': 64}.get(nm.params[0])

    def h(ex, st, a, ins):
        v = a[1]
        if not nm.params[0].startswith('unsigned'):
            if not decide(lt(v, 1 << (w - 1)), st.pc):
                ex.setobj(st, a[0], StrVal(Rope((Lit(b'-'), Dec(sub(1 << w, v))))))
                return
        ex.setobj(st, a[0], StrVal(Rope((Dec(v),))))
    return h


def sort_h(ex, st, a, ins):
    p, q = a[0], a[1]
    r = st.regions[p.rid]
    n = divc(sub(q.off, p.off), r.es)
    if len(a) > 2:
        raise Imprecise('sort by another order')
    if not isinstance(n, int):
        # an unknown permutation
        c = r.content
        name = fresh_name('sorted')
        r = st.wr(p.rid)
        r.content = Content(None, (('hv', name),))
        st.ghost['sorted'] = tuple(st.ghost.get('sorted', ())) + ((p.rid, c, n, p.off),)
        return
    if n <= 1:
        return
    vals = [r.content.get(i, st.pc) for i in range(n)]
    keys = []
    for v in vals:
        k = v[0][1].rope.concrete() if isinstance(v, dict) and isinstance(v.get(0, (0, None))[1], StrVal) else None
        if k is None:
            raise Imprecise('sort of symbolic strings')
        keys.append(bytes(k))
    order = sorted(range(n), key=lambda i: keys[i])
    r = st.wr(p.rid)
    for i, j in enumerate(order):
        r.content = r.content.push(('set', i, vals[j]))


def memcmp_h(ex, st, a, ins):
    x = ex.read_range(st, a[0], a[2])
    y = ex.read_range(st, a[1], a[2])
    return ite(eq_cond(x, y, st.pc), 0, fresh('hv_cmp', 1, (1 << 32) - 1))


def imprecise(msg):
    def h(ex, st, a, ins):
        raise Imprecise(msg)
    return h


def noop(ex, st, a, ins):
    return None


def malloc_h(ex, st, a, ins):
    n = a[0]
    if isinstance(n, int):
        return Ptr(st.alloc_flat(n, 'heap'), 0)
    return Ptr(st.alloc_arr(1, n, Content(None), 'heap'), 0)


C_FUNCS = {
    'isspace': c_isspace,
    'isdigit': c_isdigit,
    'printf': lambda ex, st, a, ins: fresh('hv_printf', 0, (1 << 31) - 1),
    'puts': lambda ex, st, a, ins: fresh('hv_printf', 0, (1 << 31) - 1),
    'fprintf': lambda ex, st, a, ins: fresh('hv_printf', 0, (1 << 31) - 1),
    '__cxa_guard_acquire': guard_acquire,
    '__cxa_guard_release': guard_release,
    '__cxa_guard_abort': noop,
    '__cxa_allocate_exception': alloc_exc,
    '__cxa_free_exception': noop,
    '__cxa_throw': cxa_throw,
    '__cxa_begin_catch': lambda ex, st, a, ins: a[0],
    '__cxa_end_catch': noop,
    '__cxa_atexit': lambda ex, st, a, ins: 0,
    '__cxa_thread_atexit': lambda ex, st, a, ins: 0,
    'memcmp': memcmp_h,
    'malloc': malloc_h,
    'free': noop,
}


class Intrinsics:
    simp = staticmethod(simp)

    def __init__(self):
        self.names = {}
        self.used = {}

    def name(self, d):
        n = self.names.get(d)
        if n is None:
            n = self.names[d] = Name(d)
        return n

    def lookup(self, name, dname, module):
        h = self._lookup(name, dname, module)
        if h is not None:
            self.used[simp(dname)] = True
            return h
        return None

    def _lookup(self, name, dname, module):
        h = C_FUNCS.get(name)
        if h is not None:
            return h
        if not ('std::' in dname or '__gnu_cxx' in dname or 'operator' in dname):
            return None
        if dname.startswith('npy::') or dname.startswith('(anonymous namespace)::'):
            return None
        if name == '_Znwm' or name == '_Znam':
            return malloc_h
        if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv'):
            return noop
        nm = self.name(dname)
        h = self.dispatch(nm, module)
        if h is False:
            return imprecise('no contract for %s' % nm.full[:200])
        return h

    def dispatch(self, nm, module):
        c = nm.cls
        if c == 'string':
            return str_method(nm, 1)
        if c == 'wstring':
            return str_method(nm, 4)
        if c.startswith('std::vector<') and nm.elem() is not None:
            return vec_method(nm, module)
        if c.startswith('std::map<') and c.endswith('>'):
            return map_method(nm, module)
        if c == 'std::ostream':
            return ostream_method(nm)
        if c == 'std::istream':
            return istream_method(nm)
        if c == 'std::ios':
            return ios_method(nm)
        if c == 'std::locale':
            return locale_method(nm)
        if c == 'std::ostringstream':
            return ostringstream_method(nm)
        if c == 'std::istringstream':
            return istringstream_method(nm)
        if c == 'std::ofstream':
            return ofstream_method(nm)
        if c == 'std::ifstream':
            return ifstream_method(nm)
        if c == 'std::ios::Init':
            return noop
        if c.startswith('std::allocator<') or c.startswith('std::__new_allocator<') or c.startswith('__gnu_cxx::new_allocator<'):
            return noop
        if c == 'std':
            b = nm.base
            P = nm.params
            if b in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=', 'operator+') and \
                    any(strip_ref(p) in ('string', 'wstring') for p in P):
                return str_op(nm, 4 if any(strip_ref(p) == 'wstring' for p in P) else 1)
            if b == 'operator<<' and P and P[0] == 'std::ostream&':
                return free_shift(nm)
            if b == 'to_string':
                return to_string(nm)
            if b == 'stoi':
                return stoi
            if b == 'sort':
                return sort_h
            if b == 'terminate':
                return imprecise('terminate')
            if b in ('operator==', 'operator!=') and any(strip_ref(p).startswith('std::vector<') for p in P):
                return vec_eq(nm, module)
            if b in ('getline', 'stoul', 'stoull', 'stol', 'operator>>'):
                return False
            m = re.match(r'__throw_(\w+)$', b)
            if m:
                def h(ex, st, a, ins):
                    raise CxxThrow('std::' + m.group(1))
                return h
        if re.match(r'std::(runtime_error|invalid_argument|out_of_range|length_error|logic_error|domain_error|overflow_error|range_error)$', c):
            if nm.base.startswith('~'):
                return noop
            return exc_ctor
        return None

    EXEC_NO = re.compile(r'(_Rb_tree<|_Vector_base<|_Vector_impl|basic_filebuf|basic_stringbuf|basic_streambuf|filesystem::|std::locale|'
                         r'_M_mutate|_M_create|_Alloc_hider|std::thread|std::mutex|_Hashtable|std::deque<|std::list<|std::function<)')

    def may_execute(self, name, dname):
        if self.EXEC_NO.search(dname.split('(')[0]):
            nm = simp(dname)
            if re.search(r'_Rb_tree_(const_)?iterator<.*>::(operator|_Rb)|operator(==|!=)\(std::_Rb_tree', nm):
                return True
            return False
        return True


def vec_eq(nm, module):
    m = re.match(r'std::vector<(.*)>$', strip_ref(nm.params[0]))
    e = Elem(m.group(1), module)

    def h(ex, st, a, ins):
        x, y = vec(ex, st, a[0]), vec(ex, st, a[1])
        nx, ny = vsize(st, x), vsize(st, y)
        c = T.eq(nx, ny)
        if not decide(c, st.pc):
            r = False
        else:
            if e.kind != 'scalar' or e.name in ('float', 'double') or e.name in COMPLEX:
                raise Imprecise(nm.full)
            rx = elems_rope(ex, st, e, Ptr(x.rid, 0), nx)
            ry = elems_rope(ex, st, e, Ptr(y.rid, 0), ny)
            r = eq_cond(rx, ry, st.pc)
        return r if nm.base == 'operator==' else bnot(r)
    return h
