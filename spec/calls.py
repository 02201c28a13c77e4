"""How the public functions are composed: C11, C12, C13, C14, C20, C22, C23."""
import re
from spec.common import *
from spec.values import TYPES, in_stream, out_stream

ALL = [t for t, _, _ in TYPES] + ['wstring']
READERS = ('npzstringreader', 'npzfilereader')
WRITERS = ('npzstringwriter', 'npzfilewriter')
FAIL = 'std::runtime_error'


def stub(c, name, kind, effect=None, may_fail=True):
    """cut at a function: record the call (with what effect returns), then return or throw"""
    c.env.find(name)

    def h(ex, st, a, ins):
        info = effect(ex, st, a) if effect else None
        s2 = st.clone() if may_fail else None
        if isinstance(info, tuple):
            info, ret = info
        else:
            ret = None
        st.ghost['calls'] = tuple(st.ghost.get('calls', ())) + ((kind, a, info, False),)
        if not may_fail:
            return ret
        s2.ghost['calls'] = tuple(s2.ghost.get('calls', ())) + ((kind, a, info, True),)
        return Multi([(st, ret), (s2, CxxThrow(FAIL))])
    c.ex.overrides[name] = h


def calls(s):
    return s.ghost.get('calls', ())


def stream_arg(i):
    def f(ex, st, a):
        p, o = I.ost(ex, st, a[i])
        return (p, o)
    return lambda ex, st, a: ((f(ex, st, a),), None)


def fresh_stream(c, s, o, content, what):
    """an input stream over exactly this content, at its beginning and good"""
    if not isinstance(o, IStr):
        raise Imprecise('not an input stream')
    c.post_rope(s, o.rope, content, '%s: over the right bytes' % what)
    c.post(s, T.eq(o.vpos, 0), '%s: at the beginning' % what)
    c.post(s, bnot(o.failx), '%s: good' % what)
    c.post(s, bnot(o.eofx), '%s: not at its end' % what)


def raw_object(st, size, name):
    rid = st.alloc_flat(size, name)
    return Ptr(rid, 0)


# ----------------------------------------------------------------- read and peek of an archive entry
def entry_reader(c, cls, fn, inner, inner_name):
    """fn(out, this, name) = inner over a fresh stream of what read_file(name) returns"""
    content = mk_src('content', mk('content.len', 0, 1 << 62)).whole()

    def rf(ex, st, a):
        ex.setobj(st, a[0], StrVal(content))
        return ((a[1], I.sv(ex, st, a[2]).rope),), None
    st = c.start()
    p, arch, tab, rs = reader(c, st, cls)
    stub(c, 'npy::%s::read_file(string const&)' % cls, 'read_file', rf)
    # the stream is the second argument (after the place of the result)
    stub(c, inner, 'inner', stream_arg(1))
    for s in rs:
        name = mk_src('name', mk('name.len', 0, 1 << 40)).whole()
        np = mk_string(s, name)
        out = raw_object(s, 256, 'result')
        regs = dict(s.regions)
        cells = dict(s.regions[p.rid].cells)
        for s2 in c.call(s, fn, [out, p, np]):
            def chk(s2):
                l = calls(s2)
                c.form(s2, len(l) >= 1 and l[0][0] == 'read_file', 'the entry is read')
                if not l or l[0][0] != 'read_file':
                    return
                this, nm = l[0][2][0]
                c.form(s2, this == p, 'from this archive')
                c.post_rope(s2, nm, name, 'under the given name')
                if l[0][3]:
                    c.post(s2, s2.status == 'exc', 'an exception while reading the entry is passed on')
                    c.post(s2, c.exc_is(s2, FAIL), 'the exception is passed on unchanged')
                    return
                c.form(s2, len(l) == 2 and l[1][0] == 'inner', '%s is applied once' % inner_name)
                if len(l) != 2:
                    return
                c.form(s2, l[1][1][0] == out, 'its result is returned')
                fresh_stream(c, s2, l[1][2][0][1], content, 'the stream of the entry')
                c.post(s2, (s2.status == 'exc') == l[1][3], 'exceptions are passed on')
                same = {o: v for o, v in s2.regions[p.rid].cells.items()}
                c.form(s2, all(same.get(o, (0, None))[1] is v[1] for o, v in cells.items()), 'the reader is not changed otherwise')
            c.cases(s2, chk)


def tn(t):
    return 'npy::tensor<%s>' % t


for _cls in READERS:
    for _t in ALL:
        for _fn in ('%s npy::%s::read<%s>(string const&)' % (tn(_t), _cls, tn(_t)), '%s npy::%s::read<%s, npy::tensor>(string const&)' % (tn(_t), _cls, _t)):
            task(['C11', 'C12', 'C22'], '%s is load of the entry' % _fn, [_fn])(
                lambda c, k=_cls, f=_fn, t=_t: entry_reader(c, k, f, '%s npy::load<%s, char>(std::istream&)' % (tn(t), tn(t)), 'load'))
    _fn = 'npy::%s::peek(string const&)' % _cls
    task(['C12', 'C20', 'C22'], '%s is read_npy_header of the entry' % _fn, [_fn])(
        lambda c, k=_cls, f=_fn: entry_reader(c, k, f, 'npy::header_info npy::read_npy_header<char>(std::istream&)', 'read_npy_header'))


# ----------------------------------------------------------------- functions with a path
def path_reader(c, fn, inner, inner_name):
    st = c.start()
    stub(c, inner, 'inner', stream_arg(1))
    content = mk_src('file', mk('file.len', 0, 1 << 62)).whole()
    st.ghost['file_source'] = content
    path = mk_src('path', mk('path.len', 0, 1 << 20)).whole()
    pp = mk_string(st, path)
    out = raw_object(st, 256, 'result')
    for s2 in c.call(st, fn, [out, pp]):
        def chk(s2):
            l = s2.ghost.get('opened', ())
            c.form(s2, len(l) == 1, 'one file is opened')
            if len(l) != 1:
                return
            c.post_rope(s2, l[0][0], path, 'it is the one at the path')
            c.post(s2, (l[0][1] | 8) & ~4 == 8, 'it is opened for reading, at its beginning')
            ok = l[0][2]
            k = calls(s2)
            if not k:
                if prove(s2.pc, bnot(ok)) is not True:
                    c.form(s2, False, 'a file that opens is read')
                    return
                c.post(s2, c.exc_is(s2, 'std::invalid_argument'), 'a path that cannot be opened is refused with std::invalid_argument')
                return
            c.form(s2, len(k) == 1, '%s is applied once' % inner_name)
            c.form(s2, k[0][1][0] == out, 'its result is returned')
            c.post(s2, ok, 'only a file that opens is read')
            fresh_stream(c, s2, k[0][2][0][1], content, 'the stream of the file')
            c.post(s2, (s2.status == 'exc') == k[0][3], 'exceptions are passed on')
        c.cases(s2, chk)


for _t in ALL:
    for _fn in ('%s npy::load<%s>(string const&)' % (tn(_t), tn(_t)), '%s npy::load<%s, npy::tensor>(string const&)' % (tn(_t), _t),
                '%s::from_file(string const&)' % tn(_t)):
        task('C23', '%s is load of the file' % _fn, [_fn])(
            lambda c, f=_fn, t=_t: path_reader(c, f, '%s npy::load<%s, char>(std::istream&)' % (tn(t), tn(t)), 'load'))
task(['C20', 'C23'], 'npy::peek of a path is read_npy_header of the file', ['npy::peek(string const&)'])(
    lambda c: path_reader(c, 'npy::peek(string const&)', 'npy::header_info npy::read_npy_header<char>(std::istream&)', 'read_npy_header'))


def path_writer(c, fn, inner, args):
    st = c.start()
    data = mk_src('saved', mk('saved.len', 0, 1 << 62)).whole()
    werr = z3.Bool('writing_fails')

    def wr(ex, st, a):
        p, o = I.ost(ex, st, a[0])
        ex.setobj(st, p, o.with_(rope=o.rope + data, fail=bor(o.fail, werr)))
        return ((o, a[1], a[2]),), None
    stub(c, inner, 'save', wr)
    path = mk_src('path', mk('path.len', 0, 1 << 20)).whole()
    pp = mk_string(st, path)
    tensor = raw_object(st, 256, 'tensor')
    e = mk('endianness', 0, 2)
    for s2 in c.call(st, fn, args(pp, tensor, e)):
        def chk(s2):
            l = s2.ghost.get('files', ())
            c.form(s2, len(l) == 1, 'one file is opened')
            if len(l) != 1:
                return
            c.post_rope(s2, l[0][0], path, 'it is the one at the path')
            c.post(s2, (l[0][1] | 16) & ~(4 | 32) == 16, 'it is opened for writing, from its beginning')
            ok = l[0][2]
            k = calls(s2)
            if not k:
                if prove(s2.pc, bnot(ok)) is not True:
                    c.form(s2, False, 'a file that opens is written')
                    return
                c.post(s2, c.exc_is(s2, 'std::invalid_argument'), 'a path that cannot be opened is refused with std::invalid_argument')
                return
            c.post(s2, ok, 'only a file that opens is written')
            c.form(s2, len(k) == 1, 'the tensor is saved once')
            o, t2, e2 = k[0][2][0]
            c.form(s2, t2 == tensor, 'the tensor is the one given')
            c.post(s2, T.eq(e2, e), 'in the byte order given')
            c.post_rope(s2, o.rope, EMPTY, 'at the beginning of the file')
            c.post(s2, bnot(o.fail), 'to a good stream')
            cl = s2.ghost.get('closed', ())
            c.form(s2, len(cl) == 1, 'the file is closed once')
            if len(cl) != 1:
                return
            c.post_rope(s2, cl[0][1], data, 'the bytes of the file are those of the stream')
            if k[0][3]:
                c.post(s2, c.exc_is(s2, FAIL), 'exceptions are passed on')
                return
            bad = bor(werr, cl[0][2])
            c.post(s2, implies(bad, c.exc_is(s2, 'std::runtime_error')), 'a failure to write is reported with std::runtime_error')
            c.post(s2, implies(bnot(bad), s2.status == 'ret'), 'no failure is reported otherwise')
        c.cases(s2, chk)


for _t in ALL:
    _in = 'void npy::save<%s, char>(std::ostream&, %s const&, npy::endian_t)' % (tn(_t), tn(_t))
    task('C23', 'npy::save<%s>(path) is save to the file' % tn(_t), [])(
        lambda c, t=_t, i=_in: path_writer(c, 'void npy::save<%s>(string const&, %s&, npy::endian_t)' % (tn(t), tn(t)), i, lambda p, x, e: [p, x, e]))
    task('C23', '%s::save(path) is save to the file' % tn(_t), [])(
        lambda c, t=_t, i=_in: path_writer(c, '%s::save(string const&, npy::endian_t)' % tn(t), i, lambda p, x, e: [x, p, e]))


# ----------------------------------------------------------------- npz writers: write<T>
def writer_state(c, st, cls):
    from spec.archive import new_writer, general_writer
    p, rs = new_writer(c, st, 0, cls)
    out = []
    for s in rs:
        s.status = None
        R0, n, f, base = general_writer(c, s, p)
        lay, es = None, None
        out.append((s, R0, n, base))
    return p, out


def write_entry(c, cls, t):
    data = mk_src('saved', mk('saved.len', 0, 1 << 62)).whole()

    def sv(ex, st, a):
        p, o = I.ost(ex, st, a[0])
        ex.setobj(st, p, o.with_(rope=o.rope + data))
        return ((o, a[1], a[2]),), None

    def wf(ex, st, a):
        return ((a[0], I.sv(ex, st, a[1]).rope, I.sv(ex, st, a[2]).rope),), None
    st = c.start()
    e = mk('endianness', 0, 2)
    p = new_object(c, st, 'class.npy::' + cls)
    if cls == 'npzstringwriter':
        rs = c.call(st, 'npy::%s::%s(npy::compression_method_t, npy::endian_t)' % (cls, cls), [p, 0, e])
    else:
        path = mk_string(st, mk_src('path', mk('path.len', 0, 1 << 20)).whole())
        rs = c.call(st, 'npy::%s::%s(string const&, npy::compression_method_t, npy::endian_t)' % (cls, cls), [p, path, 0, e])
    stub(c, 'void npy::save<%s, char>(std::ostream&, %s const&, npy::endian_t)' % (tn(t), tn(t)), 'save', sv)
    stub(c, 'npy::%s::write_file(string const&, string&&)' % cls, 'write_file', wf)
    name = mk_src('name', mk('name.len', 0, 1 << 40))
    for s in c.ret(rs):
        s.status = None
        np = mk_string(s, name.whole())
        tensor = raw_object(s, 256, 'tensor')
        for s2 in c.call(s, 'void npy::%s::write<%s>(string const&, %s const&)' % (cls, tn(t), tn(t)), [p, np, tensor]):
            def chk(s2):
                l = calls(s2)
                c.form(s2, len(l) >= 1 and l[0][0] == 'save', 'the tensor is saved to a stream')
                if not l or l[0][0] != 'save':
                    return
                o, t2, e2 = l[0][2][0]
                c.form(s2, t2 == tensor, 'the tensor given')
                c.post(s2, T.eq(e2, e), 'in the byte order of the writer')
                c.post_rope(s2, o.rope, EMPTY, 'alone in its stream')
                if l[0][3]:
                    c.post(s2, s2.status == 'exc', 'a tensor that cannot be saved is not written')
                    return
                c.form(s2, len(l) == 2 and l[1][0] == 'write_file', 'one file is written')
                if len(l) != 2:
                    return
                this, nm, bs = l[1][2][0]
                c.form(s2, this == p, 'to this archive')
                c.post_rope(s2, bs, data, 'its content is the saved tensor')
                L = name.length
                has = band(ge(L, 4), *[T.eq(name.at(add(L, i - 4)), b'.npy'[i]) for i in range(4)]) if quick(ge(L, 4), s2.pc) is not False else False
                if decide(has, s2.pc) if not isinstance(has, bool) else has:
                    c.post_rope(s2, nm, name.whole(), 'a name that ends in .npy is kept')
                else:
                    c.post_rope(s2, nm, name.whole() + lit(b'.npy'), 'any other name gets .npy')
                c.post(s2, (s2.status == 'exc') == l[1][3], 'exceptions are passed on')
            c.cases(s2, chk)


for _cls in WRITERS:
    for _t in ALL:
        task(['C11', 'C14'], '%s::write<%s>' % (_cls, tn(_t)), [])(lambda c, k=_cls, t=_t: write_entry(c, k, t))


# ----------------------------------------------------------------- archives that cannot be opened
PATHS = ['string const&', 'char const*', 'std::filesystem::__cxx11::path const&']


def path_value(st, typ):
    path = mk_src('path', mk('path.len', 0, 1 << 20))
    if typ == PATHS[0]:
        return path, mk_string(st, path.whole())
    if typ == PATHS[1]:
        ch = mkfun('path.char', 1, 255)
        path = Source('path', mk('path.len', 0, 1 << 20), fun=lambda i: ch(ex(i)))
        a = mk_string(st, path.whole(), 'c_str')
        rid = 'view:path'
        st.regions[rid] = Region('str', 'path', view=a)
        return path, Ptr(rid, 0)
    a = raw_object(st, 40, 'path')
    st.wr(a.rid).cells[0] = (40, PathVal(path.whole()))
    return path, a


def unopenable(c, typ):
    st = c.start()
    p = new_object(c, st, 'class.npy::npzfilereader')
    path, a = path_value(st, typ)

    def entries(ex, s, a):
        return ((s.ghost.get('opened'),), None)
    fn = c.env.find('npy::npzfilereader::npzfilereader(%s)' % typ)
    inner = [d for d in c.env.index if re.search(r'namespace.::read_entries.std::istream&', d)]
    if len(inner) != 1:
        raise Imprecise('no function ::read_entries')
    stub(c, inner[0], 'entries')
    for s2 in c.call(st, fn, [p, a]):
        def chk(s2):
            l = s2.ghost.get('opened', ())
            c.form(s2, len(l) == 1, 'one file is opened')
            if len(l) != 1:
                return
            c.post_rope(s2, l[0][0], path.whole(), 'it is the one at the path')
            c.post(s2, (l[0][1] | 8) & ~4 == 8, 'it is opened for reading, at its beginning')
            ok = l[0][2]
            if decide(ok, s2.pc):
                c.form(s2, len(calls(s2)) == 1, 'the directory is read')
            else:
                c.post(s2, c.exc_is(s2, 'std::invalid_argument'), 'a path that cannot be opened is refused with std::invalid_argument')
        c.cases(s2, chk)


for _p in PATHS:
    task('C23', 'npzfilereader(%s)' % _p, ['npy::npzfilereader::npzfilereader(%s)' % _p])(lambda c, t=_p: unopenable(c, t))


def writer_opens(c, typ):
    st = c.start()
    p = new_object(c, st, 'class.npy::npzfilewriter')
    path, a = path_value(st, typ)
    for s2 in c.ret(c.call(st, 'npy::npzfilewriter::npzfilewriter(%s, npy::compression_method_t, npy::endian_t)' % typ, [p, a, 8, 1])):
        def chk(s2):
            l = s2.ghost.get('files', ())
            c.form(s2, len(l) == 1, 'one file is opened')
            if len(l) != 1:
                return
            c.post_rope(s2, l[0][0], path.whole(), 'it is the one at the path')
            c.post(s2, (l[0][1] | 16) & ~(4 | 32) == 16, 'it is opened for writing, from its beginning')
            off, o = find_obj(s2, p, OStr)
            c.post_rope(s2, o.rope, EMPTY, 'nothing is written')
            ok = l[0][2]
            r = c.call(s2.clone(), 'npy::npzfilewriter::is_open() const', [p])
            for s3 in c.ret(r):
                c.post(s3, T.eq(ite(ok, 1, 0), s3.retval) if not isinstance(s3.retval, bool) and not z3.is_bool(s3.retval) else band(implies(ok, s3.retval), implies(s3.retval, ok)), 'is_open says whether it could be opened')
        c.cases(s2, chk)


for _p in PATHS:
    task(['C10', 'C23'], 'npzfilewriter(%s)' % _p, ['npy::npzfilewriter::npzfilewriter(%s, npy::compression_method_t, npy::endian_t)' % _p])(lambda c, t=_p: writer_opens(c, t))
