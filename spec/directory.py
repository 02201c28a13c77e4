"""C11, C12, C14: the directory of an archive, and what a reader knows from it."""
from spec.common import *
from spec.reading import le_val
from spec.values import in_stream
from vc.loops import Invariant, is_intlike
from spec.calls import stub, calls, FAIL

ENTRIES = r'\(anonymous namespace\)::read_entries\(std::istream&'
HEADER = r'namespace.::read_central_directory_header.std::istream&'


def the(c, pattern):
    fn = [d for d in c.env.index if re.search(pattern, d)]
    if len(fn) != 1:
        raise NoCode('no function %s' % pattern)
    return fn[0]


def names_vector(st, n, name):
    """a vector of n strings, each of them arbitrary"""
    ln = mkfun(name + '_length', 0, 1 << 40)
    ch = mkfun(name + '_char', 0, 255, arity=2)
    one = lambda i: StrVal(Source(name + '_text', ln(ex(i)), fun=lambda j: ch(ex(i), ex(j)), hi=255).whole(), 1)
    return Content(lambda i: {0: (32, one(i))})


class DirLoop(Invariant):
    """one record: it is read where the one before ended, its entry goes into the table under its name, its name to the
    end of the list; nothing else changes"""

    unroll_first = True

    def __init__(self, c, keys, table, stream, es):
        self.c, self.keys, self.table, self.stream, self.es = c, keys, table, stream, es
        self.entries_seen = 0

    def is_flag(self, key, region, value):
        return Invariant.is_flag(self, key, region, value) or key[1] == 'cell' and key[3] in ('failx', 'eofx')

    def forms(self, st0, key, kind):
        h = kind[0]

        def any_(f):
            f.any = True
            return [f]
        if key[1] == 'ghost':
            if key[2] == 'records':
                return any_(lambda st: fresh('records', 0, 1 << 40))
            return any_(lambda st: ())
        dk = lambda st: sub(st.ghost['records'], st0.ghost['records'])
        if key[1] == 'content' and st0.regions[key[0]].es == 32:
            nm = fresh_name('anykeys')
            return any_(lambda st: names_vector(st, None, nm))
        if key[1] == 'len':
            return [lambda st: add(h, dk(st))]
        if key[1] == 'cell' and key[3] == 'entries':
            return any_(lambda st: ())
        if key[1] == 'cell' and is_intlike(h) and key[3] is None and not isinstance(h, bool) and not (is_t(h) and z3.is_bool(h)):
            return [lambda st: add(h, dk(st)), lambda st: sub(h, dk(st))]
        return []

    def holds(self, st):
        # "at most as many as announced"
        return le(st.ghost['records'], self.count()) if 'records' in st.ghost else True

    def count(self):
        return le_val(self.c.arch, add(self.c.arch.length, -12), 2)

    def entry(self, st):
        c = self.c
        self.entries_seen += 1
        c.form(st, st.ghost['records'] == 0, 'one loop over the records')
        i = get_obj(st, self.stream)
        L = i.rope.length()
        arch = self.c.arch
        off = le_val(arch, add(L, -6), 4)
        c.post(st, ge(L, 22), 'the archive has room for an end record')
        c.post_rope(st, rope_slice(arch.whole(), add(L, -22), 4, st.pc), lit(b'PK\x05\x06'), 'the end record is where it must be')
        c.post(st, bor(I.ifail(i), T.eq(i.vpos, off)), 'the first record is read at the offset of the directory')

    def back(self, h, b):
        c = self.c
        self.c.backs += 1
        hdr = b.ghost.get('hdr', ())
        c.post(b, len(hdr) == 1, 'one record is read in every iteration')
        if len(hdr) != 1:
            return
        before, name, fields, after = hdr[0]
        i0, i1 = get_obj(h, self.stream), get_obj(b, self.stream)
        c.post(b, T.eq(before, i0.vpos), 'a record is read where the one before ended')
        c.post(b, T.eq(i1.vpos, after), 'the stream stays behind the record')
        c.post(b, T.eq(sub(b.ghost['records'], h.ghost['records']), 1), 'records are counted')

        def list_(s):
            k0, k1 = h.regions[self.krid(h)], s.regions[self.krid(s)]
            n = k0.length
            c.post(s, T.eq(k1.length, add(n, 1)), 'the list has one more name')
            v = k1.content.get(n, s.pc)
            c.post_rope(s, v[0][1].rope, name, 'the name of the record is the last of the list')
            j = fresh('j', 0, None)
            s.assume(lt(j, n))

            def older(s2):
                x, y = k0.content.get(j, s2.pc), k1.content.get(j, s2.pc)
                c.post_rope(s2, y[0][1].rope, x[0][1].rope, 'the names before it stay')
            c.cases(s, older)
        c.cases(b, list_)

        def table_(s):
            m = get_obj(s, self.table)
            rid = I.map_lookup(c.ex, s, m, name)
            c.post(s, rid is not None, 'the name is in the table')
            if rid is None:
                return
            lay, es = entry_layout(c)
            cells = s.regions[rid].cells
            for f, w in ENTRY:
                v = cells.get(32 + lay[f])
                if v is None:
                    c.post(s, False, 'the entry has its %s' % f)
                elif f == 'filename':
                    c.post_rope(s, v[1].rope, name, 'the entry has its name')
                else:
                    c.post(s, T.eq(v[1], fields[f]), 'the entry has the %s of the record' % f)
        c.cases(b, table_)

        def others(s):
            other = c.names.setdefault('another', mk_src('another', mk('another.len', 0, 1 << 40))).whole()
            if decide(I.eq_cond(other, name, s.pc), s.pc):
                return
            s0 = s.clone()
            r1 = I.map_lookup(c.ex, s, get_obj(s, self.table), other)
            h2 = h.clone()
            h2.pc = list(s.pc)
            r0 = I.map_lookup(c.ex, h2, get_obj(h, self.table), other)
            c.post(s, (r0 is None) == (r1 is None) and r0 == r1, 'other names are as before')
        c.cases(b, others)

    def krid(self, st):
        return get_obj(st, self.keys).rid


def record_contract(c, name):
    """read_central_directory_header (spec/reading.py): some entry, the stream somewhere behind, or an exception"""
    lay, es = entry_layout(c)

    def h(ex, st, a, ins):
        out, p = a[0], a[1]
        q, i = I.ist(ex, st, p)
        # the same symbols in every iteration: nothing else is known about them
        k = 'record%d' % len(st.ghost['hdr'])
        nm = c.names.setdefault(k, mk_src(k + '.name', mk(k + '.name.len', 0, 65535))).whole()
        f = {n: mk('%s.%s' % (k, n), 0, (1 << (8 * w)) - 1) for n, w in ENTRY[1:]}
        r = st.wr(out.rid)
        for n, w in ENTRY:
            r.cells[out.off + lay[n]] = (w, StrVal(nm, 1) if n == 'filename' else f[n])
        after = fresh('after', 0, 1 << 62)
        st.ghost['hdr'] = tuple(st.ghost.get('hdr', ())) + ((i.vpos, nm, f, after),)
        st.ghost['records'] = add(st.ghost['records'], 1)
        s2, s3 = st.clone(), st.clone()
        ex.setobj(st, q, i.with_(vpos=after))
        ex.setobj(s2, q, i.with_(vpos=after, failx=True, eofx=True))
        return Multi([(st, None), (s2, None), (s3, CxxThrow(FAIL))])
    c.ex.overrides[name] = h
    c.assumed.add('read_central_directory_header replaced by its contract (proved separately: C12, C17)')


def arbitrary_table(c, st):
    tab = present_table()
    lay, es = entry_layout(c)
    m = Ptr(st.alloc_flat(48, 'map'), 0)
    st.wr(m.rid).cells[0] = (48, MapVal((), es, symbolic_map(c, tab)))
    return m, tab, es


def directory(c):
    st = c.start()
    fn = the(c, ENTRIES)
    c.backs, c.names = 0, {}
    record_contract(c, the(c, HEADER))
    arch = c.arch = mk_src('archive', mk('archive.len', 0, 1 << 62))
    inp = in_stream(st, arch.whole())
    r = st.wr(inp.rid)
    r.cells[0] = (8, r.cells[0][1].with_(vpos=mk('pos', 0, 1 << 62)))
    # an archive of one part: both counts of the end record are its number of records
    st.assume(implies(ge(arch.length, 22), T.eq(le_val(arch, add(arch.length, -12), 2), le_val(arch, add(arch.length, -14), 2))))
    table, tab, es = arbitrary_table(c, st)
    n0 = mk('keys.len', 0, 1 << 40)
    rid = st.alloc_arr(32, n0, names_vector(st, n0, 'key'), 'data')
    keys = Ptr(st.alloc_flat(24, 'vector'), 0)
    st.wr(keys.rid).cells[0] = (24, VecVal(rid, 32))
    st.ghost['records'] = 0
    st.ghost['hdr'] = ()
    inv = DirLoop(c, keys, table, inp, es)
    c.ex.finite_any = inv
    L = arch.length
    for s in c.call(st, fn, [inp, table, keys]):
        def chk(s):
            if s.status == 'exc':
                c.post(s, c.exc_is(s, 'std::exception'), 'a standard exception')
                return
            c.post(s, bnot(I.ifail(get_obj(s, inp))), 'an archive that is cut off is refused')
            N = inv.count()
            c.post(s, T.eq(s.ghost['records'], N), 'as many records are read as the end record says')
            kr = get_obj(s, keys).rid
            c.post(s, T.eq(s.regions[kr].length, add(n0, N)), 'as many names')
            so = s.ghost.get('sorted', ())
            if N == 0:
                return
            c.form(s, len(so) == 1, 'the names are sorted once')
            if len(so) != 1:
                return
            c.post(s, so[0][0] == kr, 'the names are what is sorted')
            c.post(s, band(T.eq(so[0][3], 0), T.eq(so[0][2], s.regions[kr].length)), 'all of the names are sorted')
        c.cases(s, chk)
    c.form(st, inv.entries_seen >= 1 and c.backs > 0, 'there is one loop over the records')


task(['C11', 'C12', 'C17'], 'read_entries: the whole directory', [ENTRIES])(directory)


# ----------------------------------------------------------------- the classes
READERS = {'npzstringreader': ['string const&', 'string&&'], 'npzfilereader': ['string const&', 'char const*']}


def constructed(c, cls, arg):
    """a new reader has read its directory from its own archive into its own empty table and list"""
    st = c.start()
    fn = the(c, ENTRIES)

    def eff(ex, s, a):
        p, i = I.ist(ex, s, a[0])
        return (p, i, I.mapv(ex, s, a[1]), a[1], a[2], s.regions[I.vec(ex, s, a[2]).rid].length), None
    stub(c, fn, 'directory', lambda ex, s, a: eff(ex, s, a))
    p = new_object(c, st, 'class.npy::' + cls)
    arch = mk_src('archive', mk('archive.len', 0, 1 << 62))
    if cls == 'npzstringreader':
        b = mk_string(st, arch.whole())
    else:
        path = mk_src('path', mk('path.len', 0, 1 << 30))
        st.ghost['file_source'] = arch
        b = mk_string(st, path.whole()) if arg.startswith('string') else None
        if b is None:
            raise Imprecise('C strings')
    for s in c.call(st, 'npy::%s::%s(%s)' % (cls, cls, arg), [p, b]):
        def chk(s):
            cs = calls(s)
            if s.status == 'exc':
                if cls == 'npzfilereader' and not cs:
                    c.post(s, c.exc_is(s, 'std::invalid_argument'), 'a path that cannot be opened: std::invalid_argument')
                    return
                c.post(s, len(cs) == 1 and cs[0][3], 'throws only where the directory cannot be read')
                return
            c.post(s, len(cs) == 1, 'the directory is read once')
            if len(cs) != 1:
                return
            q, i, m, mp, kp, kl = cs[0][2]
            off, _ = find_obj(s, p, IStr)
            moff, _ = find_obj(s, p, MapVal)
            koff, _ = find_obj(s, p, VecVal)
            c.post(s, q.rid == p.rid and mp.rid == p.rid and mp.off == moff and kp.rid == p.rid and kp.off == koff, 'stream, table and list are the reader\'s own')
            c.post_rope(s, i.rope, arch.whole(), 'the stream is over the archive')
            c.post(s, bnot(I.ifail(i)), 'the stream is good')
            c.post(s, len(m.entries) == 0 and m.other is None, 'the table is empty before')
            c.post(s, T.eq(kl, 0), 'the list is empty before')
        c.cases(s, chk)


def queries(c, cls):
    """keys() is the list, contains() asks the table for exactly the name, is_open() the stream"""
    st = c.start()
    p, arch, tab, rs = reader(c, st, cls)
    for s in rs:
        koff, _ = find_obj(s, p, VecVal)
        moff, m0 = find_obj(s, p, MapVal)
        before = {o: v for o, v in s.regions[p.rid].cells.items()}
        name = mk_src('name', mk('name.len', 0, 1 << 40))
        b = mk_string(s, name.whole())
        for s2 in c.ret(c.call(s.clone(), 'npy::%s::keys() const' % cls, [p])):
            c.post(s2, isinstance(s2.retval, Ptr) and s2.retval.rid == p.rid and s2.retval.off == koff, 'keys() is the list of names')
        for s2 in c.ret(c.call(s.clone(), 'npy::%s::contains(string const&)' % cls, [p, b])):
            def chk(s2):
                rid = I.map_lookup(c.ex, s2, s2.regions[p.rid].cells[moff][1], name.whole())
                v = s2.retval
                v = v if isinstance(v, bool) or z3.is_bool(v) else bnot(T.eq(v, 0))
                c.post(s2, v if rid is not None else bnot(v), 'contains() holds exactly for the names of the table')
                c.post(s2, all(s2.regions[p.rid].cells.get(o) is v or s2.regions[p.rid].cells[o][1] is v[1] for o, v in before.items()), 'nothing is changed')
            c.cases(s2, chk)


for _cls, _ps in READERS.items():
    for _p in _ps:
        if _p != 'char const*':
            task(['C11', 'C22'] + (['C23'] if _cls == 'npzfilereader' else []), '%s(%s)' % (_cls, _p), ['npy::%s::%s(%s)' % (_cls, _cls, _p), 'npy::%s::read_entries()' % _cls])(
                lambda c, k=_cls, q=_p: constructed(c, k, q))
    task(['C11', 'C22'], '%s: keys, contains' % _cls, ['npy::%s::keys() const' % _cls, 'npy::%s::contains(string const&)' % _cls])(lambda c, k=_cls: queries(c, k))
