"""Helpers shared by the proof tasks."""
from vc.task import *
U64 = 1 << 64

STRING_T = '%"class.std::__cxx11::basic_string"'


def le_bytes(v, n):
    """the n bytes of v, least significant first"""
    return Rope((Lit([byte_of(v, j) for j in range(n)]),))


def new_object(c, st, cls, name=None):
    t = c.env.m.types.get(cls)
    if t is None:
        raise NoCode('no class %s' % cls)
    return Ptr(st.alloc_flat(c.env.m.sizeof(t), name or cls.split('::')[-1]), 0)


def find_obj(st, p, typ, nth=0):
    """offset and value of the nth object of this kind inside the object at p"""
    l = sorted((o, v) for o, (s, v) in st.regions[p.rid].cells.items() if isinstance(v, typ))
    if len(l) <= nth:
        raise Imprecise('no %s member' % typ.__name__)
    return l[nth]


def set_member(st, p, off, v):
    r = st.wr(p.rid)
    r.cells[off] = (r.cells[off][0], v)


# ----------------------------------------------------------------- contracts between functions of the library
def crc_contract(c):
    """npy_crc32 is a function of the bytes (property C15 says which)"""
    def h(ex, st, a, ins):
        r = I.sv(ex, st, a[0]).rope
        for r2, v in st.ghost.get('crc', ()):
            if r2 is r or same_rope(r, r2, st.pc):
                return v
        v = fresh('crc', 0, (1 << 32) - 1)
        st.ghost['crc'] = tuple(st.ghost.get('crc', ())) + ((r, v),)
        return v
    c.ex.overrides['npy::npy_crc32(string const&)'] = h
    c.assumed.add('npy::npy_crc32 replaced by its contract (a function of the bytes; proved separately: C15)')


def crc_of(st, rope):
    for r2, v in st.ghost.get('crc', ()):
        if r2 is rope or same_rope(rope, r2, st.pc):
            return v
    return None


def same_rope(a, b, pc):
    try:
        return prove_rope_eq(a, b, pc).status is True
    except (Fork, Imprecise):
        return False


def deflate_contract(c):
    def h(ex, st, a, ins):
        r = I.sv(ex, st, a[1]).rope
        s2 = st.clone()
        src = Source(fresh_name('deflated'), fresh('deflated.len', 1, 1 << 62), tag='deflate', args=(r,))
        ex.setobj(st, a[1], StrVal(Source(fresh_name('hv_moved'), fresh('hv_moved.len', 0, 1 << 62)).whole()))
        ex.setobj(st, a[0], StrVal(src.whole()))
        return Multi([(st, None), (s2, CxxThrow('std::runtime_error'))])
    c.ex.overrides['npy::npy_deflate(string&&)'] = h
    c.assumed.add('npy::npy_deflate replaced by its contract (C16)')


def inflate_contract(c):
    """the inverse of deflate on its results; on anything else some bytes or an exception"""
    def h(ex, st, a, ins):
        r = I.sv(ex, st, a[1]).rope
        ex.setobj(st, a[1], StrVal(Source(fresh_name('hv_moved'), fresh('hv_moved.len', 0, 1 << 62)).whole()))
        if len(r.ps) == 1 and isinstance(r.ps[0], Slice) and r.ps[0].src.tag == 'deflate' and \
                prove(st.pc, band(T.eq(r.ps[0].off, 0), T.eq(r.ps[0].n, r.ps[0].src.length))) is True:
            ex.setobj(st, a[0], StrVal(r.ps[0].src.args[0]))
            return None
        s2 = st.clone()
        src = Source(fresh_name('inflated'), fresh('inflated.len', 0, 1 << 62), tag='inflate', args=(r,))
        ex.setobj(st, a[0], StrVal(src.whole()))
        return Multi([(st, None), (s2, CxxThrow('std::runtime_error'))])
    c.ex.overrides['npy::npy_inflate(string&&)'] = h
    c.assumed.add('npy::npy_inflate replaced by its contract (C16)')


# ----------------------------------------------------------------- readers in an arbitrary state
def present_table():
    """an arbitrary map<string, file_entry>: which keys it has is unknown"""
    return {'keys': []}


ENTRY = [('filename', 32), ('crc32', 4), ('compressed_size', 8), ('uncompressed_size', 8), ('compression_method', 2), ('offset', 8)]


def entry_layout(c):
    t = c.env.m.types.get('struct.npy::file_entry')
    if t is None or len(t[1]) != 6:
        raise NoCode('struct npy::file_entry has changed')
    out = {}
    for i, (n, w) in enumerate(ENTRY):
        o, e = c.env.m.field_offset(t, i)
        if c.env.m.sizeof(e) != w:
            raise NoCode('struct npy::file_entry has changed')
        out[n] = o
    return out, c.env.m.sizeof(t)


def symbolic_map(c, tab, name_is_key=False):
    lay, es = entry_layout(c)

    def other(ex, st, key):
        for i, (k, b, f) in enumerate(tab['keys']):
            if k is key or decide(eq_cond(key, k, st.pc), st.pc):
                break
        else:
            i = len(tab['keys'])
            f = {n: mk('e%d.%s' % (i, n), 0, (1 << (8 * w)) - 1) for n, w in ENTRY[1:]}
            f['filename'] = key if name_is_key else mk_src('e%d.filename' % i).whole()
            b = z3.Bool('has%d' % i)
            k = key
            tab['keys'].append((k, b, f))
        rid = 'entry#%d' % i
        if rid not in st.regions:
            r = Region('flat', 'map node', size=32 + es, cells={})
            r.cells[0] = (32, StrVal(k, 1))
            for n, w in ENTRY:
                r.cells[32 + lay[n]] = (w, StrVal(f[n], 1) if n == 'filename' else f[n])
            st.regions[rid] = r
        return rid if decide(b, st.pc) else None
    return other


def list_of_names(k):
    raise Imprecise('the list of the names of a reader')


def reader(c, st, cls='npzstringreader', name_is_key=False):
    """a reader in an arbitrary state: any archive bytes, any directory, any stream position and stream state"""
    tab = present_table()
    lay, es = entry_layout(c)
    nm = 'npy::%s::read_entries()' % cls
    c.env.find(nm)
    hole = {}

    def h(ex, s, a, ins):
        hole['this'] = a[0]
        return None
    c.ex.overrides[nm] = h
    p = new_object(c, st, 'class.npy::' + cls)
    arch = mk_src('archive', mk('archive.len', 0, 1 << 62))
    b = mk_string(st, arch.whole())
    if cls == 'npzstringreader':
        rs = c.call(st, 'npy::npzstringreader::npzstringreader(string const&)', [p, b])
    else:
        st.ghost['file_source'] = arch
        rs = [s for s in c.call(st, 'npy::npzfilereader::npzfilereader(string const&)', [p, b])]
    out = []
    for s in c.ret(rs, 'the constructor returns'):
        s.status = None
        off, i = find_obj(s, p, IStr)
        set_member(s, p, off, i.with_(rope=arch.whole(), vpos=mk('pos', 0, 1 << 62), failx=z3.Bool('failed'), eofx=z3.Bool('ateof'), open=True))
        moff, m = find_obj(s, p, MapVal)
        set_member(s, p, moff, MapVal((), es, symbolic_map(c, tab, name_is_key)))
        koff, _ = find_obj(s, p, VecVal)
        set_member(s, p, koff, VecVal(s.alloc_arr(32, mk('names', 0, 1 << 32), Content(list_of_names), 'names', ety=('obj', 32)), 32))
        out.append(s)
    return p, arch, tab, out
