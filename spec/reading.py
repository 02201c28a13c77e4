"""C12, C14, C17, C22: reading entries of an archive."""
import re
from spec.common import *

STORED, DEFLATED = 0, 8


def le_val(src, off, n):
    r = 0
    for j in range(n):
        r = add(r, mul(256 ** j, src.at(add(off, j))))
    return r


def read_file_task(c, cls, check):
    crc_contract(c)
    inflate_contract(c)
    st = c.start()
    p, arch, tab, rs = reader(c, st, cls)
    for s in rs:
        name = mk_src('name', mk('name.len', 0, 1 << 40))
        np = mk_string(s, name.whole())
        out = mk_string(s, EMPTY, 'result')
        s.wr(out.rid).cells.clear()
        c.name, c.reader = name.whole(), p
        c.other = find_obj(s, p, MapVal)[1].other
        c.before = dict(s.regions[p.rid].cells)
        c.regs = dict(s.regions)
        for s2 in c.call(s, 'npy::%s::read_file(string const&)' % cls, [out, p, np]):
            c.cases(s2, lambda s3: check(c, s3, arch, tab, out))


def used_entry(c, s, tab):
    """the directory entry a path has used"""
    l = [(k, f) for k, b, f in tab['keys'] if quick(b, s.pc) is True]
    return l[0] if len(l) == 1 else None


def integrity(c, s, arch, tab, out):
    if s.status == 'exc':
        c.post(s, c.exc_is(s, 'std::exception'), 'an exception is a standard one')
        return
    u = used_entry(c, s, tab)
    c.post(s, u is not None, 'an entry of the directory is read')
    if u is None:
        return
    k, e = u
    L, o = arch.length, e['offset']
    at = lambda d, n: rope_slice(arch.whole(), add(o, d), n, s.pc)
    c.post(s, le(add(o, 30), L), 'the local record is inside the archive')
    c.post_rope(s, at(0, 4), lit(b'PK\x03\x04'), 'the local signature is right')
    c.post(s, T.eq(le_val(arch, add(o, 8), 2), e['compression_method']), 'the methods agree')
    c.post(s, T.eq(le_val(arch, add(o, 14), 4), e['crc32']), 'the CRC-32 values agree')
    c.post(s, T.eq(le_val(arch, add(o, 26), 2), e['filename'].length()), 'the name lengths agree')
    nl = e['filename'].length()
    c.post(s, le(add(add(o, 30), nl), L), 'the name is inside the archive')
    c.post_rope(s, at(30, nl), e['filename'], 'the names agree')
    cs, us = le_val(arch, add(o, 18), 4), le_val(arch, add(o, 22), 4)
    xl = le_val(arch, add(o, 28), 2)
    x = add(add(o, 30), nl)
    # a size that is the placeholder is taken from the extra field, if there is one
    hx = gt(xl, 0)
    ph = lambda v: band(hx, T.eq(v, 0xFFFFFFFF))
    tus = le_val(arch, add(x, 4), 8)
    tcs1, tcs2 = le_val(arch, add(x, 4), 8), le_val(arch, add(x, 12), 8)
    c.post(s, implies(bnot(ph(us)), T.eq(us, e['uncompressed_size'])), 'the uncompressed sizes agree')
    c.post(s, implies(ph(us), T.eq(tus, e['uncompressed_size'])), 'the uncompressed sizes agree (ZIP64)')
    c.post(s, implies(bnot(ph(cs)), T.eq(cs, e['compressed_size'])), 'the compressed sizes agree')
    c.post(s, implies(band(ph(cs), bnot(ph(us))), T.eq(tcs1, e['compressed_size'])), 'the compressed sizes agree (ZIP64, alone)')
    c.post(s, implies(band(ph(cs), ph(us)), T.eq(tcs2, e['compressed_size'])), 'the compressed sizes agree (ZIP64, second)')
    res = get_obj(s, out).rope
    crc = crc_of(s, res)
    c.post(s, False if crc is None else T.eq(crc, e['crc32']), 'the CRC-32 of the returned data is the recorded one')
    # where the data comes from
    skip = ite(hx, add(4, le_val(arch, add(x, 2), 2)), 0)
    src = res
    if len(res.ps) == 1 and isinstance(res.ps[0], Slice) and res.ps[0].src.tag == 'inflate':
        c.post(s, T.eq(e['compression_method'], DEFLATED), 'data is decompressed only if deflated')
        src = res.ps[0].src.args[0]
    else:
        c.post(s, bnot(T.eq(e['compression_method'], DEFLATED)), 'deflated data is decompressed')
    c.post(s, le(add(add(x, skip), e['compressed_size']), L), 'the data is inside the archive')
    c.post_rope(s, src, rope_slice(arch.whole(), add(x, skip), e['compressed_size'], s.pc), 'the data is that of the entry')


READERS = ('npzstringreader', 'npzfilereader')
for _cls in READERS:
    task(['C12', 'C17', 'C15'], '%s::read_file checks the entry' % _cls, ['npy::%s::read_file(string const&)' % _cls])(
        lambda c, k=_cls: read_file_task(c, k, integrity))


def has(tab, name, pc):
    """the condition that the directory has this key, if it was asked for"""
    for k, b, f in tab['keys']:
        if k is name or same_rope(k, name, pc):
            return b
    return None


def lookup(c, s, arch, tab, out):
    """exact match first, then the name with .npy; else std::invalid_argument"""
    name = c.name
    b0, b1 = has(tab, name, s.pc), has(tab, name + lit(b'.npy'), s.pc)
    c.post(s, b0 is not None, 'the exact name is looked up')
    if b0 is None:
        return
    if b1 is None:
        b1 = False
    found = bor(b0, b1)
    if s.status == 'exc':
        # every exception before an entry is chosen is the one for unknown names
        if prove(s.pc, found) is not True:
            c.post(s, bor(found, c.exc_is(s, 'std::invalid_argument')), 'an unknown name is refused with std::invalid_argument')
        c.post(s, implies(c.exc_is(s, 'std::invalid_argument'), bnot(found)), 'a known name is not refused as unknown')
        return
    c.post(s, found, 'only known names are read')
    # the entry read is the one with the name, if there is one
    crc = crc_of(s, get_obj(s, out).rope)
    want = None
    for cond, key in ((b0, name), (bnot(b0), name + lit(b'.npy'))):
        if quick(cond, s.pc) is True:
            want = [f for k, b, f in tab['keys'] if k is key or same_rope(k, key, s.pc)]
    c.post(s, bool(want), 'it is known which of the two names is present')
    if want:
        c.post(s, False if crc is None else T.eq(crc, want[0]['crc32']), 'the data returned is checked against the entry of that name')
        o, nl = want[0]['offset'], want[0]['filename'].length()
        hx = gt(le_val(arch, add(o, 28), 2), 0)
        x = add(add(o, 30), nl)
        skip = ite(hx, add(4, le_val(arch, add(x, 2), 2)), 0)
        res = get_obj(s, out).rope
        if len(res.ps) == 1 and isinstance(res.ps[0], Slice) and res.ps[0].src.tag == 'inflate':
            res = res.ps[0].src.args[0]
        c.post_rope(s, res, rope_slice(arch.whole(), add(x, skip), want[0]['compressed_size'], s.pc), 'the data returned is that of the entry of that name')


NAMES = {}
HISTORY = ('pos', 'failed', 'ateof')


def history_free(c, s, arch, tab, out):
    """which path is taken and what it returns do not depend on the state earlier operations left the stream in, and
    the directory of the reader is not changed"""
    names = set()
    for f in s.pc:
        if is_t(f):
            i = pin(f)
            if i not in NAMES:
                NAMES[i] = set(const_names(f)) & set(HISTORY)
            names |= NAMES[i]
    if s.status == 'ret':
        for t in rope_terms(get_obj(s, out).rope):
            names |= set(const_names(t))
    bad = sorted(names & set(HISTORY))
    o = Obl('the outcome does not depend on the earlier state of the stream', None, 'postcondition', kind='post')
    o.status = True if not bad else None
    o.why = 'depends on %s' % bad
    o.pc, o.goal = list(s.pc), z3.BoolVal(not bad)
    c.posts.append(o)
    off, m = find_obj(s, c.reader, MapVal)
    c.post(s, m.entries == () and m.other is c.other, 'the directory is not changed')
    for off, (sz, v) in c.before.items():
        if isinstance(v, (IStr, MapVal)):
            continue
        v2 = s.regions[c.reader.rid].cells.get(off, (0, None))[1]
        same = v2 is v or (isinstance(v2, VecVal) and isinstance(v, VecVal) and v2.rid == v.rid and s.regions[v.rid] is c.regs.get(v.rid)) or \
            (not isinstance(v, Obj) and T.eq(v, v2) is True)
        c.post(s, same, 'the reader is not changed otherwise')
    _, i = find_obj(s, c.reader, IStr)
    c.post_rope(s, i.rope, arch.whole(), 'the archive is not changed')
    c.post(s, i.open, 'the archive stays open')


def rope_terms(r):
    for p in r.ps:
        if isinstance(p, Slice):
            yield from (t for t in (p.off, p.n) if is_t(t))
            for a in p.src.args or ():
                if isinstance(a, Rope):
                    yield from rope_terms(a)
        elif isinstance(p, Lit):
            yield from (t for t in p.items if is_t(t))
        elif isinstance(p, Rep):
            yield from (t for t in (p.item, p.n) if is_t(t))
        elif isinstance(p, Big):
            yield from (t for t in (p.n,) if is_t(t))
            k = fresh('k', 0, None)
            for cnd, b in p.body(k):
                if is_t(cnd):
                    yield cnd
                yield from rope_terms(b)
        elif isinstance(p, Dec):
            if is_t(p.v):
                yield p.v


for _cls in READERS:
    task('C14', '%s::read_file finds the entry' % _cls, ['npy::%s::read_file(string const&)' % _cls])(
        lambda c, k=_cls: read_file_task(c, k, lookup))
    task('C22', '%s::read_file does not depend on what was read before' % _cls, ['npy::%s::read_file(string const&)' % _cls])(
        lambda c, k=_cls: read_file_task(c, k, history_free))


# ----------------------------------------------------------------- records of the directory
def directory_record(c):
    """read_central_directory_header at any position of any archive: what it returns is what the record states, with
    sizes and offset from the ZIP64 extra field exactly where the 32-bit field is the placeholder"""
    from spec.values import in_stream
    st = c.start()
    arch = mk_src('archive', mk('archive.len', 0, 1 << 62))
    inp = in_stream(st, arch.whole())
    o = mk('pos', 0, 1 << 62)
    st.assume(le(o, arch.length))
    r = st.wr(inp.rid)
    r.cells[0] = (8, r.cells[0][1].with_(vpos=o))
    out = new_object(c, st, 'struct.npy::file_entry')
    lay, es = entry_layout(c)
    fn = [d for d in c.env.index if re.search(r'namespace.::read_central_directory_header.std::istream&', d)]
    if len(fn) != 1:
        raise NoCode('no function read_central_directory_header')

    def chk(s):
        if s.status == 'exc':
            c.post(s, c.exc_is(s, 'std::exception'), 'an exception is a standard one')
            return
        i = get_obj(s, inp)
        bad = I.ifail(i)
        # a record that is cut off leaves the stream failed: the caller throws (checked for the whole reader)
        if decide(bad, s.pc):
            return
        L = arch.length
        v = lambda d, n: le_val(arch, add(o, d), n)
        cells = s.regions[out.rid].cells
        e = {n: cells[lay[n]][1] for n, _ in ENTRY}
        nl, xl = v(28, 2), v(30, 2)
        c.post(s, le(add(add(o, 46), nl), L), 'the record is inside the archive')
        c.post_rope(s, rope_slice(arch.whole(), o, 4, s.pc), lit(b'PK\x01\x02'), 'the signature is right')
        c.post(s, le(v(6, 2), 45), 'the version is supported')
        c.post(s, T.eq(e['compression_method'], v(10, 2)), 'the method is the one of the record')
        c.post(s, T.eq(e['crc32'], v(16, 4)), 'the CRC-32 is the one of the record')
        c.post_rope(s, e['filename'].rope, rope_slice(arch.whole(), add(o, 46), nl, s.pc), 'the name is the one of the record')
        x = add(add(o, 46), nl)
        hx = gt(xl, 0)
        P = 0xFFFFFFFF
        us, cs, of = v(24, 4), v(20, 4), v(42, 4)
        pu, pcs, po = (band(hx, T.eq(t, P)) for t in (us, cs, of))
        at = lambda k: le_val(arch, add(x, add(4, k)), 8)
        w = lambda b: ite(b, 8, 0)
        c.post(s, implies(bnot(pu), T.eq(e['uncompressed_size'], us)), 'the size of the record')
        c.post(s, implies(bnot(pcs), T.eq(e['compressed_size'], cs)), 'the compressed size of the record')
        c.post(s, implies(bnot(po), T.eq(e['offset'], of)), 'the offset of the record')
        for bu in (True, False):
            for bc in (True, False):
                g = band(hx, T.eq(us, P) if bu else bnot(T.eq(us, P)), T.eq(cs, P) if bc else bnot(T.eq(cs, P)))
                if bu:
                    c.post(s, implies(g, T.eq(e['uncompressed_size'], at(0))), 'the size of the extra field')
                if bc:
                    c.post(s, implies(g, T.eq(e['compressed_size'], at(8 * bu))), 'the compressed size of the extra field')
                c.post(s, implies(band(g, T.eq(of, P)), T.eq(e['offset'], at(8 * (bu + bc)))), 'the offset of the extra field')
        need = add(add(w(T.eq(us, P)), w(T.eq(cs, P))), w(T.eq(of, P)))
        c.post(s, implies(hx, T.eq(le_val(arch, x, 2), 1)), 'the extra field is a ZIP64 one')
        c.post(s, implies(hx, ge(le_val(arch, add(x, 2), 2), need)), 'the extra field has the values')
        end = ite(hx, add(add(x, 4), le_val(arch, add(x, 2), 2)), x)
        c.post(s, implies(le(end, L), T.eq(i.vpos, end)), 'the stream is behind the record and its extra field')
    for s in c.call(st, fn[0], [out, inp]):
        c.cases(s, chk)


task(['C12', 'C17'], 'read_central_directory_header', ['read_central_directory_header'])(directory_record)


def closed_reader(c):
    """is_open until close; afterwards nothing is read from the file, and looking at the names still works"""
    K = 'npy::npzfilereader::'
    st = c.start()
    p, arch, tab, rs = reader(c, st, 'npzfilereader')
    for s in rs:
        for s1 in c.call(s.clone(), K + 'is_open() const', [p]):
            c.post(s1, s1.status == 'ret' and decide(tobool(s1.retval), s1.pc), 'a reader on a file is open')
        for s1 in c.call(s.clone(), K + 'close()', [p]):
            c.post(s1, s1.status == 'ret', 'it can be closed')
            s1.status = None
            for s2 in c.call(s1.clone(), K + 'is_open() const', [p]):
                c.post(s2, s2.status == 'ret' and not decide(tobool(s2.retval), s2.pc), 'a closed reader is not open')
            for s2 in c.call(s1.clone(), K + 'close()', [p]):
                c.post(s2, s2.status == 'ret', 'it can be closed again')
            name = mk_src('name', mk('name.len', 0, 1 << 40))
            np, out = mk_string(s1, name.whole()), Ptr(s1.alloc_flat(32, 'result'), 0)
            for s2 in c.call(s1.clone(), K + 'read_file(string const&)', [out, p, np]):
                c.post(s2, c.exc_is(s2, 'std::exception'), 'reading from a closed reader is refused')


task('C23', 'npzfilereader: open until closed', ['npy::npzfilereader::is_open() const', 'npy::npzfilereader::close()'])(closed_reader)
