"""C10-C17: the archive records."""
from spec.common import *

STORED, DEFLATED = 0, 8
LIMIT32 = 0xFFFFFFFF
LEAST = 36          # bytes of the shortest deflated NPY header
WRITERS = ('npzstringwriter', 'npzfilewriter')


def new_writer(c, st, method, cls='npzstringwriter'):
    p = new_object(c, st, 'class.npy::' + cls)
    if cls == 'npzstringwriter':
        rs = c.call(st, 'npy::%s::%s(npy::compression_method_t, npy::endian_t)' % (cls, cls), [p, method, 0])
    else:
        path = mk_string(st, mk_src('path', mk('path.len', 0, 1 << 20)).whole())
        rs = c.call(st, 'npy::%s::%s(string const&, npy::compression_method_t, npy::endian_t)' % (cls, cls), [p, path, method, 0])
        c.assumed.add('npzfilewriter: the file could be opened and writing to it does not fail')
    return p, c.ret(rs, 'the constructor returns')


ENTRY_FIELDS = [('filename', 32), ('crc32', 4), ('compressed_size', 8), ('uncompressed_size', 8),
                ('compression_method', 2), ('offset', 8)]


def entry_layout(c):
    t = c.env.m.types.get('struct.npy::file_entry')
    if t is None or len(t[1]) != 6:
        raise NoCode('struct npy::file_entry has changed')
    out = {}
    for i, (n, w) in enumerate(ENTRY_FIELDS):
        o, e = c.env.m.field_offset(t, i)
        if c.env.m.sizeof(e) != w:
            raise NoCode('struct npy::file_entry has changed')
        out[n] = o
    return out, c.env.m.sizeof(t)


def general_writer(c, st, p, inv=False):
    """turn the freshly constructed writer into an arbitrary open one: R0 written so far, n entries.
    inv: with the bounds established by write_file"""
    off, o = find_obj(st, p, OStr)
    R0 = mk_src('written', mk('written.len', 0, LIMIT32 - 1 if inv else 1 << 62))
    set_member(st, p, off, o.with_(rope=R0.whole(), fail=False, open=True))
    lay, es = entry_layout(c)
    voff, v = find_obj(st, p, VecVal)
    n = mk('entries', 0, 65535 if inv else 1 << 20)
    f = {}
    for nm, w in ENTRY_FIELDS[1:]:
        f[nm] = mkfun('entry.' + nm, 0, LIMIT32 - 1 if inv and nm == 'offset' else (1 << (8 * w)) - 1)
    nlen = mkfun('entry.name.len', 0, 65535 if inv else 1 << 40)
    nch = mkfun('entry.name', 0, 255, arity=2)

    def base(i):
        d = {}
        for nm, w in ENTRY_FIELDS[1:]:
            d[lay[nm]] = (w, f[nm](ex(i)))
        src = Source('entry_name', nlen(ex(i)), fun=lambda j, i=i: nch(ex(i), ex(j)))
        d[lay['filename']] = (32, StrVal(src.whole(), 1))
        return d
    rid = st.alloc_arr(es, n, Content(base), 'm_entries', ety='struct')
    set_member(st, p, voff, VecVal(rid, es))
    return R0, n, f, base


def parse(c, st, rope, spec, what):
    """check the fields of a record one by one.  spec: (name, width, expected value or rope or None).
    -> offset after the last"""
    pos = 0
    for name, w, want in spec:
        got = rope_slice(rope, pos, w, st.pc)
        if want is not None:
            if not isinstance(want, Rope):
                want = le_bytes(want, w)
            c.post_rope(st, got, want, '%s: %s' % (what, name))
        pos = add(pos, w)
    return pos


def field32(c, st, rope, pos, value, what):
    """4-byte field holding value, or the placeholder: -> True if the value is deferred to the extra field"""
    got = rope_slice(rope, pos, 4, st.pc)
    if same_rope(got, le_bytes(value, 4), st.pc) and prove(st.pc, lt(value, LIMIT32)) is True:
        c.post(st, True, '%s is recorded exactly' % what)
        return False
    c.post_rope(st, got, le_bytes(LIMIT32, 4), '%s is recorded exactly or as the placeholder' % what)
    return True


def check_record(c, st, rec, central, e, what):
    """rec: the record's bytes; e: filename rope, crc32, compressed_size, uncompressed_size, compression_method, offset
    -> length of the record"""
    nl = e['filename'].length()
    c.post(st, lt(nl, 65536), '%s: the name length fits its field' % what)
    if central:
        pos = parse(c, st, rec, [('signature', 4, lit(b'PK\x01\x02')), ('version', 4, None)], what)
    else:
        pos = parse(c, st, rec, [('signature', 4, lit(b'PK\x03\x04')), ('version', 2, None)], what)
    at = lambda w: rope_slice(rec, pos, w, st.pc)

    def field(name, w, want):
        nonlocal pos
        if want is not None:
            c.post_rope(st, at(w), want if isinstance(want, Rope) else le_bytes(want, w), '%s: %s' % (what, name))
        pos = add(pos, w)
    field('flags', 2, 0)
    field('method', 2, e['compression_method'])
    field('time', 4, None)
    field('crc', 4, e['crc32'])
    extra = []
    dc = field32(c, st, rec, pos, e['compressed_size'], what + ': compressed size')
    pos = add(pos, 4)
    du = field32(c, st, rec, pos, e['uncompressed_size'], what + ': uncompressed size')
    pos = add(pos, 4)
    field('name length', 2, nl)
    xpos = pos
    pos = add(pos, 2)
    do = False
    if central:
        field('comment length, disk', 4, 0)
        field('attributes', 6, None)
        do = field32(c, st, rec, pos, e['offset'], what + ': offset')
        pos = add(pos, 4)
    field('name', nl, e['filename'])
    vals = [e[n] for d, n in ((du, 'uncompressed_size'), (dc, 'compressed_size'), (do, 'offset')) if d]
    xl = 4 + 8 * len(vals) if vals else 0
    c.post_rope(st, rope_slice(rec, xpos, 2, st.pc), le_bytes(xl, 2), '%s: extra field length' % what)
    if vals:
        field('ZIP64 tag', 2, 1)
        field('ZIP64 size', 2, 8 * len(vals))
        for v in vals:
            field('ZIP64 value', 8, v)
    return pos


def write_step(c, method, cls):
    """write_file from any open writer"""
    crc_contract(c)
    deflate_contract(c)
    st = c.start()
    p, rs = new_writer(c, st, method, cls)
    for s in rs:
        R0, n, f, base = general_writer(c, s, p)
        L0 = R0.length
        name = mk_src('name', mk('name.len', 0, 1 << 40))
        data = mk_src('data', mk('data.len', 0, 1 << 62))
        np, dp = mk_string(s, name.whole()), mk_string(s, data.whole())
        s.status = None
        lay, es = entry_layout(c)
        def after(s2):
            _, o = find_obj(s2, p, OStr)
            _, v = find_obj(s2, p, VecVal)
            reg = s2.regions[v.rid]
            if s2.status == 'exc':
                c.post(s2, c.exc_is(s2, 'std::exception'), 'a refusal is a standard exception')
                c.post_rope(s2, o.rope, R0.whole(), 'a refused write leaves the archive unchanged')
                c.post(s2, T.eq(reg.length, n), 'a refused write leaves the entries unchanged')
                return
            # the new entry
            c.post(s2, T.eq(reg.length, add(n, 1)), 'one entry is added')
            d = reg.content.get(n, s2.pc)
            e = {nm: d[lay[nm]][1] for nm, _ in ENTRY_FIELDS}
            e['filename'] = e['filename'].rope
            c.post_rope(s2, e['filename'], name.whole(), 'the entry has the name')
            crc = crc_of(s2, data.whole())
            c.post(s2, False if crc is None else T.eq(e['crc32'], crc), 'the entry has the CRC-32 of the original data')
            c.post(s2, T.eq(e['uncompressed_size'], data.length), 'the entry has the size of the original data')
            c.post(s2, T.eq(e['compression_method'], method), 'the entry has the method')
            c.post(s2, T.eq(e['offset'], L0), 'the entry has the offset of the local record')
            c.post_rope(s2, rope_slice(o.rope, 0, L0, s2.pc), R0.whole(), 'what was written before is unchanged')
            rec = rope_slice(o.rope, L0, sub(o.rope.length(), L0), s2.pc)
            end = check_record(c, s2, rec, False, e, 'local record')
            stored = rope_slice(rec, end, sub(rec.length(), end), s2.pc)
            c.post(s2, T.eq(stored.length(), e['compressed_size']), 'the compressed size is the number of stored bytes')
            c.post(s2, le(add(30, add(name.length, e['compressed_size'])), sub(o.rope.length(), L0)),
                   'the entry takes at least its header, name and data in the archive')
            if method == STORED:
                c.post_rope(s2, stored, data.whole(), 'the stored bytes are the data')
            else:
                ok = len(stored.ps) == 1 and isinstance(stored.ps[0], Slice) and stored.ps[0].src.tag == 'deflate' and \
                    same_rope(stored.ps[0].src.args[0], data.whole(), s2.pc) and T.eq(stored.ps[0].off, 0) is True
                c.post(s2, True if ok else False, 'the stored bytes are the deflated data')
            # what close relies on
            mx = lambda q: add(q, add(64, mul(2, name.length)))
            c.post(s2, lt(n, 65535), 'the number of entries fits the end record')
            c.post(s2, lt(o.rope.length(), LIMIT32), 'the offset of the directory fits the end record')
        for s2 in c.call(s, 'npy::%s::write_file(string const&, string&&)' % cls, [p, np, dp]):
            c.cases(s2, after)


for _cls in WRITERS:
    for _m in (STORED, DEFLATED):
        task(['C10', 'C17', 'C15'], '%s::write_file appends one record (%s)' % (_cls, 'stored' if _m == STORED else 'deflated'),
             ['npy::%s::write_file(string const&, string&&)' % _cls])(
            lambda c, m=_m, k=_cls: write_step(c, m, k))


def close_task(c, fn, cls='npzstringwriter', closing=True):
    st = c.start()
    p, rs = new_writer(c, st, STORED, cls)
    for s in rs:
        R0, n, f, base = general_writer(c, s, p, True)
        lay, es = entry_layout(c)
        before = find_obj(s, p, OStr)
        s.status = None

        def after(s2):
            _, o = find_obj(s2, p, OStr)
            check_archive(c, s2, o.rope, R0, n, base, lay)
        for s2 in c.ret(c.call(s, fn, [p])):
            c.cases(s2, after)


def check_archive(c, st, rope, R0, n, base, lay):
    """R0, one directory record per entry, the end record"""
    ps = list(rope.ps)
    L0 = R0.length
    c.post_rope(st, rope_slice(rope, 0, L0, st.pc), R0.whole(), 'the local records are unchanged')
    rest = rope_slice(rope, L0, sub(rope.length(), L0), st.pc)
    bigs = [q for q in rest.ps if isinstance(q, Big)]
    if quick(T.eq(n, 0), st.pc) is True:
        dirlen = 0
    else:
        if len(bigs) != 1 or rest.ps[0] is not bigs[0]:
            raise Imprecise('the directory is not one sequence of records')
        big = bigs[0]
        c.post(st, T.eq(big.n, n), 'one directory record per entry')
        i = fresh('i', 0, None)
        s0 = st.clone()
        s0.assume(lt(i, n))
        d = base(i)
        e = {nm: d[lay[nm]][1] for nm, _ in ENTRY_FIELDS}
        e['filename'] = e['filename'].rope
        for cond, r in big.body(i):
            s1 = s0.clone()
            s1.assume(cond)
            if not feasible(s1.pc):
                continue

            def rec(s3, r=r):
                end = check_record(c, s3, r, True, e, 'directory record')
                c.post(s3, T.eq(end, r.length()), 'nothing between directory records')
                # local records take at least 30 + name + data bytes (write_step): by induction over the entries, the
                # directory up to entry i is no longer than the offset of entry i
                s4 = s3.clone()
                s4.assume(ge(e['compressed_size'], LEAST))
                c.post(s4, le(r.length(), add(30, add(e['filename'].length(), e['compressed_size']))),
                       'a directory record is no longer than what its entry takes in the archive')
            c.cases(s1, rec)
        dirlen = big.length()
    # the induction's conclusion
    st.assume(le(dirlen, L0))
    c.assumed.add('every entry of an archive stores at least %d bytes (it begins with an NPY header)' % LEAST)
    c.assumed.add('the entries of an open writer are those its successful calls of write_file added (induction over the history)')
    end = rope_slice(rest, dirlen, sub(rest.length(), dirlen), st.pc)
    c.post(st, T.eq(end.length(), 22), 'nothing after the end record')
    parse(c, st, end, [('signature', 4, lit(b'PK\x05\x06')), ('disk numbers', 4, 0), ('entries on this disk', 2, n),
                       ('entries', 2, n), ('directory size', 4, dirlen), ('directory offset', 4, L0), ('comment length', 2, 0)],
          'end record')


for _cls in WRITERS:
    task(['C10', 'C13'], '%s::close writes the directory' % _cls, ['npy::%s::close()' % _cls])(
        lambda c, k=_cls: close_task(c, 'npy::%s::close()' % k, k))


def finished_task(c, cls):
    """after close: closing again, writing and destroying change nothing"""
    st = c.start()
    p, rs = new_writer(c, st, STORED, cls)
    c.ex.overrides['void npy::save<npy::tensor<int>, char>(std::ostream&, npy::tensor<int> const&, npy::endian_t)'] = lambda ex, s, a, ins: None
    crc_contract(c)
    deflate_contract(c)
    for s in rs:
        R0, n, f, base = general_writer(c, s, p, True)
        s.status = None
        for s2 in c.ret(c.call(s, 'npy::%s::close()' % cls, [p])):
            s2.status = None
            _, o = find_obj(s2, p, OStr)
            _, v = find_obj(s2, p, VecVal)
            ln = s2.regions[v.rid].length
            done = len(s2.ghost.get('closed', ()))
            if cls == 'npzfilewriter':
                c.post(s2, done == 1, 'the file is closed')
                if done == 1:
                    c.post_rope(s2, s2.ghost['closed'][0][1], o.rope, 'the file has the finished archive')

            def same(s3, what, ret=True):
                _, o2 = find_obj(s3, p, OStr)
                _, v2 = find_obj(s3, p, VecVal)
                c.post_rope(s3, o2.rope, o.rope, '%s leaves the archive as it was' % what)
                c.post(s3, T.eq(s3.regions[v2.rid].length, ln), '%s leaves the entries as they were' % what)
                c.post(s3, len(s3.ghost.get('closed', ())) == done, '%s does not write to the file again' % what)
            for s3 in c.call(s2.clone(), 'npy::%s::close()' % cls, [p]):
                c.post(s3, s3.status == 'ret', 'closing again is accepted')
                c.cases(s3, lambda s4: same(s4, 'closing again'))
            s5 = s2.clone()
            name, data = mk_src('name', mk('name.len', 0, 1 << 40)), mk_src('data', mk('data.len', 0, 1 << 62))
            np, dp = mk_string(s5, name.whole()), mk_string(s5, data.whole())
            tensor = Ptr(s5.alloc_flat(256, 'tensor'), 0)
            for fn, args in (('npy::%s::write_file(string const&, string&&)' % cls, [p, np, dp]),
                             ('void npy::%s::write<npy::tensor<int>>(string const&, npy::tensor<int> const&)' % cls, [p, np, tensor])):
                for s3 in c.call(s5.clone(), fn, args):
                    c.post(s3, c.exc_is(s3, 'std::runtime_error'), 'writing after closing throws std::runtime_error')
                    c.cases(s3, lambda s4: same(s4, 'a refused write'))
            for s3 in c.call(s2.clone(), 'npy::%s::~%s()' % (cls, cls), [p]):
                c.post(s3, s3.status == 'ret', 'the closed writer can be destroyed')
                c.post(s3, len(s3.ghost.get('closed', ())) == done, 'destroying a closed writer does not write again')


def destroy_task(c, cls):
    """destroying an unclosed writer finishes the archive as closing does"""
    st = c.start()
    p, rs = new_writer(c, st, STORED, cls)
    for s in rs:
        R0, n, f, base = general_writer(c, s, p, True)
        lay, es = entry_layout(c)
        s.status = None

        def after(s2):
            cl = s2.ghost.get('closed', ())
            if cls == 'npzfilewriter':
                c.post(s2, len(cl) == 1, 'the file is closed once')
                if len(cl) == 1:
                    check_archive(c, s2, cl[0][1], R0, n, base, lay)
            else:
                c.post(s2, True, 'the writer in memory can be destroyed')
        for s2 in c.ret(c.call(s, 'npy::%s::~%s()' % (cls, cls), [p])):
            c.cases(s2, after)


for _cls in WRITERS:
    task('C13', '%s is finished once' % _cls, ['npy::%s::close()' % _cls, 'npy::%s::write_file(string const&, string&&)' % _cls, 'npy::%s::~%s()' % (_cls, _cls)])(
        lambda c, k=_cls: finished_task(c, k))
    task('C13', '~%s finishes the archive' % _cls, ['npy::%s::~%s()' % (_cls, _cls)])(lambda c, k=_cls: destroy_task(c, k))


def starts_task(c, cls):
    """a new writer has written nothing, has no entries and takes writes"""
    st = c.start()
    crc_contract(c)
    for method in (STORED, DEFLATED):
        p, rs = new_writer(c, st.clone(), method, cls)
        for s in rs:
            _, o = find_obj(s, p, OStr)
            _, v = find_obj(s, p, VecVal)
            c.post_rope(s, o.rope, EMPTY, 'nothing is written yet')
            c.post(s, T.eq(s.regions[v.rid].length, 0), 'there are no entries yet')
            s.status = None
            name, data = mk_src('name', mk('name.len', 1, 100)), mk_src('data', mk('data.len', 36, 1000))
            if method == STORED:
                off, o = find_obj(s, p, OStr)
                set_member(s, p, off, o.with_(fail=False, open=True))
                for s2 in c.call(s, 'npy::%s::write_file(string const&, string&&)' % cls, [p, mk_string(s, name.whole()), mk_string(s, data.whole())]):
                    c.post(s2, s2.status == 'ret', 'a new writer takes a write')


def str_task(c):
    """str() is everything written so far, whatever the state of the writer, and asking changes nothing"""
    fn = 'npy::npzstringwriter::str() const'
    st = c.start()
    p, rs = new_writer(c, st, STORED)
    for s in rs:
        R0, n, f, base = general_writer(c, s, p, True)

        def ask(s1, what):
            _, o = find_obj(s1, p, OStr)
            s1.status = None
            out = Ptr(s1.alloc_flat(32, 'result'), 0)
            for s2 in c.call(s1, fn, [out, p]):
                c.post(s2, s2.status == 'ret', 'str() returns')
                c.post_rope(s2, get_obj(s2, out).rope, o.rope, 'str() of %s is what was written' % what)
                _, o2 = find_obj(s2, p, OStr)
                c.post_rope(s2, o2.rope, o.rope, 'str() of %s does not change it' % what)
        ask(s.clone(), 'an open writer')
        s.status = None
        for s2 in c.ret(c.call(s, 'npy::npzstringwriter::close()', [p])):
            ask(s2, 'a closed writer')


for _cls in WRITERS:
    task('C10', 'a new %s is empty' % _cls, [])(lambda c, k=_cls: starts_task(c, k))
task('C10', 'npzstringwriter::str() is what was written', ['npy::npzstringwriter::str() const'])(str_task)
