"""C16: the calls of the compression interface (mz_inflate, mz_deflate and what sets them up and takes them down) keep
the contracts that npy_inflate and npy_deflate rely on (spec/compression.py), given those of the two coroutines
underneath.

Assumed of tinfl_decompress: it takes the next bytes and gives the next bytes of the data, in the ring buffer; it stops
where there is no more input, no more room, or nothing more to give.  Assumed of tdefl_compress: likewise, and that with
'finish' it ends having taken and given everything.  What these calls say and where the bytes end up is proved."""
from spec.common import *
from spec.compression import *
from spec.compression import M32, OK, END, BUF_ERROR, DATA_ERROR, MEM_ERROR, STREAM_ERROR, FINISH
from vc.execu import toint
from vc.mem import FnPtr

DICT = 32768
PARSE_HEADER, MORE, FLAT, NO_HISTORY = 1, 2, 4, 16
DONE, MORE_INPUT, MORE_OUTPUT = 0, 1, 2
STREAM_FIELDS = ['next_in', 'avail_in', 'total_in', 'next_out', 'avail_out', 'total_out', 'msg', 'state', 'zalloc', 'zfree', 'opaque']
STREAM_SIZES = [8, 4, 8, 8, 4, 8, 8, 8, 8, 8, 8]


def stream_layout(c):
    t = c.env.m.types.get(STREAM_T)
    if t is None or len(t[1]) != 14:
        raise NoCode('struct mz_stream has changed')
    lay = {}
    for i, f in enumerate(STREAM_FIELDS):
        o, e = c.env.m.field_offset(t, i)
        if c.env.m.sizeof(e) != STREAM_SIZES[i]:
            raise NoCode('struct mz_stream has changed')
        lay[f] = o
    return lay, c.env.m.sizeof(t)


def state_layout(c):
    t = c.env.m.types.get('struct.inflate_state')
    if t is None or len(t[1]) != 8:
        raise NoCode('struct inflate_state has changed')
    lay = {}
    for i, (f, w) in enumerate((('decomp', None), ('ofs', 4), ('avail', 4), ('first', 4), ('flushed', 4), ('bits', 4), ('dict', DICT), ('last', 4))):
        o, e = c.env.m.field_offset(t, i)
        if w is not None and c.env.m.sizeof(e) != w:
            raise NoCode('struct inflate_state has changed')
        lay[f] = o
    d = c.env.m.types.get('struct.tinfl_decompressor_tag')
    return lay, c.env.m.sizeof(t)


COMPRESSOR_T, WRITE_HEADER = 'struct.tdefl_compressor', 0x1000


def compressor_layout(c):
    t = c.env.m.types.get(COMPRESSOR_T)
    if t is None or len(t[1]) != 43:
        raise NoCode('struct tdefl_compressor has changed')
    lay = {}
    for f, i in (('func', 0), ('flags', 2), ('to finish', 25), ('prev', 26)):
        lay[f], e = c.env.m.field_offset(t, i)
        if c.env.m.sizeof(e) != (8 if f == 'func' else 4):
            raise NoCode('struct tdefl_compressor has changed')
    return lay, c.env.m.sizeof(t)


def fill(c, st, p, t, at=0):
    """every plain field of a struct has some value"""
    cells = st.wr(p.rid).cells
    for i, _ in enumerate(t[1]):
        o, e = c.env.m.field_offset(t, i)
        if e[0] == 'int' and e[1] <= 64:
            cells[at + o] = (e[1] // 8, fresh('field', 0, (1 << e[1]) - 1))


def parts(c, st, rid, t):
    """the large arrays of a struct"""
    for i, _ in enumerate(t[1]):
        o, e = c.env.m.field_offset(t, i)
        n = c.env.m.sizeof(e)
        if e[0] == 'arr' and n >= 256:
            c.ex.parts[(rid, o)] = st.alloc_arr(1, n, Content(None), 'part')


class MLoop(ZLoop):
    """the loop that calls the coroutine until something stops it"""

    def __init__(self, c, z, out, most, state=None, lay=None):
        ZLoop.__init__(self, z, None)
        self.c, self.outp, self.most, self.state, self.slay = c, out, most, state, lay

    def holds(self, st):
        x = ZLoop.holds(self, st)
        if 'zin' not in st.ghost:
            return x
        return band(x, le(st.ghost['zin'], self.most[0]), le(st.ghost['zout'], self.most[1]))

    def given(self, st0, st):
        return sub(st.ghost['zout'], st0.ghost['zout'])

    def is_flag(self, key, region, value):
        return key[1] == 'cell' and region.name.startswith('local') and key[4] == 4 and isinstance(value, int)

    def forms(self, st0, key, kind):
        if self.state is not None and key[0] == self.state.rid and key[1] == 'cell':
            at = key[2] if isinstance(key[2], int) else None
            if at == self.slay['avail']:
                return [lambda st: 0]
            if at == self.slay['ofs']:
                return [lambda st: modc(st.ghost['zout'], DICT)]
        if key[1] == 'ghost' and key[2] == 'zat':
            f = lambda st: ()
            f.any = True
            return [f]
        if key[1] == 'content' and key[0] == self.outp.rid:
            # what was given since the loop was entered is there (shown for an iteration by back)
            self.st0 = st0

            def content(st):
                g = self.given(st0, st)
                return Content(Source('old', None, hi=255).at, (('rope', self.outp.off, rope_slice(self.z.out.whole(), st0.ghost['zout'], g, st.pc)),))
            content.any = True
            return [content]
        return ZLoop.forms(self, st0, key, kind)

    def back(self, head, st):
        if self.st0 is not None:
            g = self.given(self.st0, st)
            self.c.post_rope(st, self.c.ex.read_range(st, self.outp, g), rope_slice(self.z.out.whole(), self.st0.ghost['zout'], g, st.pc),
                             'what was given in an iteration are the next bytes')

    st0 = None


def stream(c, valid=True):
    """a stream with zin bytes taken and zout given, more input and room for output"""
    st = c.start()
    data = mk_src('bytes', mk('bytes.len', 0, 1 << 62))
    D = Source('result', mk('result.len', 0, 1 << 62))
    z = Z(c, data, D)
    lay, size = stream_layout(c)
    p = Ptr(st.alloc_flat(size, 'z_stream'), 0)
    zin, zout = mk('zin', 0, 1 << 62), mk('zout', 0, 1 << 62)
    ai, ao = mk('avail_in', 0, M32 - 1), mk('avail_out', 1, M32 - 1)
    st.assume(le(add(zin, ai), data.length))
    st.assume(le(zout, D.length))
    gap, room = mk('gap', 0, 1 << 20), mk('room', 0, 1 << 33)
    st.assume(le(add(gap, ao), room))
    inp = Ptr(st.alloc_arr(1, ai, Content(None, (('rope', 0, rope_slice(data.whole(), zin, ai, st.pc)),)), 'input'), 0)
    out = Ptr(st.alloc_arr(1, room, Content(Source('old', None, hi=255).at), 'output'), gap)
    cells = st.wr(p.rid).cells
    for f, w, v in (('next_in', 8, inp), ('avail_in', 4, ai), ('total_in', 8, zin), ('next_out', 8, out), ('avail_out', 4, ao),
                    ('total_out', 8, zout), ('msg', 8, NULL)):
        cells[lay[f]] = (w, v)
    for f, w, i in (('data_type', 4, 11), ('adler', 8, 12), ('reserved', 8, 13)):
        o, _ = c.env.m.field_offset(c.env.m.types[STREAM_T], i)
        cells[o] = (w, mk(f, 0, (1 << (8 * w)) - 1))
    z.stream = p
    st.ghost['zin'], st.ghost['zout'], st.ghost['zstate'] = zin, zout, 'open'
    return st, z, p, lay, inp, out, zin, zout, ai, ao


def moved(c, s, z, p, lay, inp, out, zin, zout, ai, ao):
    """what was taken and given since -> (taken, given); the stream says so, and the bytes are where they should be"""
    cell = lambda f: s.regions[p.rid].cells[p.off + lay[f]][1]
    ai2, ao2 = cell('avail_in'), cell('avail_out')
    taken, given = sub(ai, ai2), sub(ao, ao2)
    c.post(s, band(le(ai2, ai), le(ao2, ao)), 'no more is taken or given than there is')
    c.post(s, band(T.eq(taken, sub(s.ghost['zin'], zin)), T.eq(given, sub(s.ghost['zout'], zout))), 'what was taken and given is accounted for')
    ni, no = cell('next_in'), cell('next_out')
    c.form(s, isinstance(ni, Ptr) and ni.rid == inp.rid and isinstance(no, Ptr) and no.rid == out.rid, 'the same buffers')
    if isinstance(ni, Ptr) and isinstance(no, Ptr):
        c.post(s, band(T.eq(ni.off, add(inp.off, taken)), T.eq(no.off, add(out.off, given))), 'the positions have moved by as much')
    if decide(gt(given, 0), s.pc):
        c.post_rope(s, c.ex.read_range(s, out, given), rope_slice(z.out.whole(), zout, given, s.pc), 'what was given are the next bytes')
    return taken, given


def sizes(ex, st, a, b):
    """the size of the input and of the room for output a call is given"""
    return ex.load(st, a, ('int', 64)), ex.load(st, b, ('int', 64))


def presented(ex, st, z, ptr, n):
    zin = st.ghost['zin']
    ex.oblige(st, le(add(zin, n), z.data.length), 'no more input than there is is presented', kind='post')
    if not decide(gt(n, 0), st.pc):
        return
    got = ex.read_range(st, ptr, n)
    r = prove_rope_eq(got, rope_slice(z.data.whole(), zin, n, st.pc), st.pc)
    o = Obl('the input presented is the next of the bytes, without gap or repetition', r.status, ex.where(st), kind='post')
    o.pc, o.goal, o.why = list(st.pc), r.goal, r.why
    ex.obls.append(o)


def pace(st, z, n, room, ahead):
    """a call takes and gives some bytes -> (taken, given)"""
    taken, given = fresh('taken', 0, M32 - 1), fresh('given', 0, M32 - 1)
    st.assume(le(taken, n))
    st.assume(le(given, room))
    st.assume(le(add(ahead, given), z.out.length))
    return taken, given


def inflate_call(c, valid, flush):
    st, z, p, lay, inp, out, zin, zout, ai, ao = stream(c)
    E = mk('stream.end', 1, 1 << 62)
    slay, size = state_layout(c)
    state = Ptr(st.alloc_flat(size, 'inflate_state'), 0)
    avail, last = mk('pending', 0, DICT), mk('last', 0, M32 - 1)
    ofs = modc(zout, DICT)
    st.assume(le(add(ofs, avail), DICT))
    st.assume(le(add(zout, avail), z.out.length))
    old = Source('ring', None, hi=255)
    rid = st.alloc_arr(1, DICT, Content(old.at, (('rope', ofs, rope_slice(z.out.whole(), zout, avail, st.pc)),)), 'dictionary')
    c.ex.parts[(state.rid, slay['dict'])] = rid
    cells = st.wr(state.rid).cells
    first = mk('first', 0, 1)
    for f, v in (('ofs', ofs), ('avail', avail), ('first', first), ('flushed', 0), ('bits', M32 - 15), ('last', last)):
        cells[slay[f]] = (4, v)
    o, e = c.env.m.field_offset(c.env.m.types['struct.tinfl_decompressor_tag'], 7)
    cells[slay['decomp'] + o] = (4, mk('adler32', 0, M32 - 1))
    st.wr(p.rid).cells[lay['state']] = (8, state)
    # how the calls before ended
    st.assume(bor(*[T.eq(last, x) for x in (DONE, MORE_INPUT, MORE_OUTPUT) + (() if valid else (M32 - 1,))]))
    st.assume(implies(T.eq(last, DONE), band(gt(avail, 0), T.eq(add(zout, avail), z.out.length)) if valid else False))
    st.ghost['zout'] = add(zout, avail)         # here: decoded, given out or pending

    def decompress(ex, s, a, ins):
        _, pin, pn, start, pout, pm, flags = a
        n, room = sizes(ex, s, pn, pm)
        c.form(s, isinstance(flags, int), 'the flags are known')
        if not isinstance(flags, int):
            raise Imprecise('flags')
        presented(ex, s, z, pin, n)
        zdec = s.ghost['zout']
        c.post(s, flags & PARSE_HEADER == 0, 'a raw stream')
        c.post(s, flags & MORE != 0, 'there may be more input')
        c.post(s, flags & FLAT == 0, 'the output is a ring buffer')
        c.form(s, start == Ptr(rid, 0) and isinstance(pout, Ptr) and pout.rid == rid, 'it is the dictionary')
        if not (isinstance(pout, Ptr) and pout.rid == rid):
            raise Imprecise('the ring buffer')
        c.kept(s, T.eq(pout.off, modc(zdec, DICT)), 'what comes goes behind what there is')
        c.post(s, band(gt(room, 0), le(add(pout.off, room), DICT)), 'there is that much room')
        c.kept(s, T.eq(add(pout.off, room), DICT), 'all of it is offered')
        hist = flags & NO_HISTORY == 0
        c.kept(s, implies(lt(zdec, DICT), not hist), 'a match before the start of the data is not looked up')
        c.post(s, implies(ge(zdec, DICT), hist), 'all of the dictionary can be referred to')
        taken, given = pace(s, z, n, room, zdec)
        ex.write_range(s, pout, rope_slice(z.out.whole(), zdec, given, s.pc))
        s.ghost['zat'] = (pout.off, zdec)
        ex.store(s, pn, taken, ('int', 64))
        ex.store(s, pm, given, ('int', 64))
        s.ghost['zin'] = add(s.ghost['zin'], taken)
        s.ghost['zout'] = add(zdec, given)
        # what has been decoded is given out, or stays in the dictionary
        o = []
        z.outcome(s, o, MORE_INPUT, T.eq(taken, n), lt(s.ghost['zin'], E) if valid else True)
        z.outcome(s, o, MORE_OUTPUT, T.eq(given, room))
        if valid:
            z.outcome(s, o, DONE, T.eq(s.ghost['zout'], z.out.length))
        else:
            z.outcome(s, o, -1)
        return Multi(o)
    c.ex.overrides['tinfl_decompress'] = decompress
    c.assumed.add('tinfl_decompress: takes the next bytes of the stream and gives the next bytes of the data that the stream stands for; stops for want of input, for want of room, at the end, or because the stream is invalid')
    fn = c.env.find('mz_inflate')
    c.ex.finite[fn.dname] = MLoop(c, z, out, (add(zin, ai), add(zout, ao)), state, slay)
    for s in c.ret(c.call(st, fn, [p, flush])):
        def chk(s):
            s.ghost['zout'] = sub(s.ghost['zout'], s.regions[state.rid].cells[slay['avail']][1])
            taken, given = moved(c, s, z, p, lay, inp, out, zin, zout, ai, ao)
            r = s.retval
            for x in (END, OK, BUF_ERROR % M32, DATA_ERROR % M32):
                if not isinstance(r, int) and decide(T.eq(r, x), s.pc):
                    r = x
            c.post(s, isinstance(r, int), 'a known result')
            if not isinstance(r, int):
                return
            done = T.eq(taken, ai)
            needs = lt(s.ghost['zin'], E)
            zo = s.ghost['zout']
            if r == END:
                c.post(s, T.eq(zo, z.out.length) if valid else False, 'the end is only announced when everything has been given')
            elif r == OK:
                c.post(s, implies(T.eq(given, 0), band(done, needs) if valid else done), 'without an error, something is given unless more input is needed')
            elif r == BUF_ERROR % M32:
                c.post(s, band(done, needs) if valid else done, 'no progress only when more input is needed')
            else:
                c.post(s, not valid and r in (DATA_ERROR % M32,), 'the data is only found at fault when it is')
                return
            # what the next call relies on
            cs = s.regions[state.rid].cells
            g = lambda f: cs[slay[f]][1]
            c.kept(s, T.eq(g('ofs'), modc(zo, DICT)), 'the dictionary: position')
            c.kept(s, le(add(g('ofs'), g('avail')), DICT), 'the dictionary: what is pending')
            c.kept(s, T.eq(g('flushed'), 0), 'not finished')
            if isinstance(g('last'), int):
                c.kept(s, g('last') in (DONE, MORE_INPUT, MORE_OUTPUT), 'no error is recorded')
                if g('last') == DONE:
                    c.kept(s, band(T.eq(add(zo, g('avail')), z.out.length), bor(r == END, gt(g('avail'), 0))), 'the end is recorded')
            if decide(gt(g('avail'), 0), s.pc):
                pos, dec = s.ghost.get('zat', (ofs, zout))
                at = add(pos, sub(zo, dec))
                c.kept(s, T.eq(g('ofs'), at), 'the dictionary: position of what is pending')
                c.post_rope(s, c.ex.read_range(s, Ptr(rid, at), g('avail')), rope_slice(z.out.whole(), zo, g('avail'), s.pc), 'the dictionary: bytes')
        c.cases(s, chk)


for _v in (True, False):
    for _f in (0, 2):
        task('C16', 'mz_inflate of %s, %s' % ('a complete stream' if _v else 'a truncated or invalid stream', {0: 'no flush', 2: 'sync'}[_f]), ['mz_inflate'])(
            lambda c, v=_v, f=_f: inflate_call(c, v, f))


TDEFL_OKAY, TDEFL_DONE, TDEFL_BAD_PARAM = 0, 1, -2


def deflate_call(c, flush, finishing):
    """finishing: 'finish' was said before"""
    st, z, p, lay, inp, out, zin, zout, ai, ao = stream(c)
    dlay, size = compressor_layout(c)
    state = Ptr(st.alloc_flat(size, 'tdefl_compressor'), 0)
    fill(c, st, state, c.env.m.types[COMPRESSOR_T])
    cells = st.wr(state.rid).cells
    prev = mk('prev', 0, M32 - 1)
    cells[dlay['prev']] = (4, prev)
    st.wr(p.rid).cells[lay['state']] = (8, state)
    complete = lambda s: band(T.eq(s.ghost['zin'], z.data.length), T.eq(s.ghost['zout'], z.out.length))
    st.assume(bor(T.eq(prev, TDEFL_OKAY), band(T.eq(prev, TDEFL_DONE), complete(st)) if finishing else False))
    if not finishing:
        st.assume(lt(zout, z.out.length))
    if flush == FINISH:
        st.assume(T.eq(add(zin, ai), z.data.length))

    def compress(ex, s, a, ins):
        d, pin, pn, pout, pm, fl = a
        n, room = sizes(ex, s, pn, pm)
        if d != state or not isinstance(fl, int):
            raise Imprecise('another call')
        presented(ex, s, z, pin, n)
        at = s.ghost['zout']
        if not (isinstance(pout, Ptr) and pout.rid == out.rid):
            raise Imprecise('output somewhere else')
        r = s.regions[pout.rid]
        ex.oblige(s, band(ge(pout.off, 0), le(add(pout.off, room), r.length)), 'the room for output exists')
        old = ex.load(s, Ptr(state.rid, dlay['prev']), ('int', 32))
        out_ = []
        if not decide(T.eq(old, TDEFL_OKAY), s.pc) or finishing and fl != FINISH:
            ex.store(s, pn, 0, ('int', 64))
            ex.store(s, pm, 0, ('int', 64))
            ex.store(s, Ptr(state.rid, dlay['prev']), TDEFL_BAD_PARAM % M32, ('int', 32))
            return TDEFL_BAD_PARAM % M32
        ex.oblige(s, fl in (0, FINISH), 'it is finished or not', kind='post')
        ex.oblige(s, implies(fl == FINISH, T.eq(add(s.ghost['zin'], n), z.data.length)), 'the stream is finished with the last of the bytes', kind='post')
        taken, given = pace(s, z, n, room, at)
        ex.write_range(s, pout, rope_slice(z.out.whole(), at, given, s.pc))
        ex.store(s, pn, taken, ('int', 64))
        ex.store(s, pm, given, ('int', 64))
        s.ghost['zin'], s.ghost['zout'] = add(s.ghost['zin'], taken), add(at, given)
        if fl == FINISH:
            z.outcome(s, out_, TDEFL_DONE, complete(s))
        else:
            s.assume(lt(s.ghost['zout'], z.out.length))
        z.outcome(s, out_, TDEFL_OKAY)
        for s2, v in out_:
            ex.store(s2, Ptr(state.rid, dlay['prev']), v, ('int', 32))
        return Multi(out_)
    c.ex.overrides['tdefl_compress'] = compress
    c.assumed.add('tdefl_compress: takes the next bytes and gives the next bytes of one complete raw DEFLATE stream of all of them, which ends when it is told to finish and not before')
    fn = c.env.find('mz_deflate')
    c.ex.finite[fn.dname] = MLoop(c, z, out, (add(zin, ai), add(zout, ao)))
    for s in c.ret(c.call(st, fn, [p, flush])):
        def chk(s):
            taken, given = moved(c, s, z, p, lay, inp, out, zin, zout, ai, ao)
            r = s.retval
            for x in (END, OK, BUF_ERROR % M32, STREAM_ERROR % M32):
                if not isinstance(r, int) and decide(T.eq(r, x), s.pc):
                    r = x
            c.post(s, isinstance(r, int), 'a known result')
            if not isinstance(r, int):
                return
            if finishing and flush != FINISH:
                c.post(s, r in (STREAM_ERROR % M32, BUF_ERROR % M32), 'what is finished does not go on')
                return
            if r == END:
                c.post(s, complete(s) if flush == FINISH else False, 'the end is only announced when everything has been given')
            elif r == OK:
                c.post(s, T.eq(given, ao) if flush == FINISH else bor(T.eq(given, ao), T.eq(taken, ai)),
                       'without an error, there is no more room, or no more input and no need to finish')
            elif r == BUF_ERROR % M32:
                c.post(s, band(T.eq(ai, 0), T.eq(given, 0)) if flush != FINISH else False, 'no progress only without input')
            else:
                c.post(s, False, 'no error where the input is as it should be')
                return
            now = s.regions[state.rid].cells[dlay['prev']][1]
            if flush == FINISH:
                c.kept(s, bor(T.eq(now, TDEFL_OKAY), band(T.eq(now, TDEFL_DONE), complete(s))), 'the end is recorded')
            else:
                c.kept(s, T.eq(now, TDEFL_OKAY), 'the end is not recorded')
        c.cases(s, chk)


for _f, _w in ((0, False), (FINISH, False), (FINISH, True), (0, True)):
    task('C16', 'mz_deflate, %s, %s' % ({0: 'no flush', FINISH: 'finish'}[_f], 'having finished' if _w else 'not having finished'), ['mz_deflate'])(
        lambda c, f=_f, w=_w: deflate_call(c, f, w))


def blank(c):
    """a stream as it is before it is set up"""
    st = c.start()
    lay, size = stream_layout(c)
    p = Ptr(st.alloc_flat(size, 'z_stream'), 0)
    cells = st.wr(p.rid).cells
    for f in ('zalloc', 'zfree', 'opaque'):
        cells[lay[f]] = (8, NULL)
    return st, p, lay


def allocation(c, struct):
    def malloc(ex, s, a, ins):
        t = c.env.m.types[struct]
        if not isinstance(a[0], int):
            raise Imprecise('an allocation of another size')
        ex.oblige(s, a[0] >= c.env.m.sizeof(t), 'the state has room', kind='post')
        bad = s.clone()
        bad.ghost['zstate'] = 'failed'
        r = Ptr(s.alloc_flat(a[0], 'state'), 0)
        parts(c, s, r.rid, t)
        s.ghost['zalloc'] = r
        return Multi([(s, r), (bad, NULL)])
    c.ex.overrides['malloc'] = malloc


def set_up(c, s, p, lay):
    """-> the state, if it was set up"""
    cells = s.regions[p.rid].cells
    g = lambda f: cells[lay[f]][1]
    if s.ghost.get('zstate') == 'failed':
        c.post(s, T.eq(s.retval, MEM_ERROR % M32), 'without memory, it says so')
        return None
    c.post(s, T.eq(s.retval, OK), 'it is set up')
    c.post(s, band(T.eq(g('total_in'), 0), T.eq(g('total_out'), 0)), 'nothing is taken or given yet')
    c.form(s, g('state') == s.ghost['zalloc'], 'the state is what was allocated')
    if g('state') != s.ghost['zalloc']:
        return None
    return lambda o, w=4: toint(c.ex.load(s, Ptr(g('state').rid, o), ('int', 8 * w)))


@task('C16', 'mz_inflateInit2, raw stream', ['mz_inflateInit2'])
def inflate_init(c):
    st, p, lay = blank(c)
    allocation(c, 'struct.inflate_state')
    slay, _ = state_layout(c)
    for s in c.ret(c.call(st, 'mz_inflateInit2', [p, M32 - 15])):
        def chk(s):
            get = set_up(c, s, p, lay)
            if get is None:
                return
            for f, v in (('ofs', 0), ('avail', 0), ('last', MORE_INPUT), ('first', 1), ('flushed', 0), ('bits', M32 - 15), ('decomp', 0)):
                c.kept(s, T.eq(get(slay[f]), v), 'the state at the start: %s' % f)
        c.cases(s, chk)


def deflate_init(c, level):
    st, p, lay = blank(c)
    allocation(c, COMPRESSOR_T)
    dlay, _ = compressor_layout(c)
    for s in c.ret(c.call(st, 'mz_deflateInit2', [p, level % M32, 8, M32 - 15, mk('mem_level', 1, 9), mk('strategy', 0, 4)])):
        def chk(s):
            get = set_up(c, s, p, lay)
            if get is None:
                return
            for f in ('prev', 'to finish'):
                c.kept(s, T.eq(get(dlay[f]), 0), 'the state at the start: %s' % f)
            fl = get(dlay['flags'])
            c.post(s, T.eq(modc(divc(fl, WRITE_HEADER), 2), 0), 'a raw stream')
        c.cases(s, chk)


for _l in range(-1, 11):
    task('C16', 'mz_deflateInit2, raw stream, level %d' % _l, ['mz_deflateInit2'])(lambda c, l=_l: deflate_init(c, l))


def ends(c, name, open_):
    """what was allocated is given back, once"""
    st, p, lay = blank(c)
    state = Ptr(st.alloc_flat(64, 'state'), 0)
    cells = st.wr(p.rid).cells
    cells[lay['state']] = (8, state if open_ else NULL)
    cells[lay['zfree']] = (8, FnPtr(c.env.find('def_free_func').name))
    freed = []

    def free(ex, s, a, ins):
        s.ghost['freed'] = s.ghost.get('freed', 0) + 1
        ex.oblige(s, a[0] == state, 'what is given back was allocated', kind='post')
        return None
    c.ex.overrides['free'] = free
    for s in c.ret(c.call(st, name, [p])):
        c.post(s, T.eq(s.retval, OK), 'it succeeds')
        c.post(s, s.ghost.get('freed', 0) == (1 if open_ else 0), 'it is given back once')
        c.post(s, s.regions[p.rid].cells[lay['state']][1] == NULL, 'and not again')


for _n in ('mz_inflateEnd', 'mz_deflateEnd'):
    for _o in (True, False):
        task('C16', '%s, %s' % (_n, 'set up' if _o else 'ended'), [_n])(lambda c, n=_n, o=_o: ends(c, n, o))
