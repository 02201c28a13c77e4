"""C16: npy_deflate gives exactly what the compressor produces for exactly the bytes, npy_inflate exactly what the
decompressor produces, for every size.

Calls of the compression interface (mz_deflate.../mz_inflate...) are seen through contracts: how much input a call
takes and how much output it gives is left open, call by call.  spec/miniz.py proves that those functions keep these
contracts, given what is assumed of the two coroutines they call.  What is proved here is that the code of the library
presents the bytes in order, without gap or repetition, says 'finish' with the last of them and not before, takes every
byte that is produced, and tells a complete stream from an incomplete one."""
from spec.common import *
from vc.loops import Invariant, get_comp, is_intlike
STREAM_T = 'struct.mz_stream_s'
OK, END, NEED_DICT, STREAM_ERROR, DATA_ERROR, MEM_ERROR, BUF_ERROR = 0, 1, 2, -2, -3, -4, -5
FINISH = 4
ALLOCATION = (8, 9, 10)        # zalloc, zfree, opaque
M32 = (1 << 32)
CODES = [x % M32 for x in (OK, END, NEED_DICT, STREAM_ERROR, DATA_ERROR, MEM_ERROR, BUF_ERROR, FINISH)]


def layout(c):
    t = c.env.m.types.get(STREAM_T)
    if t is None or len(t[1]) < 7:
        raise NoCode('struct mz_stream has changed')
    offs = [c.env.m.field_offset(t, i)[0] for i in range(7)]
    return dict(next_in=offs[0], avail_in=offs[1], next_out=offs[3], avail_out=offs[4])


class Z:
    """the stream: which bytes it is given, which it gives"""

    def __init__(self, c, data, out):
        self.c, self.data, self.out = c, data, out
        self.lay = layout(c)
        self.stream = None

    def get(self, st, p, f):
        v = st.regions[p.rid].cells.get(p.off + self.lay[f])
        if v is None or v[1] is UNDEF or v[1] is STALE:
            raise Imprecise('%s is not set' % f)
        return v[1]

    def put(self, st, p, f, v):
        st.wr(p.rid).cells[p.off + self.lay[f]] = (8 if f.startswith('next') else 4, v)

    def init(self, ex, st, p):
        self.stream = p
        for i in ALLOCATION:
            o, _ = self.c.env.m.field_offset(self.c.env.m.types[STREAM_T], i)
            v = st.regions[p.rid].cells.get(p.off + o)
            if v is None or v[1] is UNDEF:
                ex.oblige(st, False, 'how to allocate is set', kind='post')
            elif v[1] != NULL and i != ALLOCATION[-1]:
                raise Imprecise('another allocator')
        st.ghost['zin'], st.ghost['zout'] = 0, 0

    def step(self, ex, st, a, ins):
        """common to both: (state, bytes taken, bytes given) with everything presented checked"""
        p = a[0]
        if self.stream is None or p.rid != self.stream.rid:
            ex.oblige(st, False, 'the stream was initialised')
        zin, zout = st.ghost['zin'], st.ghost['zout']
        if not isinstance(st.ghost.get('zstate'), str) or st.ghost['zstate'] != 'open':
            ex.oblige(st, False, 'the stream is initialised and not ended')
        ai, ao = self.get(st, p, 'avail_in'), self.get(st, p, 'avail_out')
        ex.oblige(st, le(add(zin, ai), self.data.length), 'no more input than there is is presented', kind='post')
        some = decide(gt(ai, 0), st.pc)
        if some:
            ni = self.get(st, p, 'next_in')
            got = ex.read_range(st, ni, ai)
            want = rope_slice(self.data.whole(), zin, ai, st.pc)
            r = prove_rope_eq(got, want, st.pc)
            o = Obl('the input presented is the next of the bytes, without gap or repetition', r.status,
                    ex.where(st), kind='post')
            o.pc, o.goal = list(st.pc), r.goal
            o.why = '%s; presented %.200r want %.200r' % (r.why, got, want)
            ex.obls.append(o)
        if not decide(gt(ao, 0), st.pc):
            raise Imprecise('no room for output')
        taken, given = fresh('taken', 0, M32 - 1), fresh('given', 0, M32 - 1)
        st.assume(le(taken, ai))
        st.assume(le(given, ao))
        st.assume(le(add(zout, given), self.out.length))
        no = self.get(st, p, 'next_out')
        r = ex.region(st, no, 'write')
        if r.kind != 'arr' or r.es != 1:
            raise Imprecise('output somewhere else')
        ex.oblige(st, band(ge(no.off, 0), le(add(no.off, ao), r.length)), 'the room for output exists')
        ex.write_range(st, no, rope_slice(self.out.whole(), zout, given, st.pc))
        self.put(st, p, 'avail_in', sub(ai, taken))
        self.put(st, p, 'avail_out', sub(ao, given))
        if some:
            ni = self.get(st, p, 'next_in')
            self.put(st, p, 'next_in', Ptr(ni.rid, add(ni.off, taken)))
        self.put(st, p, 'next_out', Ptr(no.rid, add(no.off, given)))
        st.ghost['zin'], st.ghost['zout'] = add(zin, taken), add(zout, given)
        return ai, ao, taken, given

    def outcome(self, st, out, ret, *conds):
        s = st.clone()
        for x in conds:
            s.assume(x)
        if feasible(s.pc):
            out.append((s, ret % M32))
            return s


class ZLoop(Invariant):
    """input and output have got as far as the ghost positions say; everything else is related to them"""

    def __init__(self, z, end=None):
        self.z, self.end = z, end

    def is_flag(self, key, region, value):
        return Invariant.is_flag(self, key, region, value) or key[1] == 'cell' and (
            key[3] in ('failx', 'eofx', 'fail') or
            key[3] is None and region.name.startswith('local') and key[4] == 4 and isinstance(value, int) and value in CODES)

    def ghost_flag(self, name):
        return name in ('zstate', 'zneeds', 'zfin')

    def since(self, st0, st):
        if 'zin' not in st0.ghost:
            return True
        return band(ge(st.ghost['zin'], st0.ghost['zin']), ge(st.ghost['zout'], st0.ghost['zout']))

    def forms(self, st0, key, kind):
        h = kind[0]
        if key[1] == 'ghost':
            n = {'zin': self.z.data.length, 'zout': self.z.out.length}.get(key[2])
            if n is None:
                raise Imprecise('ghost state')

            def pos(st):
                v = fresh('at', 0, 1 << 63)
                st.assume(le(v, n))
                return v
            return [pos]
        if key[1] == 'content' or 'zin' not in st0.ghost:
            return []
        i0, o0 = st0.ghost['zin'], st0.ghost['zout']
        dz = lambda st: sub(st.ghost['zin'], i0)
        de = lambda st: sub(st.ghost['zout'], o0)
        if isinstance(h, Rope):
            return [lambda st: h + Rope((Slice(self.z.out, o0, de(st)),)), lambda st: h]
        if isinstance(h, Ptr) and h.rid != NULL.rid:
            return [lambda st: h, lambda st: Ptr(h.rid, add(h.off, dz(st))), lambda st: Ptr(h.rid, add(h.off, de(st)))]
        if key[1] == 'cell' and is_intlike(h) and not isinstance(h, bool) and not (is_t(h) and z3.is_bool(h)):
            return [lambda st: h, lambda st: add(h, dz(st)), lambda st: sub(h, dz(st)), lambda st: add(h, de(st)), lambda st: sub(h, de(st))]
        return []

    def holds(self, st):
        if 'zin' not in st.ghost:
            return True
        zin, zout = st.ghost['zin'], st.ghost['zout']
        cs = [ge(zin, 0), le(zin, self.z.data.length), ge(zout, 0), le(zout, self.z.out.length)]
        i = None
        for r in st.regions.values():
            if r.kind == 'flat' and r.alive:
                for o, (sz, v) in r.cells.items():
                    if isinstance(v, IStr):
                        i = v
        if i is not None and self.z.stream is not None:
            p = self.z.stream
            ai = st.regions[p.rid].cells.get(p.off + self.z.lay['avail_in'])
            ai = 0 if ai is None or ai[1] is UNDEF or ai[1] is STALE else ai[1]
            L = i.rope.length()
            cs.append(ite_b(i.eofx, band(T.eq(add(zin, ai), L), gt(i.vpos, L)), band(T.eq(add(zin, ai), i.vpos), le(i.vpos, L))))
        if self.end is not None:
            if st.ghost.get('zneeds') is True:
                cs.append(lt(zin, self.end))
        return band(*cs)


def ite_b(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return band(implies(c, a), implies(bnot(c), b))


def start(c):
    st = c.start()
    data = mk_src('bytes', mk('bytes.len', 0, 1 << 62))
    b = mk_string(st, data.whole())
    out = Ptr(st.alloc_flat(32, 'result'), 0)
    return st, data, b, out


def end_contract(z, name):
    def h(ex, st, a, ins):
        if st.ghost.get('zstate') != 'open':
            ex.oblige(st, False, 'what is ended was initialised')
        st.ghost['zstate'] = 'ended'
        return 0
    z.c.ex.overrides[name] = h


@task('C16', 'npy_deflate of any bytes', ['npy::npy_deflate(string&&)'])
def deflate(c):
    st, data, b, out = start(c)
    D = Source('stream', mk('stream.len', 1, 1 << 62))
    z = Z(c, data, D)

    def init(ex, s, a, ins):
        z.init(ex, s, a[0])
        lv = signed(a[1], 32) if is_intlike(a[1]) else None
        c.form(s, isinstance(lv, int) and -1 <= lv <= 10, 'a known compression level')
        c.post(s, T.eq(a[2], 8), 'the method is DEFLATE')
        c.post(s, T.eq(a[3], M32 - 15), 'a raw stream, with the window of the format')
        c.form(s, isinstance(a[4], int) and 1 <= a[4] <= 9, 'memory level')
        c.post(s, band(le(0, a[5]), le(a[5], 4)), 'a known strategy')
        bad = s.clone()
        bad.ghost['zstate'] = 'failed'
        s.ghost['zstate'] = 'open'
        return Multi([(s, 0), (bad, MEM_ERROR % M32)])

    def deflate(ex, s, a, ins):
        fl = a[1]
        if not isinstance(fl, int):
            fl = FINISH if decide(T.eq(fl, FINISH), s.pc) else 0 if decide(T.eq(fl, 0), s.pc) else None
        if fl not in (0, FINISH):
            raise Imprecise('flush mode')
        if fl == FINISH:
            s.ghost['zfin'] = True
        ex.oblige(s, fl == FINISH or s.ghost.get('zfin') is not True, 'what is finished does not go on', kind='post')
        zin = s.ghost['zin']
        ai, ao, taken, given = z.step(ex, s, a, ins)
        if fl == FINISH:
            ex.oblige(s, T.eq(add(zin, ai), data.length), 'the stream is finished with the last of the bytes', kind='post')
        complete = band(T.eq(s.ghost['zin'], data.length), T.eq(s.ghost['zout'], D.length))
        o = []
        if fl == FINISH:
            z.outcome(s, o, END, complete)
            z.outcome(s, o, OK, T.eq(given, ao))
        else:
            # the end of the stream is only written when it is finished
            s.assume(lt(s.ghost['zout'], D.length))
            z.outcome(s, o, OK, bor(T.eq(given, ao), T.eq(taken, ai)))
            z.outcome(s, o, BUF_ERROR, T.eq(ai, 0), T.eq(given, 0))
        return Multi(o)
    c.ex.overrides['mz_deflateInit2'] = init
    c.ex.overrides['mz_deflate'] = deflate
    end_contract(z, 'mz_deflateEnd')
    c.env.find('npy::npy_deflate(string&&)')
    c.ex.finite_any = ZLoop(z)
    for s in c.call(st, 'npy::npy_deflate(string&&)', [out, b]):
        def chk(s):
            if s.status == 'exc':
                c.post(s, c.exc_is(s, 'std::exception') and s.ghost.get('zstate') == 'failed', 'refuses only where the compressor cannot be set up')
                return
            c.post_rope(s, I.sv(c.ex, s, out).rope, D.whole(), 'the result is exactly the stream of exactly the bytes')
        c.cases(s, chk)


def inflate(c, valid):
    st, data, b, out = start(c)
    D = Source('original', mk('original.len', 0, 1 << 62))
    E = mk('stream.end', 1, 1 << 62)        # where the stream ends
    if valid:
        st.assume(le(E, data.length))
    z = Z(c, data, D)

    def init(ex, s, a, ins):
        z.init(ex, s, a[0])
        c.post(s, T.eq(a[1], M32 - 15), 'a raw stream, with the window of the format')
        bad = s.clone()
        bad.ghost['zstate'] = 'failed'
        s.ghost['zstate'] = 'open'
        s.ghost['zneeds'] = True
        return Multi([(s, 0), (bad, MEM_ERROR % M32)])

    def inflate_(ex, s, a, ins):
        if not isinstance(a[1], int) or a[1] not in (0, 2):
            raise Imprecise('flush mode')
        ai, ao, taken, given = z.step(ex, s, a, ins)
        o = []
        done = T.eq(taken, ai)
        if valid:
            zin, zout = s.ghost['zin'], s.ghost['zout']
            x = z.outcome(s, o, END, T.eq(zout, D.length))
            if x is not None:
                x.ghost['zstate'] = 'complete'
            # what the input so far determines has been given: the stream goes on
            s.ghost['zneeds'] = True
            z.outcome(s, o, OK, done, T.eq(given, 0), lt(zin, E))
            z.outcome(s, o, BUF_ERROR, done, lt(zin, E))
            s.ghost['zneeds'] = False
            z.outcome(s, o, OK, gt(given, 0))
        else:
            z.outcome(s, o, OK, implies(T.eq(given, 0), done))
            z.outcome(s, o, BUF_ERROR, done)
            for e in (DATA_ERROR, MEM_ERROR, NEED_DICT):
                z.outcome(s, o, e)
        return Multi(o)

    def end(ex, s, a, ins):
        s.ghost['zstate'] = 'ended' if s.ghost['zstate'] != 'complete' else 'complete'
        return 0
    c.ex.overrides['mz_inflateInit2'] = init
    c.ex.overrides['mz_inflate'] = inflate_
    c.ex.overrides['mz_inflateEnd'] = end
    c.env.find('npy::npy_inflate(string&&)')
    c.ex.finite_any = ZLoop(z, E if valid else None)
    for s in c.call(st, 'npy::npy_inflate(string&&)', [out, b]):
        def chk(s):
            if s.status == 'exc':
                if valid:
                    c.post(s, s.ghost.get('zstate') == 'failed', 'a complete stream is refused only where the decompressor cannot be set up')
                c.post(s, c.exc_is(s, 'std::exception'), 'a standard exception')
                return
            if valid:
                c.post_rope(s, I.sv(c.ex, s, out).rope, D.whole(), 'the result is exactly the original bytes')
            else:
                c.post(s, False, 'a stream that is truncated or invalid is refused')
        c.cases(s, chk)


for _v in (True, False):
    task('C16', 'npy_inflate of %s' % ('a complete stream' if _v else 'a truncated or invalid stream'), ['npy::npy_inflate(string&&)'])(lambda c, v=_v: inflate(c, v))
