"""Symbolic executor / verification condition generator for LLVM IR."""
import re
import sys
import time
import z3
from .terms import *
from . import terms as T
from .rope import *
from .mem import *
from . import ir
from . import bits as B

sys.setrecursionlimit(20000)

EXC_BASES = {
    'std::invalid_argument': ['std::logic_error', 'std::exception'],
    'std::out_of_range': ['std::logic_error', 'std::exception'],
    'std::length_error': ['std::logic_error', 'std::exception'],
    'std::domain_error': ['std::logic_error', 'std::exception'],
    'std::logic_error': ['std::exception'],
    'std::runtime_error': ['std::exception'],
    'std::range_error': ['std::runtime_error', 'std::exception'],
    'std::overflow_error': ['std::runtime_error', 'std::exception'],
    'std::bad_alloc': ['std::exception'],
    'std::ios_base::failure[abi:cxx11]': ['std::system_error', 'std::runtime_error', 'std::exception'],
}


class CxxThrow(Exception):
    """an intrinsic throws"""

    def __init__(self, tname):
        self.tname = tname


class PathEnd(Exception):
    """the path ends here (infeasible)"""


class Obl:
    __slots__ = ('name', 'status', 'where', 'why', 'pc', 'goal', 'kind')

    def __init__(self, name, status, where, why='', pc=None, goal=None, kind='safety'):
        self.name, self.status, self.where, self.why, self.pc, self.goal, self.kind = \
            name, status, where, why, pc, goal, kind

    def __repr__(self):
        return 'Obl(%s %s @%s %s)' % (self.name, self.status, self.where, self.why)


class LoopCtx:
    def __init__(self, depth, header, body):
        self.depth, self.header, self.body = depth, header, body


class Executor:
    def __init__(self, module, intrinsics, contracts=None):
        self.m = module
        self.intr = intrinsics
        self.contracts = contracts or {}
        self.obls = []
        self.steps = 0
        self.max_steps = 3000000
        self.ghosts = []            # candidate closed forms for integer cells: fn(k) -> term
        self.functions_run = set()
        self.global_writes = []
        self.stores = 0
        GLOBAL_WRITES[0] = self.global_writes
        self.loops_summarised = set()
        self.loops_unrolled = set()
        self.fork_budget = 5
        self.max_frontier = 40
        self.unroll_limit = 6000
        self.bv = False
        self.symbolic_bits = False  # bit operations on symbolic values become bounded symbols (vc/bits.py)
        self._handler_cache = {}
        self.check_safety = True
        self.float_ok = False
        self.loop_bound = None      # bounded mode: unroll undetermined loops up to this many iterations
        self.trace = False
        self.overrides = {}
        self.loop_depth = 0
        self.in_finite = 0
        self.finite = {}            # function -> Invariant: its loops are checked one arbitrary iteration at a time
        self.finite_any = None      # Invariant for the loops of all other functions of the library
        self.bases = []
        self.summary_only = set()
        self.debug_loops = False
        self.bounded = []
        self.parts = {}             # (region, offset) -> region of the array embedded there

    # --------------------------------------------------------- obligations
    def where(self, st):
        if st.frames:
            fr = st.frames[-1]
            d = fr.fn.dname
            return '%s [%s:%d]' % (short(d), fr.block, fr.idx)
        return 'toplevel'

    def oblige(self, st, cond, name, kind='safety'):
        """record the obligation cond at st; afterwards assume it"""
        if cond is True:
            self.obls.append(Obl(name, True, None, kind=kind))
            return
        p = prove(st.pc, cond)
        o = Obl(name, p, self.where(st), pc=list(st.pc), goal=cond, kind=kind)
        self.obls.append(o)
        if p is not True:
            if cond is False:
                raise PathEnd()
            st.assume(cond)
            if not feasible(st.pc):
                raise PathEnd()

    # --------------------------------------------------------- globals
    def global_region(self, st, name):
        rid = '@' + name
        if rid in st.regions:
            return rid
        g = self.m.global_def(name)
        if g is None:
            st.regions[rid] = Region('flat', name, size=1 << 40, cells={}, glob=True, external=True, fill='extern')
            return rid
        if g['alias']:
            raise Imprecise('alias %s' % name)
        t = self.m.resolve(g['type'])
        size = self.m.sizeof(t)
        if g['external']:
            st.regions[rid] = Region('flat', name, size=max(size, 1), cells={}, glob=True, external=True, fill='extern')
            return rid
        # big integer arrays become array regions
        if t[0] == 'arr' and t[2][0] == 'int' and t[1] > 64:
            w = t[2][1]
            es = w // 8
            init = g['init']
            if g['const'] or init[0] == 'agg' or init[0] == 'bytes':
                if init[0] == 'zero':
                    vals = [0] * t[1]
                elif init[0] == 'bytes':
                    vals = list(init[1])
                else:
                    vals = [v[1] % (1 << w) if v[0] == 'const' else 0 for _, v in init[1]]
                base = table_fn(name, vals, w)
            else:
                src = Source('glob_' + name, t[1], hi=(1 << w) - 1)
                base = src.at
            st.regions[rid] = Region('arr', name, es=es, length=t[1], content=Content(base), ety=t[2], glob=True,
                                     tls=g['tls'], const=g['const'])
            return rid
        r = Region('flat', name, size=size, cells={}, glob=True, tls=g['tls'], const=g['const'])
        st.regions[rid] = r
        if g['init'] is not None:
            self.init_cells(st, r, 0, g['type'], g['init'])
        if g['tls'] and not g['const']:
            # whatever earlier calls of this thread have left there
            for o, (n, v) in list(r.cells.items()):
                if not isinstance(v, (int, bool)) or n > 8:
                    raise Imprecise('thread-local %s' % name)
                r.cells[o] = (n, fresh('hvtls', 0, (1 << 8 * n) - 1))
            if r.fill is not None:
                raise Imprecise('thread-local %s' % name)
        return rid

    def init_cells(self, st, r, off, t, v):
        t = self.m.resolve(t)
        if v[0] == 'undef':
            return
        if t[0] == 'int':
            if v[0] == 'zero':
                x = 0
            else:
                x = self.constant(st, t, v)
            r.cells[off] = (self.m.sizeof(t), x if not isinstance(x, bool) else int(x))
        elif t[0] == 'ptr':
            r.cells[off] = (8, NULL if v[0] in ('zero', 'null') else self.constant(st, t, v))
        elif t[0] == 'fp':
            r.cells[off] = (t[1] // 8, self.constant(st, t, v) if v[0] != 'zero' else FP(0, t[1]))
        elif t[0] in ('arr', 'vec'):
            es = self.m.sizeof(t[2])
            if v[0] == 'bytes':
                for i, b in enumerate(v[1]):
                    r.cells[off + i] = (1, b)
            elif v[0] == 'zero':
                if t[1] * es > 4096:
                    r.fill = 'zero'
                    return
                for i in range(t[1]):
                    self.init_cells(st, r, off + i * es, t[2], v)
            else:
                for i, (tt, vv) in enumerate(v[1]):
                    self.init_cells(st, r, off + i * es, tt, vv)
        elif t[0] == 'struct':
            for i, et in enumerate(t[1]):
                o, e = self.m.field_offset(t, i)
                if v[0] == 'zero':
                    self.init_cells(st, r, off + o, e, v)
                else:
                    self.init_cells(st, r, off + o, v[1][i][0], v[1][i][1])
        elif t[0] == 'opaque':
            pass
        else:
            raise Imprecise('init of %r' % (t,))

    # --------------------------------------------------------- operands
    def constant(self, st, ty, v):
        k = v[0]
        if k == 'const':
            if ty[0] == 'int':
                if ty[1] == 1:
                    return bool(v[1])
                return v[1] % (1 << ty[1])
            if ty[0] == 'fp':
                return fp_const(float(v[1]), ty[1])
            return v[1]
        if k == 'fpc':
            return fp_const(v[1], ty[1])
        if k == 'fphex':
            return fp_hex(v[1], ty[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            t = self.m.resolve(ty)
            if t[0] == 'int':
                return 0
            if t[0] == 'ptr':
                return NULL
            if t[0] == 'fp':
                return FP(0, t[1])
            if t[0] in ('struct',):
                return Agg([self.constant(st, e, v) for e in t[1]])
            if t[0] in ('arr', 'vec'):
                return Agg([self.constant(st, t[2], v) for _ in range(t[1])])
            raise Imprecise('zero of %r' % (t,))
        if k == 'glob':
            n = v[1]
            if n in self.m.functions or n not in self.m.globals:
                return FnPtr(n)
            return Ptr(self.global_region(st, n), 0)
        if k == 'gep':
            base = self.constant(st, ir.PTR, v[2])
            idx = [(t, self.constant(st, t, x)) for t, x in v[3]]
            return self.gep(st, v[1], base, idx)
        if k == 'agg':
            return Agg([self.constant(st, t, x) for t, x in v[1]])
        if k == 'bytes':
            return Agg(list(v[1]))
        if k == 'cast':
            x = self.constant(st, v[2], v[3])
            if v[1] == 'bitcast':
                return x
            if v[1] == 'inttoptr' and x == 0:
                return NULL
            return x if v[1] in ('ptrtoint', 'inttoptr') else UNDEF
        if k == 'bin':
            a = self.constant(st, v[2], v[3])
            b = self.constant(st, v[2], v[4])
            raise Imprecise('constant expression')
        raise Imprecise('constant %r' % (v,))

    def val(self, st, ty, v):
        if v[0] == 'loc':
            try:
                return st.frames[-1].locals[v[1]]
            except KeyError:
                raise Imprecise('undefined local %s' % v[1])
        return self.constant(st, ty, v)

    def use(self, st, v, what='value'):
        """a value on which behaviour depends must be initialised"""
        v = whole(v)
        if v is UNDEF:
            self.oblige(st, False, 'uninitialised %s is not used' % what)
        if v is STALE:
            raise Imprecise('value changed by a summarised loop')
        return v

    def gep(self, st, ty, base, idx):
        if base is UNDEF or base is STALE:
            self.use(st, base, 'pointer')
        if isinstance(base, VTab):
            return VTab(base.place)
        off = 0
        t = ty
        for n, (it, iv) in enumerate(idx):
            self.use(st, iv, 'index')
            w = it[1]
            if n == 0:
                s = self.m.sizeof(t)
                off = add(off, mul(s, signed(toint(iv), w)))
            else:
                t = self.m.resolve(t)
                if t[0] == 'struct':
                    o, t = self.m.field_offset(t, iv)
                    off = add(off, o)
                    if self.parts and t[0] == 'arr':
                        at = add(base.off, off) if isinstance(base, Ptr) else None
                        rid = self.parts.get((base.rid, at)) if isinstance(at, int) else None
                        if rid is not None:
                            base, off = Ptr(rid, 0), 0
                elif t[0] in ('arr', 'vec'):
                    t = t[2]
                    off = add(off, mul(self.m.sizeof(t), signed(toint(iv), w)))
                else:
                    raise Imprecise('gep into %r' % (t,))
        if isinstance(base, FnPtr):
            raise Imprecise('gep on function')
        return Ptr(base.rid, add(base.off, off))

    # --------------------------------------------------------- memory
    def region(self, st, p, what='access'):
        if not isinstance(p, Ptr):
            self.use(st, p, 'pointer')
            raise Imprecise('%s through %r' % (what, p))
        if p.rid is None:
            self.oblige(st, False, 'no null pointer %s' % what)
        r = st.regions.get(p.rid)
        if r is None or not r.alive:
            self.oblige(st, False, 'no %s to a dead object' % what)
        return r

    def split_idx(self, st, r, off):
        """offset -> (element index, inner offset) in an array region"""
        es = r.es
        if isinstance(off, int):
            return off // es, off % es
        inner = modc(off, es)
        if isinstance(inner, int):
            return divc(sub(off, inner), es), inner
        # try the known path
        for c in range(min(es, 64)):
            if quick(T.eq(inner, c), st.pc) is True:
                return divc(sub(off, c), es), c
        raise Imprecise('misaligned symbolic access (%s, element size %d)' % (off, es))

    def concrete_off(self, st, p, r, sz):
        off = p.off
        if isinstance(off, int):
            return off
        # enumerate feasible offsets
        lo, hi = bounds(off)
        d, c = lin(off)
        g = 0
        import math
        for q, _ in d.values():
            g = math.gcd(g, abs(q))
        size = r.size
        self.oblige(st, band(ge(off, 0), le(add(off, sz), size)), 'access within %s' % r.name)
        cands = [o for o in range(c % g, size - sz + 1, g)]
        if len(cands) > 300:
            raise Imprecise('symbolic offset into %s' % r.name)
        feas = []
        for o in cands:
            if prove(st.pc, T.eq(off, o), 2000) is True:
                return o
        for o in cands:
            cnd = T.eq(off, o)
            if cnd is False:
                continue
            if feasible(st.pc + [cnd]):
                raise Fork(cnd)
        raise PathEnd()

    def load(self, st, p, ty):
        if isinstance(p, VTab):
            # vtable of a standard stream: virtual base offset
            return 0
        r = self.region(st, p, 'read')
        t = self.m.resolve(ty)
        if t[0] == 'struct':
            out = []
            for i in range(len(t[1])):
                o, e = self.m.field_offset(t, i)
                out.append(self.load(st, Ptr(p.rid, add(p.off, o)), e))
            return Agg(out)
        if t[0] in ('arr', 'vec'):
            es = self.m.sizeof(t[2])
            return Agg([self.load(st, Ptr(p.rid, add(p.off, i * es)), t[2]) for i in range(t[1])])
        sz = self.m.sizeof(t)
        if r.kind == 'flat':
            v = self.table_entry(st, r, p.off, sz) if self.symbolic_bits and is_t(p.off) else None
            if v is not None:
                return v
            off = self.concrete_off(st, p, r, sz)
            if off < 0 or off + sz > r.size:
                self.oblige(st, False, 'read within bounds of %s' % r.name)
            v = self.flat_get(st, r, off, sz, p.rid)
            if isinstance(v, Obj):
                if t[0] == 'ptr' and isinstance(v, (OStr, IStr)):
                    return VTab(Ptr(p.rid, off))
                raise Imprecise('raw access to a %s' % type(v).__name__)
            return self.retype(st, v, t)
        if r.kind == 'arr':
            return self.retype(st, self.arr_load(st, r, p, sz), t)
        if r.kind == 'str':
            return self.retype(st, self.str_load(st, r, p, sz), t)
        raise Imprecise('load')

    def table_entry(self, st, r, off, sz):
        """an element of a constant table at a symbolic position"""
        if not getattr(r, 'const', False) or r.fill is not None or r.size % sz or sz > 8:
            return None
        vals = [r.cells.get(o) for o in range(0, r.size, sz)]
        if any(c is None or c[0] != sz or not isinstance(c[1], int) for c in vals):
            return None
        idx = divc(off, sz)
        if modc(off, sz) != 0:
            return None
        self.oblige(st, band(ge(idx, 0), lt(idx, len(vals))), 'read within bounds of %s' % r.name)
        vals = [c[1] for c in vals]
        return B.define('table', (idx, tuple(vals)), max(vals))

    def retype(self, st, v, t):
        if v is UNDEF or v is STALE:
            return v
        if isinstance(v, Pieces):
            return v if t[0] == 'int' else UNDEF
        if t[0] == 'int':
            if t[1] == 1:
                return tobool(v) if not isinstance(v, bool) else v
            if isinstance(v, bool) or (is_t(v) and z3.is_bool(v)):
                return ite(v, 1, 0)
            if isinstance(v, int) or is_t(v):
                if isinstance(v, int) and v >> t[1]:
                    return v % (1 << t[1])
                return v
            if isinstance(v, FP):
                return v.bits
            if isinstance(v, Ptr):
                return v
            raise Imprecise('integer view of %r' % (v,))
        if t[0] == 'ptr':
            if isinstance(v, (Ptr, FnPtr, VTab)):
                return v
            if isinstance(v, int) and v == 0:
                return NULL
            raise Imprecise('pointer view of %r' % (v,))
        if t[0] == 'fp':
            if isinstance(v, FP):
                return v
            if isinstance(v, int) or (is_t(v) and not z3.is_bool(v)):
                return FP(v, t[1])
            raise Imprecise('float view of %r' % (v,))
        return v

    def flat_get(self, st, r, off, sz, rid=None):
        c = r.cells.get(off)
        if c is not None and c[0] == sz:
            return c[1]
        if c is not None and isinstance(c[1], Obj):
            return c[1]
        if c is None and r.fill is not None and not any(o < off + sz and off < o + s for o, (s, _) in r.cells.items()):
            return self.filled(st, r, off, sz, rid)
        # assemble from bytes
        bs = []
        for i in range(sz):
            b = self.flat_byte(st, r, off + i, rid)
            if b is STALE:
                return STALE
            bs.append(b)
        und = [b is UNDEF for b in bs]
        if any(und):
            return UNDEF if all(und) else Pieces(bs)
        return compose(bs)

    def filled(self, st, r, off, sz, rid):
        if r.fill == 'zero':
            return 0
        if r.fill == 'extern':
            if r.name.lstrip('@') in ('stderr', 'stdout') and sz == 8 and off == 0:
                return Ptr(rid, 0)      # some stream of the C library: never null
            raise Imprecise('read of external %s' % r.name)
        if callable(r.fill):
            v = r.fill(off, sz)
            return v
        return UNDEF

    def flat_byte(self, st, r, off, rid=None):
        c = r.cells.get(off)
        if c is not None and c[0] == 1:
            return c[1] if not isinstance(c[1], bool) else int(c[1])
        for o in range(off, max(-1, off - 16), -1):
            c = r.cells.get(o)
            if c is not None:
                if o + c[0] > off:
                    v = c[1]
                    if v is UNDEF or v is STALE:
                        return v
                    if isinstance(v, FP):
                        v = v.bits
                    if isinstance(v, bool):
                        v = int(v)
                    if isinstance(v, int) or (is_t(v) and z3.is_int(v)):
                        return byte_of(v, off - o)
                    raise Imprecise('byte of %r' % (v,))
                break
        if r.fill is not None:
            return self.filled(st, r, off, 1, rid)
        return UNDEF

    def arr_load(self, st, r, p, sz):
        if r.es == sz or (r.es == 1):
            idx, inner = self.split_idx(st, r, p.off)
            n = sz // r.es
            self.oblige(st, band(ge(idx, 0), le(add(idx, n), r.length)), 'read within bounds of %s' % r.name)
            if n == 1:
                v = r.content.get(idx, st.pc)
                if isinstance(v, dict):
                    return self.struct_field(v, inner, sz)
                return v
            bs = [r.content.get(add(idx, i), st.pc) for i in range(n)]
            if any(b is UNDEF for b in bs):
                return UNDEF
            if any(b is STALE for b in bs):
                return STALE
            return compose(bs)
        idx, inner = self.split_idx(st, r, p.off)
        if isinstance(inner, int) and inner + sz <= r.es:
            self.oblige(st, band(ge(idx, 0), lt(idx, r.length)), 'read within bounds of %s' % r.name)
            v = r.content.get(idx, st.pc)
            if isinstance(v, dict):
                return self.struct_field(v, inner, sz)
            if v is UNDEF or v is STALE:
                return v
            if isinstance(v, FP):
                v = v.bits
            return modc(divc(v, 256 ** inner), 256 ** sz)
        raise Imprecise('array access of %d bytes to elements of %d' % (sz, r.es))

    def struct_field(self, v, inner, sz):
        c = v.get(inner)
        if c is None:
            for o, (s, x) in v.items():
                if o < inner < o + s and (isinstance(x, int) or is_t(x)):
                    return modc(divc(x, 256 ** (inner - o)), 256 ** sz)
            return UNDEF
        if c[0] != sz and not isinstance(c[1], Obj):
            if (isinstance(c[1], int) or is_t(c[1])) and sz < c[0]:
                return modc(c[1], 256 ** sz)
            raise Imprecise('field size')
        return c[1]

    def str_load(self, st, r, p, sz):
        s = self.getobj(st, r.view)
        if not isinstance(s, StrVal):
            self.oblige(st, False, 'string data is used while the string is alive')
        idx = p.off if s.es == 1 else divc(p.off, s.es)
        n = sz // s.es if sz >= s.es else 0
        if n == 0:
            raise Imprecise('partial wide char')
        L = s.rope.length()
        # reading the terminator is allowed
        self.oblige(st, band(ge(idx, 0), le(add(idx, n), add(L, 1))), 'read within bounds of string')
        vals = []
        for i in range(n):
            j = add(idx, i)
            if decide(lt(j, L), st.pc):
                vals.append(rope_at(s.rope, j, st.pc))
            else:
                vals.append(0)
        if n == 1:
            return vals[0]
        return compose(vals)

    def store(self, st, p, v, ty):
        r = self.region(st, p, 'write')
        t = self.m.resolve(ty)
        if isinstance(v, Agg):
            if t[0] == 'struct':
                for i in range(len(t[1])):
                    o, e = self.m.field_offset(t, i)
                    self.store(st, Ptr(p.rid, add(p.off, o)), v.vals[i], e)
            else:
                es = self.m.sizeof(t[2])
                for i in range(t[1]):
                    self.store(st, Ptr(p.rid, add(p.off, i * es)), v.vals[i], t[2])
            return
        if t[0] in ('struct', 'arr', 'vec') and v is UNDEF:
            return
        sz = self.m.sizeof(t)
        self.note_write(st, r, p.rid)
        if isinstance(v, Pieces):
            if r.kind != 'flat':
                raise Imprecise('partly initialised value')
            off = self.concrete_off(st, p, r, sz)
            if off < 0 or off + sz > r.size:
                self.oblige(st, False, 'write within bounds of %s' % r.name)
            r = st.wr(p.rid)
            for i, b in enumerate(v.bs[:sz]):
                self.flat_put(st, r, off + i, 1, b)
            return
        if isinstance(v, bool) or (is_t(v) and z3.is_bool(v)):
            v = ite(v, 1, 0)
        if r.kind == 'flat':
            off = self.concrete_off(st, p, r, sz)
            if off < 0 or off + sz > r.size:
                self.oblige(st, False, 'write within bounds of %s' % r.name)
            r = st.wr(p.rid)
            self.flat_put(st, r, off, sz, v)
            return
        if r.kind == 'arr':
            idx, inner = self.split_idx(st, r, p.off)
            if r.es == sz and inner == 0:
                self.oblige(st, band(ge(idx, 0), lt(idx, r.length)), 'write within bounds of %s' % r.name)
                old = None
                if isinstance(v, FP):
                    v = v.bits
                r = st.wr(p.rid)
                r.content = r.content.push(('set', idx, v))
                return
            if r.es == 1:
                self.oblige(st, band(ge(idx, 0), le(add(idx, sz), r.length)), 'write within bounds of %s' % r.name)
                r = st.wr(p.rid)
                if isinstance(v, FP):
                    v = v.bits
                for i in range(sz):
                    r.content = r.content.push(('set', add(idx, i), byte_of(v, i) if v is not UNDEF else UNDEF))
                return
            self.oblige(st, band(ge(idx, 0), lt(idx, r.length)), 'write within bounds of %s' % r.name)
            if isinstance(r.ety, tuple) and r.ety[0] in ('int', 'fp', 'float', 'double') and isinstance(inner, int) and v is not UNDEF and v is not STALE:
                if isinstance(v, FP):
                    v = v.bits
                r = st.wr(p.rid)
                r.content = r.content.push(('bset', idx, {inner + i: byte_of(v, i) for i in range(sz)}, r.es))
                return
            old = r.content.get(idx, st.pc)
            if isinstance(old, dict) or r.ety == 'struct':
                d = dict(old) if isinstance(old, dict) else {}
                d[inner] = (sz, v)
                r = st.wr(p.rid)
                r.content = r.content.push(('set', idx, d))
                return
            if isinstance(inner, int) and scalar(old) or old is UNDEF:
                bs = [byte_of(old, i) if old is not UNDEF else UNDEF for i in range(r.es)]
                for i in range(sz):
                    bs[inner + i] = byte_of(v, i)
                if any(b is UNDEF for b in bs):
                    raise Imprecise('partial write of an uninitialised element')
                r = st.wr(p.rid)
                r.content = r.content.push(('set', idx, compose(bs)))
                return
            raise Imprecise('array store')
        if r.kind == 'str':
            s = self.getobj(st, r.view)
            if not isinstance(s, StrVal):
                self.oblige(st, False, 'string data is used while the string is alive')
            if sz != s.es:
                raise Imprecise('string store size')
            idx = divc(p.off, s.es)
            L = s.rope.length()
            self.oblige(st, band(ge(idx, 0), lt(idx, L)), 'write within bounds of string')
            self.setobj(st, r.view, s.with_(rope=self.rope_set(st, s.rope, idx, v)))
            return
        raise Imprecise('store')

    def rope_set(self, st, rope, idx, v):
        L = rope.length()
        a = rope_slice(rope, 0, idx, st.pc)
        b = rope_slice(rope, add(idx, 1), sub(sub(L, idx), 1), st.pc)
        return a + Rope((Lit((v,)),)) + b

    def flat_put(self, st, r, off, sz, v):
        # remove overlapping cells, splitting plain values
        for o in range(off - 15, off + sz):
            c = r.cells.get(o)
            if c is None or o + c[0] <= off or o >= off + sz:
                continue
            if o == off and c[0] == sz:
                continue
            if not isinstance(c[1], (Ptr, Obj)) and c[1] is not UNDEF and c[1] is not STALE:
                bs = [(o + i, self.flat_byte(st, r, o + i)) for i in range(c[0])]
                del r.cells[o]
                for oo, b in bs:
                    if not (off <= oo < off + sz):
                        r.cells[oo] = (1, b)
            else:
                del r.cells[o]
        # larger objects overlapping from further away
        r.cells[off] = (sz, v)

    def note_write(self, st, r, rid):
        self.stores += 1
        if r.glob:
            if r.const:
                self.oblige(st, False, 'no write to constant %s' % r.name)
            if not r.tls and not st.ghost.get('guards'):
                self.global_writes.append((r.name, self.where(st)))
        if r.kind == 'str':
            rr = st.regions.get(r.view.rid)
            if rr is not None and rr.glob and not rr.tls and not st.ghost.get('guards'):
                self.global_writes.append((rr.name, self.where(st)))

    # objects ------------------------------------------------------------
    def getobj(self, st, p, default=None):
        if isinstance(p, VTab):
            p = p.place
        r = self.region(st, p, 'use')
        if r.kind == 'flat':
            off = self.concrete_off(st, p, r, 1)
            c = r.cells.get(off)
            if c is None:
                if r.fill is not None and callable(r.fill):
                    return r.fill(off, 0)
                return UNDEF
            return c[1]
        if r.kind == 'arr':
            idx, inner = self.split_idx(st, r, p.off)
            self.oblige(st, band(ge(idx, 0), lt(idx, r.length)), 'element of %s within bounds' % r.name)
            v = r.content.get(idx, st.pc)
            if isinstance(v, dict):
                c = v.get(inner)
                return UNDEF if c is None else c[1]
            return v
        raise Imprecise('object in %s' % r.kind)

    def setobj(self, st, p, o, size=8):
        if isinstance(p, VTab):
            p = p.place
        r = self.region(st, p, 'construction')
        self.note_write(st, r, p.rid)
        if r.kind == 'flat':
            off = self.concrete_off(st, p, r, 1)
            r = st.wr(p.rid)
            # an object replaces everything it covers
            sz = OBJ_SIZE.get(type(o), 8)
            for oo in [x for x in r.cells if off <= x < off + sz]:
                del r.cells[oo]
            if o is not None:
                r.cells[off] = (sz, o)
            return
        if r.kind == 'arr':
            idx, inner = self.split_idx(st, r, p.off)
            self.oblige(st, band(ge(idx, 0), lt(idx, r.length)), 'element of %s within bounds' % r.name)
            old = r.content.get(idx, st.pc)
            d = dict(old) if isinstance(old, dict) else {}
            if o is None:
                d.pop(inner, None)
            else:
                d[inner] = (OBJ_SIZE.get(type(o), 8), o)
            r = st.wr(p.rid)
            r.content = r.content.push(('set', idx, d))
            return
        raise Imprecise('object in %s' % r.kind)

    def strview(self, st, p):
        """region whose bytes are the data of the string object at p"""
        rid = 'str:%s:%s' % (p.rid, p.off)
        if rid not in st.regions:
            st.regions[rid] = Region('str', 'string data', view=p)
        return rid

    # byte ranges ----------------------------------------------------------
    def read_range(self, st, p, n):
        """rope of the n elements (bytes) at p"""
        if isinstance(n, int) and n == 0:
            return EMPTY
        if T.eq(n, 0) is not True and not isinstance(n, int):
            if quick(T.eq(n, 0), st.pc) is True:
                return EMPTY
        r = self.region(st, p, 'read')
        if r.kind == 'str':
            s = self.getobj(st, r.view)
            if not isinstance(s, StrVal):
                self.oblige(st, False, 'string data is used while the string is alive')
            if s.es != 1:
                raise Imprecise('byte range of a wide string')
            L = s.rope.length()
            self.oblige(st, band(ge(p.off, 0), le(add(p.off, n), add(L, 1))), 'read within bounds of string')
            if quick(le(add(p.off, n), L), st.pc) is True:
                return rope_slice(s.rope, p.off, n, st.pc)
            if decide(le(add(p.off, n), L), st.pc):
                return rope_slice(s.rope, p.off, n, st.pc)
            return rope_slice(s.rope, p.off, sub(L, p.off), st.pc) + lit(b'\0')
        if r.kind == 'flat':
            if not isinstance(n, int):
                n2 = self.concretise(st, n)
                n = n2
            off = self.concrete_off(st, p, r, n)
            if off < 0 or off + n > r.size:
                self.oblige(st, False, 'read within bounds of %s' % r.name)
            bs = []
            for i in range(n):
                b = self.flat_byte(st, r, off + i, p.rid)
                if b is STALE:
                    raise Imprecise('stale bytes')
                if b is UNDEF:
                    self.oblige(st, False, 'uninitialised bytes of %s are not output' % r.name)
                bs.append(b)
            return Rope((Lit(bs),))
        if r.kind == 'arr':
            if r.es == 1:
                self.oblige(st, band(ge(p.off, 0), le(add(p.off, n), r.length)), 'read within bounds of %s' % r.name)
                return self.content_rope(st, r.content, p.off, n)
            if isinstance(n, int) and n <= 4096 and isinstance(p.off, int):
                self.oblige(st, le(add(p.off, n), mul(r.es, r.length)), 'read within bounds of %s' % r.name)
                bs = []
                for i in range(n):
                    v = r.content.get((p.off + i) // r.es, st.pc)
                    if not scalar(v):
                        raise Imprecise('bytes of structured elements')
                    bs.append(byte_of(v, (p.off + i) % r.es))
                return Rope((Lit(bs),))
            # whole elements
            self.oblige(st, band(ge(p.off, 0), le(add(p.off, n), mul(r.es, r.length))), 'read within bounds of %s' % r.name)
            idx, inner = self.split_idx(st, r, p.off)
            cnt = divc(n, r.es)
            if inner != 0 or T.eq(mul(cnt, r.es), n) is not True:
                raise Imprecise('partial elements')
            c = r.content
            pc = list(st.pc)
            es = r.es
            return Rope((Big(cnt, lambda k: [(True, Rope((Lit([byte_of(c.get(add(idx, k), pc), j) for j in range(es)]),)))]),))
        raise Imprecise('read_range')

    def content_rope(self, st, c, off, n):
        def outside(l):
            if l[0] in ('set', 'bset', 'part'):
                return quick(bor(lt(l[1], off), ge(l[1], add(off, n))), st.pc) is True
            if l[0] == 'rope':
                return quick(bor(le(add(l[1], l[2].length()), off), ge(l[1], add(off, n))), st.pc) is True
            return False
        while len(c.layers) > 1 and outside(c.layers[-1]):
            c = Content(c.base, c.layers[:-1])
        if c.layers and c.layers[-1][0] == 'rope':
            lo, rp = c.layers[-1][1], c.layers[-1][2]
            inside = band(le(lo, off), le(add(off, n), add(lo, rp.length())))
            if quick(inside, st.pc) is True:
                return rope_slice(rp, sub(off, lo), n, st.pc)
            if T.eq(off, lo) is True or quick(T.eq(off, lo), st.pc) is True:
                rl = rp.length()
                if decide(le(n, rl), st.pc):
                    return rope_slice(rp, 0, n, st.pc)
                return rp + self.content_rope(st, Content(c.base, c.layers[:-1]), add(off, rl), sub(n, rl))
        if not c.layers and c.base is not None:
            v = c.base(fresh('probe', 0, None))
            if isinstance(v, int):
                return Rope((Rep(v, n),))
        if isinstance(n, int) and n <= 256 and isinstance(off, int):
            bs = [c.get(add(off, i), st.pc) for i in range(n)]
            if any(b is UNDEF for b in bs):
                self.oblige(st, False, 'uninitialised bytes are not read')
            if any(b is STALE for b in bs):
                raise Imprecise('stale bytes')
            return Rope((Lit(bs),))
        if not c.layers and getattr(c.base, '__self__', None).__class__ is Source:
            return Rope((Slice(c.base.__self__, off, n),))
        pc = list(st.pc)
        src = Source(fresh_name('mem'), None, fun=lambda i: c.get(i, pc))
        return Rope((Slice(src, off, n),))

    def write_range(self, st, p, rope):
        n = rope.length()
        if isinstance(n, int) and n == 0:
            return
        r = self.region(st, p, 'write')
        self.note_write(st, r, p.rid)
        if r.kind == 'flat':
            if not isinstance(n, int):
                n = self.concretise(st, n)
                rope = rope_slice(rope, 0, n, st.pc)
                if n == 0:
                    return
            off = self.concrete_off(st, p, r, n)
            if off < 0 or off + n > r.size:
                self.oblige(st, False, 'write within bounds of %s' % r.name)
            vals = [rope_at(rope, i, st.pc) for i in range(n)]
            r = st.wr(p.rid)
            for i, b in enumerate(vals):
                self.flat_put(st, r, off + i, 1, b)
            return
        if r.kind == 'arr':
            if r.es == 1:
                self.oblige(st, band(ge(p.off, 0), le(add(p.off, n), r.length)), 'write within bounds of %s' % r.name)
                r = st.wr(p.rid)
                if T.eq(n, r.length) is True and T.eq(p.off, 0) is True:
                    r.content = Content(r.content.base, (('rope', 0, rope),))
                elif r.content.layers and r.content.layers[-1][0] == 'rope' and T.eq(r.content.layers[-1][1], p.off) is True \
                        and quick(le(r.content.layers[-1][2].length(), n), st.pc) is True:
                    r.content = Content(r.content.base, r.content.layers[:-1] + (('rope', p.off, rope),))
                elif r.content.layers and r.content.layers[-1][0] == 'rope' and not isinstance(p.off, int) \
                        and quick(T.eq(add(r.content.layers[-1][1], r.content.layers[-1][2].length()), p.off), st.pc) is True:
                    at, was = r.content.layers[-1][1:]      # what goes on where the last write ended
                    r.content = Content(r.content.base, r.content.layers[:-1] + (('rope', at, was + rope),))
                else:
                    r.content = r.content.push(('rope', p.off, rope))
                return
            es = r.es
            if quick(T.eq(modc(p.off, es), 0), st.pc) is not True:
                raise Imprecise('byte range not aligned with elements of size %d' % es)
            self.oblige(st, band(ge(p.off, 0), le(add(p.off, n), mul(r.length, es))), 'write within bounds of %s' % r.name)
            r = st.wr(p.rid)
            lo, cnt, rest = divc(p.off, es), divc(n, es), modc(n, es)
            r.content = r.content.push(('wrope', lo, rope, es, cnt))
            if quick(T.eq(rest, 0), st.pc) is not True:
                # an element of which only some bytes are written
                r.content = r.content.push(('part', add(lo, cnt), T.eq(rest, 0)))
            return
        if r.kind == 'str':
            s = self.getobj(st, r.view)
            if not isinstance(s, StrVal):
                self.oblige(st, False, 'string data is used while the string is alive')
            if s.es != 1:
                raise Imprecise('byte range into wide string')
            L = s.rope.length()
            self.oblige(st, band(ge(p.off, 0), le(add(p.off, n), L)), 'write within bounds of string')
            a = rope_slice(s.rope, 0, p.off, st.pc)
            endp = add(p.off, n)
            if quick(T.eq(endp, L), st.pc) is True:
                b = EMPTY
            else:
                b = rope_slice(s.rope, endp, sub(L, endp), st.pc)
            self.setobj(st, r.view, s.with_(rope=a + rope + b))
            return
        raise Imprecise('write_range')

    def concretise(self, st, n, limit=64):
        """a concrete value for n on this path (forks)"""
        if isinstance(n, int):
            return n
        lo, hi = bounds(n)
        for i in range(max(lo or 0, 0), (min(hi, limit) if hi is not None else limit) + 1):
            c = T.eq(n, i)
            if c is False:
                continue
            q = quick(c, st.pc)
            if q is True:
                return i
            if q is None:
                raise Fork(c)
        raise Imprecise('cannot enumerate %s' % (n,))

    # --------------------------------------------------------- control flow
    def push_frame(self, st, fn, args, call=None):
        if len(st.frames) > 200:
            raise Imprecise('call depth')
        self.functions_run.add(fn.name)
        locs = {}
        if len(args) < len(fn.params):
            raise Imprecise('arity of %s' % fn.dname)
        for (t, nm), a in zip(fn.params, args):
            locs[nm] = a
        fn.blocks
        fr = Frame(fn, locs, call)
        fr.block = fn.entry
        st.frames.append(fr)

    def pop_frame(self, st):
        fr = st.frames.pop()
        for rid in fr.allocas:
            st.regions.pop(rid, None)
        return fr

    def call_function(self, st, fn, args):
        """run fn to completion from st; returns the terminal states (status 'ret' or 'exc')"""
        st.status = None
        depth = len(st.frames) + 1
        self.push_frame(st, fn, args)
        return self.run([st], depth, None)

    def run(self, states, base_depth, ctx):
        self.bases.append(base_depth)
        try:
            return self.run_(states, base_depth, ctx)
        finally:
            self.bases.pop()

    def run_(self, states, base_depth, ctx):
        work = list(states)
        done = []
        while work:
            st = work.pop()
            try:
                res = self.advance(st, base_depth, ctx)
            except PathEnd:
                continue
            for s in res:
                if s.status is not None:
                    done.append(s)
                else:
                    work.append(s)
            if len(work) > 4000:
                raise Imprecise('too many paths')
        return done

    def advance(self, st, base_depth, ctx):
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.idx]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Imprecise('step limit')
            if self.trace:
                print('%s%s:%s:%d %s' % ('  ' * len(st.frames), short(fr.fn.dname)[:40], fr.block, fr.idx, ins.line))
            if T.DEADLINE[0] is not None and (self.steps & 255) == 0 and time.time() > T.DEADLINE[0]:
                raise TimeUp()
            try:
                r = self.step(st, ins, base_depth, ctx)
            except Fork as f:
                out = []
                if any(is_t(x) and is_t(f.cond) and x.eq(f.cond) for x in st.pc):
                    raise Imprecise('a case split that does not end: %.200s' % f.cond)
                for c in (f.cond, bnot(f.cond)):
                    if c is False:
                        continue
                    s2 = st.clone()
                    s2.assume(c)
                    if feasible(s2.pc):
                        out.append(s2)
                return out
            if r is not None:
                return r

    def goto(self, st, target, ctx):
        """-> list of states (maybe with status set), or None to go on"""
        fr = st.frames[-1]
        depth = len(st.frames)
        if ctx is not None and depth == ctx.depth:
            if target == ctx.header:
                fr.prev, fr.block, fr.idx = fr.block, target, 0
                st.status = 'back'
                return [st]
            if target not in ctx.body:
                fr.prev, fr.block, fr.idx = fr.block, target, 0
                st.status = 'exit'
                return [st]
        loops = fr.fn.loops
        if target in loops and fr.block not in loops[target]:
            fr.prev, fr.block, fr.idx = fr.block, target, 0
            out = []
            for kind, s in self.do_loop(st, target, ctx):
                if kind != 'exit':
                    out.append(s)
                    continue
                s.status = None
                f2 = s.frames[-1]
                tgt = f2.block
                f2.block = f2.prev
                # phis in the target need the true predecessor, which goto restores
                r = self.goto(s, tgt, ctx)
                if r is None:
                    out.append(s)
                else:
                    out.extend(r)
            return out
        fr.prev, fr.block, fr.idx = fr.block, target, 0
        return None

    def ret(self, st, v, base_depth, ctx):
        fr = self.pop_frame(st)
        if len(st.frames) < base_depth:
            st.retval = v
            st.retcall = fr.call
            st.status = 'ret'
            return [st]
        ins = fr.call
        caller = st.frames[-1]
        if ins.dst is not None:
            caller.locals[ins.dst] = v
        if ins.op == 'invoke':
            return self.goto(st, ins.x['normal'], ctx)
        caller.idx += 1
        return None

    def throw(self, st, exc, base_depth, ctx, from_call=None):
        """unwind: exc is an ExcVal.  The top frame is the one containing the throwing call."""
        st.exc = exc
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.idx]
            if ins.op == 'invoke':
                lp = self.landing(fr.fn, ins.x['unwind'])
                if self.lp_handles(st, lp, exc):
                    r = self.goto(st, ins.x['unwind'], ctx)
                    return r if r is not None else [st]
            self.pop_frame(st)
            if len(st.frames) < base_depth:
                st.status = 'exc'
                return [st]

    def landing(self, fn, block):
        for i in fn.blocks[block]:
            if i.op == 'landingpad':
                return i
        raise Imprecise('no landingpad')

    def exc_matches(self, tname, tinfo):
        d = self.m.demangle(tinfo)
        d = re.sub(r'^typeinfo for ', '', d)
        return d == tname or d in EXC_BASES.get(tname, [])

    def lp_handles(self, st, lp, exc):
        for c in lp.x:
            if c[0] == 'cleanup':
                return True
            if c[0] == 'catch':
                if c[1][0] == 'null':
                    return True
                if self.exc_matches(exc.tname, c[1][1]):
                    return True
            if c[0] == 'filter':
                return True
        return False

    def lp_selector(self, exc, lp):
        for c in lp.x:
            if c[0] == 'catch':
                if c[1][0] == 'null':
                    return 1
                if self.exc_matches(exc.tname, c[1][1]):
                    return self.typeid(c[1][1])
        return 0

    def typeid(self, tinfo):
        ids = self.__dict__.setdefault('_tids', {})
        return ids.setdefault(tinfo, len(ids) + 2)

    # --------------------------------------------------------- step
    def step(self, st, ins, base_depth, ctx):
        fr = st.frames[-1]
        op = ins.op
        L = fr.locals
        if op == 'load':
            p = self.val(st, ir.PTR, ins.args[0])
            L[ins.dst] = self.load(st, p, ins.ty)
        elif op == 'store':
            v = self.val(st, ins.ty, ins.args[0])
            p = self.val(st, ir.PTR, ins.args[1])
            self.store(st, p, v, ins.ty)
        elif op == 'alloca':
            t = self.m.resolve(ins.ty)
            n = 1
            if ins.args:
                n = self.val(st, ins.args[0][0], ins.args[0][1])
            size = self.m.sizeof(ins.ty) * n
            if t[0] == 'arr' and t[2][0] == 'int' and size > 256:
                rid = st.alloc_arr(t[2][1] // 8, t[1], Content(None), 'local', ety=t[2])
            else:
                rid = st.alloc_flat(size, 'local')
            fr.allocas.append(rid)
            L[ins.dst] = Ptr(rid, 0)
        elif op == 'gep':
            base = self.val(st, ir.PTR, ins.args[0])
            idx = [(t, self.val(st, t, x)) for t, x in ins.x]
            L[ins.dst] = self.gep(st, ins.ty, base, idx)
        elif op == 'br':
            if not ins.args:
                return self.goto(st, ins.x[0], ctx)
            c = self.use(st, self.val(st, ir.I1, ins.args[0]), 'condition')
            c = tobool(c)
            if not isinstance(c, bool):
                t = feasible(st.pc + [c])
                f = feasible(st.pc + [bnot(c)])
                if t and f:
                    out = []
                    for cc, tgt in ((c, ins.x[0]), (bnot(c), ins.x[1])):
                        s2 = st.clone()
                        s2.assume(cc)
                        r = self.goto(s2, tgt, ctx)
                        out.extend(r if r is not None else [s2])
                    return out
                if not t and not f:
                    raise PathEnd()
                c = t
            return self.goto(st, ins.x[0] if c else ins.x[1], ctx)
        elif op == 'switch':
            v = self.use(st, self.val(st, ins.ty, ins.args[0]), 'switch value')
            d, cases = ins.x
            w = ins.ty[1]
            if isinstance(v, int):
                for cv, lab in cases:
                    if cv % (1 << w) == v:
                        return self.goto(st, lab, ctx)
                return self.goto(st, d, ctx)
            out = []
            rest = st
            for cv, lab in cases:
                c = T.eq(v, cv % (1 << w))
                if c is False:
                    continue
                if feasible(rest.pc + ([c] if c is not True else [])):
                    s2 = rest.clone()
                    s2.assume(c)
                    r = self.goto(s2, lab, ctx)
                    out.extend(r if r is not None else [s2])
                rest.assume(bnot(c))
            if feasible(rest.pc):
                r = self.goto(rest, d, ctx)
                out.extend(r if r is not None else [rest])
            if not out:
                raise PathEnd()
            return out
        elif op == 'ret':
            v = self.val(st, ins.ty, ins.args[0]) if ins.args else None
            return self.ret(st, v, base_depth, ctx)
        elif op == 'phi':
            for v, b in ins.x:
                if b == fr.prev:
                    L[ins.dst] = self.val(st, ins.ty, v)
                    break
            else:
                raise Imprecise('phi')
        elif op in ('icmp',):
            a = self.val(st, ins.ty, ins.args[0])
            b = self.val(st, ins.ty, ins.args[1])
            L[ins.dst] = self.icmp(st, ins.x, ins.ty, a, b)
        elif op == 'fcmp':
            a = self.val(st, ins.ty, ins.args[0])
            b = self.val(st, ins.ty, ins.args[1])
            L[ins.dst] = self.fcmp(st, ins.x, ins.ty, a, b)
        elif op in BINOPS:
            a = self.val(st, ins.ty, ins.args[0])
            b = self.val(st, ins.ty, ins.args[1])
            L[ins.dst] = self.binop(st, op, ins.ty, a, b, ins.x)
        elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            a = self.val(st, ins.x if op != 'freeze' else ins.ty, ins.args[0])
            L[ins.dst] = self.cast(st, op, ins.x, ins.ty, a)
        elif op == 'select':
            c = self.use(st, self.val(st, ir.I1, ins.args[0]), 'condition')
            a = self.val(st, ins.ty, ins.args[1])
            b = self.val(st, ins.ty, ins.args[2])
            c = tobool(c)
            if isinstance(c, bool):
                L[ins.dst] = a if c else b
            elif scalar(a) and scalar(b):
                q = quick(c, st.pc)
                L[ins.dst] = ite(c, a, b) if q is None else (a if q else b)
            else:
                L[ins.dst] = a if decide(c, st.pc) else b
        elif op == 'extractvalue':
            v = self.val(st, ins.ty, ins.args[0])
            for i in ins.x:
                v = v.vals[i] if isinstance(v, Agg) else v
            L[ins.dst] = v
        elif op == 'insertvalue':
            v = self.val(st, ins.ty, ins.args[0])
            t2, idx = ins.x
            x = self.val(st, t2, ins.args[1])
            L[ins.dst] = self.insertv(ins.ty, v, x, idx)
        elif op == 'landingpad':
            L[ins.dst] = Agg([Ptr('exc', 0), self.lp_selector(st.exc, ins)])
        elif op == 'resume':
            return self.unwind_from(st, st.exc, base_depth, ctx)
        elif op == 'unreachable':
            self.oblige(st, False, 'unreachable code is not reached')
        elif op in ('call', 'invoke'):
            return self.call(st, ins, base_depth, ctx)
        else:
            raise Imprecise('instruction %s' % op)
        fr.idx += 1
        return None

    def unwind_from(self, st, exc, base_depth, ctx):
        """continue unwinding out of the current frame"""
        self.pop_frame(st)
        if len(st.frames) < base_depth:
            st.exc = exc
            st.status = 'exc'
            return [st]
        return self.throw(st, exc, base_depth, ctx)

    def insertv(self, ty, v, x, idx):
        ty = self.m.resolve(ty)
        n = len(ty[1]) if ty[0] == 'struct' else ty[1]
        vals = list(v.vals) if isinstance(v, Agg) else [UNDEF] * n
        if len(idx) == 1:
            vals[idx[0]] = x
        else:
            e = ty[1][idx[0]] if ty[0] == 'struct' else ty[2]
            vals[idx[0]] = self.insertv(e, vals[idx[0]], x, idx[1:])
        return Agg(vals)

    # --------------------------------------------------------- arithmetic
    def icmp(self, st, pred, ty, a, b):
        a, b = whole(a), whole(b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a is STALE or b is STALE:
            return STALE
        if isinstance(a, (Ptr, FnPtr, VTab)) or isinstance(b, (Ptr, FnPtr, VTab)):
            return self.pcmp(st, pred, a, b)
        w = ty[1] if ty[0] == 'int' else 64
        if w == 1:
            a, b = tobool(a), tobool(b)
            if pred == 'eq':
                return T.eq(a, b)
            if pred == 'ne':
                return T.ne(a, b)
            a, b = ite(a, 1, 0), ite(b, 1, 0)
        if is_t(a) and z3.is_bv(a) or is_t(b) and z3.is_bv(b):
            a, b = tobv(a, w), tobv(b, w)
            f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
                 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
                 'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
            return simp_bool(f)
        if pred == 'eq':
            return T.eq(a, b)
        if pred == 'ne':
            return T.ne(a, b)
        if pred[0] == 's':
            a, b = signed(a, w), signed(b, w)
        return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pred[1:]](a, b)

    def pcmp(self, st, pred, a, b):
        if isinstance(a, int):
            a = NULL
        if isinstance(b, int):
            b = NULL
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.rid == b.rid:
                if pred == 'eq':
                    return T.eq(a.off, b.off)
                if pred == 'ne':
                    return T.ne(a.off, b.off)
                return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pred[1:]](a.off, b.off)
            if pred == 'eq':
                return False
            if pred == 'ne':
                return True
            raise Imprecise('ordering of pointers to different objects')
        if pred in ('eq', 'ne'):
            r = a == b
            return r if pred == 'eq' else not r
        raise Imprecise('pointer comparison')

    def fcmp(self, st, pred, ty, a, b):
        a, b = whole(a), whole(b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        # comparisons with zero only
        if pred in ('une', 'oeq') and isinstance(b, FP) and isinstance(b.bits, int) and b.bits in (0, 1 << (b.w - 1)):
            z = bor(T.eq(a.bits, 0), T.eq(a.bits, 1 << (a.w - 1)))
            return bnot(z) if pred == 'une' else z
        raise Imprecise('floating point comparison')

    def reduce(self, st, r, w):
        """mathematical result -> machine value"""
        if isinstance(r, int):
            return r % (1 << w)
        lo, hi = bounds(r)
        M = 1 << w
        if lo is not None and hi is not None and lo // M == hi // M:
            return sub(r, (lo // M) * M)
        c = band(ge(r, 0), lt(r, M))
        if prove(st.pc, c, 2000) is True:
            return r
        if prove(st.pc, band(ge(r, -M), lt(r, 0)), 1000) is True:
            return add(r, M)
        return modc(r, M)

    def binop(self, st, op, ty, a, b, flags):
        if ty[0] == 'fp' or op[0] == 'f':
            raise Imprecise('floating point arithmetic')
        a, b = whole(a), whole(b)
        if a is STALE or b is STALE:
            return STALE
        if a is UNDEF or b is UNDEF:
            return UNDEF
        w = ty[1]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid:
                d = sub(a.off, b.off)
                return unsigned(d, w) if isinstance(d, int) else self.reduce(st, d, w)
            raise Imprecise('integer arithmetic on addresses')
        if w == 1:
            a, b = tobool(a), tobool(b)
            if op == 'and':
                return band(a, b)
            if op == 'or':
                return bor(a, b)
            if op == 'xor':
                return T.ne(a, b)
            raise Imprecise('i1 %s' % op)
        if (is_t(a) and z3.is_bv(a)) or (is_t(b) and z3.is_bv(b)):
            return self.bvop(st, op, w, tobv(a, w), tobv(b, w))
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        M = 1 << w
        if isinstance(a, int) and isinstance(b, int):
            return self.cop(st, op, w, a, b, flags)
        if op == 'add':
            r = add(a, b)
            if 'nsw' in (flags or ()):
                pass
            return recompose(self.reduce(st, r, w))
        if op == 'sub':
            return self.reduce(st, sub(a, b), w)
        if op == 'mul':
            return self.reduce(st, mul(a, b), w)
        if op == 'shl':
            if isinstance(b, int):
                if b >= w:
                    self.oblige(st, False, 'shift amount below width')
                return self.reduce(st, mul(a, 1 << b), w)
            raise Imprecise('symbolic shift')
        if op == 'lshr':
            if isinstance(b, int):
                if b >= w:
                    self.oblige(st, False, 'shift amount below width')
                return divc(a, 1 << b)
            raise Imprecise('symbolic shift')
        if op == 'ashr':
            if isinstance(b, int):
                return self.reduce(st, divc(signed(a, w), 1 << b), w)
            raise Imprecise('symbolic shift')
        if op == 'and':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                return and_const(a, b, w)
            if self.symbolic_bits:
                return self.bit_symbol('and', a, b, w)
            raise Imprecise('and of two symbolic values')
        if op == 'or':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b == 0:
                return a
            if isinstance(b, int):
                # a run of high bits: a | b = (a mod 2^k) + b
                k = (b & -b).bit_length() - 1
                if b == (1 << w) - (1 << k):
                    return recompose(add(modc(a, 1 << k), b))
            # disjoint bit ranges
            for x, y in ((a, b), (b, a)):
                k = low_zero_bits(x, w)
                lo, hi = bounds(y)
                if hi is not None and lo is not None and lo >= 0 and hi < (1 << k):
                    return recompose(add(x, y))
            for x, y in ((a, b), (b, a)):
                k = low_zero_bits(x, w)
                if k and prove(st.pc, lt(y, 1 << k), 2000) is True:
                    return recompose(add(x, y))
            if self.symbolic_bits:
                return self.bit_symbol('or', a, b, w)
            raise Imprecise('or of overlapping values')
        if op == 'xor':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == M - 1:
                    return sub(M - 1, a)
                if b == 0:
                    return a
            if self.symbolic_bits:
                return self.bit_symbol('xor', a, b, w)
            raise Imprecise('xor')
        if op in ('udiv', 'urem'):
            self.oblige(st, T.ne(b, 0), 'no division by zero')
            if isinstance(b, int):
                return divc(a, b) if op == 'udiv' else modc(a, b)
            r = ex(a) / ex(b) if op == 'udiv' else ex(a) % ex(b)
            pin(r)
            return r
        if op in ('sdiv', 'srem'):
            self.oblige(st, T.ne(b, 0), 'no division by zero')
            if isinstance(b, int):
                sb = signed(b, w)
                sa = signed(a, w)
                if sb > 0 and prove(st.pc, ge(sa, 0), 2000) is True:
                    return divc(sa, sb) if op == 'sdiv' else modc(sa, sb)
                if sb > 0 and prove(st.pc, T.eq(modc(sa, sb), 0), 2000) is True:
                    return self.reduce(st, divc(sa, sb), w) if op == 'sdiv' else 0
            raise Imprecise('signed division')
        raise Imprecise('binop %s' % op)

    def bit_symbol(self, op, a, b, w):
        his = [bounds(x)[1] for x in (a, b)]
        his = [(1 << w) - 1 if h is None else h for h in his]
        n = [h.bit_length() for h in his]
        hi = min(his) if op == 'and' else (1 << max(n)) - 1
        return B.define(op, (a, b), hi)

    def cop(self, st, op, w, a, b, flags):
        M = 1 << w
        if op == 'add':
            return (a + b) % M
        if op == 'sub':
            return (a - b) % M
        if op == 'mul':
            return (a * b) % M
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op in ('shl', 'lshr', 'ashr'):
            if b >= w:
                self.oblige(st, False, 'shift amount below width')
            if op == 'shl':
                return (a << b) % M
            if op == 'lshr':
                return a >> b
            return (signed(a, w) >> b) % M
        if b == 0:
            self.oblige(st, False, 'no division by zero')
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        sa, sb = signed(a, w), signed(b, w)
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            q = -q
        if op == 'sdiv':
            return q % M
        return (sa - q * sb) % M

    def bvop(self, st, op, w, a, b):
        f = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b,
             'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b,
             'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b)}
        if op not in f:
            raise Imprecise('bv %s' % op)
        r = z3.simplify(f[op]())
        if z3.is_bv_value(r):
            return r.as_long()
        pin(r)
        return r

    def cast(self, st, op, t1, t2, a):
        if isinstance(a, Pieces):
            n = t2[1] // 8 if t2[0] == 'int' else 0
            a = compose(a.bs[:n]) if op == 'trunc' and n and t2[1] % 8 == 0 and not any(b is UNDEF for b in a.bs[:n]) else UNDEF
            if a is not UNDEF:
                return a
        if a is UNDEF or a is STALE:
            return a
        if op in ('bitcast', 'freeze'):
            if t2[0] == 'fp' and not isinstance(a, FP):
                return FP(a, t2[1])
            if t2[0] == 'int' and isinstance(a, FP):
                return a.bits
            return a
        if op == 'ptrtoint':
            return a if isinstance(a, Ptr) and a.rid is not None else 0
        if op == 'inttoptr':
            if isinstance(a, Ptr):
                return a
            if a == 0:
                return NULL
            raise Imprecise('inttoptr')
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            raise Imprecise('floating point conversion')
        w1, w2 = t1[1], t2[1]
        if isinstance(a, Ptr):
            raise Imprecise('integer view of address')
        if op == 'trunc':
            if is_t(a) and z3.is_bv(a):
                if w2 == 1:
                    return simp_bool(z3.Extract(0, 0, a) == 1)
                return z3.simplify(z3.Extract(w2 - 1, 0, a))
            if w2 == 1:
                return tobool(modc(a, 2)) if not isinstance(a, int) else bool(a & 1)
            return modc(a, 1 << w2)
        if op == 'zext':
            if w1 == 1:
                return ite(tobool(a), 1, 0)
            if is_t(a) and z3.is_bv(a):
                return z3.simplify(z3.ZeroExt(w2 - w1, a))
            return a
        if op == 'sext':
            if w1 == 1:
                return ite(tobool(a), (1 << w2) - 1, 0)
            if is_t(a) and z3.is_bv(a):
                return z3.simplify(z3.SignExt(w2 - w1, a))
            return sext(a, w1, w2)
        raise Imprecise(op)

    # --------------------------------------------------------- calls
    def handler(self, name):
        e = self._handler_cache.get(name)
        if e is None:
            d = self.m.demangle(name)
            e = self._handler_cache[name] = [self.intr.simp(d), 0, d]
        h = self.overrides.get(e[0])
        if h is not None:
            return h
        if e[1] == 0:
            e[1] = self.intr.lookup(name, e[2], self.m)
        return e[1]

    def call(self, st, ins, base_depth, ctx):
        cal = ins.x['callee']
        if cal[0] == 'glob':
            name = cal[1]
        else:
            f = self.val(st, ir.PTR, cal)
            if isinstance(f, FnPtr):
                name = f.name
            else:
                raise Imprecise('indirect call')
        if name.startswith('llvm.'):
            v = self.llvm(st, name, ins)
            if ins.dst is not None:
                st.frames[-1].locals[ins.dst] = v
            st.frames[-1].idx += 1
            return None
        args = [self.val(st, t, v) for t, v, _ in ins.args]
        for (t, v, at), a in zip(ins.args, args):
            pass
        h = self.handler(name)
        if h is not None:
            s2 = st.clone()
            self.cur_ins = ins
            try:
                r = h(self, s2, args, ins)
            except CxxThrow as e:
                return self.throw(s2, ExcVal(e.tname), base_depth, ctx)
            if isinstance(r, Multi):
                out = []
                for s3, rv in r.results:
                    if isinstance(rv, CxxThrow):
                        out.extend(self.throw(s3, ExcVal(rv.tname), base_depth, ctx))
                    else:
                        out.extend(self.finish_call(s3, ins, rv, ctx))
                return out
            return self.finish_call(s2, ins, r, ctx)
        fn = self.m.function(name)
        if fn is None:
            raise Imprecise('external function %s' % self.m.demangle(name))
        if not self.intr.may_execute(name, self.m.demangle(name)):
            raise Imprecise('unmodelled library function %s' % self.m.demangle(name))
        # by-value aggregates are passed as separate scalars by the front end
        self.push_frame(st, fn, args, ins)
        return None

    def finish_call(self, st, ins, r, ctx):
        if ins.dst is not None:
            st.frames[-1].locals[ins.dst] = r
        if ins.op == 'invoke':
            g = self.goto(st, ins.x['normal'], ctx)
            return g if g is not None else [st]
        st.frames[-1].idx += 1
        return [st]

    def llvm(self, st, name, ins):
        args = [self.val(st, t, v) if v is not None else None for t, v, _ in ins.args]
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.experimental.noalias'):
            return None
        if name.startswith('llvm.threadlocal.address'):
            return args[0]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(st, args[0], args[1], args[2])
            return None
        if name.startswith('llvm.memset'):
            self.memset(st, args[0], args[1], args[2])
            return None
        if name.startswith('llvm.eh.typeid.for'):
            v = ins.args[0][1]
            return self.typeid(v[1])
        if name.startswith('llvm.assume'):
            return None
        if name.startswith('llvm.trap'):
            self.oblige(st, False, 'trap is not reached')
        m = re.match(r'llvm\.(umax|umin|smax|smin)\.i(\d+)', name)
        if m:
            a, b = args
            w = int(m.group(2))
            x, y = (signed(a, w), signed(b, w)) if m.group(1)[0] == 's' else (a, b)
            c = ge(x, y) if m.group(1)[1:] == 'max' else le(x, y)
            return ite(c, a, b)
        m = re.match(r'llvm\.(uadd|umul|usub)\.with\.overflow\.i(\d+)', name)
        if m:
            w = int(m.group(2))
            f = {'uadd': add, 'umul': mul, 'usub': sub}[m.group(1)]
            r = f(args[0], args[1])
            ok = band(ge(r, 0), lt(r, 1 << w))
            return Agg([self.reduce(st, r, w), bnot(ok)])
        if name.startswith('llvm.is.constant'):
            return 0
        raise Imprecise('llvm intrinsic %s' % name)

    def memcpy(self, st, d, s, n):
        self.use(st, n, 'length')
        if not isinstance(n, int):
            n2 = quick(T.eq(n, 0), st.pc)
            if n2 is True:
                return
            self.write_range(st, d, self.read_range(st, s, n))
            return
        if n == 0:
            return
        rs = self.region(st, s, 'read')
        rd = self.region(st, d, 'write')
        self.note_write(st, rd, d.rid)
        # cell-wise copy between flat regions / struct elements
        if rs.kind == 'flat' and rd.kind == 'flat':
            so = self.concrete_off(st, s, rs, n)
            do = self.concrete_off(st, d, rd, n)
            if so < 0 or so + n > rs.size:
                self.oblige(st, False, 'read within bounds of %s' % rs.name)
            if do < 0 or do + n > rd.size:
                self.oblige(st, False, 'write within bounds of %s' % rd.name)
            cells = [(o, c) for o, c in rs.cells.items() if so <= o < so + n]
            new = {}
            for o, (sz, v) in cells:
                if isinstance(v, Obj):
                    raise Imprecise('memcpy of an object')
                if o + sz <= so + n:
                    new[o] = (sz, v)
                else:
                    for i in range(so + n - o):
                        new[o + i] = (1, self.flat_byte(st, rs, o + i))
            head = [o for o in range(so - 15, so) if o in rs.cells and o + rs.cells[o][0] > so]
            for o in head:
                for i in range(so, min(o + rs.cells[o][0], so + n)):
                    new[i] = (1, self.flat_byte(st, rs, i))
            fills = {}
            if rs.fill is not None and rs.fill != 'extern':
                covered = set()
                for o, (sz, _) in new.items():
                    covered.update(range(o, o + sz))
                for i in range(so, so + n):
                    if i not in covered:
                        fills[i] = (1, self.filled(st, rs, i, 1, s.rid))
            r = st.wr(d.rid)
            for o in range(do, do + n):
                pass
            self.flat_clear(st, r, do, n)
            for o, c in list(new.items()) + list(fills.items()):
                r.cells[do + (o - so)] = c
            return
        if rs.kind == 'flat' and rd.kind == 'arr' and rd.es > 1 and rd.ety == 'struct' or \
                rs.kind == 'arr' and rs.ety == 'struct':
            # struct copies: field by field
            cells = self.struct_cells(st, s, n)
            for o, (sz, v) in sorted(cells.items()):
                self.put_cell(st, Ptr(d.rid, add(d.off, o)), sz, v)
            return
        if rs.kind == 'arr' and rd.kind == 'arr' and rs.es == rd.es and rs.es > 1:
            si, s0 = self.split_idx(st, rs, s.off)
            di, d0 = self.split_idx(st, rd, d.off)
            cnt = n // rs.es
            if cnt > 512:
                raise Imprecise('large element copy')
            self.oblige(st, le(add(si, cnt), rs.length), 'read within bounds of %s' % rs.name)
            self.oblige(st, le(add(di, cnt), rd.length), 'write within bounds of %s' % rd.name)
            vals = [rs.content.get(add(si, i), st.pc) for i in range(cnt)]
            r = st.wr(d.rid)
            for i, v in enumerate(vals):
                r.content = r.content.push(('set', add(di, i), v))
            return
        self.write_range(st, d, self.read_range(st, s, n))

    def struct_cells(self, st, p, n):
        r = self.region(st, p, 'read')
        if r.kind == 'flat':
            off = self.concrete_off(st, p, r, n)
            return {o - off: c for o, c in r.cells.items() if off <= o < off + n}
        if r.kind == 'arr':
            idx, inner = self.split_idx(st, r, p.off)
            self.oblige(st, band(ge(idx, 0), lt(idx, r.length)), 'read within bounds of %s' % r.name)
            v = r.content.get(idx, st.pc)
            if isinstance(v, dict):
                return {o - inner: c for o, c in v.items() if inner <= o < inner + n}
        raise Imprecise('struct copy')

    def put_cell(self, st, p, sz, v):
        r = self.region(st, p, 'write')
        if isinstance(v, Obj):
            self.setobj(st, p, v)
            return
        if r.kind == 'flat':
            off = self.concrete_off(st, p, r, sz)
            r = st.wr(p.rid)
            self.flat_put(st, r, off, sz, v)
            return
        if r.kind == 'arr':
            idx, inner = self.split_idx(st, r, p.off)
            self.oblige(st, band(ge(idx, 0), lt(idx, r.length)), 'write within bounds of %s' % r.name)
            old = r.content.get(idx, st.pc)
            d = dict(old) if isinstance(old, dict) else {}
            d[inner] = (sz, v)
            r = st.wr(p.rid)
            r.content = r.content.push(('set', idx, d))
            return
        raise Imprecise('put_cell')

    def flat_clear(self, st, r, off, n):
        for o in list(r.cells):
            sz = r.cells[o][0]
            if o < off + n and off < o + sz:
                if off <= o and o + sz <= off + n:
                    del r.cells[o]
                else:
                    v = r.cells[o][1]
                    if isinstance(v, (Ptr, Obj)) or v is UNDEF or v is STALE:
                        del r.cells[o]
                        continue
                    bs = [(o + i, self.flat_byte(st, r, o + i)) for i in range(sz)]
                    del r.cells[o]
                    for oo, b in bs:
                        if not (off <= oo < off + n):
                            r.cells[oo] = (1, b)

    def memset(self, st, d, v, n):
        r = self.region(st, d, 'write')
        self.note_write(st, r, d.rid)
        if r.kind == 'flat':
            n = self.concretise(st, n)
            off = self.concrete_off(st, d, r, n)
            if off < 0 or off + n > r.size:
                self.oblige(st, False, 'write within bounds of %s' % r.name)
            r = st.wr(d.rid)
            self.flat_clear(st, r, off, n)
            for i in range(n):
                r.cells[off + i] = (1, v)
            return
        self.write_range(st, d, Rope((Rep(v, n),)))

    # --------------------------------------------------------- loops
    from .loops import do_loop, unroll_loop, summarise_loop


class Multi:
    """several outcomes of one call: [(state, value or CxxThrow)]"""

    def __init__(self, results):
        self.results = results


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}

OBJ_SIZE = {StrVal: 32, VecVal: 24, OStr: 512, IStr: 520, MapVal: 48}
# the streams' true sizes differ per class; only their first byte is used as their place
OBJ_SIZE[OStr] = 8
OBJ_SIZE[IStr] = 8


def toint(v):
    if isinstance(v, bool) or (is_t(v) and z3.is_bool(v)):
        return ite(v, 1, 0)
    return v


def tobool(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return bool(v & 1) if v in (0, 1) else bool(v)
    if z3.is_bool(v):
        return v
    if z3.is_bv(v):
        return simp_bool(v != 0)
    # If(c, 1, 0)
    if v.decl().kind() == z3.Z3_OP_ITE:
        a, b = v.arg(1), v.arg(2)
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long(), b.as_long()
            if x and not y:
                return v.arg(0)
            if y and not x:
                return bnot(v.arg(0))
    return T.ne(v, 0)


def tobv(v, w):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bv(v):
        if v.size() == w:
            return v
        raise Imprecise('bit vector width')
    raise Imprecise('mixed integer and bit-vector arithmetic')


def sext(a, w1, w2):
    if isinstance(a, int):
        return signed(a, w1) % (1 << w2)
    lo, hi = bounds(a)
    if hi is not None and hi < (1 << (w1 - 1)):
        return a
    return ite(lt(a, 1 << (w1 - 1)), a, add(a, (1 << w2) - (1 << w1)))


def and_const(a, m, w):
    if m == 0:
        return 0
    if m == (1 << w) - 1:
        return a
    if (m & (m + 1)) == 0:
        return modc(a, m + 1)
    # contiguous run of ones from bit lo
    lo = (m & -m).bit_length() - 1
    mm = m >> lo
    if (mm & (mm + 1)) == 0:
        x = divc(a, 1 << lo)
        if (mm + 1) << lo < (1 << w):
            x = modc(x, mm + 1)
        return mul(x, 1 << lo)
    raise Imprecise('and mask')


def low_zero_bits(x, w):
    if isinstance(x, int):
        if x == 0:
            return w
        return (x & -x).bit_length() - 1
    d, c = lin(x)
    k = w
    for q, at in d.values():
        k = min(k, (abs(q) & -abs(q)).bit_length() - 1)
    if c:
        k = min(k, (abs(c) & -abs(c)).bit_length() - 1)
    return k


def whole(v):
    return UNDEF if isinstance(v, Pieces) else v


def table_fn(name, vals, w):
    def f(i):
        if isinstance(i, int):
            if 0 <= i < len(vals):
                return vals[i]
            return UNDEF
        if z3.is_bv(i):
            raise Imprecise('bv index')
        f.symbolic(i)
        lo, hi = bounds(i)
        lo = max(lo or 0, 0)
        hi = min(hi if hi is not None else len(vals) - 1, len(vals) - 1)
        r = z3.IntVal(vals[hi])
        for j in range(hi - 1, lo - 1, -1):
            r = z3.If(i == j, z3.IntVal(vals[j]), r)
        pin(r)
        return r
    f.symbolic = lambda i: None
    f.vals = vals
    return f


def fp_const(x, w):
    import struct
    return FP(int.from_bytes(struct.pack('<f' if w == 32 else '<d', x), 'little'), w)


def fp_hex(v, w):
    import struct
    if w in (64, 80):
        return FP(v, w)
    if w == 32:
        d = struct.unpack('<d', v.to_bytes(8, 'little'))[0]
        return FP(int.from_bytes(struct.pack('<f', d), 'little'), 32)
    raise Imprecise('fp80')


def short(d):
    d = d.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string')
    d = d.replace('std::__cxx11::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t>>', 'wstring')
    d = d.replace('std::basic_ostream<char, std::char_traits<char>>', 'ostream')
    d = d.replace('std::basic_istream<char, std::char_traits<char>>', 'istream')
    d = re.sub(r', std::allocator<[\w: ]+>', '', d)
    return d
