"""Values, objects, regions and states of the symbolic executor."""
import z3
from .terms import *
from . import terms as T
from .rope import *


class Ptr:
    __slots__ = ('rid', 'off')

    def __init__(self, rid, off=0):
        self.rid, self.off = rid, off

    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.rid, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.rid == o.rid and T.eq(self.off, o.off) is True

    def __hash__(self):
        return hash(self.rid)


NULL = Ptr(None, 0)


class FnPtr:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, FnPtr) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class VTab:
    def __init__(self, place):
        self.place = place


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class Pieces:
    """a value some bytes of which are not initialised (padding of a structure in registers); any use but copying it
    counts as uninitialised"""

    def __init__(self, bs):
        self.bs = tuple(bs)

    def __repr__(self):
        return 'PIECES'


class Stale:
    """value of a cell changed by a summarised loop, not expressible: any use is imprecise"""

    def __repr__(self):
        return 'STALE'


STALE = Stale()


class FP:
    """floating point value, as its bit pattern"""
    __slots__ = ('bits', 'w')

    def __init__(self, bits, w):
        self.bits, self.w = bits, w

    def __eq__(self, o):
        return isinstance(o, FP) and self.w == o.w and T.eq(self.bits, o.bits) is True


class Agg:
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = tuple(vals)

    def __repr__(self):
        return 'Agg%r' % (self.vals,)


# ------------------------------------------------------------------ objects
class Obj:
    comps = ()      # names of the components a loop may change: (attr, kind)

    def with_(self, **kw):
        o = self.__class__.__new__(self.__class__)
        for s in self.__slots__:
            setattr(o, s, kw[s] if s in kw else getattr(self, s))
        return o

    def __repr__(self):
        return '%s(%s)' % (self.__class__.__name__, ', '.join('%s=%r' % (s, getattr(self, s)) for s in self.__slots__))


class StrVal(Obj):
    __slots__ = ('rope', 'es')
    comps = (('rope', 'rope'),)

    def __init__(self, rope, es=1):
        self.rope, self.es = rope, es


class OStr(Obj):
    """output stream: everything written so far, whether it has failed, whether it is open, kind string/file.
    'faulty' files may fail at any write: see intrinsics."""
    __slots__ = ('rope', 'fail', 'open', 'kind', 'path', 'loc')
    comps = (('rope', 'rope'), ('fail', 'bool'), ('open', 'bool'))

    def __init__(self, rope=EMPTY, fail=False, open=True, kind='string', path=None):
        self.rope, self.fail, self.open, self.kind, self.path = rope, fail, open, kind, path
        self.loc = False        # has the classic locale been imbued?


class IStr(Obj):
    """input stream over a rope.  vpos counts the bytes asked for: a read has failed iff vpos > length.
    failx / eofx: failbit / eofbit set for another reason."""
    __slots__ = ('rope', 'vpos', 'failx', 'eofx', 'gcount', 'open', 'kind', 'path', 'loc')
    comps = (('vpos', 'int'), ('failx', 'bool'), ('eofx', 'bool'), ('gcount', 'int'), ('open', 'bool'), ('rope', 'obj'))

    def __init__(self, rope, kind='string', path=None):
        self.rope, self.vpos, self.failx, self.eofx, self.gcount, self.open, self.kind, self.path = \
            rope, 0, False, False, 0, True, kind, path
        self.loc = False        # has the classic locale been imbued?


class LocVal(Obj):
    """std::locale: the classic one, or any other (the global one)"""
    __slots__ = ('classic',)

    def __init__(self, classic):
        self.classic = classic


class VecVal(Obj):
    """std::vector: rid is the region of its elements"""
    __slots__ = ('rid', 'es')

    def __init__(self, rid, es):
        self.rid, self.es = rid, es


class MapVal(Obj):
    """std::map<string, V>: entries ((rope key, rid of value region), ...) in insertion order, latest last.
    other: None or a callable (key rope) -> (present condition, rid) for keys not listed"""
    __slots__ = ('entries', 'vsize', 'other')
    comps = (('entries', 'obj'),)

    def __init__(self, entries=(), vsize=0, other=None):
        self.entries, self.vsize, self.other = tuple(entries), vsize, other


class MapIter(Obj):
    __slots__ = ('rid', 'end')

    def __init__(self, rid, end=False):
        self.rid, self.end = rid, end


class ExcVal(Obj):
    __slots__ = ('tname', 'msg')

    def __init__(self, tname, msg=None):
        self.tname, self.msg = tname, msg


class PathVal(Obj):
    __slots__ = ('rope',)

    def __init__(self, rope):
        self.rope = rope


# ------------------------------------------------------------------ regions
class Content:
    """contents of an array region: layers over a base"""
    __slots__ = ('base', 'layers')

    def __init__(self, base=None, layers=()):
        self.base, self.layers = base, tuple(layers)

    def push(self, layer):
        ls = self.layers
        if layer[0] == 'set':
            # overwrite of the same index
            if ls and ls[-1][0] == 'set' and T.eq(ls[-1][1], layer[1]) is True:
                ls = ls[:-1]
        elif layer[0] == 'bset':
            d = dict(layer[2])
            if ls and ls[-1][0] == 'bset' and T.eq(ls[-1][1], layer[1]) is True:
                d = dict(ls[-1][2])
                d.update(layer[2])
                ls = ls[:-1]
            if ls and ls[-1][0] == 'set' and T.eq(ls[-1][1], layer[1]) is True and scalar(ls[-1][2]):
                old = ls[-1][2]
                return Content(self.base, ls[:-1] + (('set', layer[1], compose([d[j] if j in d else byte_of(old, j) for j in range(layer[3])])),))
            if len(d) == layer[3]:
                layer = ('set', layer[1], compose([d[j] for j in range(layer[3])]))
            else:
                layer = ('bset', layer[1], d, layer[3])
        return Content(self.base, ls + (layer,))

    def get(self, i, pc):
        return self._get(i, pc, len(self.layers) - 1)

    def _get(self, i, pc, top):
        t = top
        while t >= 0:
            l = self.layers[t]
            if l[0] == 'set':
                c = T.eq(i, l[1])
                if c is True:
                    return l[2]
                if c is not False:
                    q = quick(c, pc)
                    if q is True:
                        return l[2]
                    if q is None:
                        if scalar(l[2]):
                            rest = self._get(i, pc, t - 1)
                            if scalar(rest):
                                return ite(c, l[2], rest)
                        raise Fork(c)
            elif l[0] == 'rope':
                lo, r = l[1], l[2]
                c = band(le(lo, i), lt(i, add(lo, r.length())))
                if c is not False and decide(c, pc):
                    return rope_at(r, sub(i, lo), pc)
            elif l[0] == 'bset':
                c = T.eq(i, l[1])
                if c is not False and decide(c, pc):
                    old = self._get(i, pc, t - 1)
                    if old is UNDEF or old is STALE:
                        return old
                    return compose([l[2][j] if j in l[2] else byte_of(old, j) for j in range(l[3])])
            elif l[0] == 'wrope':
                lo, r, es, cnt = l[1:]
                c = band(le(lo, i), lt(i, add(lo, cnt)))
                if c is not False and decide(c, pc):
                    b = mul(sub(i, lo), es)
                    return compose([rope_at(r, add(b, j), pc) for j in range(es)])
            elif l[0] == 'part':
                c = band(T.eq(i, l[1]), bnot(l[2]))
                if c is not False and decide(c, pc):
                    return STALE
            elif l[0] == 'aff':
                a, writes, K = l[1], l[2], l[3]
                for b, fn in reversed(writes):
                    rel = sub(i, b) if a > 0 else sub(b, i)
                    m = modc(rel, abs(a))
                    c1 = T.eq(m, 0)
                    if c1 is False:
                        continue
                    k = divc(rel, abs(a))
                    c = band(c1, ge(k, 0), lt(k, K))
                    if c is False:
                        continue
                    q = quick(c, pc)
                    if q is True:
                        return fn(k)
                    if q is None:
                        v = fn(k)
                        if scalar(v):
                            # remaining writes of this layer cannot match when this one does
                            rest = Content(self.base, self.layers[:t] + ((('aff', a, writes[:writes.index((b, fn))], K),) if writes.index((b, fn)) else ()))
                            rv = rest.get(i, pc)
                            if scalar(rv):
                                return ite(c, v, rv)
                        raise Fork(c)
            elif l[0] == 'hv':
                if l[1] == 'pending':       # only while a loop's form is being guessed
                    v = self._get(i, pc, t - 1)
                    if isinstance(v, dict):
                        return v
                return STALE
            t -= 1
        if self.base is None:
            return UNDEF
        v = self.base(i)
        if is_t(v):
            pin(v)
        return v


def scalar(v):
    return isinstance(v, (int, bool)) or is_t(v)


class Region:
    __slots__ = ('kind', 'name', 'size', 'cells', 'fill', 'es', 'length', 'content', 'ety', 'view', 'tls', 'glob',
                 'const', 'alive', 'external')

    def __init__(self, kind, name, **kw):
        self.kind, self.name = kind, name
        self.size = None
        self.cells = None
        self.fill = None
        self.es = None
        self.length = None
        self.content = None
        self.ety = None
        self.view = None
        self.tls = False
        self.glob = False
        self.const = False
        self.alive = True
        self.external = False
        for k, v in kw.items():
            setattr(self, k, v)

    def copy(self):
        r = Region.__new__(Region)
        for s in self.__slots__:
            setattr(r, s, getattr(self, s))
        if r.cells is not None:
            r.cells = dict(r.cells)
        return r


class Frame:
    __slots__ = ('fn', 'locals', 'block', 'idx', 'prev', 'call', 'allocas', 'loops')

    def __init__(self, fn, locs, call=None):
        self.fn, self.locals, self.call = fn, locs, call
        self.block = fn.entry if fn else None
        self.idx = 0
        self.prev = None
        self.allocas = []

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.locals, f.block, f.idx, f.prev, f.call = \
            self.fn, dict(self.locals), self.block, self.idx, self.prev, self.call
        f.allocas = list(self.allocas)
        return f


class State:
    def __init__(self):
        self.pc = []
        self.regions = {}
        self.frames = []
        self.exc = None
        self.retval = None
        self.retcall = None
        self.status = None
        self.notes = []
        self.nrid = [0]
        self.ghost = {}
        self.bounded = False
        self.wlog = None

    def clone(self):
        s = State.__new__(State)
        s.pc = list(self.pc)
        s.regions = dict(self.regions)
        s.frames = [f.copy() for f in self.frames]
        s.exc = self.exc
        s.retval = self.retval
        s.retcall = self.retcall
        s.status = self.status
        s.notes = list(self.notes)
        s.nrid = self.nrid
        s.ghost = dict(self.ghost)
        s.bounded = self.bounded
        return s

    def assume(self, c):
        if c is True:
            return
        if c is False:
            self.pc.append(z3.BoolVal(False))
            return
        self.pc.append(c)

    def new_region(self, region, hint='r'):
        self.nrid[0] += 1
        rid = '%s#%d' % (hint, self.nrid[0])
        self.regions[rid] = region
        return rid

    def alloc_flat(self, size, name='obj', fill=None):
        return self.new_region(Region('flat', name, size=size, cells={}, fill=fill), name)

    def alloc_arr(self, es, length, content, name='arr', ety=None, **kw):
        return self.new_region(Region('arr', name, es=es, length=length, content=content, ety=ety, **kw), name)

    def wr(self, rid):
        r = self.regions[rid]
        if r.glob and not r.tls:
            if self.ghost.get('guards'):
                # the first call of a function sets up its static variables: see shared_since
                g = self.ghost.get('ginit', ())
                if rid not in g:
                    self.ghost['ginit'] = g + (rid,)
            elif GLOBAL_WRITES[0] is not None:
                GLOBAL_WRITES[0].append((r.name, ''))
        r = r.copy()
        self.regions[rid] = r
        return r

    def reachable(self, rids):
        """the regions that can be reached from these"""
        seen, todo = set(), list(rids)
        while todo:
            x = todo.pop()
            if x in seen or x not in self.regions:
                continue
            seen.add(x)
            r = self.regions[x]
            vals = [v for _, v in (r.cells or {}).values()]
            if r.content is not None:
                if r.content.base is not None and isinstance(r.length, int) and r.length <= 4096 and r.ety is None:
                    try:
                        vals += [r.content.base(i) for i in range(r.length)]
                    except (Imprecise, Fork):
                        pass
                vals += [l[2] for l in r.content.layers if l[0] == 'set']
            todo.extend(refs(vals))
        return seen

    def share(self, rids):
        """these and what they refer to belong to the whole process from now on"""
        for x in self.reachable(rids):
            r = self.regions[x]
            if not r.glob:
                r = r.copy()
                r.glob = True
                self.regions[x] = r


# where writes to state shared by the whole process are noted (a list, or None)
GLOBAL_WRITES = [None]


def refs(vals):
    for v in vals:
        if isinstance(v, Ptr):
            yield v.rid
        elif isinstance(v, Agg):
            yield from refs(v.vals)
        elif isinstance(v, dict):
            yield from refs([x for _, x in v.values()])
        elif isinstance(v, MapVal):
            yield from [rid for _, rid in v.entries]
        elif isinstance(v, VTab):
            yield from refs([v.place])
        elif isinstance(v, Obj) and getattr(v, 'rid', None) is not None:
            yield v.rid
