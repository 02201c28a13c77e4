"""Set-up shared by the proof tasks: the IR of the library, an executor, states, arguments."""
import glob
import os
import re
import subprocess
import tempfile
import z3
from concurrent.futures import ThreadPoolExecutor
from .terms import *
from . import terms as T
from .rope import *
from .mem import *
from . import ir
from .execu import *
from . import execu
from .intrinsics import Intrinsics, simp
from . import intrinsics as I

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ['-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-DNDEBUG', '-Wno-everything', '-Wno-c++11-narrowing', '-S', '-emit-llvm']


class NoCode(Exception):
    pass


def build_ir(repo, out):
    """compiles the library's sources to IR; -> path of the linked module"""
    srcs = [(os.path.join(repo, 'src', s + '.cpp'), s) for s in ('npy', 'dtype', 'npz', 'zip', 'tensor')]
    srcs += [(os.path.join(repo, 'src', 'miniz', 'miniz.cpp'), 'miniz')]
    need = len(srcs)
    known = set(os.path.basename(p) for p, _ in srcs)
    srcs += [(p, 'x-' + os.path.basename(p)[:-4]) for p in sorted(glob.glob(os.path.join(repo, 'src', '*.cpp'))) if os.path.basename(p) not in known]
    srcs += [(os.path.join(HERE, 'tu', s + '.cpp'), s) for s in ('inst', 'boolean')]

    def one(j):
        o = os.path.join(out, j[1] + '.ll')
        p = subprocess.run(['clang++-18'] + FLAGS + ['-I' + repo + '/include', '-I' + repo + '/src', j[0], '-o', o],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, o, p.stdout.decode('utf-8', 'replace')
    with ThreadPoolExecutor(8) as ex_:
        rs = list(ex_.map(one, srcs))
    for i, (rc, o, e) in enumerate(rs):
        if rc and i < need:
            raise NoCode(e[-2000:])
    # instantiations of templates that are gone: the contracts on them have no code
    rs = [r for r in rs if not r[0]]
    allp = os.path.join(out, 'all.ll')
    p = subprocess.run(['llvm-link-18', '-S'] + [o for _, o, _ in rs] + ['-o', allp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise NoCode(p.stdout.decode()[-2000:])
    return allp


class Env:
    def __init__(self, path):
        self.m = ir.Module(path)
        self._idx = None
        self._init = None

    def executor(self):
        e = Executor(self.m, Intrinsics())
        return e

    @property
    def index(self):
        if self._idx is None:
            self._idx = {}
            for n in self.m.functions:
                self._idx.setdefault(simp(self.m.demangle(n)), []).append(n)
        return self._idx

    def find(self, name):
        """function by simplified demangled name (exact), or by prefix before '('"""
        l = self.index.get(name)
        if not l:
            l = [x for d, ns in self.index.items() for x in ns if re.sub(r'\(.*', '', d) == name or d.endswith(' ' + name)]
        if not l:
            raise NoCode('no function %s' % name)
        if len(l) > 1:
            raise NoCode('several functions %s' % name)
        return self.m.functions[l[0]]

    def initial(self):
        """state after the library's static initialisers"""
        if self._init is None:
            noted = GLOBAL_WRITES[0]
            e = self.executor()
            st = State()
            GLOBAL_WRITES[0] = None
            for name in self.ctors():
                rs = e.call_function(st, self.m.functions[name], [])
                if len(rs) != 1 or rs[0].status != 'ret':
                    raise Imprecise('static initialiser %s' % name)
                st = rs[0]
                st.status = None
            st.share([x for x, r in st.regions.items() if r.glob])
            self._init = st
            GLOBAL_WRITES[0] = noted
        return self._init.clone()

    def ctors(self):
        g = self.m.global_def('llvm.global_ctors')
        if g is None or g['init'] is None:
            return []
        out = []
        for _, v in g['init'][1]:
            f = v[1][1][1]
            pr = v[1][0][1][1]
            out.append((pr, f[1]))
        return [n for _, n in sorted(out, key=lambda x: x[0])]


# ----------------------------------------------------------------- arguments
def mk_string(st, rope, name='str'):
    rid = st.alloc_flat(32, name)
    st.wr(rid).cells[0] = (32, StrVal(rope if isinstance(rope, Rope) else lit(rope)))
    return Ptr(rid, 0)


def mk_src(name, length=None, tag=None, hi=255):
    n = length if length is not None else mk(name + '.len', 0, 1 << 40)
    return Source(name, n, hi=hi, tag=tag)


def get_obj(st, p, off=0):
    return st.regions[p.rid].cells[p.off + off][1]
