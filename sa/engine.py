"""Driver API: run a most-general-client driver through the abstract interpreter."""
import ast
import textwrap
from . import terms as t
from .terms import T, TRUE, FALSE, ZERO, ONE, NONE, num, lit
from .values import *
from .interp import Interp, State, Frame, is_scalar
from .project import Project, Module


class Run:
    def __init__(self, eng, st, env, raises, log):
        self.eng, self.st, self.env, self.raises, self.log = eng, st, env, raises, log

    @property
    def dead(self):
        return self.st.dead

    def __getitem__(self, k):
        return self.env[k]


class Engine:
    def __init__(self, root='/repo'):
        self.project = Project(root)
        self.I = Interp(self.project)
        self.I.genesis = State()
        self.I.engine = self
        for n, m in list(self.project.modules.items()):
            self.I.project_globals(m)
        self.base_log = list(self.I.log)
        self.I.log.clear()
        self._n = 0
        self.objs = {}
        self.inputs = {}

    # ------------------------------------------------------------ symbolic inputs
    def size(self, name):
        t.POS_SYMS.add(name)
        return t.sym(name, 'int')

    def nat(self, name):
        t.NONNEG_SYMS.add(name)
        return t.sym(name, 'int')

    def int(self, name):
        return t.sym(name, 'int')

    def real(self, name, nonneg=False, pos=False):
        if pos:
            t.POS_SYMS.add(name)
        elif nonneg:
            t.NONNEG_SYMS.add(name)
        return t.sym(name, 'num')

    def bool(self, name):
        return t.sym(name, 'bool')

    def str(self, name):
        return t.sym(name, 'str')

    def array(self, st, name, dims, dtype='f', **flags):
        """fresh caller-owned array with symbolic contents"""
        t.ARR[name] = dict(dtype=dtype, rank=len(dims), dims=tuple(dims), **flags)
        body = t.sel(name, *[t.ix(i) for i in range(len(dims))])
        return self.I.alloc(st, ArrObj(Arr(dims, body, dtype), origin=name))

    # ------------------------------------------------------------ running
    def start(self):
        g = self.I.genesis
        st = State()
        st.heap = dict(g.heap)
        st.frames = dict(g.frames)
        return st

    def run(self, src, inputs=None, st=None, assume=TRUE, name=None):
        """inputs: dict name -> value or callable(st)->value"""
        self._n += 1
        name = name or 'driver%d' % self._n
        src = textwrap.dedent(src)
        m = Module(name, '<%s>' % name, ast.parse(src), '')
        I = self.I
        st = st or self.start()
        t.FACTS[:] = [assume]
        st.assume(assume)
        env = {}
        for k, v in (inputs or {}).items():
            env[k] = v(st) if callable(v) and not isinstance(v, T) else v
        fid = ('drv', self._n)
        st.frames[fid] = env
        I.modglobals[name] = env
        fr = Frame(fid, None, m, None)
        fr.closure = True
        mark = len(I.log)
        saved = I.stack, I.raises, I.loops, I.ret, I.brk, I.cont
        I.stack, I.raises, I.loops, I.ret, I.brk, I.cont = [fr], [[]], (), [], [], []
        try:
            for s in m.tree.body:
                if st.dead:
                    break
                I.exec(st, s, fr)
                I.modglobals[name] = st.frames[fid]
            raises = I.raises[0]
        finally:
            I.stack, I.raises, I.loops, I.ret, I.brk, I.cont = saved
        env = st.frames.get(fid, {})
        r = Run(self, st, env, raises, I.log[mark:])
        r.fid = fid[1]
        return r

    # ------------------------------------------------------------ queries
    def arr(self, st, v):
        return self.I.get_arr(st, v)

    def attr(self, st, v, name):
        return self.I.getattr(st, v, name)
