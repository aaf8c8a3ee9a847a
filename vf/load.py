"""Loads functions of /repo mechanically: parse the current source, rewrite only what
the symbolic run needs (float literals -> exact rationals, / and ** -> exact
operators, loops -> invariant cut points), and execute definitions on demand."""
import ast
import os
import builtins as _b
from fractions import Fraction
import z3
from . import core, snp
from .core import S, C, Unsupported, PathEnd, Restart, Forall, lift, conc, land, lor, lnot, implies, ite
from .snp import SArr, SRange, Dtype, StubAttr

REPO = os.environ.get('VF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


# ------------------------------------------------------------------ rewriting
def assigned_names(nodes):
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    class V(ast.NodeVisitor):
        def visit_Assign(self, n):
            for t in n.targets:
                tgt(t)
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_AnnAssign(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_NamedExpr(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_For(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_With(self, n):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
            self.generic_visit(n)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.append(n.name)
            self.generic_visit(n)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp
    v = V()
    for n in nodes:
        v.visit(n)
    return out


def call(name, *args):
    return ast.Call(ast.Name(name, ast.Load()), list(args), [])


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.nloop = 0
        self.fn = []

    def visit_FunctionDef(self, n):
        self.fn.append((n.name, [0]))
        old = self.nloop
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) \
                and isinstance(n.body[0].value.value, str):
            doc, n.body = n.body[0], n.body[1:] or [ast.Pass()]
        n.returns = None
        self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_arg(self, n):
        n.annotation = None
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return call('_vf_q', ast.Constant(repr(n.value)))
        if isinstance(n.value, complex):
            return call('_vf_cx', ast.Constant(repr(n.value.imag)))
        return n

    def visit_JoinedStr(self, n):
        return ast.Constant('<f-string>')

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return call('_vf_div', n.left, n.right)
        if isinstance(n.op, ast.Pow):
            return call('_vf_pow', n.left, n.right)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.Constant(n.left.value)
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].ifs and not any(
                isinstance(x, (ast.NamedExpr, ast.Await)) for x in ast.walk(n)):
            g = n.generators[0]
            mk = lambda names: ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, [])
            if isinstance(g.target, ast.Name):
                return call('_vf_comp', ast.Lambda(mk([g.target.id]), n.elt), g.iter)
            if isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                return call('_vf_compt', ast.Lambda(mk([e.id for e in g.target.elts]), n.elt), g.iter)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Pow)):
            f = '_vf_idiv' if isinstance(n.op, ast.Div) else '_vf_ipow'
            import copy
            ld = copy.deepcopy(n.target)
            for x in ast.walk(ld):
                if hasattr(x, 'ctx'):
                    x.ctx = ast.Load()
            return ast.Assign([n.target], call(f, ld, n.value))
        return n

    def _ids(self):
        f, c = self.fn[-1] if self.fn else ('<module>', [0])
        k = c[0]
        c[0] += 1
        self.nloop += 1
        return '.'.join(x[0] for x in self.fn), k, self.nloop

    def visit_While(self, n):
        fn, k, u = self._ids()
        names = assigned_names(n.body)
        test = n.test
        self.generic_visit(n)
        return self._cut(fn, k, u, names, None, n.test, n.body, n.orelse)

    def visit_For(self, n):
        fn, k, u = self._ids()
        names = assigned_names(n.body) + [x for x in assigned_names([ast.For(n.target, n.iter, [], [])])]
        names = list(dict.fromkeys(names))
        self.generic_visit(n)
        it = '_vfit%d' % u
        cnt = '_vfk%d' % u
        pre = ast.Assign([ast.Name(it, ast.Store())], call('_vf_iter', n.iter))
        import copy
        native = ast.For(n.target, ast.Name(it, ast.Load()), n.body, n.orelse)
        body = copy.deepcopy(n.body)
        tgt = copy.deepcopy(n.target)
        head = [ast.Assign([tgt], ast.Call(ast.Attribute(ast.Name(it, ast.Load()), 'at', ast.Load()),
                                           [ast.Name(cnt, ast.Load())], [])),
                ast.AugAssign(ast.Name(cnt, ast.Store()), ast.Add(), ast.Constant(1))]
        test = ast.Compare(ast.Name(cnt, ast.Load()), [ast.Lt()],
                           [ast.Attribute(ast.Name(it, ast.Load()), 'n', ast.Load())])
        cut = self._cut(fn, k, u, names + [cnt], (it, cnt), test, head + body, copy.deepcopy(n.orelse))
        init = ast.Assign([ast.Name(cnt, ast.Store())], ast.Constant(0))
        return [pre, ast.If(call('_vf_native', ast.Name(it, ast.Load())), [native], [init] + cut)]

    def _cut(self, fn, k, u, names, forinfo, test, body, orelse):
        st = '_vfst%d' % u
        ex = '_vfex%d' % u
        loc = call('locals')
        args = [ast.Constant(fn), ast.Constant(k), ast.Constant(tuple(names)), ast.Name(st, ast.Load()), loc,
                ast.Constant(forinfo)]
        tup = ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())
        if not names:
            head = ast.Expr(call('_vf_head', *args))
        else:
            head = ast.Assign([tup], call('_vf_head', *args))
        out = [ast.Assign([ast.Name(st, ast.Store())], call('_vf_state')),
               ast.Assign([ast.Name(ex, ast.Store())], ast.Constant(False)),
               ast.While(ast.Constant(True),
                         [head,
                          ast.If(ast.UnaryOp(ast.Not(), test),
                                 [ast.Assign([ast.Name(ex, ast.Store())], ast.Constant(True)), ast.Break()], [])
                          ] + body, [])]
        if orelse:
            out.append(ast.If(ast.Name(ex, ast.Load()), orelse, []))
        return out


# ------------------------------------------------------------------ loops
class Poison(object):
    def __init__(self, nm):
        self.nm = nm

    def __getattr__(self, k):
        if k.startswith('__vf_') or k == '__dict__':
            raise AttributeError(k)
        raise Unsupported('loop variable %s used before it is set' % self.nm)

    def __bool__(self):
        raise Unsupported('loop variable %s used before it is set' % self.nm)


SymIter = snp.SymIter


def vf_comp(f, it):
    it = vf_iter(it)
    if isinstance(it, SymIter):
        if not (lift(it.n) > 0):
            return []
        return SymIter(it.n, snp.memo1(lambda k: f(it.at(k))))
    return [f(x) for x in it]


def vf_compt(f, it):
    return vf_comp(lambda t: f(*t), it)


def vf_iter(x):
    if isinstance(x, SRange):
        if isinstance(x.start, int) and isinstance(x.stop, int):
            return range(x.start, x.stop, x.step)
        if x.step > 0:
            d = sub(x.stop, x.start)
            n = d if x.step == 1 else (lift(d) + (x.step - 1)) // x.step
        else:
            d = sub(x.start, x.stop)
            n = d if x.step == -1 else (lift(d) + (-x.step - 1)) // (-x.step)
        return SymIter(n, lambda k: snp.sx(lift(x.start + k * x.step)))
    if isinstance(x, SArr) and x.ndim > 0 and not isinstance(x.shape[0], int):
        return SymIter(x.shape[0], lambda k: x[k])
    if isinstance(x, SymIter):
        return x
    return x


def sub(a, b):
    return snp.sx(lift(a) - b)


class LoopState(object):
    def __init__(self):
        self.visits = 0
        self.entry = None


class LoopSpec(object):
    """inv(L) -> list of (name, S/bool/Forall); dec(L) -> integer variant;
    kinds: name -> kind for variables unbound at entry; unroll: max native visits"""

    def __init__(self, inv=None, dec=None, kinds=None, names=None, writes=()):
        self.inv, self.dec, self.kinds = inv, dec, kinds or {}
        self.writes = writes          # arrays known to be written (found out by a first exploration otherwise)
        self.names = names


class L(object):
    """view of the locals for invariants"""

    def __init__(self, d, entry=None, k=None, ren=None):
        self.__dict__['_d'], self.__dict__['_e'], self.__dict__['_k'] = d, entry, k
        self.__dict__['_r'] = ren or {}

    def __getattr__(self, n):
        n = self._r.get(n, n)
        try:
            return self._d[n]
        except KeyError:
            raise MissingName(n)

    def old(self, n):
        n = self._r.get(n, n)
        return self._e[n]

    def has(self, n):
        return n in self._d


class MissingName(Exception):
    pass


def havoc_value(nm, v, kind=None):
    p = core.CUR
    if isinstance(v, Poison) or v is None:
        if kind is None:
            return Poison(nm)
        k = kind
    elif isinstance(v, snp.IdxSel) and v.sel is not None and len(v.sel.shape) == 1:
        # a name rebound to flatnonzero(...) in the loop: positions of an arbitrary mask over the same range
        f = snp.fresh_elems('hm_' + nm, 'b', 1)
        return snp.flatnonzero(SArr.new(f, 'b', v.sel.shape))
    elif isinstance(v, SArr):
        return v
    elif isinstance(v, (S, int, Fraction, bool)):
        k = kind or core.kind_of(v)
    elif isinstance(v, C):
        return C(p.fresh_real(nm), p.fresh_real(nm))
    elif hasattr(v, '__vf_havoc__'):
        return v.__vf_havoc__(nm)
    else:
        return Poison(nm)
    if k == 'i':
        return p.fresh_int(nm)
    if k == 'r':
        return p.fresh_real(nm)
    if k == 'b':
        return p.fresh_bool(nm)
    raise Unsupported('havoc kind')


def assert_inv(tag, items):
    p = core.CUR
    for nm, f in items:
        p.ensure('%s: %s' % (tag, nm), f, use=False)


def assume_inv(items):
    p = core.CUR
    for nm, f in items:
        p.assume(f)


def stores_of(loc):
    d = {}
    for nm, v in loc.items():
        if isinstance(v, SArr):
            d.setdefault(id(v.st), (nm, v.st))
        elif hasattr(v, '__vf_store__'):
            for j, st in enumerate(v.__vf_store__()):
                d.setdefault(id(st), ('%s.%d' % (nm, j), st))
        else:
            for j, x in _parts(v):
                if isinstance(x, SArr):
                    d.setdefault(id(x.st), ('%s.%s' % (nm, j), x.st))
    return d


def _parts(v):
    """components of a mutable Python container or object (one level)"""
    if isinstance(v, (list, tuple)):
        return list(enumerate(v))
    if isinstance(v, dict) and not isinstance(v, Globals):
        return [(str(k), x) for k, x in v.items()]
    if isinstance(v, (S, C, SArr, SymIter, SRange, ModProxy, StubAttr, Poison, LoopState)) or isinstance(v, type) \
            or callable(v):
        return []
    d = getattr(v, '__dict__', None)
    return list(d.items()) if isinstance(d, dict) and not hasattr(v, '__vf_store__') else []


def shallow(loc):
    return {nm: [(j, id(x), x) for j, x in _parts(v)] for nm, v in loc.items()}


def same_shallow(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and x[1] == y[1] for x, y in zip(a, b))


def vf_head(fn, k, names, st, loc, forinfo):
    p = core.CUR
    run = p.run
    spec = run.loopspec(fn, k, loc) if hasattr(run, 'loopspec') else None
    p.steps += 1
    if p.steps > 20000:
        raise core.Budget('too many loop steps')
    if spec is None:
        # no invariant: plain unrolling (concrete tests) within a budget
        st.visits += 1
        if forinfo is not None:
            raise Unsupported('no invariant for the symbolic loop %s#%d' % (fn, k))
        if st.visits > getattr(run, 'max_unroll', 60):
            raise Unsupported('no invariant for loop %s#%d' % (fn, k))
        return tuple(loc.get(n, Poison(n)) for n in names)
    tag = '%s loop %d' % (fn, k)
    meta = run.loopmeta.setdefault((fn, k), {'stores': set(), 'kinds': dict(spec.kinds)})
    if st.visits == 0:
        st.visits = 1
        st.entry = dict(loc)
        lv = loop_view(spec, loc, st.entry, forinfo)
        assert_inv(tag + ' entry', spec.inv(lv))
        new = dict(loc)
        for n in names:
            new[n] = havoc_value(n, loc.get(n, Poison(n)), meta['kinds'].get(n))
        ss = stores_of(loc)
        meta['stores'].update(nm for nm, _ in ss.values() if nm.split('.')[0] in getattr(spec, 'writes', ()))
        st.havoc = set()
        for i, (nm, s) in ss.items():
            if nm in meta['stores']:
                s.fn = snp.memo(snp.fresh_elems('h_' + nm.replace('.', '_'), s.k, len(s.shape)))
                s.ver += 1
                st.havoc.add(i)
        st.vers = {i: (s.ver, nm, s) for i, (nm, s) in ss.items()}
        p.loopstack.append(st)
        if forinfo is not None:
            c = new[forinfo[1]]
            n = loc[forinfo[0]].n
            p.assume(c >= 0)
            # the counter never passes the end
            p.assume(lor(c <= n, c == 0))
        lv = loop_view(spec, new, st.entry, forinfo)
        assume_inv(spec.inv(lv))
        st.new = new
        st.shape0 = shallow({n: v for n, v in new.items() if n not in names})
        st.dec0 = spec.dec(lv) if spec.dec else None
        if not p.replaying and not p.feasible(z3.BoolVal(True)):
            raise PathEnd('invariant infeasible')
        return tuple(new[n] for n in names)
    # second visit: the body has been executed once from an arbitrary state
    restart = False
    for i, (ver, nm, s) in st.vers.items():
        if s.ver != ver and i not in st.havoc:
            if nm in meta['stores']:
                raise Unsupported('array %s changes identity in the loop' % nm)
            meta['stores'].add(nm)
            restart = True
    for n in names:
        v = loc.get(n)
        k2 = core.kind_of(v) if not isinstance(v, (SArr, Poison)) else None
        h = st.new.get(n)
        k1 = core.kind_of(h) if not isinstance(h, (SArr, Poison)) else None
        if k1 in ('i', 'b') and k2 == 'r' and meta['kinds'].get(n) != 'r':
            meta['kinds'][n] = 'r'
            restart = True
    if restart:
        raise Restart()
    for n, h in st.new.items():
        v = loc.get(n)
        if isinstance(h, snp.IdxSel) and n in names and isinstance(v, snp.IdxSel) and v.sel is not None and \
                v.imap is None and len(v.sel.shape) == 1 and snp.dim_eq(v.sel.shape[0], h.sel.shape[0]):
            continue
        if isinstance(h, SArr) and n in names and v is not h and not (
                isinstance(v, SArr) and v.st is h.st and v.imap is h.imap and v.shape_ is h.shape_):
            raise Unsupported('array variable %s is rebound in the loop' % n)
        if type(h).__name__ == 'Ptr' and (type(v).__name__ != 'Ptr' or v.arr is not h.arr):
            raise Unsupported('pointer %s is redirected in the loop' % n)
    for n, h in st.shape0.items():
        if not same_shallow(h, [(j, id(x), x) for j, x in _parts(loc.get(n))]):
            raise Unsupported('object %s is mutated in a loop under an invariant' % n)
    lv = loop_view(spec, loc, st.entry, forinfo)
    assert_inv(tag + ' preserved', spec.inv(lv))
    if spec.dec is not None:
        d1 = spec.dec(lv)
        p.ensure(tag + ' terminates', land(lift(d1) < st.dec0, lift(st.dec0) >= 0), use=False)
    raise PathEnd('loop body closed')


def loop_view(spec, loc, entry, forinfo):
    k = loc.get(forinfo[1]) if forinfo is not None else None
    d = dict(loc)
    if forinfo is not None:
        d['_k'] = k                 # completed iterations
        d['_n'] = loc[forinfo[0]].n
        d['_it'] = loc[forinfo[0]]
    ren = resolve_names(spec, d)
    return L(d, entry, k, ren)


def resolve_names(spec, d):
    """map names the invariant mentions onto the locals (renamed variables)"""
    if not spec.names:
        return {}
    missing = [n for n in spec.names if n not in d]
    if not missing:
        return {}
    ren = getattr(core.CUR.run, 'renaming', None) or {}
    if all(n in ren for n in missing):
        return {n: ren[n] for n in missing}
    free = [x for x in d if not x.startswith('_') and x not in spec.names]
    core.CUR.run.rename_need = (missing, free, {x: _kindname(d[x]) for x in free}, spec)
    raise Unsupported('invariant mentions unknown variable(s) %s' % missing)


def _kindname(v):
    if isinstance(v, SArr):
        return 'a'
    return core.kind_of(v) if not isinstance(v, Poison) else '?'


# ------------------------------------------------------------------ builtins
def b_len(x):
    if isinstance(x, SArr):
        if x.ndim == 0:
            raise TypeError('len() of unsized object')
        return x.shape[0]
    if isinstance(x, SymIter):
        return x.n
    if isinstance(x, SRange):
        return core.vmax(lift(x.stop) - x.start, 0)
    if hasattr(x, '__vf_len__'):
        return x.__vf_len__()
    return len(x)


class _Int(int):
    pass


def b_int(x=0, *a):
    if isinstance(x, SArr):
        x = x.item()
    if isinstance(x, str):
        return int(x, *a)
    return snp.sx(snp.cast_scalar(conc(x), 'i'))


def b_float(x=0):
    if isinstance(x, str):
        return conc(float(x))
    return snp.cast_scalar(conc(x), 'r')


def b_bool(x=False):
    if isinstance(x, S):
        return core.tobool(x) if False else bool(x)
    return bool(x)


def b_complex(re=0, im=0):
    return C(re, im) if not isinstance(re, C) else re


def b_abs(x):
    return abs(x)


def b_max(*a, **kw):
    if 'key' in kw:
        return max(*a, **kw)
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SArr):
            return snp.amax(x)
        a = list(x)
        if not a:
            if 'default' in kw:
                return kw['default']
            raise ValueError('max() arg is an empty sequence')
    r = a[0]
    for x in a[1:]:
        if isinstance(x, SArr) or isinstance(r, SArr):
            r = x if bool(x > r) else r
        elif core.is_num(x) and core.is_num(r):
            c = conc(x) > conc(r)
            r = ite(c, x, r) if isinstance(c, S) else (x if c else r)
        else:
            r = x if x > r else r
    return r


def b_min(*a, **kw):
    if 'key' in kw:
        return min(*a, **kw)
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SArr):
            return snp.amin(x)
        a = list(x)
        if not a:
            if 'default' in kw:
                return kw['default']
            raise ValueError('min() arg is an empty sequence')
    r = a[0]
    for x in a[1:]:
        if core.is_num(x) and core.is_num(r):
            c = conc(x) < conc(r)
            r = ite(c, x, r) if isinstance(c, S) else (x if c else r)
        else:
            r = x if x < r else r
    return r


def b_sum(x, start=0):
    if isinstance(x, SArr):
        return start + snp.np_sum(x, 0)
    r = start
    for v in x:
        r = r + v
    return r


def b_round(x, n=None):
    if isinstance(x, S):
        r = snp._round(x)
        return snp.cast_scalar(r, 'i') if n is None else r
    return round(x) if n is None else round(x, n)


def b_isinstance(x, t):
    if isinstance(t, tuple):
        return any(b_isinstance(x, q) for q in t)
    if isinstance(t, Dtype):
        return core.kind_of(x) == t.k and not isinstance(x, SArr)
    if t in (b_float, float):
        return core.kind_of(x) == 'r' and not isinstance(x, SArr)
    if t in (b_int, int):
        return core.kind_of(x) in ('i', 'b') and not isinstance(x, SArr)
    if t in (b_bool, bool):
        return core.kind_of(x) == 'b' and not isinstance(x, SArr)
    if t in (b_complex, complex):
        return isinstance(x, C)
    if isinstance(t, StubAttr):
        return False
    return isinstance(x, t)


def b_type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, S):
        return {'i': b_int, 'r': b_float, 'b': b_bool}[x.k]
    return type(x)


def b_range(*a):
    return snp.make_range(*a)


def b_enumerate(x, start=0):
    if isinstance(x, SArr) and not isinstance(x.shape[0], int):
        return SymIter(x.shape[0], lambda k: (k + start, x[k]))
    return enumerate(x, start)


def b_zip(*xs):
    if any(isinstance(x, SArr) and not isinstance(x.shape[0], int) for x in xs):
        n = None
        for x in xs:
            if not isinstance(x, SArr):
                raise Unsupported('zip of mixed')
            n = x.shape[0] if n is None else core.vmin(lift(n), x.shape[0])
        return SymIter(n, lambda k: tuple(x[k] for x in xs))
    return zip(*xs)


def b_list(x=()):
    return list(x)


def b_sorted(x, **kw):
    return sorted(x, **kw)


def b_all(x):
    if isinstance(x, SArr):
        return snp.np_all(x)
    for v in x:
        if not v:
            return False
    return True


def b_any(x):
    if isinstance(x, SArr):
        return snp.np_any(x)
    for v in x:
        if v:
            return True
    return False


def b_divmod(a, b):
    return a // b, a % b


def vf_q(s):
    return Fraction(s)


def vf_idiv(a, b):
    if isinstance(a, SArr):
        a /= b
        return a
    return core.vdiv(a, b) if core.is_num(a) or isinstance(a, C) else a / b


def vf_div(a, b):
    if isinstance(a, (int, Fraction, float)) and isinstance(b, (int, Fraction, float)):
        return core.vdiv(a, b)
    return a / b


def vf_ipow(a, b):
    if isinstance(a, SArr):
        a **= b
        return a
    return vf_pow(a, b)


def vf_pow(a, b):
    if isinstance(a, (SArr, S, C, int, Fraction, float)) and isinstance(b, (SArr, S, C, int, Fraction, float)):
        return core.vpow(a, b) if not (isinstance(a, SArr) or isinstance(b, SArr)) else snp.power(a, b)
    return a ** b


snp.BUILTIN_KIND.update({b_int: 'i', b_float: 'r', b_bool: 'b', b_complex: 'c'})

BUILTINS = dict(vars(_b))
BUILTINS.update(len=b_len, int=b_int, float=b_float, bool=b_bool, complex=b_complex, abs=b_abs, max=b_max,
                min=b_min, sum=b_sum, all=b_all, any=b_any, round=b_round, isinstance=b_isinstance, range=b_range,
                enumerate=b_enumerate, zip=b_zip, sorted=b_sorted, divmod=b_divmod, print=lambda *a, **k: None,
                _vf_q=vf_q, _vf_cx=lambda s: C(0, Fraction(s)), _vf_div=vf_div, _vf_pow=vf_pow,
                _vf_idiv=vf_idiv, _vf_ipow=vf_ipow, _vf_iter=vf_iter, _vf_comp=vf_comp, _vf_compt=vf_compt,
                _vf_native=lambda it: not isinstance(it, SymIter), _vf_state=LoopState, _vf_head=vf_head)


# ------------------------------------------------------------------ modules
def _passthru_decorator(*a, **k):
    """jit(...)/jit: the compiled function is assumed to compute what its Python source says"""
    if len(a) == 1 and callable(a[0]) and not k and not isinstance(a[0], (StubAttr, NumbaType)):
        return a[0]
    return lambda f: f


class NumbaType(object):
    def __call__(self, *a):
        return self

    def __getitem__(self, k):
        return self


class Mod(object):
    def __init__(self, d):
        self.__dict__['_d'] = d

    def __getattr__(self, k):
        if k in self._d:
            return self._d[k]
        if k.startswith('__'):
            raise AttributeError(k)
        return StubAttr(k)


class _Warn(object):
    def __getattr__(self, k):
        return lambda *a, **kw: None


class CatchWarn(object):
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return []

    def __exit__(self, *a):
        return False


def _numba():
    t = NumbaType()
    return Mod(dict(jit=_passthru_decorator, njit=_passthru_decorator, float64=t, int64=t, int32=t, int8=t, void=t,
                    guvectorize=lambda *a, **k: (lambda f: f)))


class MathMod(object):
    inf = float('inf')

    def __getattr__(self, k):
        m = {'sqrt': snp.sqrt, 'exp': snp.NP.exp, 'log': snp.NP.log, 'sin': snp.NP.sin, 'cos': snp.NP.cos,
             'tanh': snp.NP.tanh, 'fabs': b_abs, 'floor': lambda x: core.floor_(conc(x)),
             'ceil': lambda x: -core.floor_(-conc(x)), 'pi': S(core.PI), 'sinh': snp.NP.sinh, 'cosh': snp.NP.cosh,
             'hypot': snp.hypot, 'atan2': snp.arctan2}
        if k in m:
            return m[k]
        return StubAttr('math.' + k)


class Globals(dict):
    def __init__(self, mod):
        dict.__init__(self)
        self.mod = mod

    def __missing__(self, k):
        return self.mod.resolve(k)


class Module(object):
    """one repository module; definitions are executed when first used"""

    def __init__(self, eng, name, path):
        self.eng, self.name, self.path = eng, name, path
        with open(path, encoding='utf-8', errors='replace') as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.defs = {}
        self.star = []
        self._scan(self.tree.body)
        self.g = Globals(self)
        self.g['__builtins__'] = BUILTINS
        self.g['__name__'] = name
        self.g['__file__'] = path
        self.g['__all__'] = []
        self.busy = set()
        self.used = {}

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs.setdefault(n.name, []).append(n)
            elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                for t in assigned_names([n]):
                    self.defs.setdefault(t, []).append(n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.defs.setdefault(a.asname or a.name.split('.')[0], []).append(n)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if a.name == '*':
                        self.star.append(n)
                    else:
                        self.defs.setdefault(a.asname or a.name, []).append(n)
            elif isinstance(n, ast.Try):
                self._scan(n.body)
                # names only defined in handlers are fallbacks
                for h in n.handlers:
                    for m in h.body:
                        for t in assigned_names([m]):
                            self.defs.setdefault(t, []).append(n)
            elif isinstance(n, (ast.If, ast.With, ast.For)):
                for t in assigned_names([n]):
                    self.defs.setdefault(t, []).append(n)
                if isinstance(n, ast.If):
                    for m in n.body:
                        if isinstance(m, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                            self._scan([m])

    def find(self, k):
        return self.defs.get(k)

    def resolve(self, k):
        if k in self.eng.override and False:
            pass
        ov = self.eng.overrides.get((self.name, k))
        if ov is not None:
            return ov
        if k not in self.defs:
            for n in self.star:
                v = self.eng.import_star(self, n, k)
                if v is not None:
                    self.g[k] = v
                    return v
            if k in BUILTINS:
                return BUILTINS[k]
            raise NameError("name '%s' is not defined" % k)
        if k in self.busy:
            raise NameError(k)
        self.busy.add(k)
        try:
            for n in self.defs[k]:
                self._exec(k, n)
        finally:
            self.busy.discard(k)
        if k not in self.g:
            raise NameError("name '%s' is not defined" % k)
        ov = self.eng.wrap.get((self.name, k))
        if ov is not None:
            self.g[k] = ov(self.g[k])
        return dict.__getitem__(self.g, k)

    def _exec(self, k, n):
        if isinstance(n, ast.Import):
            for a in n.names:
                nm = a.asname or a.name.split('.')[0]
                if nm == k:
                    self.g[k] = self.eng.imp(a.name if a.asname else a.name.split('.')[0])
            return
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                if (a.asname or a.name) == k:
                    self.g[k] = self.eng.imp_from(self, n, a.name)
            return
        import copy
        m = copy.deepcopy(n)
        if isinstance(m, ast.FunctionDef):
            m.decorator_list = [d for d in m.decorator_list if not doc_decorator(d)]
        r = Rewrite().visit(m)
        body = r if isinstance(r, list) else [r]
        tree = ast.Module(body, [])
        ast.fix_missing_locations(tree)
        code = compile(tree, '<repo>' + self.path, 'exec')
        self.used[k] = n
        if isinstance(m, ast.ClassDef):
            # names read while the class body runs (LOAD_NAME does not see lazily defined globals)
            for nm in class_level_names(n):
                if nm not in self.g and nm not in self.busy and nm in self.defs:
                    try:
                        self.resolve(nm)
                    except NameError:
                        pass
        exec(code, self.g)


def class_level_names(c):
    out = []

    def walk(x):
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            for d in list(x.args.defaults) + [q for q in x.args.kw_defaults if q is not None] + list(getattr(x, 'decorator_list', [])):
                walk(d)
            return
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            out.append(x.id)
        for y in ast.iter_child_nodes(x):
            walk(y)
    for b in c.body:
        walk(b)
    return out


def doc_decorator(d):
    s = ast.unparse(d)
    return any(t in s for t in ('_set_seed', 'set_docstring', 'add_docstring', 'extend_docstring'))


class ModProxy(object):
    """attribute access to a lazily executed module"""

    def __init__(self, mod):
        self.__dict__['_m'] = mod

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        m = self._m
        if k in m.g and (m.name, k) not in m.eng.overrides:
            return dict.__getitem__(m.g, k)
        try:
            return m.resolve(k)
        except NameError:
            sub_ = m.eng.find_module(m.name + '.' + k)
            if sub_ is not None:
                return ModProxy(sub_)
            return StubAttr(m.name + '.' + k)


class Engine(object):
    def __init__(self, summaries=None):
        self.mods = {}
        self.overrides = {}
        self.override = {}
        self.wrap = {}
        self.ext = {}

    def newpath(self):
        """forget names imported from other modules (they may denote per-path contracts)"""
        self.overrides.clear()
        self.overrides.update(getattr(self, 'static', {}))
        for m in self.mods.values():
            for k, ns in m.defs.items():
                if k in m.g and any(isinstance(n, ast.ImportFrom) for n in ns):
                    del m.g[k]

    def path_of(self, name):
        base = os.path.join(SRC, *name.split('.'))
        if os.path.isdir(base):
            return os.path.join(base, '__init__.py')
        if os.path.exists(base + '.py'):
            return base + '.py'
        return None

    def find_module(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.path_of(name)
        if p is None:
            return None
        self.mods[name] = Module(self, name, p)
        return self.mods[name]

    def module(self, name):
        m = self.find_module(name)
        if m is None:
            raise Unsupported('no module ' + name)
        return ModProxy(m)

    def imp(self, name):
        if name in self.ext:
            return self.ext[name]
        top = name.split('.')[0]
        if name == 'numpy':
            return snp.NPOBJ
        if name == 'numba':
            return _numba()
        if name == 'warnings':
            return Mod(dict(warn=lambda *a, **k: None, catch_warnings=CatchWarn, simplefilter=lambda *a, **k: None,
                            filterwarnings=lambda *a, **k: None))
        if name == 'math':
            return MathMod()
        if name == 'logging':
            return Mod(dict(info=lambda *a, **k: None, warning=lambda *a, **k: None, debug=lambda *a, **k: None,
                            warn=lambda *a, **k: None, error=lambda *a, **k: None))
        if name in ('itertools', 'collections', 'functools', 'operator', 'abc', 'string', 're', 'copy', 'typing', 'collections.abc'):
            if '.' in name:
                return __import__(name, fromlist=['x'])
            return __import__(name)
        if top == 'wafo':
            if name in ('wafo.plotbackend',):
                return StubAttr(name)
            m = self.find_module(name)
            if m is not None:
                return ModProxy(m)
        return StubAttr(name)

    def imp_from(self, mod, n, what):
        name = n.module or ''
        if n.level:
            pk = mod.name.split('.')
            if not mod.path.endswith('__init__.py'):
                pk = pk[:-1]
            pk = pk[:len(pk) - (n.level - 1)]
            name = '.'.join(pk + ([n.module] if n.module else []))
        if name == '__future__':
            return None
        if name.startswith('wafo') and self.find_module(name + '.' + what) is not None \
                and name + '.' + what != 'wafo.plotbackend':
            m = self.find_module(name)
            if what not in m.defs:
                return ModProxy(self.find_module(name + '.' + what))
        v = getattr(self.imp(name), what, None)
        if (name, what) in self.ext:
            return self.ext[(name, what)]
        return v if v is not None or name == 'numpy' else StubAttr(name + '.' + what)

    def import_star(self, mod, n, k):
        name = n.module or ''
        if n.level:
            pk = mod.name.split('.')
            if not mod.path.endswith('__init__.py'):
                pk = pk[:-1]
            name = '.'.join(pk[:len(pk) - (n.level - 1)] + ([n.module] if n.module else []))
        if name in ('numpy', 'numpy.lib.polynomial'):
            if name == 'numpy' or k.startswith('poly') or k == 'roots':
                try:
                    v = getattr(self.imp('numpy'), k)
                    return None if isinstance(v, StubAttr) else v
                except (AttributeError, Unsupported):
                    return None
            return None
        m = self.find_module(name)
        if m is None:
            return None
        if k in m.defs:
            return getattr(ModProxy(m), k)
        for n2 in m.star:
            v = self.import_star(m, n2, k)
            if v is not None:
                return v
        return None
