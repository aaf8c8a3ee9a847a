"""C front end: clang's JSON AST of the real C file -> Python AST of the engine's subset.
Dropped: nothing but types; int is Z, double is R, conversions are explicit (clang's implicit
casts), pointers are (array, offset) with a bounds obligation on every access."""
import ast
import json
import os
import subprocess
import z3
from . import core, snp, load
from .core import S, Unsupported, lift, land, lnot
from .snp import SArr


class Ptr(object):
    """pointer into an array"""
    heap = None

    def __init__(self, arr, off=0):
        self.arr, self.off = arr, off

    def at(self, off):
        q = Ptr(self.arr, off)
        q.heap = self.heap
        return q

    def __add__(self, k):
        return self.at(snp.sx(lift(self.off + k)))

    def __sub__(self, k):
        if isinstance(k, Ptr):
            return self.off - k.off
        return self.at(snp.sx(lift(self.off - k)))

    def _live(self):
        if self.heap is not None:
            core.CUR.ensure('allocated block is live', land(lnot(self.heap['null']), not self.heap['freed']))

    def __getitem__(self, k):
        self._live()
        return self.arr[snp.sx(lift(self.off + k))]

    def __setitem__(self, k, v):
        self._live()
        if isinstance(v, S) and v.k == 'r' and self.arr.k == 'i':
            v = snp.cast_scalar(v, 'i')
        self.arr[snp.sx(lift(self.off + k))] = v

    def __vf_havoc__(self, nm):
        return self.at(core.CUR.fresh_int(nm + '_off'))

    def __vf_store__(self):
        return [self.arr.st]

    def __eq__(self, o):
        if isinstance(o, Null):
            return self.heap['null'] if self.heap is not None else False
        return self is o

    def __ne__(self, o):
        r = self.__eq__(o)
        return lnot(r) if isinstance(r, S) else not r

    def __bool__(self):
        return bool(self != Null())

    def __hash__(self):
        return id(self)


class Null(object):
    def __eq__(self, o):
        return o.__eq__(self) if isinstance(o, Ptr) else isinstance(o, Null)

    def __ne__(self, o):
        return o.__ne__(self) if isinstance(o, Ptr) else not isinstance(o, Null)

    __hash__ = None

    def __bool__(self):
        return False


def c_malloc(n):
    """fails nondeterministically"""
    q = c_local(snp.sx(lift(n)), 'r')
    q.heap = dict(null=core.CUR.fresh_bool('malloc_fails'), freed=False)
    core.CUR.__dict__.setdefault('malloc', []).append(q.heap['null'])
    return q


def c_free(q):
    if isinstance(q, Null):
        return
    if q.heap is None:
        raise Unsupported('free of a block that was not allocated')
    core.CUR.ensure('free: start of a live block', land(lift(q.off) == 0, not q.heap['freed']))
    q.heap['freed'] = True


class Goto(Exception):
    def __init__(self, label):
        self.label = label


def c_local(n, k):
    return Ptr(SArr.new(snp.fresh_elems('cloc', k, 1), k, (n,)))


def c_div(a, b):
    if isinstance(a, int) and isinstance(b, int):
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q
    a, b = lift(a), lift(b)
    if core.decide(a >= 0) and core.decide(b > 0):
        return a // b
    return core.ite(a >= 0, a // b, -((-a) // b)) if core.decide(b > 0) else _ub()


def _ub():
    raise Unsupported('C division of unknown sign')


def c_mod(a, b):
    return a - c_div(a, b) * b


load.BUILTINS.update(__vf_goto=Goto, __vf_clocal=c_local, __vf_cdiv=c_div, __vf_cmod=c_mod,
                     __vf_trunc=lambda x: snp.sx(snp.cast_scalar(x, 'i')),
                     __vf_toreal=lambda x: snp.cast_scalar(x, 'r'), __vf_uninit=load.Poison)


def clang_ast(path):
    p = subprocess.run(['clang', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w', path], capture_output=True,
                       text=True, timeout=60)
    if p.returncode != 0:
        raise Unsupported('clang: ' + p.stderr[:300])
    return json.loads(p.stdout)


def is_null(n):
    while n['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'):
        if n.get('castKind') == 'NullToPointer':
            return True
        n = n['inner'][0]
    return False


def malloc_call(n):
    while n['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'):
        n = n['inner'][0]
    if n['kind'] != 'CallExpr':
        return False
    f = n['inner'][0]
    while f['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
        f = f['inner'][0]
    return f['kind'] == 'DeclRefExpr' and f['referencedDecl']['name'] == 'malloc'


def nm(x):
    return ast.Name(x, ast.Load())


def st(x):
    return ast.Name(x, ast.Store())


class Tr(object):
    def __init__(self):
        self.pre = []
        self.tmp = 0
        self.effect = False
        self.labels = {}

    def fail(self, n, why=''):
        raise Unsupported('C construct %s %s' % (n.get('kind'), why))

    # -- expressions --------------------------------------------------------
    def isint(self, n):
        t = n.get('type', {}).get('qualType', '')
        return t in ('int', 'long', 'unsigned int', 'char', 'size_t', 'short')

    def ex(self, n):
        k = n['kind']
        inner = n.get('inner', [])
        eff = self.effect
        if k not in ('BinaryOperator', 'CompoundAssignOperator') or n.get('opcode') not in (',', '=', '+=', '-=', '*=', '/='):
            self.effect = False
        else:
            if n['opcode'] != ',' and eff:
                self.effect = False
                v = self.ex(inner[1])
                if n['opcode'] == '=':
                    self.assign(inner[0], v)
                else:
                    self.assign(inner[0], self.opval(n, v))
                return ast.Constant(None)
        if k in ('ParenExpr', 'ConstantExpr', 'CStyleCastExpr', 'ImplicitCastExpr'):
            ck = n.get('castKind', '')
            if ck == 'NullToPointer':
                return load.call('__c_null')
            v = self.ex(inner[0])
            if ck == 'BitCast' and (malloc_call(inner[0]) or is_null(inner[0]) or
                                    n.get('type', {}).get('qualType') == 'void *'):
                return v
            if ck == 'FloatingToIntegral':
                return load.call('__vf_trunc', v)
            if ck == 'IntegralToFloating':
                return load.call('__vf_toreal', v)
            if ck in ('', 'LValueToRValue', 'NoOp', 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'IntegralCast',
                      'FloatingCast', 'BuiltinFnToFnPtr'):
                return v
            self.fail(n, ck)
        if k == 'IntegerLiteral':
            return ast.Constant(int(n['value']))
        if k == 'FloatingLiteral':
            return load.call('_vf_q', ast.Constant(n['value']))
        if k == 'DeclRefExpr':
            return nm(n['referencedDecl']['name'])
        if k == 'UnaryOperator':
            op = n['opcode']
            if op in ('++', '--'):
                t = inner[0]
                d = ast.Add() if op == '++' else ast.Sub()
                name = self.lname(t)
                if n.get('isPostfix') and not eff:
                    self.tmp += 1
                    tm = '__c%d' % self.tmp
                    self.pre.append(ast.Assign([st(tm)], nm(name)))
                    self.pre.append(ast.Assign([st(name)], ast.BinOp(nm(name), d, ast.Constant(1))))
                    return nm(tm)
                self.pre.append(ast.Assign([st(name)], ast.BinOp(nm(name), d, ast.Constant(1))))
                return nm(name)
            if op == '-':
                return ast.UnaryOp(ast.USub(), self.ex(inner[0]))
            if op == '+':
                return self.ex(inner[0])
            if op == '!':
                return ast.UnaryOp(ast.Not(), self.ex(inner[0]))
            if op == '*':
                return ast.Subscript(self.ex(inner[0]), ast.Constant(0), ast.Load())
            if op == '&':
                t = inner[0]
                while t['kind'] == 'ParenExpr':
                    t = t['inner'][0]
                if t['kind'] == 'ArraySubscriptExpr':
                    return ast.BinOp(self.ex(t['inner'][0]), ast.Add(), self.ex(t['inner'][1]))
                if t['kind'] == 'UnaryOperator' and t['opcode'] == '*':
                    return self.ex(t['inner'][0])
            self.fail(n, op)
        if k == 'ArraySubscriptExpr':
            return ast.Subscript(self.ex(inner[0]), self.ex(inner[1]), ast.Load())
        if k == 'BinaryOperator':
            op = n['opcode']
            if op in ('&&', '||'):
                a = self.ex(inner[0])
                m = len(self.pre)
                b = self.ex(inner[1])
                if len(self.pre) != m:
                    self.fail(n, 'side effect in short-circuit operand')
                return ast.BoolOp(ast.And() if op == '&&' else ast.Or(), [a, b])
            if op == '=':
                v = self.ex(inner[1])
                self.tmp += 1
                tm = '__c%d' % self.tmp
                self.pre.append(ast.Assign([st(tm)], v))
                self.assign(inner[0], nm(tm))
                return nm(tm)
            if op == ',':
                eff = self.effect
                self.effect = True
                self.ex(inner[0])
                self.effect = eff
                return self.ex(inner[1])
            a, b = self.ex(inner[0]), self.ex(inner[1])
            cmp = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq}
            if op in cmp:
                return ast.Compare(a, [cmp[op]()], [b])
            if op == '/':
                return load.call('__vf_cdiv' if self.isint(n) else '_vf_div', a, b)
            if op == '%':
                return load.call('__vf_cmod', a, b)
            ar = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult}
            if op in ar:
                return ast.BinOp(a, ar[op](), b)
            self.fail(n, op)
        if k == 'CompoundAssignOperator':
            self.tmp += 1
            tm = '__c%d' % self.tmp
            self.pre.append(ast.Assign([st(tm)], self.opval(n, self.ex(inner[1]))))
            self.assign(inner[0], nm(tm))
            return nm(tm)
        if k == 'CallExpr':
            f = self.ex(inner[0])
            args = [self.ex(a) for a in inner[1:]]
            m = {'fabs': 'abs', 'abs': 'abs', 'floor': '__c_floor', 'ceil': '__c_ceil', 'tanh': '__c_tanh',
                 'sinh': '__c_sinh', 'cosh': '__c_cosh', 'sqrt': '__c_sqrt', 'exp': '__c_exp', 'fmax': 'max',
                 'fmin': 'min', 'pow': '_vf_pow'}
            if isinstance(f, ast.Name) and f.id == 'printf':
                return ast.Constant(0)
            if isinstance(f, ast.Name) and f.id in m:
                f = nm(m[f.id])
            elif isinstance(f, ast.Name) and f.id in ('malloc', 'free'):
                return ast.Call(nm('__c_' + f.id), args, [])
            return ast.Call(f, args, [])
        if k == 'UnaryExprOrTypeTraitExpr':
            return ast.Constant(1)      # sizeof counts elements
        if k == 'ConditionalOperator':
            c = self.ex(inner[0])
            m = len(self.pre)
            a, b = self.ex(inner[1]), self.ex(inner[2])
            if len(self.pre) != m:
                self.fail(n)
            return ast.IfExp(c, a, b)
        self.fail(n)

    def opval(self, n, v):
        op, t = n['opcode'], n['inner'][0]
        ar = {'+=': ast.Add, '-=': ast.Sub, '*=': ast.Mult}
        m = len(self.pre)
        cur = self.ex(t)
        if len(self.pre) != m:
            self.fail(n, 'side effect in compound assignment target')
        if op in ar:
            return ast.BinOp(cur, ar[op](), v)
        if op == '/=':
            return load.call('__vf_cdiv' if self.isint(n) else '_vf_div', cur, v)
        self.fail(n, op)

    def lname(self, t):
        while t['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            t = t['inner'][0]
        if t['kind'] != 'DeclRefExpr':
            self.fail(t, 'lvalue')
        return t['referencedDecl']['name']

    def assign(self, t, v):
        while t['kind'] == 'ParenExpr':
            t = t['inner'][0]
        if t['kind'] == 'DeclRefExpr':
            self.pre.append(ast.Assign([st(t['referencedDecl']['name'])], v))
        elif t['kind'] == 'ArraySubscriptExpr':
            base, ix = self.ex(t['inner'][0]), self.ex(t['inner'][1])
            self.pre.append(ast.Assign([ast.Subscript(base, ix, ast.Store())], v))
        elif t['kind'] == 'UnaryOperator' and t['opcode'] == '*':
            base = self.ex(t['inner'][0])
            self.pre.append(ast.Assign([ast.Subscript(base, ast.Constant(0), ast.Store())], v))
        else:
            self.fail(t, 'assignment target')

    def take(self):
        p, self.pre = self.pre, []
        return p

    # -- statements -----------------------------------------------------------
    def block(self, n):
        if n['kind'] == 'CompoundStmt':
            return self.seq(n.get('inner', []))
        return self.seq([n])

    def seq(self, items):
        # labels at this level split the sequence (forward gotos only)
        segs, labs = [[]], [None]
        for s in items:
            while s['kind'] == 'LabelStmt':
                segs.append([])
                labs.append(s['name'])
                s = s['inner'][0]
            segs[-1].append(s)
        if len(segs) == 1:
            out = []
            for s in segs[0]:
                out += self.stmt(s)
            return out or [ast.Pass()]
        out = [ast.Assign([st('__goto')], ast.Constant(None))]
        for j, (seg, lab) in enumerate(zip(segs, labs)):
            body = []
            for s in seg:
                body += self.stmt(s)
            body = body or [ast.Pass()]
            later = labs[j + 1:]
            if later:
                self.tmp += 1
                ev = '__e%d' % self.tmp
                h = ast.ExceptHandler(nm('__vf_goto'), ev, [
                    ast.If(ast.Compare(ast.Attribute(nm(ev), 'label', ast.Load()), [ast.NotIn()],
                                       [ast.Constant(tuple(later))]), [ast.Raise()], []),
                    ast.Assign([st('__goto')], ast.Attribute(nm(ev), 'label', ast.Load()))])
                body = [ast.Try(body, [h], [], [])]
            reset = ast.Assign([st('__goto')], ast.Constant(None))
            test = ast.Compare(nm('__goto'), [ast.Is()], [ast.Constant(None)])
            if lab is None:
                out += body
            else:
                out.append(ast.If(ast.BoolOp(ast.Or(), [test, ast.Compare(nm('__goto'), [ast.Eq()],
                                                                         [ast.Constant(lab)])]),
                                  [reset] + body, []))
        return out

    def stmt(self, n):
        k = n['kind']
        inner = n.get('inner', [])
        if k == 'CompoundStmt':
            return self.seq(inner)
        if k == 'NullStmt':
            return []
        if k == 'DeclStmt':
            out = []
            for d in inner:
                if d['kind'] != 'VarDecl':
                    self.fail(d)
                t = d['type']['qualType']
                if '[' in t:
                    sz = int(t[t.index('[') + 1:t.index(']')])
                    kk = 'i' if t.startswith('int') else 'r'
                    out.append(ast.Assign([st(d['name'])], load.call('__vf_clocal', ast.Constant(sz), ast.Constant(kk))))
                elif d.get('inner'):
                    v = self.ex(d['inner'][0])
                    out += self.take()
                    out.append(ast.Assign([st(d['name'])], v))
                else:
                    out.append(ast.Assign([st(d['name'])], load.call('__vf_uninit', ast.Constant(d['name']))))
            return out
        if k == 'IfStmt':
            c = self.ex(inner[0])
            pre = self.take()
            a = self.block(inner[1])
            b = self.block(inner[2]) if len(inner) > 2 else []
            return pre + [ast.If(c, a, b)]
        if k == 'ForStmt':
            init, _, cond, inc, body = inner
            out = self.stmt(init) if init else []
            c = self.ex(cond) if cond else ast.Constant(True)
            if self.take():
                self.fail(n, 'side effect in condition')
            if has_continue(body):
                # continue must still run the increment
                incs = self.incs(inc)
                b = self.block(body)
                b = add_inc(b, incs)
                return out + [ast.While(c, b + incs, [])]
            b = self.block(body)
            return out + [ast.While(c, b + self.incs(inc), [])]
        if k == 'WhileStmt':
            c = self.ex(inner[0])
            if self.take():
                self.fail(n, 'side effect in condition')
            return [ast.While(c, self.block(inner[1]), [])]
        if k == 'DoStmt':
            b = self.block(inner[0])
            c = self.ex(inner[1])
            pre = self.take()
            return [ast.While(ast.Constant(True), b + pre + [ast.If(ast.UnaryOp(ast.Not(), c), [ast.Break()], [])], [])]
        if k == 'BreakStmt':
            return [ast.Break()]
        if k == 'ContinueStmt':
            return [ast.Continue()]
        if k == 'ReturnStmt':
            v = self.ex(inner[0]) if inner else ast.Constant(None)
            return self.take() + [ast.Return(v)]
        if k == 'GotoStmt':
            return [ast.Raise(load.call('__vf_goto', ast.Constant(self.labels[n['targetLabelDeclId']])), None)]
        if k == 'LabelStmt':
            return self.seq([n])
        if k == 'SwitchStmt':
            return self.switch(n)
        self.effect = True
        v = self.ex(n)
        self.effect = False
        return self.take()

    def incs(self, inc):
        if not inc:
            return []
        self.effect = True
        self.ex(inc)
        self.effect = False
        return self.take()

    def switch(self, n):
        v = self.ex(n['inner'][0])
        out = self.take()
        self.tmp += 1
        t = '__sw%d' % self.tmp
        out.append(ast.Assign([st(t)], v))
        chain, default = [], []
        items = n['inner'][1].get('inner', [])
        i = 0
        groups = []
        for s in items:
            vals = []
            while s['kind'] in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'CaseStmt':
                    vals.append(self.ex(s['inner'][0]))
                    s = s['inner'][1]
                else:
                    vals.append(None)
                    s = s['inner'][0]
            if vals:
                groups.append((vals, [s]))
            else:
                groups[-1][1].append(s)
        for vals, body in groups:
            b = self.seq(body)
            b = strip_break(b)
            if b is None:
                self.fail(n, 'switch fallthrough')
            if None in vals:
                default = b
                if len(vals) > 1:
                    self.fail(n)
            else:
                test = ast.Compare(nm(t), [ast.Eq()], [vals[0]])
                if len(vals) > 1:
                    test = ast.BoolOp(ast.Or(), [ast.Compare(nm(t), [ast.Eq()], [x]) for x in vals])
                chain.append((test, b))
        cur = default
        for test, b in reversed(chain):
            cur = [ast.If(test, b, cur)]
        return out + cur


def has_continue(n):
    if n.get('kind') == 'ContinueStmt':
        return True
    if n.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt'):
        return False
    return any(has_continue(c) for c in n.get('inner', []) if c)


def add_inc(body, incs):
    class T(ast.NodeTransformer):
        def visit_While(self, n):
            return n

        def visit_Continue(self, n):
            import copy
            return [copy.deepcopy(i) for i in incs] + [n]
    return [y for b in body for y in _aslist(T().visit(b))]


def _aslist(x):
    return x if isinstance(x, list) else [x]


def strip_break(b):
    """case body must end with break and have no other break of this switch"""
    if not b:
        return None
    if isinstance(b[-1], ast.Break):
        b = b[:-1] or [ast.Pass()]
    elif isinstance(b[-1], (ast.Return, ast.Raise)):
        pass
    else:
        return None
    for s in b:
        if has_break(s):
            return None
    return b


def has_break(n):
    if isinstance(n, ast.Break):
        return True
    if isinstance(n, (ast.While, ast.For)):
        return False
    return any(has_break(c) for c in ast.iter_child_nodes(n))


def collect_labels(n, out):
    if isinstance(n, dict):
        if n.get('kind') == 'LabelStmt':
            out[n['declId']] = n['name']
        for c in n.get('inner', []):
            if c:
                collect_labels(c, out)


CACHE = {}


class CFile(object):
    def __init__(self, path):
        self.path = path
        self.tree = clang_ast(path)
        self.funcs = {}
        for n in self.tree['inner']:
            if n['kind'] == 'FunctionDecl' and any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
                self.funcs[n['name']] = n
        self.g = dict(__builtins__=dict(load.BUILTINS))
        N = snp.NP
        self.g.update(__c_floor=N.floor, __c_ceil=N.ceil, __c_tanh=N.tanh, __c_sinh=N.sinh, __c_cosh=N.cosh,
                      __c_sqrt=N.sqrt, __c_exp=N.exp, __c_malloc=c_malloc, __c_free=c_free, __c_null=Null)
        self.used = set()

    def get(self, name):
        if name not in self.g:
            n = self.funcs.get(name)
            if n is None:
                raise Unsupported('no C function ' + name)
            tr = Tr()
            collect_labels(n, tr.labels)
            params = [c['name'] for c in n['inner'] if c['kind'] == 'ParmVarDecl']
            body = [c for c in n['inner'] if c['kind'] == 'CompoundStmt'][0]
            b = tr.seq(body.get('inner', []))
            f = ast.FunctionDef(name, ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []),
                                b or [ast.Pass()], [], None)
            f.type_params = []
            f = load.Rewrite().visit(f)
            t = ast.Module([f], [])
            ast.fix_missing_locations(t)
            self.src = ast.unparse(t)
            exec(compile(t, '<repo>' + self.path, 'exec'), self.g)
            self.used.add(name)
            # helpers called by this function
            for x in ast.walk(t):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in self.funcs:
                    self.get(x.func.id)
        return self.g[name]


def cfile(rel='source/c_library/c_functions.c'):
    p = os.path.join(load.REPO, rel)
    if p not in CACHE:
        CACHE[p] = CFile(p)
    return CACHE[p]
