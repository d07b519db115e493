"""Contract checker for real Python functions: path-exploring symbolic execution of the
instrumented *current* source with loop invariants, contracts for callees and SMT discharge.

Direct style: the instrumented function runs natively on proxy values; every symbolic
branch consults a decision prefix, and the driver re-runs the function once per path.
"""
import ast
import builtins
import inspect
import logging
import os
import subprocess
import sys
import tempfile
import textwrap
import time
import types

import z3


class PathEnd(BaseException):
    """This path is finished (infeasible, or a loop iteration that has been checked)."""


class OutOfReach(BaseException):
    """The code left what the verifier can decide."""
    def __init__(self, reason):
        super().__init__(reason)
        self.reason = reason


class WidenFrame(BaseException):
    """A loop writes a field its contract does not list: restart with that field havocked too."""
    def __init__(self, loop, target):
        self.loop, self.target = loop, target


class Undef:
    """Value of a local that is not bound on the symbolic state."""
    def __getattr__(self, name):
        raise OutOfReach('use of a variable whose value after a loop is unknown')
    def __bool__(self):
        raise OutOfReach('use of a variable whose value after a loop is unknown')


UNDEF = Undef()
STOP = object()
_cur = [None]


def cur():
    return _cur[0]


class Engine:
    def __init__(self, contract, mode='proof', bound=4, time_limit=300.0, solver_ms=10000,
                 max_paths=4000, quick_ms=1500):
        self.quick_ms = quick_ms
        self.contract = contract
        self.mode = mode
        self.bound = bound
        self.deadline = time.time() + time_limit
        self.solver_ms = solver_ms
        self.max_paths = max_paths
        self.obligations = []          # dicts
        self.covered = set()
        self.paths = 0
        self.truncated = 0
        self.solver_time = 0.0
        self.n_checks = 0
        self.functions = {}            # key -> how (inlined / contract / loop)
        self.contracts = {}            # key -> python callable (assumed contract)
        self.loops = {}                # (key, idx) -> LoopSpec
        self.loops_declared, self.loops_met, self.loops_foreign = set(), set(), set()
        self.classes = {}              # real class -> constructor model
        self.native = set()
        self.statics = {}              # (class or module, attribute) -> symbolic value
        self.models = {}               # library callable -> model
        self.refuted = []
        self.oor = None
        self.instr_cache = {}
        self.fail_fast = True
        self.auto_mod = {}

    # ---------------------------------------------------------------- path state
    def start(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.solver_ms)
        self.heap = {}
        self.ghost = {}
        self.counter = 0
        self.serial = 0
        self.touched = []
        self.dead = False
        self.events = []
        self.inputs = {}
        self.contracts, self.loops, self.classes = {}, {}, {}
        self.statics, self.models, self.native = {}, {}, set()
        self.calldepth = 0
        self.objs = []
        self.paths += 1

    def fresh_name(self, base):
        self.counter += 1
        return '%s!%d' % (base, self.counter)

    def fresh(self, base, sort):
        return z3.Const(self.fresh_name(base), sort)

    def touch(self, key):
        self.touched.append(key)

    def next_serial(self):
        self.serial += 1
        return self.serial

    # ---------------------------------------------------------------- solver
    def _check(self, *extra):
        t = time.time()
        if t > self.deadline:
            raise OutOfReach('time limit')
        self.solver.push()
        for x in extra:
            self.solver.add(x)
        r = self.solver.check()
        self.model = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.solver_time += time.time() - t
        self.n_checks += 1
        return r

    def feasible(self, cond):
        # unknown counts as feasible (sound: more paths are explored), so a short limit is enough
        self.solver.set('timeout', self.quick_ms)
        try:
            return self._check(cond) != z3.unsat
        finally:
            self.solver.set('timeout', self.solver_ms)

    def assume(self, cond):
        cond = to_z3bool(cond)
        self.solver.add(cond)

    def end(self):
        self.dead = True
        raise PathEnd()

    def branch(self, cond):
        if self.dead:
            raise PathEnd()
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.solver.add(c if d else z3.Not(c))
            return d
        t = self.feasible(c)
        f = self.feasible(z3.Not(c))
        if t and f:
            self.work.append(self.trace + [False])
            self.trace.append(True)
            self.solver.add(c)
            return True
        if not t and not f:
            self.end()
        self.trace.append(t)
        self.solver.add(c if t else z3.Not(c))
        return t

    def choose(self, label='choice'):
        """Nondeterministic boolean (both values explored)."""
        return self.branch(z3.Const(self.fresh_name('nd_' + label), z3.BoolSort()))

    # ---------------------------------------------------------------- obligations
    def prove(self, name, goal, kind='post'):
        if self.dead:
            return
        goal = to_z3bool(goal)
        if len(self.trace) < len(self.prefix):
            self.solver.add(goal)
            return
        t0 = time.time()
        backend = 'z3'
        g = z3.simplify(goal)
        if z3.is_true(g):
            status, model, backend = 'discharged', None, 'simplifier'
        else:
            r = self._check(z3.Not(goal))
            model = self.model
            if r == z3.unknown:
                r, backend, model = self._second_opinion(goal)
            status = {'unsat': 'discharged', 'sat': 'refuted'}.get(str(r), 'unknown')
        ob = {'name': name, 'kind': kind, 'status': status, 'backend': backend,
              'ms': round(1000 * (time.time() - t0), 1)}
        if status == 'refuted':
            ob['model'] = self._model_text(model)
            conc = getattr(self.contract, 'concretize', None)
            if conc is not None and model is not None:
                try:
                    ob['input'] = conc(self, model)
                except Exception as e:      # concretization is best effort
                    ob['input_error'] = repr(e)
            ob['path'] = list(self.events)[-12:]
            self.refuted.append(ob)
        self.obligations.append(ob)
        self.solver.add(goal)

    def _model_text(self, model):
        if model is None:
            return ''
        try:
            return '\n'.join('%s = %s' % (d, str(model[d])[:300]) for d in model.decls())[:4000]
        except Exception as e:
            return repr(e)

    def _second_opinion(self, goal):
        s = z3.Solver()
        s.add(self.solver.assertions())
        s.add(z3.Not(goal))
        s.set('timeout', 2 * self.solver_ms)
        r = s.check()
        if r != z3.unknown:
            return r, 'z3-fresh', (s.model() if r == z3.sat else None)
        try:
            txt = '(set-logic ALL)\n' + s.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(txt)
            try:
                out = subprocess.run(['cvc5', '--tlimit=%d' % (2 * self.solver_ms), f.name],
                                     capture_output=True, text=True,
                                     timeout=2 * self.solver_ms / 1000 + 5).stdout.strip()
            finally:
                os.unlink(f.name)
            if out.startswith('unsat'):
                return z3.unsat, 'cvc5', None
        except Exception:
            pass
        return z3.unknown, 'z3+cvc5', None

    def cover(self, name):
        if name in self.covered or self.dead:
            return
        if self.feasible(z3.BoolVal(True)):
            self.covered.add(name)

    # ---------------------------------------------------------------- driver
    def explore(self):
        for _ in range(12):
            try:
                return self._explore()
            except WidenFrame as w:
                self.auto_mod.setdefault(w.loop, set()).add(w.target)
                self.obligations, self.refuted, self.paths = [], [], 0
        self.oor = 'frame of a loop does not stabilize'
        return self

    def _explore(self):
        _cur[0] = self
        self.work = [[]]
        try:
            while self.work:
                if self.paths >= self.max_paths:
                    raise OutOfReach('more than %d paths' % self.max_paths)
                if self.mode == 'bounded' and time.time() > self.deadline:
                    self.truncated += 1
                    break
                self.start(self.work.pop())
                try:
                    self.contract.run(self)
                except PathEnd:
                    pass
                if self.refuted and self.fail_fast:
                    break
        except OutOfReach as e:
            import traceback
            self.oor = e.reason
            self.oor_tb = ''.join(traceback.format_exception(e)) if os.environ.get('DV_DEBUG') else None
        except RecursionError:
            self.oor = 'recursion too deep'
        except Exception as e:
            # the contract script tripped over a change of shape of the code
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            self.oor = 'contract not applicable: %r at %s' % (
                e, ['%s:%d' % (os.path.basename(x.filename), x.lineno) for x in tb[-3:]])
            self.oor_tb = ''.join(traceback.format_exception(e))
        finally:
            _cur[0] = None
        return self

    # ---------------------------------------------------------------- instrumentation
    def instrument(self, func):
        func = inspect.unwrap(func) if not isinstance(func, types.FunctionType) else func
        key = fkey(func)
        ck = func.__code__
        if ck in self.instr_cache:
            return self.instr_cache[ck]
        mod = sys.modules[func.__module__]
        tree = function_ast(func)
        ins = Instrumenter(key, func)
        node = ins.visit_top(tree)
        free = list(func.__code__.co_freevars)
        outer = ast.parse('def __dv_factory(__dv, %s):\n  pass' % ', '.join(
            x for x in free)).body[0] if free else ast.parse('def __dv_factory(__dv):\n  pass').body[0]
        outer.body = [node, ast.Return(value=ast.Name(id=node.name, ctx=ast.Load()))]
        m = ast.Module(body=[outer], type_ignores=[])
        ast.fix_missing_locations(m)
        g = dict(mod.__dict__)
        exec(compile(m, '<dv:%s>' % key, 'exec'), g)
        cells = []
        for name, c in zip(free, func.__closure__ or ()):
            cells.append(c.cell_contents)
        from dv import hooks
        new = g['__dv_factory'](hooks, *cells)
        new.__defaults__ = func.__defaults__
        new.__kwdefaults__ = func.__kwdefaults__
        new.__qualname__ = func.__qualname__
        new.__module__ = func.__module__
        new.__dvkey__ = key
        self.instr_cache[ck] = new
        self.functions.setdefault(key, 'instrumented')
        self.instr_info = getattr(self, 'instr_info', {})
        self.instr_info[key] = ins
        return new


def fkey(func):
    return '%s:%s' % (func.__module__, func.__qualname__)


_src_cache = {}


def function_ast(func):
    """Current AST of a function of the tree under verification, read from its file."""
    fn = func.__code__.co_filename
    if fn not in _src_cache:
        with open(fn, encoding='utf-8') as f:
            _src_cache[fn] = ast.parse(f.read())
    line = func.__code__.co_firstlineno
    name = func.__name__
    best = None
    for n in ast.walk(_src_cache[fn]):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == func.__code__.co_name:
            first = min([n.lineno] + [d.lineno for d in n.decorator_list])
            if first == line:
                best = n
    if best is None:
        if func.__code__.co_name == '<lambda>':
            raise OutOfReach('lambda')
        raise OutOfReach('source of %s not found' % name)
    import copy
    return copy.deepcopy(best)


def to_z3bool(c):
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if isinstance(c, (list, tuple)):
        return z3.And([to_z3bool(x) for x in c]) if c else z3.BoolVal(True)
    e = getattr(c, '_e', None)
    if e is not None:
        return e
    return c


# -------------------------------------------------------------------- loops

class LoopSpec:
    """Invariant of one loop.

    inv(c)       list of (name, z3 bool); c gives the locals, c.it the iterator, c.entry
                 a snapshot of the locals on loop entry
    kinds        {local: Kind} for locals whose type cannot be read off the entry value
    modifies(c)  mutable objects changed by the loop (SList, SDict, streams, heap fields)
    decreases(c) optional termination measure (z3 int)
    """
    def __init__(self, inv, kinds=None, modifies=None, decreases=None, kind=None, head_hook=None):
        self.inv = inv
        self.kinds = kinds or {}
        self.modifies = modifies or (lambda c: [])
        self.decreases = decreases
        self.kind = kind
        self.head_hook = head_hook


class Ctx:
    def __init__(self, loc, it=None, entry=None, names=None):
        self.__dict__['_loc'] = loc
        self.__dict__['it'] = it
        self.__dict__['entry'] = entry
        self.__dict__['_names'] = names or {}

    def __getattr__(self, name):
        loc = self._loc
        if name in loc:
            return loc[name]
        alt = self._names.get(name)
        if alt is not None and alt in loc:
            return loc[alt]
        raise OutOfReach('contract refers to local %r which the code no longer has' % name)

    def has(self, name):
        return name in self._loc or self._names.get(name) in self._loc


def strip_locals(loc):
    return {k: v for k, v in loc.items() if not k.startswith('__dv')}


class Loop:
    def __init__(self, key, idx, kind, it):
        E = cur()
        self.E = E
        self.key, self.idx, self.kind = key, idx, kind
        self.it = it
        self.spec = E.loops.get((key, idx)) if E.mode == 'proof' else None
        E.loops_declared.update(E.loops)
        E.loops_met.add((key, idx))
        if self.spec is None and (it is None or getattr(it, 'symbolic', False)):
            E.loops_foreign.add((key, idx))
        if self.spec is not None and self.spec.kind and self.spec.kind != kind:
            raise OutOfReach('loop %d of %s changed from %s to %s' % (idx, key, self.spec.kind, kind))
        if self.spec is not None and it is not None and not getattr(it, 'symbolic', False):
            self.spec = None      # concrete iterable: unrolled completely
        self.arrivals = 0
        self.values = {}

    def names(self):
        return self.E.renames.get(self.key, {}) if hasattr(self.E, 'renames') else {}

    def enter(self, loc, assigned):
        if self.spec is None:
            return
        E = self.E
        loc = strip_locals(loc)
        self.entry = Ctx({k: snapshot(v) for k, v in loc.items()}, snapshot(self.it), None, self.names())
        c = Ctx(loc, self.it, self.entry, self.names())
        for n, g in self.spec.inv(c):
            E.prove('%s#loop%d:entry:%s' % (self.key, self.idx, n), g, 'invariant-entry')
        # havoc
        self.mod = list(self.spec.modifies(c))
        inner = None
        if self.it is not None:
            self.mod.append(self.it)
            inner = vars(self.it).get('it') if hasattr(self.it, '__dict__') else None
            if inner is not None:
                self.mod.append(inner)     # an enumerated iterator advances with its enumeration
        from dv import sym
        for label, name in sorted(E.auto_mod.get((self.key, self.idx), ())):
            for o in E.objs:
                if o.label == label and not any(isinstance(m, sym.Field) and m.obj is o and m.name == name for m in self.mod):
                    self.mod.append(sym.Field(o, name, auto=True))
        for o in self.mod:
            if o is not inner:
                havoc(o)
        from dv import sym
        inv_names = {v: k for k, v in self.names().items()}
        for v in assigned:
            kind = self.spec.kinds.get(v) or self.spec.kinds.get(inv_names.get(v, v))
            if kind is None and v in loc:
                kind = sym.kind_of(loc[v])
            if kind is None:
                if v in loc and any(loc[v] is m for m in self.mod):
                    continue
                self.values[v] = UNDEF
            else:
                self.values[v] = kind.fresh(v)
        loc2 = dict(loc)
        loc2.update(self.values)
        self.loc2 = loc2
        c = Ctx(loc2, self.it, self.entry, self.names())
        for n, g in self.spec.inv(c):
            E.assume(g)
        E.cover('%s#loop%d:invariant-satisfiable' % (self.key, self.idx))

    def has(self, name):
        return name in self.values

    def get(self, name):
        return self.values[name]

    def head(self, loc):
        E = self.E
        self.arrivals += 1
        if self.spec is None:
            if E.mode == 'bounded':
                if self.arrivals > E.bound * 4 + 60:
                    E.truncated += 1
                    E.end()
            elif self.arrivals > getattr(E.contract, 'max_unroll', 80):
                raise OutOfReach('loop %d of %s has no invariant and does not finish' % (self.idx, self.key))
            return True
        c = Ctx(strip_locals(loc), self.it, self.entry, self.names())
        if self.arrivals == 1:
            self.serial0 = E.serial
            self.touch0 = len(E.touched)
            if self.spec.decreases:
                self.meas = self.spec.decreases(c)
            if self.spec.head_hook:
                self.spec.head_hook(c)
            return True
        for n, g in self.spec.inv(c):
            E.prove('%s#loop%d:preserved:%s' % (self.key, self.idx, n), g, 'invariant-preserved')
        if self.spec.decreases:
            m = self.spec.decreases(c)
            E.prove('%s#loop%d:decreases' % (self.key, self.idx), z3.And(self.meas >= 0, m < self.meas), 'termination')
        for t in E.touched[self.touch0:]:
            if not any(same_target(t, m) for m in self.mod) and target_serial(t) <= self.serial0:
                if isinstance(t, tuple) and t[0] == 'field':
                    for o in E.objs:
                        if id(o) == t[1]:
                            raise WidenFrame((self.key, self.idx), (o.label, t[2]))
                raise OutOfReach('loop %d of %s modifies an object its contract does not declare (%r)'
                                 % (self.idx, self.key, t))
        E.end()

    def next(self):
        n = self.it
        if hasattr(n, 'dv_next'):
            return n.dv_next()
        try:
            return next(n)
        except StopIteration:
            return STOP


def same_target(t, m):
    f = getattr(m, 'dv_same', None)
    if f is not None:
        return f(t)
    if isinstance(t, tuple):
        return t == m or (isinstance(m, tuple) and t[:len(m)] == m)
    return t is m


def target_serial(t):
    if isinstance(t, tuple):
        return t[3] if t[0] == 'field' else -1
    return getattr(t, 'serial', -1)


def snapshot(v):
    if v is UNDEF:
        return v
    f = getattr(v, 'dv_snapshot', None)
    return f() if f is not None else v


def havoc(o):
    if isinstance(o, tuple) and o[0] == 'heap':
        E = cur()
        E.heap[o[1]] = E.fresh('H_' + o[1], E.heap[o[1]].sort())
        E.touch(o)
    else:
        o.dv_havoc()


# -------------------------------------------------------------------- AST instrumentation

class AssignedNames(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def _add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self._add(n.id)

    def visit_FunctionDef(self, n):
        self._add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        for g in n.generators:
            self.visit(g.iter)
    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

    def visit_ExceptHandler(self, n):
        if n.name:
            self._add(n.name)
        self.generic_visit(n)

    def visit_ClassDef(self, n):
        self._add(n.name)


def assigned(nodes):
    v = AssignedNames()
    for n in nodes:
        v.visit(n)
    return v.names


def call_(name, *args):
    return ast.Call(func=ast.Attribute(value=ast.Name(id='__dv', ctx=ast.Load()), attr=name, ctx=ast.Load()),
                    args=list(args), keywords=[])


def const(v):
    return ast.Constant(value=v)


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
       ast.Pow: '**', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
       ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}


class Instrumenter(ast.NodeTransformer):
    def __init__(self, key, func):
        self.key = key
        self.func = func
        self.nloop = 0
        self.depth = 0
        self.is_global = set()
        self.local_order = []
        self.loop_kinds = []

    def visit_top(self, node):
        node.decorator_list = []
        node.returns = None
        for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
            a.annotation = None
        node.args.defaults = [ast.Constant(value=None) for _ in node.args.defaults]
        node.args.kw_defaults = [ast.Constant(value=None) if d is not None else None for d in node.args.kw_defaults]
        self.local_order = [a.arg for a in node.args.args] + assigned(node.body)
        self.argnames = [a.arg for a in node.args.args]
        node.body = self.body(node.body)
        return node

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out or [ast.Pass()]

    def visit_FunctionDef(self, node):
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs:
            a.annotation = None
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = self.body(node.body)
        return node

    def visit_Lambda(self, node):
        node.body = self.visit(node.body)
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return None
        return self.visit(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node))

    def visit_Global(self, node):
        return node

    def visit_If(self, node):
        node.test = self.visit(node.test)
        node.body = self.body(node.body)
        node.orelse = self.body(node.orelse) if node.orelse else []
        return node

    def visit_With(self, node):
        node.items = [self.visit(i) for i in node.items]
        node.body = self.body(node.body)
        return node

    def visit_Try(self, node):
        node.body = self.body(node.body)
        for h in node.handlers:
            if h.type is None:
                h.type = ast.Attribute(value=ast.Name(id='__dv', ctx=ast.Load()), attr='BARE', ctx=ast.Load())
            else:
                h.type = self.visit(h.type)
            h.body = self.body(h.body)
        node.orelse = self.body(node.orelse) if node.orelse else []
        node.finalbody = self.body(node.finalbody) if node.finalbody else []
        return node

    def visit_Assert(self, node):
        node.test = self.visit(node.test)
        return node

    # loops ---------------------------------------------------------------
    def _loop(self, node, kind):
        k = self.nloop
        self.nloop += 1
        self.loop_kinds.append(kind)
        L, X, N = '__dvl%d' % k, '__dvx%d' % k, '__dvn%d' % k
        names = assigned(node.body + ([node.target] if kind == 'for' else []) +
                         ([ast.Expr(node.test)] if kind == 'while' else []))
        ld = lambda n: ast.Name(id=n, ctx=ast.Load())
        st = lambda n: ast.Name(id=n, ctx=ast.Store())
        it = self.visit(node.iter) if kind == 'for' else const(None)
        pre = [ast.Assign(targets=[st(L)], value=call_('loop', const(self.key), const(k), const(kind), it)),
               ast.Expr(ast.Call(func=ast.Attribute(value=ld(L), attr='enter', ctx=ast.Load()),
                                 args=[ast.Call(func=ld('locals'), args=[], keywords=[]),
                                       ast.Tuple(elts=[const(n) for n in names], ctx=ast.Load())], keywords=[]))]
        for n in names:
            pre.append(ast.If(
                test=ast.Call(func=ast.Attribute(value=ld(L), attr='has', ctx=ast.Load()), args=[const(n)], keywords=[]),
                body=[ast.Assign(targets=[st(n)], value=ast.Call(
                    func=ast.Attribute(value=ld(L), attr='get', ctx=ast.Load()), args=[const(n)], keywords=[]))],
                orelse=[]))
        pre.append(ast.Assign(targets=[st(X)], value=const(False)))
        stop = [ast.Assign(targets=[st(X)], value=const(True)), ast.Break()]
        if kind == 'while':
            first = [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=self.visit(node.test)), body=stop, orelse=[])]
        else:
            first = [ast.Assign(targets=[st(N)], value=ast.Call(
                        func=ast.Attribute(value=ld(L), attr='next', ctx=ast.Load()), args=[], keywords=[])),
                     ast.If(test=ast.Compare(left=ld(N), ops=[ast.Is()], comparators=[
                         ast.Attribute(value=ld('__dv'), attr='STOP', ctx=ast.Load())]), body=stop, orelse=[]),
                     ast.Assign(targets=[self._target(node.target)], value=ld(N))]
        head = ast.Call(func=ast.Attribute(value=ld(L), attr='head', ctx=ast.Load()),
                        args=[ast.Call(func=ld('locals'), args=[], keywords=[])], keywords=[])
        loop = ast.While(test=head, body=first + self.body(node.body), orelse=[])
        res = pre + [loop]
        if node.orelse:
            res.append(ast.If(test=ld(X), body=self.body(node.orelse), orelse=[]))
        return [ast.copy_location(x, node) for x in res]

    def _target(self, t):
        return t

    def visit_For(self, node):
        if not isinstance(node.target, (ast.Name, ast.Tuple)):
            raise OutOfReach('for target')
        return self._loop(node, 'for')

    def visit_While(self, node):
        return self._loop(node, 'while')

    # assignments to attributes / items -------------------------------------
    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if all(isinstance(t, ast.Name) for t in node.targets):
            return node
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Tuple) and \
                all(isinstance(x, ast.Name) for x in node.targets[0].elts):
            return node
        tmp = '__dvt%d' % self._tmp()
        out = [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=node.value)]
        for t in node.targets:
            out += self._store(t, ast.Name(id=tmp, ctx=ast.Load()))
        return [ast.copy_location(x, node) for x in out]

    def _tmp(self):
        self.depth += 1
        return self.depth

    def _store(self, t, value):
        if isinstance(t, ast.Name):
            return [ast.Assign(targets=[t], value=value)]
        if isinstance(t, ast.Attribute):
            return [ast.Expr(call_('setattr_', self.visit(t.value), const(t.attr), value))]
        if isinstance(t, ast.Subscript):
            return [ast.Expr(call_('setitem', self.visit(t.value), self._index(t.slice), value))]
        if isinstance(t, (ast.Tuple, ast.List)):
            tmp = '__dvt%d' % self._tmp()
            out = [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())],
                              value=call_('unpack', value, const(len(t.elts))))]
            for i, x in enumerate(t.elts):
                out += self._store(x, ast.Subscript(value=ast.Name(id=tmp, ctx=ast.Load()), slice=const(i), ctx=ast.Load()))
            return out
        raise OutOfReach('assignment target %s' % type(t).__name__)

    def _index(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: self.visit(x) if x is not None else const(None)
            return ast.Call(func=ast.Name(id='slice', ctx=ast.Load()), args=[f(s.lower), f(s.upper), f(s.step)], keywords=[])
        return self.visit(s)

    def visit_AugAssign(self, node):
        op = OPS[type(node.op)]
        val = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Name):
            return ast.Assign(targets=[t], value=call_('aug', const(op), ast.Name(id=t.id, ctx=ast.Load()), val))
        tmp = '__dvt%d' % self._tmp()
        tmp2 = '__dvt%d' % self._tmp()
        obj = self.visit(t.value)
        out = [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=obj)]
        o = ast.Name(id=tmp, ctx=ast.Load())
        if isinstance(t, ast.Attribute):
            out.append(ast.Expr(call_('setattr_', o, const(t.attr), call_('aug', const(op), call_('attr', o, const(t.attr)), val))))
        else:
            out.append(ast.Assign(targets=[ast.Name(id=tmp2, ctx=ast.Store())], value=self._index(t.slice)))
            i = ast.Name(id=tmp2, ctx=ast.Load())
            out.append(ast.Expr(call_('setitem', o, i, call_('aug', const(op), call_('getitem', o, i), val))))
        return out

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Name):
                out.append(ast.Delete(targets=[t]))
            elif isinstance(t, ast.Subscript):
                out.append(ast.Expr(call_('delitem', self.visit(t.value), self._index(t.slice))))
            elif isinstance(t, ast.Attribute):
                out.append(ast.Expr(call_('delattr_', self.visit(t.value), const(t.attr))))
            else:
                raise OutOfReach('del')
        return out

    # expressions -------------------------------------------------------------
    def visit_BinOp(self, node):
        return call_('bin', const(OPS[type(node.op)]), self.visit(node.left), self.visit(node.right))

    def visit_UnaryOp(self, node):
        node.operand = self.visit(node.operand)
        if isinstance(node.op, ast.USub):
            return call_('neg', node.operand)
        return node

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            return call_('cmp', const(CMP[type(node.ops[0])]), self.visit(node.left), self.visit(node.comparators[0]))
        parts = []
        left = self.visit(node.left)
        for i, (op, right) in enumerate(zip(node.ops, node.comparators)):
            right = self.visit(right)
            if i < len(node.ops) - 1:
                tmp = '__dvc%d' % self._tmp()
                r = ast.NamedExpr(target=ast.Name(id=tmp, ctx=ast.Store()), value=right)
                parts.append(call_('cmp', const(CMP[type(op)]), left, r))
                left = ast.Name(id=tmp, ctx=ast.Load())
            else:
                parts.append(call_('cmp', const(CMP[type(op)]), left, right))
        return ast.BoolOp(op=ast.And(), values=parts)

    def visit_Attribute(self, node):
        if isinstance(node.ctx, ast.Load):
            return call_('attr', self.visit(node.value), const(node.attr))
        return node

    def visit_Subscript(self, node):
        return call_('getitem', self.visit(node.value), self._index(node.slice))

    def visit_List(self, node):
        if isinstance(node.ctx, ast.Load):
            return call_('mklist', ast.List(elts=[self.visit(e) for e in node.elts], ctx=ast.Load()))
        return node

    def visit_Dict(self, node):
        node.keys = [self.visit(k) if k is not None else None for k in node.keys]
        node.values = [self.visit(v) for v in node.values]
        return call_('mkdict', node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id == 'locals':
            raise OutOfReach('locals()')
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and not node.args:
            node.args = [ast.Constant(value=None), ast.Name(id=self.argnames[0], ctx=ast.Load())]
            node.args[0] = call_('defining_class', const(self.key))
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                args.append(ast.Starred(value=call_('plain_iter', self.visit(a.value)), ctx=ast.Load()))
            else:
                args.append(self.visit(a))
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        if isinstance(node.func, ast.Attribute):
            return ast.Call(func=ast.Attribute(value=ast.Name(id='__dv', ctx=ast.Load()), attr='callm', ctx=ast.Load()),
                            args=[self.visit(node.func.value), const(node.func.attr)] + args, keywords=kws)
        return ast.Call(func=ast.Attribute(value=ast.Name(id='__dv', ctx=ast.Load()), attr='call', ctx=ast.Load()),
                        args=[self.visit(node.func)] + args, keywords=kws)

    def _comp(self, node, kind):
        if len(node.generators) != 1:
            raise OutOfReach('nested comprehension')
        g = node.generators[0]
        params = [x.id for x in ([g.target] if isinstance(g.target, ast.Name) else g.target.elts)]
        mk = lambda body: ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in params],
                                                        kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
        if kind == 'dict':
            elt = ast.Tuple(elts=[self.visit(node.key), self.visit(node.value)], ctx=ast.Load())
        else:
            elt = self.visit(node.elt)
        cond = None
        if g.ifs:
            cs = [self.visit(c) for c in g.ifs]
            cond = cs[0] if len(cs) == 1 else ast.BoolOp(op=ast.And(), values=cs)
        return call_('comp', const(kind), self.visit(g.iter), mk(elt), mk(cond) if cond is not None else const(None),
                     const(len(params) if not isinstance(g.target, ast.Name) else 0))

    def visit_ListComp(self, node):
        return self._comp(node, 'list')

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen')

    def visit_DictComp(self, node):
        return self._comp(node, 'dict')

    def visit_SetComp(self, node):
        return self._comp(node, 'set')

    def visit_JoinedStr(self, node):
        vals = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                vals.append(v)
            else:
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    raise OutOfReach('format spec')
                vals.append(self.visit(v.value))
        return call_('fstr', *vals)
