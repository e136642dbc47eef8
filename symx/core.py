"""Path exploration: the code under test runs on symbolic proxies, every branch on a symbolic condition is decided by
the solver, and the run is repeated once per feasible path."""
import itertools
import os
import sys
import time
import z3
from . import poly as P
from .poly import SPACE, Inconclusive, SUBST, learn


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver = 0.0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.forks = 0
        self.trivial = 0


STATS = Stats()
TIMEOUT = 20000
SLOW = float(os.environ.get('SYMX_SLOW', 0))


def zvars(expr, cache={}):
    """ids of the engine variables in a z3 expression"""
    key = expr.get_id()
    hit = cache.get(key)
    if hit is not None and hit[0].eq(expr):
        return hit[1]
    found = set()
    seen = set()
    todo = [expr]
    while todo:
        cur = todo.pop()
        if cur.get_id() in seen:
            continue
        seen.add(cur.get_id())
        if z3.is_const(cur) and cur.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            found.add(cur.decl().name())
        else:
            todo.extend(cur.children())
    cache[key] = (expr, found)
    return found


def deepVars(expr, byName):
    names = set(zvars(expr))
    todo = list(names)
    while todo:
        var = byName.get(todo.pop())
        if var is None:
            continue
        for side in var.side:
            for name in zvars(side)-names:
                names.add(name)
                todo.append(name)
    return names


def closure(exprs, pool, deep=False):
    """exprs plus every constraint of pool and every side relation connected to them through shared variables"""
    byName = {v.name: v for v in SPACE.vars}
    names = set()
    for expr in exprs:
        names |= zvars(expr)
    chosen = list(exprs)
    done = set()
    poolLeft = [(p, deepVars(p, byName) if deep else zvars(p)) for p in pool]
    while True:
        new = names-done
        for name in new:
            var = byName.get(name)
            if var is not None:
                for side in var.side:
                    chosen.append(side)
                    names |= zvars(side)
        done |= new
        rest = []
        grew = False
        for con, vs in poolLeft:
            if vs & names or not vs:
                chosen.append(con)
                names |= vs
                grew = True
            else:
                rest.append((con, vs))
        poolLeft = rest
        if not (names-done) and not grew:
            return chosen, names


def solve(exprs, pool=(), timeout=None, model=False):
    """('sat', model) / ('unsat', None) / ('unknown', None)"""
    timeout = timeout or TIMEOUT
    start = time.time()
    STATS.queries += 1
    byName = {v.name: v for v in SPACE.vars}
    cons, names = closure(list(exprs), pool)
    res, sol = _ask(cons, names, byName, timeout)
    if res != z3.unsat and pool:
        # constraints that reach the query only through the relations of their own variables
        more, names = closure(list(exprs), pool, deep=True)
        if len(more) > len(cons):
            res, sol = _ask(more, names, byName, timeout)
    STATS.solver += time.time()-start
    if res == z3.sat:
        STATS.sat += 1
        return 'sat', (sol.model() if model else None)
    if res == z3.unsat:
        STATS.unsat += 1
        return 'unsat', None
    STATS.unknown += 1
    return 'unknown', None


def _factors(expr):
    """the factors of a product, without its constants"""
    if expr.decl().kind() == z3.Z3_OP_MUL:
        out = []
        for sub in expr.children():
            out.extend(_factors(sub))
        return out
    if expr.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(expr.arg(1)):
        exp = expr.arg(1).as_fraction()
        if exp.denominator == 1 and 0 < exp < 8:
            return _factors(expr.arg(0))*int(exp)
    return [expr]


def _linearised(expr, products, cache):
    """expr (sums of monomials) with every product of variables replaced by a variable of its own"""
    key = expr.get_id()
    if key in cache:
        return cache[key][1]
    kind = expr.decl().kind()
    if kind in (z3.Z3_OP_MUL, z3.Z3_OP_POWER):
        const, vs = [], []
        for sub in _factors(expr):
            (const if z3.is_rational_value(sub) or z3.is_int_value(sub) else vs).append(sub)
        if len(vs) > 1:
            vs.sort(key=lambda v: v.get_id())
            ident = tuple(v.get_id() for v in vs)
            if ident not in products:
                products[ident] = (z3.FreshReal('product') if expr.is_real() else z3.FreshInt('product'), vs)
            res = products[ident][0]
            for val in const:
                res = val*res
        else:
            res = expr
    elif expr.num_args() == 0:
        res = expr
    else:
        res = expr.decl()(*[_linearised(sub, products, cache) for sub in expr.children()]) \
            if kind not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD) else \
            {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_ADD: z3.Sum}[kind](
                [_linearised(sub, products, cache) for sub in expr.children()])
    cache[key] = (expr, res)     # the expression is kept alive, ids are reused otherwise
    return res


def _linearlyUnsat(cons):
    """is the conjunction already unsatisfiable when the products are free variables with the right sign"""
    products, cache = {}, {}
    lin = [_linearised(z3.simplify(con, som=True), products, cache) for con in cons]
    if not products:
        return False
    sol = z3.Solver()
    sol.set('timeout', 1000)
    sol.add(*lin)
    for var, factors in products.values():
        sol.add(z3.Implies(z3.And(*[f > 0 for f in factors]), var > 0))
    return sol.check() == z3.unsat


def _small(cons, names, byName, timeout):
    """a solution in which the integer inputs are small numbers"""
    ints = sorted((byName[n].z for n in names if n in byName and byName[n].isint), key=str)[:4]
    start = time.time()
    for vals in itertools.product(*[(1, 2, 0, 3)]*len(ints)):
        sol = z3.SolverFor('QF_NRA')
        sol.set('timeout', 300)
        sol.add(*[z3.substitute(con, *[(z, z3.IntVal(v)) for z, v in zip(ints, vals)]) for con in cons])
        if sol.check() == z3.sat:
            # the caller reads the model: the chosen integers must be part of it
            sol.add(*[z == v for z, v in zip(ints, vals)])
            if sol.check() == z3.sat:
                return sol
        if time.time()-start > timeout/1000:
            break
    return None


def _ask(cons, names, byName, timeout):
    start = time.time()
    hasInt = any(byName[n].isint for n in names if n in byName)
    if hasInt and _linearlyUnsat(cons):
        return z3.unsat, None
    if hasInt:
        attempts = [z3.Solver, lambda: z3.Tactic('qfnia').solver()]
    else:
        attempts = [lambda: z3.SolverFor('QF_NRA'), z3.Solver]
    res, sol = z3.unknown, None
    for num, make in enumerate(attempts):
        sol = make()
        sol.set('timeout', timeout)
        if hasInt and num == 0:
            sol.set('timeout', min(timeout, 1000))
        for con in cons:
            sol.add(con)
        try:
            res = sol.check()
        except z3.Z3Exception as err:
            if 'max. memory' in str(err):
                raise
            res = z3.unknown
        if SLOW and time.time()-start > SLOW:
            print(f'SLOW {time.time()-start:.1f}s {res} limit {timeout}', *[str(c).replace(chr(10), ' ') for c in cons],
                  sep='\n   ', file=sys.stderr, flush=True)
        if res != z3.unknown:
            break
        if hasInt and num == 0:
            small = _small(cons, names, byName, min(timeout, 5000))
            if small is not None:
                return z3.sat, small
            attempts.append(z3.Solver)
    return res, sol


class Violation(BaseException):
    """raised to leave the path after a failed assertion was recorded"""


class PathDone(BaseException):
    """the path is infeasible (an assumption failed) or finished"""


class Budget(Inconclusive):
    pass


class Explorer:
    """DFS over decision sequences

    found: shared by all cases of a run, the time of the first counterexample (0: none yet); the exploration goes on
    for GRACE seconds after it"""
    GRACE = 120

    def __init__(self, maxPaths=4000, deadline=None, found=None):
        self.maxPaths = maxPaths
        self.deadline = deadline
        self.found = found
        self.paths = 0
        self.path = None

    def late(self):
        now = time.time()
        return bool((self.deadline and now > self.deadline)
                    or (self.found and self.found.value and now > self.found.value + self.GRACE))

    def run(self, func):
        """call func(path) once for every feasible path; yields nothing, returns number of paths"""
        todo = [[]]
        while todo:
            prefix = todo.pop()
            if self.paths >= self.maxPaths:
                raise Budget(f'more than {self.maxPaths} paths')
            if self.late():
                raise Budget('time budget used up')
            path = Path(prefix, todo, self)
            self.path = path
            Path.current = path
            try:
                func(path)
            finally:
                Path.current = None
            self.paths += 1
        return self.paths


class Path:
    current = None

    def __init__(self, prefix, todo, explorer):
        self.prefix = prefix
        self.todo = todo
        self.decisions = []
        self.cons = []          # path condition, z3
        self.known = {}         # decided conditions of this path
        self.inputs = {}        # name -> description
        self.poison = None
        self.explorer = explorer
        self.notes = []
        SUBST.clear()

    def assume(self, expr):
        """add to the path condition; ends the path when infeasible"""
        if expr is True:
            return
        if expr is False:
            raise PathDone()
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return
        if z3.is_false(expr):
            raise PathDone()
        self.cons.append(expr)
        learn(expr)

    def feasible(self, *exprs):
        return solve(exprs, self.cons)[0]

    def fork(self, expr):
        """decide a branch condition"""
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        key = expr.get_id()
        hit = self.known.get(key)
        if hit is not None and hit[0].eq(expr):
            return hit[1]
        neg = z3.simplify(z3.Not(expr))
        pos = len(self.decisions)
        if pos < len(self.prefix):
            choice = self.prefix[pos]
        else:
            if self.explorer.late():
                self.poison = Budget('time budget used up')
                raise self.poison
            STATS.forks += 1
            canTrue = self.feasible(expr)
            if canTrue == 'unsat':
                choice = False
            else:
                canFalse = self.feasible(neg)
                if canFalse == 'unsat':
                    choice = True
                else:
                    choice = True
                    self.todo.append(self.decisions + [False])
        self.decisions.append(choice)
        con = expr if choice else neg
        self.cons.append(con)
        self.known[key] = (expr, choice)
        self.known[neg.get_id()] = (neg, not choice)
        learn(con)
        return choice

    def concretise(self, num):
        """the concrete value of an integer term: one path per feasible value"""
        zexpr = P.toZ3(P.cleared(num.re)[0])
        key = ('val', num.re.key())
        if key in self.known:
            return self.known[key]
        pos = len(self.decisions)
        if pos < len(self.prefix):
            value = self.prefix[pos]
        else:
            STATS.forks += 1
            values = []
            block = []
            while True:
                res, model = solve([z3.And(*block)] if block else [zexpr == zexpr, zexpr >= -10**9], self.cons,
                                   model=True)
                if res == 'unsat':
                    break
                if res == 'unknown':
                    self.poison = Inconclusive('cannot enumerate the values of an index')
                    raise self.poison
                val = model.eval(zexpr, model_completion=True).as_long()
                values.append(val)
                block.append(zexpr != val)
                if len(values) > 64:
                    self.poison = Inconclusive('an index has more than 64 feasible values')
                    raise self.poison
            if not values:
                raise PathDone()
            values.sort()
            value = values[0]
            for other in reversed(values[1:]):
                self.todo.append(self.decisions + [other])
        self.decisions.append(value)
        self.cons.append(zexpr == value)
        learn(zexpr == value)
        self.known[key] = value
        return value
