"""Symbolic execution core.

Paths of the real program are explored by re-execution: every run follows a
trail of recorded decisions and extends it.  A decision is taken whenever the
program needs the truth value (or the concrete value) of a symbolic object.
Path feasibility and the property assertions are decided by z3.

Symbolic objects
  FDVar     finite-domain solver variable (z3 Int constrained to 0..n-1)
  SymBool   boolean term: unary (var, mask) or a general z3 term
  SymFD     value taken from a table indexed by one FDVar (tags, options, ...)
  SymInt    z3 integer term
  SymStr    text; concrete length, every character concrete or symbolic. It *is*
            a str whose symbolic characters are private-use code points (so that
            lxml and friends can store and move them), all operations that look
            at the characters are overridden.
"""
import sys
import time

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)

import z3  # noqa: E402


PUA_BASE = 0xF0000
PUA_CHR = chr(PUA_BASE)


class SxSignal(BaseException):
    pass


class PathAbort(SxSignal):
    """current path is cut by an assumption"""


class BudgetExceeded(SxSignal):
    """exploration budget exceeded: recorded as incomplete coverage"""


class Unsupported(SxSignal):
    """the engine cannot follow this path exactly: recorded as incomplete coverage"""


class Divergence(SxSignal):
    """re-execution did not follow the recorded trail"""


class FDVar:
    __slots__ = ('name', 'size', 'z', 'full', '_members', 'label')

    def __init__(self, name, size):
        self.name = name
        self.size = size
        self.z = z3.Int(name)
        self.full = (1 << size) - 1
        self._members = {}

    def member(self, mask):
        """z3 term for: value in mask (in-range is implied by the path's domain term)"""
        e = self._members.get(mask)
        if e is None:
            ranges = []
            i = 0
            n = self.size
            while i < n:
                if mask >> i & 1:
                    j = i
                    while j + 1 < n and mask >> (j + 1) & 1:
                        j += 1
                    ranges.append((i, j))
                    i = j + 1
                else:
                    i += 1
            terms = [
                self.z == lo if lo == hi else z3.And(self.z >= lo, self.z <= hi)
                for lo, hi in ranges
            ]
            e = z3.BoolVal(False) if not terms else (terms[0] if len(terms) == 1 else z3.Or(*terms))
            self._members[mask] = e
        return e

    def __repr__(self):
        return 'FDVar(%s/%d)' % (self.name, self.size)


class Decision:
    __slots__ = ('options', 'index', 'key')

    def __init__(self, options, key):
        self.options = options      # list of constraints (SymBool or payload)
        self.index = 0
        self.key = key


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.decisions = 0
        self.assertions = 0
        self.unsupported = {}
        self.max_trail = 0

    def as_dict(self):
        return dict(self.__dict__)


class Engine:
    def __init__(self, max_paths=None, deadline=None):
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.vars = {}
        self.codes = {}          # (var, table) -> code point
        self.chars = {}          # code point -> (var, table)
        self.trail = []
        self.pos = 0
        self.dom = {}
        self.entangled = set()
        self.exprs = []
        self.int_vars = {}
        self.stats = Stats()
        self.max_paths = max_paths
        self.deadline = deadline
        self.active = False
        self.forced = []

    def frontier_with_current(self):
        """prefixes (option indices) of the unexplored remainder of the tree; to be called
        after next_trail(), the current trail itself is unexplored"""
        out = []
        base = []
        fl = len(self.forced)
        for k, d in enumerate(self.trail):
            for i in range(d.index + 1, len(d.options)):
                out.append(base + [i])
            base = base + [self.forced[k] if k < fl else d.index]
        out.append(base)
        return out

    # -- variables -----------------------------------------------------------
    def var(self, name, size):
        v = self.vars.get(name)
        if v is None:
            v = FDVar(name, size)
            self.vars[name] = v
        if v.size != size:
            raise Divergence('variable %s re-declared with another size' % name)
        return v

    def code(self, var, table):
        key = (var.name, table)
        c = self.codes.get(key)
        if c is None:
            c = PUA_BASE + len(self.codes)
            if c > 0x10FFFD:
                raise BudgetExceeded('out of symbolic character codes')
            c = chr(c)
            self.codes[key] = c
            self.chars[c] = (var, table)
        return c

    # -- path state ----------------------------------------------------------
    def reset_path(self):
        self.pos = 0
        self.dom = {}
        self.entangled = set()
        self.exprs = []
        self.violated = []

    def domain(self, var):
        return self.dom.get(var, var.full)

    def _apply(self, sb):
        if sb.var is not None:
            self.dom[sb.var] = self.domain(sb.var) & sb.mask
        else:
            self.exprs.append(sb.expr)
            for v in sb.deps:
                self.entangled.add(v)

    def _pc_terms(self):
        terms = [v.member(m) for v, m in self.dom.items()]
        for v in self.entangled:
            if v not in self.dom:
                terms.append(v.member(v.full))
        terms.extend(self.exprs)
        return terms

    def query(self, extra=(), extra_vars=(), want_model=False):
        s = self.solver
        s.push()
        try:
            for t in self._pc_terms():
                s.add(t)
            for v in extra_vars:
                if v not in self.dom and v not in self.entangled:
                    s.add(v.member(v.full))
            for t in extra:
                s.add(t)
            t0 = time.time()
            r = s.check()
            self.stats.solver_s += time.time() - t0
            self.stats.queries += 1
            if r == z3.sat:
                self.stats.sat += 1
                return s.model() if want_model else True
            if r == z3.unsat:
                self.stats.unsat += 1
                return None if want_model else False
            self.stats.unknown += 1
            raise Unsupported('solver returned unknown')
        finally:
            s.pop()

    def feasible(self, sb):
        """is pc and sb satisfiable"""
        if sb.var is not None:
            m = self.domain(sb.var) & sb.mask
            if not m:
                return False
            if sb.var not in self.entangled:
                return True
            return self.query([sb.var.member(m)], [sb.var])
        return self.query([sb.expr], sb.deps)

    # -- decisions -----------------------------------------------------------
    def _replay(self, key):
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.key != key:
                raise Divergence('expected decision %r, got %r' % (d.key, key))
            self.pos += 1
            opt = d.options[d.index]
            return opt
        return None

    def _record(self, options, key):
        k = len(self.trail)
        if k < len(self.forced):
            # a sub-tree handed over by another worker: follow its prefix only
            f = self.forced[k]
            if f >= len(options):
                raise Divergence('forced prefix does not fit at %d: %r, %d options' % (k, key, len(options)))
            options = [options[f]]
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded('time budget')
        self.stats.decisions += 1
        d = Decision(options, key)
        self.trail.append(d)
        self.pos += 1
        if len(self.trail) > self.stats.max_trail:
            self.stats.max_trail = len(self.trail)
        if len(self.trail) > 5000:
            raise BudgetExceeded('decision depth')
        return options[0]

    def branch(self, sb):
        """decide the truth value of a SymBool on the current path"""
        if not self.active:
            raise Unsupported('symbolic value used outside exploration')
        if sb.var is not None:
            d = self.domain(sb.var)
            m = d & sb.mask
            if m == d:
                return True
            if not m:
                return False
        key = sb.key()
        opt = self._replay(key)
        if opt is None:
            neg = sb.negate()
            options = []
            if self.feasible(sb):
                options.append((True, sb))
            if not options or self.feasible(neg):
                options.append((False, neg))
            opt = self._record(options, key)
        self._apply(opt[1])
        return opt[0]

    def concretize_fd(self, var):
        """fork over all feasible values of a finite-domain variable"""
        d = self.domain(var)
        if d and not d & (d - 1):
            return d.bit_length() - 1
        key = ('fd', var.name, d)
        opt = self._replay(key)
        if opt is None:
            options = []
            for i in range(var.size):
                if d >> i & 1:
                    sb = SymBool(var, 1 << i)
                    if var not in self.entangled or self.feasible(sb):
                        options.append((i, sb))
            if not options:
                raise PathAbort('infeasible')
            opt = self._record(options, key)
        self._apply(opt[1])
        return opt[0]

    def concretize_table(self, var, table):
        """fork over the distinct values of table, returns the value"""
        d = self.domain(var)
        groups = []
        for i in range(var.size):
            if d >> i & 1:
                v = table[i]
                for g in groups:
                    if type(g[0]) is type(v) and g[0] == v:
                        g[1] |= 1 << i
                        break
                else:
                    groups.append([v, 1 << i])
        if len(groups) == 1:
            return groups[0][0]
        key = ('tab', var.name, tuple(g[1] for g in groups))
        opt = self._replay(key)
        if opt is None:
            options = []
            for v, m in groups:
                sb = SymBool(var, m)
                if self.feasible(sb):
                    options.append((v, sb))
            if not options:
                raise PathAbort('infeasible')
            opt = self._record(options, key)
        self._apply(opt[1])
        return opt[0]

    def concretize_int(self, expr, limit=4096):
        n = 0
        while True:
            key = ('int', expr.sexpr())
            if self.pos < len(self.trail):
                d = self.trail[self.pos]
                if d.key[:2] != key:
                    raise Divergence('int decision mismatch')
                value = d.key[2]
                self.pos += 1
                opt = d.options[d.index]
            else:
                value = self.min_int(expr)
                options = [
                    (True, SymBool(expr=expr == value)),
                ]
                neg = SymBool(expr=expr != value)
                if self.feasible(neg):
                    options.append((False, neg))
                opt = self._record(options, key + (value,))
            self._apply(opt[1])
            if opt[0]:
                return value
            n += 1
            if n > limit:
                raise BudgetExceeded('too many values for symbolic integer')

    def min_int(self, expr):
        """a canonical feasible value (does not depend on solver state)"""
        m = self.query([], (), want_model=True)
        if m is None:
            raise PathAbort('infeasible')
        value = m.eval(expr, model_completion=True).as_long()
        # smallest absolute value by bisection: |expr| <= bound
        hi = abs(value)
        lo = 0
        while lo < hi:
            mid = (lo + hi) // 2
            m = self.query([expr >= -mid, expr <= mid], (), want_model=True)
            if m is None:
                lo = mid + 1
            else:
                hi = abs(m.eval(expr, model_completion=True).as_long())
        if self.query([expr == hi]):
            return hi
        return -hi

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathAbort('assumption')
        if isinstance(cond, SymBool):
            if not self.feasible(cond):
                raise PathAbort('assumption')
            self._apply(cond)
            return
        if not cond:
            raise PathAbort('assumption')

    def next_trail(self):
        """move to the next unexplored path; False when exhausted"""
        while self.trail:
            d = self.trail[-1]
            if d.index + 1 < len(d.options):
                d.index += 1
                return True
            self.trail.pop()
        return False


_ENGINE = None


def engine():
    return _ENGINE


def set_engine(e):
    global _ENGINE
    _ENGINE = e


# ---------------------------------------------------------------------------
class SymBool:
    __slots__ = ('var', 'mask', 'expr', 'deps', '_key')

    def __init__(self, var=None, mask=0, expr=None, deps=frozenset()):
        self.var = var
        self.mask = mask
        self.expr = expr
        self.deps = deps
        self._key = None

    def key(self):
        if self.var is not None:
            return ('u', self.var.name, self.mask)
        if self._key is None:
            self._key = ('e', self.expr.hash())
        return self._key

    def term(self):
        return self.var.member(self.mask) if self.var is not None else self.expr

    def all_deps(self):
        return frozenset((self.var,)) if self.var is not None else self.deps

    def negate(self):
        if self.var is not None:
            return SymBool(self.var, self.var.full & ~self.mask)
        return SymBool(expr=z3.Not(self.expr), deps=self.deps)

    def __bool__(self):
        return _ENGINE.branch(self)

    def __invert__(self):
        return s_not(self)

    def __and__(self, o):
        return s_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return s_or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return s_not(s_eq(self, o))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return s_or(s_and(self, o), s_and(s_not(self), s_not(o)))
        return bool(self) == o

    def __ne__(self, o):
        return s_not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return bool(self) < o

    def __le__(self, o):
        return bool(self) <= o

    def __gt__(self, o):
        return bool(self) > o

    def __ge__(self, o):
        return bool(self) >= o

    def __str__(self):
        return str(bool(self))

    __repr__ = object.__repr__


def mk_unary(var, mask):
    d = _ENGINE.domain(var)
    m = d & mask
    if m == d:
        return True
    if not m:
        return False
    return SymBool(var, mask)


def mk_expr(expr, deps):
    if z3.is_true(expr):
        return True
    if z3.is_false(expr):
        return False
    return SymBool(expr=expr, deps=frozenset(deps))


def s_not(a):
    if isinstance(a, SymBool):
        return a.negate()
    return not a


def s_and(*args):
    unary = {}
    terms = []
    deps = set()
    for a in args:
        if isinstance(a, SymBool):
            if a.var is not None:
                unary[a.var] = unary.get(a.var, a.var.full) & a.mask
            else:
                terms.append(a.expr)
                deps |= a.deps
        elif not a:
            return False
    us = []
    for v, m in unary.items():
        u = mk_unary(v, m)
        if u is False:
            return False
        if u is not True:
            us.append(u)
    if not us and not terms:
        return True
    if len(us) == 1 and not terms:
        return us[0]
    for u in us:
        terms.append(u.term())
        deps.add(u.var)
    return mk_expr(z3.And(*terms) if len(terms) > 1 else terms[0], deps)


def s_or(*args):
    unary = {}
    terms = []
    deps = set()
    for a in args:
        if isinstance(a, SymBool):
            if a.var is not None:
                unary[a.var] = unary.get(a.var, 0) | a.mask
            else:
                terms.append(a.expr)
                deps |= a.deps
        elif a:
            return True
    us = []
    for v, m in unary.items():
        u = mk_unary(v, m)
        if u is True:
            return True
        if u is not False:
            us.append(u)
    if not us and not terms:
        return False
    if len(us) == 1 and not terms:
        return us[0]
    for u in us:
        terms.append(u.term())
        deps.add(u.var)
    return mk_expr(z3.Or(*terms) if len(terms) > 1 else terms[0], deps)


# ---------------------------------------------------------------------------
def _fd_result(var, vals):
    """value object for a table over var; collapses where the domain allows"""
    d = _ENGINE.domain(var)
    first = None
    seen = False
    same = True
    all_bool = True
    for i in range(var.size):
        if d >> i & 1:
            v = vals[i]
            if not seen:
                first, seen = v, True
            elif same and not (type(v) is type(first) and v == first):
                same = False
            if type(v) is not bool:
                all_bool = False
    if not seen:
        raise PathAbort('infeasible')
    if same:
        return first
    if all_bool:
        m = 0
        for i in range(var.size):
            if d >> i & 1 and vals[i]:
                m |= 1 << i
        return mk_unary(var, m)
    return SymFD(var, vals)


class SymFD:
    """one of a table of concrete immutable values, selected by an FDVar"""
    __slots__ = ('var', 'vals')

    def __init__(self, var, vals):
        object.__setattr__(self, 'var', var)
        object.__setattr__(self, 'vals', tuple(vals))

    def _concrete(self):
        return _ENGINE.concretize_table(self.var, self.vals)

    def feasible_values(self):
        d = _ENGINE.domain(self.var)
        return [self.vals[i] for i in range(self.var.size) if d >> i & 1]

    def lift(self, f, *args, **kwargs):
        args = [
            a if not isinstance(a, (SymStr, SymInt, SymBool)) and not (
                isinstance(a, SymFD) and a.var is not self.var
            ) else concretize(a)
            for a in args
        ]
        kwargs = {k: concretize(v) for k, v in kwargs.items()}
        d = _ENGINE.domain(self.var)
        ok = 0
        res = [None] * self.var.size
        for i in range(self.var.size):
            if d >> i & 1:
                try:
                    res[i] = f(
                        self.vals[i],
                        *[a.vals[i] if isinstance(a, SymFD) else a for a in args],
                        **kwargs
                    )
                    ok |= 1 << i
                except Exception:
                    pass
        if ok != d:
            if not (ok and _ENGINE.branch(SymBool(self.var, ok))):
                v = self._concrete()
                i = next(
                    j for j in range(self.var.size)
                    if _ENGINE.domain(self.var) >> j & 1
                )
                return f(v, *[a.vals[i] if isinstance(a, SymFD) else a for a in args], **kwargs)
        return _fd_result(self.var, res)

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            return getattr(self._concrete(), name)
        # methods are lifted point-wise, plain attributes too
        vals = self.feasible_values()
        if any(callable(getattr(v, name, None)) for v in vals):
            return lambda *a, **k: self.lift(
                lambda v, *aa, **kk: getattr(v, name)(*aa, **kk), *a, **k
            )
        return self.lift(lambda v: getattr(v, name))

    def __bool__(self):
        return bool(self.lift(bool))

    def __hash__(self):
        return hash(self._concrete())

    def __str__(self):
        return str(self._concrete())

    def __repr__(self):
        return 'SymFD(%s)' % (self.var.name,)

    def __len__(self):
        return concretize(self.lift(len))

    def __iter__(self):
        return iter(self._concrete())

    def __index__(self):
        return self._concrete().__index__()

    def __int__(self):
        return int(self._concrete())

    def __float__(self):
        return float(self._concrete())

    def __format__(self, spec):
        return format(self._concrete(), spec)

    def __eq__(self, o):
        if isinstance(o, SymFD):
            if o.var is self.var:
                return self.lift(lambda a, b: a == b, o)
            da, db = _ENGINE.domain(self.var), _ENGINE.domain(o.var)
            groups = []
            for i in range(self.var.size):
                if da >> i & 1:
                    for g in groups:
                        if g[0] == self.vals[i]:
                            g[1] |= 1 << i
                            break
                    else:
                        groups.append([self.vals[i], 1 << i])
            terms = []
            for v, m in groups:
                mb = 0
                for j in range(o.var.size):
                    if db >> j & 1 and o.vals[j] == v:
                        mb |= 1 << j
                if mb:
                    terms.append(s_and(mk_unary(self.var, m), mk_unary(o.var, mb)))
            return s_or(*terms) if terms else False
        if isinstance(o, SymStr):
            terms = []
            d = _ENGINE.domain(self.var)
            for v in set(self.feasible_values()):
                m = sum(
                    1 << i for i in range(self.var.size) if d >> i & 1 and self.vals[i] == v
                )
                terms.append(s_and(mk_unary(self.var, m), o == v))
            return s_or(*terms)
        if isinstance(o, (SymInt, SymBool)):
            return o == self._concrete()
        return self.lift(lambda v: bool(v == o))

    def __ne__(self, o):
        return s_not(self == o)

    def __contains__(self, o):
        return bool(s_in(o, self._concrete()))

    def __getitem__(self, k):
        return self.lift(lambda v, kk: v[kk], k)

    def __add__(self, o):
        if isinstance(o, SymStr):
            return self._concrete() + o
        return self.lift(lambda v, x: v + x, o)

    def __radd__(self, o):
        if isinstance(o, SymStr):
            return o + self._concrete()
        return self.lift(lambda v, x: x + v, o)

    def __mod__(self, o):
        return s_mod(self._concrete(), o)

    def __neg__(self):
        return self.lift(lambda v: -v)


def _fd_binop(name):
    def op(self, o):
        return self.lift(lambda v, x: _PYOPS[name](v, x), o)
    return op


def _fd_rbinop(name):
    def op(self, o):
        return self.lift(lambda v, x: _PYOPS[name](x, v), o)
    return op


import operator as _operator  # noqa: E402

_PYOPS = {
    'sub': _operator.sub, 'mul': _operator.mul, 'floordiv': _operator.floordiv,
    'truediv': _operator.truediv, 'lt': _operator.lt, 'le': _operator.le,
    'gt': _operator.gt, 'ge': _operator.ge
}
for _n in ('sub', 'mul', 'floordiv', 'truediv', 'lt', 'le', 'gt', 'ge'):
    setattr(SymFD, '__%s__' % _n, _fd_binop(_n))
for _n in ('sub', 'mul', 'floordiv', 'truediv'):
    setattr(SymFD, '__r%s__' % _n, _fd_rbinop(_n))


# ---------------------------------------------------------------------------
class SymInt:
    __slots__ = ('z', 'deps')

    def __init__(self, z, deps=frozenset()):
        self.z = z
        self.deps = deps

    def _concrete(self):
        return _ENGINE.concretize_int(self.z)

    def __index__(self):
        return self._concrete()
    __int__ = __index__

    def __float__(self):
        return float(self._concrete())

    def __hash__(self):
        return hash(self._concrete())

    def __bool__(self):
        return bool(self != 0)

    def __str__(self):
        return str(self._concrete())

    def __format__(self, spec):
        return format(self._concrete(), spec)

    def __repr__(self):
        return 'SymInt(%s)' % self.z

    def __neg__(self):
        return SymInt(-self.z, self.deps)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.z < 0, -self.z, self.z), self.deps)

    def __truediv__(self, o):
        return self._concrete() / concretize(o)

    def __rtruediv__(self, o):
        return concretize(o) / self._concrete()

    def __round__(self, *a):
        return self

    def __floordiv__(self, o):
        o = concretize(o)
        if isinstance(o, int) and o > 0:
            return mk_int(self.z / o, self.deps)
        return self._concrete() // o

    def __rfloordiv__(self, o):
        return o // self._concrete()

    def __mod__(self, o):
        o = concretize(o)
        if isinstance(o, int) and o > 0:
            return mk_int(self.z % o, self.deps)
        return self._concrete() % o


def mk_int(z, deps=frozenset()):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z, deps)


def _zint(o):
    if isinstance(o, SymInt):
        return o.z
    if isinstance(o, bool):
        return z3.IntVal(int(o))
    if isinstance(o, int):
        return z3.IntVal(o)
    return None


def _int_arith(name, f):
    def op(self, o):
        if isinstance(o, (SymFD, SymBool)):
            o = concretize(o)
        z = _zint(o)
        if z is None:
            if isinstance(o, float):
                return getattr(float(self._concrete()), '__%s__' % name)(o)
            return NotImplemented
        return mk_int(f(self.z, z), self.deps | getattr(o, 'deps', frozenset()))
    return op


def _int_cmp(name, f):
    def op(self, o):
        if isinstance(o, (SymFD, SymBool)):
            o = concretize(o)
        z = _zint(o)
        if z is None:
            if isinstance(o, float):
                # compare exactly against the rational value of the float
                num, den = o.as_integer_ratio()
                e = z3.simplify(f(self.z * den, z3.IntVal(num)))
                return mk_expr(e, self.deps)
            return NotImplemented
        e = z3.simplify(f(self.z, z))
        return mk_expr(e, self.deps | getattr(o, 'deps', frozenset()))
    return op


SymInt.__add__ = _int_arith('add', lambda a, b: a + b)
SymInt.__radd__ = _int_arith('radd', lambda a, b: b + a)
SymInt.__sub__ = _int_arith('sub', lambda a, b: a - b)
SymInt.__rsub__ = _int_arith('rsub', lambda a, b: b - a)
SymInt.__mul__ = _int_arith('mul', lambda a, b: a * b)
SymInt.__rmul__ = _int_arith('rmul', lambda a, b: b * a)
SymInt.__lt__ = _int_cmp('lt', lambda a, b: a < b)
SymInt.__le__ = _int_cmp('le', lambda a, b: a <= b)
SymInt.__gt__ = _int_cmp('gt', lambda a, b: a > b)
SymInt.__ge__ = _int_cmp('ge', lambda a, b: a >= b)
_int_eq = _int_cmp('eq', lambda a, b: a == b)
_int_ne = _int_cmp('ne', lambda a, b: a != b)


def _si_eq(self, o):
    r = _int_eq(self, o)
    return False if r is NotImplemented else r


def _si_ne(self, o):
    r = _int_ne(self, o)
    return True if r is NotImplemented else r


SymInt.__eq__ = _si_eq
SymInt.__ne__ = _si_ne


# ---------------------------------------------------------------------------
def mk_str(s):
    """wrap a plain str if it carries symbolic characters"""
    if type(s) is SymStr or s.isascii():
        return s
    for c in s:
        if c >= PUA_CHR:
            return SymStr(s)
    return s


def _raw(s):
    """exact underlying str"""
    return str.__str__(s) if type(s) is SymStr else s


def _char_map(c, f):
    """apply f (char -> char) to one underlying char; None if not length preserving"""
    ch = _ENGINE.chars.get(c) if c >= PUA_CHR else None
    if ch is None:
        return f(c)
    var, table = ch
    new = tuple(f(x) for x in table)
    d = _ENGINE.domain(var)
    if any(len(new[i]) != 1 for i in range(var.size) if d >> i & 1):
        return None
    if new == table:
        return c
    new = tuple(x if len(x) == 1 else '?' for x in new)
    return _ENGINE.code(var, new)


_PRED_CACHE = {}


def char_pred(c, name, f):
    """truth of predicate f on underlying char c: bool or SymBool"""
    if c < PUA_CHR:
        return f(c)
    var, table = _ENGINE.chars[c]
    key = (name, table)
    m = _PRED_CACHE.get(key)
    if m is None:
        m = 0
        for i, x in enumerate(table):
            if f(x):
                m |= 1 << i
        _PRED_CACHE[key] = m
    return mk_unary(var, m)


def char_eq(a, b):
    if a < PUA_CHR:
        if b < PUA_CHR:
            return a == b
        a, b = b, a
    if b < PUA_CHR:
        return char_pred(a, ('eq', b), lambda x: x == b)
    if a == b:
        return True
    va, ta = _ENGINE.chars[a]
    vb, tb = _ENGINE.chars[b]
    if va is vb:
        m = 0
        for i in range(va.size):
            if ta[i] == tb[i]:
                m |= 1 << i
        return mk_unary(va, m)
    if ta == tb and len(set(ta)) == len(ta):
        if not _ENGINE.domain(va) & _ENGINE.domain(vb):
            return False
        return SymBool(expr=va.z == vb.z, deps=frozenset((va, vb)))
    return SymFD(va, ta) == SymFD(vb, tb)


def concretize(x):
    t = type(x)
    if t is SymStr:
        out = []
        for c in str.__iter__(x):
            if c >= PUA_CHR:
                var, table = _ENGINE.chars[c]
                c = _ENGINE.concretize_table(var, table)
            out.append(c)
        return ''.join(out)
    if t is SymFD or t is SymInt:
        return x._concrete()
    if t is SymBool:
        return bool(x)
    if t is SymBytes:
        return concretize(x._text()).encode('utf-8')
    if t is list:
        return [concretize(v) for v in x]
    if t is tuple:
        return tuple(concretize(v) for v in x)
    if t is dict:
        return {concretize(k): concretize(v) for k, v in x.items()}
    if t is set:
        return {concretize(v) for v in x}
    return x


_SYM = None


def is_sym(x):
    t = type(x)
    return t is SymStr or t is SymFD or t is SymInt or t is SymBool or t is SymBytes


def has_sym(x, depth=3):
    t = type(x)
    if t is SymStr or t is SymFD or t is SymInt or t is SymBool or t is SymBytes:
        return True
    if depth and (t is list or t is tuple or t is set):
        return any(has_sym(v, depth - 1) for v in x)
    if depth and t is dict:
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False


def _coerce(o):
    """value to something SymStr code can iterate; None if not a string"""
    if type(o) is SymFD:
        return concretize(o)
    return o


class SymStr(str):
    __slots__ = ()

    # -- comparison
    def __eq__(self, o):
        if type(o) is SymFD:
            return o == self
        if not isinstance(o, str):
            return False
        if len(self) != len(o):
            return False
        conds = []
        for a, b in zip(str.__iter__(self), str.__iter__(o)):
            c = char_eq(a, b)
            if c is False:
                return False
            if c is not True:
                conds.append(c)
        return s_and(*conds)

    def __ne__(self, o):
        return s_not(self == o)

    def __hash__(self):
        return hash(concretize(self))

    def _cmp(self, o):
        o = _coerce(o)
        for a, b in zip(str.__iter__(self), str.__iter__(o)):
            if not char_eq(a, b):
                return ord(concretize(mk_str(a))) - ord(concretize(mk_str(b)))
        return len(self) - len(o)

    def __lt__(self, o):
        if not isinstance(o, (str, SymFD)):
            return NotImplemented
        return self._cmp(o) < 0

    def __le__(self, o):
        if not isinstance(o, (str, SymFD)):
            return NotImplemented
        return self._cmp(o) <= 0

    def __gt__(self, o):
        if not isinstance(o, (str, SymFD)):
            return NotImplemented
        return self._cmp(o) > 0

    def __ge__(self, o):
        if not isinstance(o, (str, SymFD)):
            return NotImplemented
        return self._cmp(o) >= 0

    # -- structure
    def __getitem__(self, k):
        return mk_str(str.__getitem__(self, k))

    def __iter__(self):
        for c in str.__iter__(self):
            yield mk_str(c)

    def __add__(self, o):
        if type(o) is SymFD:
            o = concretize(o)
        if not isinstance(o, str):
            return NotImplemented
        return mk_str(_raw(self) + _raw(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk_str(_raw(o) + _raw(self))

    def __mul__(self, n):
        return mk_str(_raw(self) * n)
    __rmul__ = __mul__

    def __mod__(self, o):
        return s_mod(self, o)

    def __rmod__(self, o):
        return s_mod(o, self)

    def __str__(self):
        return self

    def __repr__(self):
        return repr(_raw(self))

    def __format__(self, spec):
        if not spec:
            return self
        return format(concretize(self), spec)

    def __contains__(self, o):
        return bool(self._find(o) >= 0)

    # -- predicates
    def _all(self, name):
        f = getattr(str, name)
        if not len(self):
            return f('')
        return s_and(*[char_pred(c, name, f) for c in str.__iter__(self)])

    def isspace(self):
        return self._all('isspace')

    def isalpha(self):
        return self._all('isalpha')

    def isalnum(self):
        return self._all('isalnum')

    def isdigit(self):
        return self._all('isdigit')

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isascii(self):
        return self._all('isascii')

    def isprintable(self):
        return self._all('isprintable')

    def isupper(self):
        cs = list(str.__iter__(self))
        return s_and(
            s_or(False, *[char_pred(c, 'isupper', str.isupper) for c in cs]),
            *[s_not(char_pred(c, 'lowercased', lambda x: x.islower() or x.istitle() and not x.isupper()))
              for c in cs]
        )

    def islower(self):
        cs = list(str.__iter__(self))
        return s_and(
            s_or(False, *[char_pred(c, 'islower', str.islower) for c in cs]),
            *[s_not(char_pred(c, 'uppercased', lambda x: x.isupper() or x.istitle())) for c in cs]
        )

    # -- mapping
    def _map(self, f, name):
        out = []
        for c in str.__iter__(self):
            m = _char_map(c, f)
            if m is None:
                m = f(concretize(mk_str(c)))
            out.append(m)
        return mk_str(''.join(out))

    def lower(self):
        return self._map(str.lower, 'lower')

    def upper(self):
        return self._map(str.upper, 'upper')

    def casefold(self):
        return self._map(str.casefold, 'casefold')

    def swapcase(self):
        return self._map(str.swapcase, 'swapcase')

    # -- stripping
    def _strip_pred(self, chars):
        if chars is None:
            return lambda c: char_pred(c, 'isspace', str.isspace)
        chars = _coerce(chars)
        cl = list(str.__iter__(chars))
        return lambda c: s_or(False, *[char_eq(c, x) for x in cl])

    def _lskip(self, p):
        i = 0
        cs = list(str.__iter__(self))
        while i < len(cs) and p(cs[i]):
            i += 1
        return i

    def _rskip(self, p, lo=0):
        cs = list(str.__iter__(self))
        j = len(cs)
        while j > lo and p(cs[j - 1]):
            j -= 1
        return j

    def strip(self, chars=None):
        p = self._strip_pred(chars)
        i = self._lskip(p)
        j = self._rskip(p, i)
        return self[i:j]

    def lstrip(self, chars=None):
        return self[self._lskip(self._strip_pred(chars)):]

    def rstrip(self, chars=None):
        return self[:self._rskip(self._strip_pred(chars))]

    def removeprefix(self, p):
        p = _coerce(p)
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        p = _coerce(p)
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

    # -- search
    def _at(self, sub, i):
        """cond: sub occurs at i"""
        if i < 0 or i + len(sub) > len(self):
            return False
        conds = []
        raw = str.__getitem__(self, slice(i, i + len(sub)))
        for a, b in zip(str.__iter__(raw), str.__iter__(sub)):
            c = char_eq(a, b)
            if c is False:
                return False
            conds.append(c)
        return s_and(*conds)

    def startswith(self, p, start=0, end=None):
        p = _coerce(p)
        if isinstance(p, tuple):
            return s_or(False, *[self.startswith(x, start, end) for x in p])
        s = self[start:end] if (start or end is not None) else self
        return SymStr(s)._at(p, 0)

    def endswith(self, p, start=0, end=None):
        p = _coerce(p)
        if isinstance(p, tuple):
            return s_or(False, *[self.endswith(x, start, end) for x in p])
        s = self[start:end] if (start or end is not None) else self
        return SymStr(s)._at(p, len(s) - len(p)) if len(p) <= len(s) else False

    def _find(self, sub, start=None, end=None):
        sub = _coerce(sub)
        start, end, _ = slice(start, end).indices(len(self))
        for i in range(start, end - len(sub) + 1):
            if self._at(sub, i):
                return i
        return -1

    def find(self, sub, start=None, end=None):
        return self._find(sub, start, end)

    def index(self, sub, start=None, end=None):
        i = self._find(sub, start, end)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rfind(self, sub, start=None, end=None):
        sub = _coerce(sub)
        start, end, _ = slice(start, end).indices(len(self))
        for i in range(end - len(sub), start - 1, -1):
            if self._at(sub, i):
                return i
        return -1

    def rindex(self, sub, start=None, end=None):
        i = self.rfind(sub, start, end)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub, start=None, end=None):
        sub = _coerce(sub)
        start, end, _ = slice(start, end).indices(len(self))
        if not sub:
            return concretize(self).count(sub, start, end)
        n = 0
        i = start
        while i + len(sub) <= end:
            if self._at(sub, i):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def replace(self, old, new, count=-1):
        old, new = _coerce(old), _coerce(new)
        if not old:
            return mk_str(_raw(self).replace('', _raw(new), count))
        if len(old) == 1 and len(new) == 1 and count < 0 and old < PUA_CHR and new < PUA_CHR:
            return self._map(lambda x: _raw(new) if x == old else x, 'replace')
        out = []
        i = 0
        while i < len(self):
            if count != 0 and i + len(old) <= len(self) and self._at(old, i):
                out.append(_raw(new))
                i += len(old)
                count -= 1
            else:
                out.append(str.__getitem__(self, i))
                i += 1
        return mk_str(''.join(out))

    def split(self, sep=None, maxsplit=-1):
        sep = _coerce(sep)
        if sep is None:
            out = []
            i = 0
            n = len(self)

            def sp(k):
                return char_pred(str.__getitem__(self, k), 'isspace', str.isspace)
            while i < n:
                while i < n and sp(i):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(self[i:].rstrip())
                    break
                j = i
                while j < n and not sp(j):
                    j += 1
                out.append(self[i:j])
                i = j
            return out
        out = []
        last = 0
        i = 0
        while i + len(sep) <= len(self):
            if (maxsplit < 0 or len(out) < maxsplit) and self._at(sep, i):
                out.append(self[last:i])
                i += len(sep)
                last = i
            else:
                i += 1
        out.append(self[last:])
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return concretize(self).rsplit(sep, maxsplit)
        sep = _coerce(sep)
        out = []
        last = len(self)
        i = len(self) - len(sep)
        while i >= 0:
            if len(out) < maxsplit and self._at(sep, i):
                out.append(self[i + len(sep):last])
                last = i
                i -= len(sep)
            else:
                i -= 1
        out.append(self[:last])
        return out[::-1]

    def partition(self, sep):
        sep = _coerce(sep)
        i = self._find(sep)
        if i < 0:
            return (self, '', '')
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        sep = _coerce(sep)
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return (self[:i], sep, self[i + len(sep):])

    def join(self, items):
        out = []
        for it in items:
            if type(it) is SymFD:
                it = concretize(it)
            if not isinstance(it, str):
                raise TypeError('sequence item: expected str instance, %s found' % type(it).__name__)
            out.append(_raw(it))
        return mk_str(_raw(self).join(out))

    def format(self, *args, **kwargs):
        args = [_fmt_arg(a) for a in args]
        kwargs = {k: _fmt_arg(v) for k, v in kwargs.items()}
        return mk_str(str.format(concretize(self), *args, **kwargs))

    def encode(self, encoding='utf-8', errors='strict'):
        if str(encoding).lower().replace('_', '-') in ('utf-8', 'utf8'):
            return SymBytes(_raw(self).encode('utf-8'))
        return concretize(self).encode(encoding, errors)

    def __reduce__(self):
        return (str, (_raw(self),))


class SymBytes(bytes):
    """UTF-8 encoded symbolic text; only operations that agree on text and its encoding"""

    def _text(self):
        return mk_str(bytes.decode(self, 'utf-8'))

    def decode(self, encoding='utf-8', errors='strict'):
        if str(encoding).lower().replace('_', '-') in ('utf-8', 'utf8'):
            return self._text()
        return concretize(self).decode(encoding, errors)

    @staticmethod
    def _back(s):
        return s.encode('utf-8')

    def replace(self, old, new, count=-1):
        return self._back(self._text().replace(old.decode('utf-8'), new.decode('utf-8'), count))

    def _strip(self, name, chars):
        chars = b' \t\n\r\x0b\x0c' if chars is None else chars
        return self._back(getattr(self._text(), name)(chars.decode('ascii')))

    def strip(self, chars=None):
        return self._strip('strip', chars)

    def lstrip(self, chars=None):
        return self._strip('lstrip', chars)

    def rstrip(self, chars=None):
        return self._strip('rstrip', chars)

    def __contains__(self, x):
        if isinstance(x, bytes):
            return x.decode('utf-8') in self._text()
        return x in concretize(self)

    def startswith(self, x, *a):
        if a or not isinstance(x, bytes):
            return concretize(self).startswith(x, *a)
        return self._text().startswith(x.decode('utf-8'))

    def endswith(self, x, *a):
        if a or not isinstance(x, bytes):
            return concretize(self).endswith(x, *a)
        return self._text().endswith(x.decode('utf-8'))

    def __eq__(self, o):
        if not isinstance(o, bytes):
            return False
        try:
            return s_eq(self._text(), mk_str(bytes.decode(o, 'utf-8')))
        except UnicodeDecodeError:
            return False

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    __hash__ = bytes.__hash__

    def __add__(self, o):
        return wrap(bytes(self) + bytes(o))

    def __radd__(self, o):
        return wrap(bytes(o) + bytes(self))

    def __len__(self):
        return len(concretize(self))

    def __bool__(self):
        return True         # there is at least one symbolic character

    def _widths(self):
        out = []
        for c in str.__iter__(self._text()):
            if c >= PUA_CHR:
                table = _ENGINE.chars[c][1]
                w = {len(x.encode('utf-8')) for x in table}
                if len(w) != 1:
                    out.append(None)
                    continue
                out.append(w.pop())
            else:
                out.append(len(c.encode('utf-8')))
        return out

    def __getitem__(self, k):
        if type(k) is slice and k.step is None and (k.start or 0) >= 0 and k.stop is not None and (
                k.stop >= 0):
            pos, a, b = 0, None, None
            start = k.start or 0
            for i, w in enumerate(self._widths() + [0]):
                if pos == start and a is None:
                    a = i
                if pos == k.stop:
                    b = i
                    break
                if w is None or pos > k.stop:
                    break
                pos += w
            else:
                b = len(self._widths())
            if a is not None and b is not None:
                return self._back(mk_str(self._text()[a:b]))
        return concretize(self)[k]

    def __iter__(self):
        return iter(concretize(self))


def _fmt_arg(a):
    if type(a) is SymStr:
        return _raw(a)
    return concretize(a) if is_sym(a) else a


def _fallback(name):
    def method(self, *a, **k):
        r = getattr(concretize(self), name)(*[concretize(x) for x in a], **{
            kk: concretize(v) for kk, v in k.items()
        })
        return r
    method.__name__ = name
    return method


for _n in dir(str):
    if not _n.startswith('_') and _n not in SymStr.__dict__ and callable(getattr(str, _n)):
        setattr(SymStr, _n, _fallback(_n))
SymStr.maketrans = staticmethod(str.maketrans)


# ---------------------------------------------------------------------------
def s_eq(a, b):
    """deep equality as a term (no forking where avoidable)"""
    if is_sym(a) or is_sym(b):
        r = a == b
        return False if r is NotImplemented else r
    ta, tb = type(a), type(b)
    if ta in (list, tuple) and tb in (list, tuple):
        if ta is not tb or len(a) != len(b):
            return False
        conds = []
        for x, y in zip(a, b):
            c = s_eq(x, y)
            if c is False:
                return False
            conds.append(c)
        return s_and(*conds)
    return a == b


def s_in(x, container):
    """membership with symbolic element or container; bool or SymBool"""
    tc = type(container)
    if tc is SymFD:
        if any(isinstance(v, str) for v in container.feasible_values()) and isinstance(x, str):
            if type(x) is SymStr:
                return s_in(x, concretize(container))
            return container.lift(lambda v: x in v)
        return s_in(x, concretize(container))
    if isinstance(container, str):
        if not is_sym(x) and tc is not SymStr:
            return x in container
        if type(x) is SymFD and tc is str:
            return x.lift(lambda v: v in container)
        x = _coerce(x)
        if not isinstance(x, str):
            return x in container      # raises TypeError
        if not len(x):
            return True
        if len(x) == 1:
            return s_or(False, *[char_eq(x if type(x) is str else str.__getitem__(x, 0), c)
                                 for c in str.__iter__(container)])
        s = SymStr(container)
        return s_or(False, *[s._at(x, i) for i in range(len(s) - len(x) + 1)])
    if is_sym(x):
        if isinstance(container, dict):
            keys = list(container.keys())
        elif isinstance(container, (list, tuple, set, frozenset, range)) or (
                type(container).__name__ in ('dict_keys', 'dict_values', 'odict_values')):
            keys = list(container)
        else:
            return x in container
        return s_or(False, *[s_eq(k, x) for k in keys])
    if tc is list or tc is tuple:
        if has_sym(container, 2):
            return s_or(False, *[s_eq(k, x) for k in container])
    return x in container


def s_mod(a, b, lenient=False):
    """%-formatting"""
    if not isinstance(a, str) and type(a) is not SymFD:
        return a % b
    if type(a) is SymFD:
        a = concretize(a)
        if not isinstance(a, str):
            return a % b
    if not has_sym(b) and type(a) is not SymStr:
        if lenient:
            try:
                return a % b
            except SxSignal:
                raise
        return a % b
    if lenient:
        return a
    # replace symbolic strings by their encoded text, everything else concretised
    def conv(v):
        if type(v) is SymStr:
            return _raw(v)
        if is_sym(v):
            return concretize(v)
        if type(v) in (list, tuple, dict, set):
            return concretize(v)
        return v
    a = _raw(a)
    if '%r' in a:
        b = concretize(b)
    if isinstance(b, tuple):
        b = tuple(conv(v) for v in b)
    elif isinstance(b, dict):
        b = {k: conv(v) for k, v in b.items()}
    else:
        b = conv(b)
    return mk_str(a % b)


def _has_codes(b):
    try:
        text = bytes.decode(b, 'utf-8')
    except UnicodeDecodeError:
        return False
    return any(c >= PUA_CHR and c in _ENGINE.chars for c in text)


def wrap(x, depth=3):
    """wrap plain strings coming back from foreign code"""
    t = type(x)
    if t is str:
        return mk_str(x)
    if t is bytes:
        return SymBytes(x) if _ENGINE is not None and b'\xf3' in x and _has_codes(x) else x
    if depth:
        if t is list:
            for i, v in enumerate(x):
                if isinstance(v, str) and not v.isascii():      # str, smart strings of xpath
                    m = mk_str(str.__str__(v))
                    if type(v) is str or type(m) is SymStr:
                        x[i] = m
                elif type(v) in (tuple, list):
                    x[i] = wrap(v, depth - 1)
            return x
        if t is tuple:
            if any(type(v) is str and not v.isascii() or type(v) in (tuple, list) for v in x):
                return tuple(wrap(v, depth - 1) for v in x)
            return x
        if t is dict:
            if any(type(v) is str and not v.isascii() for v in x.values()):
                return {k: wrap(v, depth - 1) for k, v in x.items()}
            return x
    return x


def unwrap(x, depth=3):
    """SymStr -> encoded plain str for foreign code that only moves text around"""
    t = type(x)
    if t is SymStr:
        return _raw(x)
    if t is SymFD or t is SymInt or t is SymBool:
        return concretize(x)
    if t is SymBytes:
        return bytes(x)
    if depth:
        if t is list:
            return [unwrap(v, depth - 1) for v in x]
        if t is tuple:
            return tuple(unwrap(v, depth - 1) for v in x)
        if t is dict:
            return {unwrap(k, depth - 1): unwrap(v, depth - 1) for k, v in x.items()}
    return x
