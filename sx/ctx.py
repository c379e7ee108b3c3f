"""Contexts a harness runs in: symbolic exploration or concrete replay."""
from . import core
from .core import SymBool, SymFD, SymInt, SymStr, s_and, s_or, s_not, s_eq


# characters a document may contain: XML whitespace, printable ASCII and Latin-1,
# and general punctuation / letters that the code treats specially
LATIN = ''.join(
    [chr(c) for c in (9, 10)] + [chr(c) for c in range(0x20, 0x7f)] +
    [chr(c) for c in range(0xa1, 0x100)]
)
SPECIALS = '\u00a0\u2009\u2010\u2011\u2013\u2014\u2018\u2019\u201c\u201d\u2020\u2026\u03b1\u0391\u0107\u0301'
TEXT = LATIN + SPECIALS
ASCII = ''.join(chr(c) for c in range(0x20, 0x7f))
WORD = ''.join(c for c in TEXT if c.isalnum())


class Violation(Exception):
    def __init__(self, label, detail=None):
        Exception.__init__(self, label)
        self.label = label
        self.detail = detail


class AssumptionFailed(Exception):
    pass


class Diverged(BaseException):
    """the replay asks for an input the path did not have"""


class SymCtx:
    symbolic = True

    def __init__(self, eng, known=()):
        self.eng = eng
        self.inputs = []        # (name, kind, payload)
        self.violations = []
        self.known_hits = []
        self.reached = set()
        self.observed = []
        self.known = set(known)

    # -- inputs
    def _declare(self, name, kind, payload):
        assert all(n != name for n, _, _ in self.inputs), 'duplicate input %s' % name
        self.inputs.append((name, kind, payload))

    def text(self, name, n, alphabet=TEXT):
        table = tuple(alphabet)
        out = []
        vs = []
        for i in range(n):
            v = self.eng.var('%s.%d' % (name, i), len(table))
            vs.append(v)
            out.append(self.eng.code(v, table))
        self._declare(name, 'text', (vs, table))
        return core.mk_str(''.join(out))

    def choice(self, name, values):
        values = tuple(values)
        v = self.eng.var(name, len(values))
        self._declare(name, 'choice', (v, values))
        return core._fd_result(v, values)

    def pick(self, name, values):
        values = tuple(values)
        if len(values) == 1:
            return values[0]
        v = self.eng.var(name, len(values))
        self._declare(name, 'choice', (v, values))
        return values[self.eng.concretize_fd(v)]

    def flag(self, name):
        v = self.eng.var(name, 2)
        self._declare(name, 'flag', v)
        return core.mk_unary(v, 2)

    def int(self, name, lo, hi):
        import z3
        z = z3.Int(name)
        self._declare(name, 'int', z)
        self.eng.assume(SymBool(expr=z3.And(z >= lo, z <= hi)))
        return SymInt(z)

    # -- logic
    def assume(self, cond):
        self.eng.assume(cond)

    and_ = staticmethod(lambda *a: s_and(*a))
    or_ = staticmethod(lambda *a: s_or(False, *a))
    not_ = staticmethod(s_not)
    eq = staticmethod(s_eq)

    def implies(self, a, b):
        return s_or(s_not(a), b)

    def all(self, conds):
        return s_and(*list(conds))

    def any(self, conds):
        return s_or(False, *list(conds))

    # -- verdicts
    def reach(self, label):
        self.reached.add(label)

    def observe(self, name, value):
        self.observed.append((name, value))

    def all_vars(self):
        out = []
        for _, kind, p in self.inputs:
            if kind == 'text':
                out.extend(p[0])
            elif kind == 'choice':
                out.append(p[0])
            elif kind == 'flag':
                out.append(p)
        return out

    def _eval_var(self, m, v):
        val = m.eval(v.z, model_completion=False)
        try:
            k = val.as_long()
        except AttributeError:
            d = self.eng.domain(v)
            k = (d & -d).bit_length() - 1
        return k

    def inputs_of(self, m):
        out = {}
        for name, kind, p in self.inputs:
            if kind == 'text':
                vs, table = p
                out[name] = ''.join(table[self._eval_var(m, v)] for v in vs)
            elif kind == 'choice':
                out[name] = self._eval_var(m, p[0])
            elif kind == 'flag':
                out[name] = bool(self._eval_var(m, p))
            else:
                out[name] = m.eval(p, model_completion=True).as_long()
        return out

    def eval_value(self, m, x):
        t = type(x)
        if t is SymStr:
            out = []
            for c in str.__iter__(x):
                if c >= core.PUA_CHR:
                    var, table = self.eng.chars[c]
                    c = table[self._eval_var(m, var)]
                out.append(c)
            return ''.join(out)
        if t is SymFD:
            return self.eval_value(m, x.vals[self._eval_var(m, x.var)])
        if t is SymInt:
            return m.eval(x.z, model_completion=True).as_long()
        if t is SymBool:
            import z3
            if x.var is not None:
                return bool(x.mask >> self._eval_var(m, x.var) & 1)
            return z3.is_true(m.eval(x.expr, model_completion=True))
        if t is list:
            return [self.eval_value(m, v) for v in x]
        if t is tuple:
            return [self.eval_value(m, v) for v in x]
        if t is dict:
            return {str(k): self.eval_value(m, v) for k, v in x.items()}
        if t in (str, int, bool, float) or x is None:
            return x
        return repr(type(x))

    def path_model(self, extra=()):
        return self.eng.query(list(extra), self.all_vars(), want_model=True)

    def check(self, cond, label, detail=None, known=None):
        """assert cond on the current path.  known: {finding id: region condition}; a failure
        inside the region of a finding listed in the known-findings file is reported as such"""
        self.eng.stats.assertions += 1
        neg = s_not(cond) if isinstance(cond, SymBool) else not cond
        if neg is False:
            self._discharge(False)
            return
        regions = {k: r for k, r in (known or {}).items() if k in self.known}
        for fid, region in regions.items():
            hit = s_and(neg, region)
            if hit is not False:
                m = self._discharge(hit)
                if m is not None:
                    self.known_hits.append((fid, label, self.inputs_of(m)))
        viol = s_and(neg, *[s_not(r) for r in regions.values()]) if regions else neg
        if viol is not False:
            m = self._discharge(viol)
            if m is not None:
                self.violations.append({
                    'label': label, 'inputs': self.inputs_of(m),
                    'detail': self.eval_value(m, detail) if detail is not None else None,
                })
        # continue on the part of the path where the assertion held
        if cond is False or (not isinstance(cond, SymBool) and not cond):
            raise core.PathAbort('assertion failed')
        self.eng.assume(cond)

    def _discharge(self, sb):
        if sb is False:
            # the negated assertion is syntactically false under this path's condition
            import z3
            r = self.eng.query([z3.BoolVal(False)])
            assert r is False
            return None
        terms = [sb.term()] if isinstance(sb, SymBool) else []
        return self.eng.query(terms, self.all_vars(), want_model=True)

    def fail(self, label, detail=None, known=None):
        self.check(False, label, detail, known)


class _Inputs(dict):
    def __missing__(self, key):
        raise Diverged(key)


class ConCtx:
    """concrete replay on the unmodified program"""
    symbolic = False

    def __init__(self, inputs, known=()):
        self.values = _Inputs(inputs)
        self.observed = []
        self.reached = set()

    def text(self, name, n, alphabet=TEXT):
        return self.values[name]

    def choice(self, name, values):
        return tuple(values)[self.values[name]]

    def pick(self, name, values):
        values = tuple(values)
        return values[0] if len(values) == 1 else values[self.values[name]]

    def flag(self, name):
        return self.values[name]

    def int(self, name, lo, hi):
        return self.values[name]

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed()

    @staticmethod
    def and_(*a):
        return all(a)

    @staticmethod
    def or_(*a):
        return any(a)

    @staticmethod
    def not_(a):
        return not a

    @staticmethod
    def eq(a, b):
        return a == b

    def implies(self, a, b):
        return (not a) or bool(b)

    def all(self, conds):
        return all(list(conds))

    def any(self, conds):
        return any(list(conds))

    def reach(self, label):
        self.reached.add(label)

    def observe(self, name, value):
        self.observed.append((name, norm(value)))

    def check(self, cond, label, detail=None, known=None):
        if not cond:
            raise Violation(label, detail)

    def fail(self, label, detail=None, known=None):
        raise Violation(label, detail)


def norm(x):
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, (str, int, bool, float)) or x is None:
        return x if not isinstance(x, str) else str(x)
    return repr(type(x))
