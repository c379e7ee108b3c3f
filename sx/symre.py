"""Backtracking regular expression matching over symbolic text.

The pattern is parsed with CPython's own parser; single-character tests are
evaluated with the *real* regex module the program uses (re or regex) for every
value a symbolic character can take, so that only the control structure
(sequencing, alternation, repetition, look-around, groups) is modelled here.
"""
import re
import re._parser as sre_parser
import re._constants as sc
import regex

from . import core
from .core import SymStr, char_pred, char_eq, mk_str, is_sym, concretize, s_not, s_and, s_or


class CannotModel(Exception):
    pass


_CATS = {
    sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D',
    sc.CATEGORY_SPACE: r'\s', sc.CATEGORY_NOT_SPACE: r'\S',
    sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W',
}


def _esc(code):
    c = chr(code)
    return re.escape(c) if c.isprintable() else '\\u%04x' % code


def _unparse_in(items):
    out = []
    for op, av in items:
        if op is sc.NEGATE:
            out.append('^')
        elif op is sc.LITERAL:
            c = chr(av)
            out.append('\\' + c if c in '\\]^-[&~|' else ('\\u%04x' % av if not c.isprintable() else c))
        elif op is sc.RANGE:
            out.append('%s-%s' % (_esc(av[0]), _esc(av[1])))
        elif op is sc.CATEGORY:
            out.append(_CATS[av])
        else:
            raise CannotModel('set item %s' % op)
    return '[' + ''.join(out) + ']'


class CharTest:
    def __init__(self, src, module, flags):
        self.rx = module.compile(src, flags)
        self.name = ('re', module.__name__, src, int(flags))
        self.cache = {}

    def _f(self, c):
        r = self.cache.get(c)
        if r is None:
            r = self.rx.fullmatch(c) is not None
            self.cache[c] = r
        return r

    def __call__(self, c):
        return char_pred(c, self.name, self._f)


class Compiled:
    def __init__(self, pattern, flags, module):
        self.pattern = pattern
        self.flags = int(flags)
        self.module = module
        self.real = module.compile(pattern, flags)
        try:
            if module is regex and ('\\p' in pattern or '(?|' in pattern or '[[' in pattern):
                raise CannotModel('regex syntax')
            p = sre_parser.parse(pattern, self.flags & ~int(regex.V0) & ~int(regex.V1)
                                 if module is regex else self.flags)
        except (CannotModel, re.error, OverflowError) as e:
            raise CannotModel(str(e))
        self.groupindex = dict(p.state.groupdict)
        self.ngroups = p.state.groups - 1
        self.eff_flags = p.state.flags
        if self.eff_flags & (re.LOCALE | re.DEBUG):
            raise CannotModel('flags')
        self.ignorecase = bool(self.eff_flags & re.I)
        self.dotall = bool(self.eff_flags & re.S)
        self.multiline = bool(self.eff_flags & re.M)
        self.test_flags = (module.I if self.ignorecase else 0) | (
            module.A if self.eff_flags & re.A else 0)
        self._tests = {}
        self.nodes = self._prep(list(p))

    def _test(self, src):
        t = self._tests.get(src)
        if t is None:
            t = CharTest(src, self.module, self.test_flags)
            self._tests[src] = t
        return t

    def _prep(self, nodes):
        out = []
        for op, av in nodes:
            if op is sc.LITERAL:
                out.append(('ch', self._test(_esc(av))))
            elif op is sc.NOT_LITERAL:
                out.append(('ch', self._test(_unparse_in([(sc.NEGATE, None), (sc.LITERAL, av)]))))
            elif op is sc.ANY:
                out.append(('ch', self._test(r'[\s\S]' if self.dotall else r'[^\n]')))
            elif op is sc.IN:
                out.append(('ch', self._test(_unparse_in(av))))
            elif op is sc.BRANCH:
                out.append(('alt', [self._prep(list(b)) for b in av[1]]))
            elif op is sc.SUBPATTERN:
                group, add, dele, sub = av
                if add or dele:
                    raise CannotModel('inline flags')
                out.append(('grp', group, self._prep(list(sub))))
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
                lo, hi, sub = av
                if op is sc.POSSESSIVE_REPEAT:
                    raise CannotModel('possessive')
                out.append((
                    'rep', lo, None if hi is sc.MAXREPEAT else hi, self._prep(list(sub)),
                    op is sc.MAX_REPEAT
                ))
            elif op is sc.AT:
                out.append(('at', av))
            elif op in (sc.ASSERT, sc.ASSERT_NOT):
                direction, sub = av
                width = None
                if direction < 0:
                    lo, hi = sub.getwidth()
                    if lo != hi:
                        raise CannotModel('variable lookbehind')
                    width = lo
                out.append(('look', op is sc.ASSERT, width, self._prep(list(sub))))
            elif op is sc.GROUPREF:
                if self.ignorecase:
                    raise CannotModel('ignorecase backref')
                out.append(('ref', av))
            else:
                raise CannotModel('op %s' % op)
        return tuple(out)

    # -- matching: generators yield (end, groups)
    def _m(self, nodes, k, s, i, g, end):
        if k == len(nodes):
            yield i, g
            return
        n = nodes[k]
        kind = n[0]
        if kind == 'ch':
            # fast run of single characters
            if i < end and n[1](s[i]):
                yield from self._m(nodes, k + 1, s, i + 1, g, end)
            return
        if kind == 'alt':
            for b in n[1]:
                for i2, g2 in self._m(b, 0, s, i, g, end):
                    yield from self._m(nodes, k + 1, s, i2, g2, end)
            return
        if kind == 'grp':
            gi = n[1]
            for i2, g2 in self._m(n[2], 0, s, i, g, end):
                if gi is not None:
                    g2 = dict(g2)
                    g2[gi] = (i, i2)
                    g2[0] = gi
                yield from self._m(nodes, k + 1, s, i2, g2, end)
            return
        if kind == 'rep':
            _, lo, hi, sub, greedy = n
            for i2, g2 in self._rep(sub, lo, hi, greedy, s, i, g, end, 0):
                yield from self._m(nodes, k + 1, s, i2, g2, end)
            return
        if kind == 'at':
            if self._at(n[1], s, i):
                yield from self._m(nodes, k + 1, s, i, g, end)
            return
        if kind == 'look':
            _, positive, width, sub = n
            found = None
            if width is None:
                for r in self._m(sub, 0, s, i, g, end):
                    found = r
                    break
            elif i - width >= 0:
                for r in self._m(sub, 0, s, i - width, g, end):
                    found = r
                    break
            if positive and found is not None:
                yield from self._m(nodes, k + 1, s, i, found[1], end)
            elif not positive and found is None:
                yield from self._m(nodes, k + 1, s, i, g, end)
            return
        if kind == 'ref':
            span = g.get(n[1])
            if span is None:
                return
            length = span[1] - span[0]
            if i + length <= end and s_and(*[
                char_eq(s[span[0] + j], s[i + j]) for j in range(length)
            ]):
                yield from self._m(nodes, k + 1, s, i + length, g, end)
            return
        raise CannotModel(kind)

    def _rep(self, sub, lo, hi, greedy, s, i, g, end, count):
        simple = len(sub) == 1 and sub[0][0] == 'ch'
        if simple:
            t = sub[0][1]
            if greedy:
                j = i
                n = 0
                while j < end and (hi is None or n < hi) and t(s[j]):
                    j += 1
                    n += 1
                while n >= lo:
                    yield i + n, g
                    n -= 1
            else:
                j = i
                n = 0
                while True:
                    if n >= lo:
                        yield j, g
                    if j < end and (hi is None or n < hi) and t(s[j]):
                        j += 1
                        n += 1
                    else:
                        return
            return
        if greedy:
            if hi is None or count < hi:
                for i2, g2 in self._m(sub, 0, s, i, g, end):
                    if i2 == i and count >= lo:
                        continue
                    yield from self._rep(sub, lo, hi, greedy, s, i2, g2, end, count + 1)
            if count >= lo:
                yield i, g
        else:
            if count >= lo:
                yield i, g
            if hi is None or count < hi:
                for i2, g2 in self._m(sub, 0, s, i, g, end):
                    if i2 == i and count >= lo:
                        continue
                    yield from self._rep(sub, lo, hi, greedy, s, i2, g2, end, count + 1)

    def _at(self, at, s, i):
        n = len(s)
        if at in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            if i == 0:
                return True
            return at is sc.AT_BEGINNING and self.multiline and char_eq(s[i - 1], '\n')
        if at is sc.AT_END_STRING:
            return i == n
        if at is sc.AT_END:
            if i == n:
                return True
            if self.multiline:
                return char_eq(s[i], '\n')
            return i == n - 1 and char_eq(s[i], '\n')
        if at in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            w = self._test(r'\w')
            a = bool(w(s[i - 1])) if i > 0 else False
            b = bool(w(s[i])) if i < n else False
            return (a != b) == (at is sc.AT_BOUNDARY)
        raise CannotModel('at %s' % at)

    def match_at(self, chars, i, full=False, end=None):
        end = len(chars) if end is None else end
        for j, g in self._m(self.nodes, 0, chars, i, {}, end):
            if not full or j == end:
                return j, g
        return None


class SymMatch:
    def __init__(self, rx, string, start, end, groups, pos, endpos):
        self.re = rx.real
        self._rx = rx
        self.string = string
        self._spans = {k: v for k, v in groups.items() if k != 0}
        self.lastindex = groups.get(0)
        self._spans[0] = (start, end)
        self.pos = pos
        self.endpos = endpos

    def _idx(self, k):
        if isinstance(k, str):
            if k not in self._rx.groupindex:
                raise IndexError('no such group')
            return self._rx.groupindex[k]
        if k > self._rx.ngroups or k < 0:
            raise IndexError('no such group')
        return k

    def span(self, k=0):
        return self._spans.get(self._idx(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _g(self, k):
        s = self._spans.get(self._idx(k))
        return None if s is None else self.string[s[0]:s[1]]

    def group(self, *ks):
        if not ks:
            return self._g(0)
        if len(ks) == 1:
            return self._g(ks[0])
        return tuple(self._g(k) for k in ks)

    def groups(self, default=None):
        return tuple(
            default if self._spans.get(k) is None else self._g(k)
            for k in range(1, self._rx.ngroups + 1)
        )

    def groupdict(self, default=None):
        return {k: (self._g(v) if self._spans.get(v) is not None else default)
                for k, v in self._rx.groupindex.items()}

    def __getitem__(self, k):
        return self._g(k)

    @property
    def lastgroup(self):
        for k, v in self._rx.groupindex.items():
            if v == self.lastindex:
                return k
        return None

    def expand(self, template):
        return _expand(self, template)

    def __bool__(self):
        return True


def _expand(m, template):
    parsed = sre_parser.parse_template(template, m._rx.real if isinstance(
        m._rx.real, re.Pattern) else re.compile(m._rx.pattern, m._rx.eff_flags & ~re.U | 0))
    out = []
    for part in parsed:
        if isinstance(part, int):
            out.append(m._g(part) or '')
        else:
            out.append(part)
    return SymStr('').join(out)


_CACHE = {}


def get(pattern, flags=0, module=re):
    """Compiled or None when it cannot be modelled"""
    if not isinstance(pattern, str):
        flags = pattern.flags
        module = regex if type(pattern) is not re.Pattern else re
        flags &= ~int(re.U) if module is re else ~int(regex.U)
        if module is regex:
            flags &= int(regex.I | regex.M | regex.S | regex.X | regex.A)
        pattern = pattern.pattern
    key = (pattern, int(flags), module.__name__)
    if key not in _CACHE:
        try:
            _CACHE[key] = Compiled(pattern, flags, module)
        except CannotModel:
            _CACHE[key] = None
    return _CACHE[key]


def _iter_matches(rx, s, pos=0, endpos=None):
    chars = list(str.__iter__(s))
    n = len(chars) if endpos is None else min(endpos, len(chars))
    if endpos is not None and endpos < len(chars):
        chars = chars[:n]
    i = pos
    last_end = -1
    must_advance = False
    while i <= n:
        found = None
        for st in range(i, n + 1):
            for j, g in rx._m(rx.nodes, 0, chars, st, {}, n):
                if must_advance and j == st == last_end:
                    continue
                found = (st, j, g)
                break
            if found:
                break
        if not found:
            return
        st, j, g = found
        yield SymMatch(rx, s, st, j, g, pos, n)
        i = j
        last_end = j
        must_advance = st == j


def op(rx, name, s, *args, **kwargs):
    """perform module/pattern operation `name` of compiled rx on (symbolic) s"""
    if name in ('match', 'fullmatch', 'search', 'finditer', 'findall'):
        pos = kwargs.pop('pos', args[0] if args else 0)
        endpos = kwargs.pop('endpos', args[1] if len(args) > 1 else None)
        for k in list(kwargs):
            if k in ('flags',):
                kwargs.pop(k)
        if kwargs:
            raise core.Unsupported('regex keyword %s' % list(kwargs))
        pos = concretize(pos)
        chars = list(str.__iter__(s))
        n = len(chars) if endpos is None else min(concretize(endpos), len(chars))
        if name in ('match', 'fullmatch'):
            r = rx.match_at(chars[:n], pos, full=name == 'fullmatch', end=n)
            return None if r is None else SymMatch(rx, s, pos, r[0], r[1], pos, n)
        it = _iter_matches(rx, s, pos, n)
        if name == 'search':
            return next(it, None)
        if name == 'finditer':
            return it
        out = []
        for m in it:
            gs = m.groups('')
            out.append(m.group(0) if not gs else (gs[0] if len(gs) == 1 else gs))
        return out
    if name == 'split':
        maxsplit = kwargs.get('maxsplit', args[0] if args else 0)
        out = []
        last = 0
        count = 0
        for m in _iter_matches(rx, s):
            if maxsplit and count >= maxsplit:
                break
            out.append(s[last:m.start()])
            out.extend(m.groups())
            last = m.end()
            count += 1
        out.append(s[last:])
        return out
    raise core.Unsupported('regex op %s' % name)


def sub(rx, repl, s, count=0, call=None, with_count=False):
    out = []
    last = 0
    n = 0
    for m in _iter_matches(rx, s):
        if count and n >= count:
            break
        out.append(s[last:m.start()])
        if callable(repl):
            r = repl(m)
        elif '\\' in str.__str__(repl):
            r = _expand(m, concretize(repl))
        else:
            r = repl
        out.append(r)
        last = m.end()
        n += 1
    out.append(s[last:])
    res = SymStr('').join(out)
    return (res, n) if with_count else res
