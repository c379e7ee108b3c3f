"""small programs for the self test of the engine: the model of every path must give the same
result on plain Python"""
import collections
import dataclasses
import functools
import itertools
import operator
import re
from typing import NamedTuple, Optional

import regex


def f_split(ctx, n):
    s = ctx.text('s', n, 'ab ,-')
    return [s.split(','), s.strip(), s.replace('a', 'bb'), s.find('b'), s.upper(), s.startswith('a-')]


def f_re(ctx, n):
    s = ctx.text('s', n, 'a1 .-')
    return [re.sub(r'\s+', ' ', s), bool(re.match(r'^[a\d]+\.', s)), regex.split(r'(\W)', s),
            [m.group(0) for m in re.finditer(r'\d+|a', s)], re.search(r'(\d)-(.?)', s) and 1]


def f_num(ctx, n):
    s = ctx.text('s', n, '019 ')
    try:
        v = int(s)
    except ValueError:
        return 'bad'
    return [v, v > 10, v % 3, str(v), [x for x in range(v) if x % 2][:2]]


def f_cmp(ctx, n):
    s = ctx.text('s', n, 'aAbB')
    t = ctx.text('t', n, 'aA')
    return [s == t, s.lower() == t.lower(), s in ('a' * n, 'b' * n), {s: 1}.get(t), s < 'b',
            sorted([s, t]) == [s, t], len(set(s))]


def f_fmt(ctx, n):
    s = ctx.text('s', n, 'a1_')
    k = ctx.choice('k', [None, 'x', 'y-z'])
    return ['%s|%s' % (s, k), '{} {}'.format(s, k), f'{s}-{k}', (k or 'none') + s, s[1:], s[-1:],
            k.split('-') if k else [], s.isdigit(), '-'.join([s, s])]


class _Pair(NamedTuple):
    left: str
    right: str


@dataclasses.dataclass(frozen=True)
class _Item:
    text: str
    tag: Optional[str] = None

    @property
    def size(self):
        return len(self.text)


def f_methods(ctx, n):
    s = ctx.text('s', n, 'aB -')
    try:
        at = s.index('-')
    except ValueError:
        at = None
    return [list(map(str.strip, s.split('-'))), s.partition('-'), s.rpartition(' '), s.casefold(),
            s.removeprefix('a'), s.removesuffix('-'), s.translate({ord('a'): 'xy', ord('-'): None}),
            at, s.rfind(' '), s.count('a'), s.lstrip('a-'), s.rstrip(' '), s.title() == s, s.swapcase(),
            s.endswith(('-', ' ')), s.isspace(), s.isalpha(), s.islower(), s.isupper(), s.isalnum(),
            s.splitlines(), s.center(n + 2, '*'), s.zfill(n + 1), s.ljust(n + 1), s.rsplit('-', 1),
            s.split(), s.split(None, 1), s.join(['x', 'y']), s.expandtabs(), s[::-1], s * 2,
            ''.join(reversed(s)), [ord(c) for c in s], s.isdecimal(), s.encode('utf-8').decode('utf-8')]


def f_collections(ctx, n):
    s = ctx.text('s', n, 'ab ')
    counts = collections.Counter(s)
    groups = collections.defaultdict(list)
    for i, c in enumerate(s, start=1):
        groups[c].append(i)
    queue = collections.deque(s, maxlen=2)
    first = next((c for c in s if c != ' '), None)
    return [counts['a'], sorted(groups.items()), list(queue), first, max(s, key=lambda c: (c == 'a', c)),
            min(s), list(dict.fromkeys(s)), [k for k, _ in itertools.groupby(s)],
            list(itertools.takewhile(str.isalpha, s)), list(itertools.dropwhile(lambda c: c == 'a', s)),
            list(itertools.chain.from_iterable([s, 'x'])), list(itertools.zip_longest(s, 'ab', fillvalue='-')),
            functools.reduce(lambda x, y: y + x, s, ''), list(itertools.accumulate(s)),
            list(itertools.islice(s, 1, None)), [a == b for a, b in zip(s, s[1:])],
            any(c == 'a' for c in s), all(c != 'b' for c in s), sum(c == 'b' for c in s),
            sorted(s, key=operator.itemgetter(0), reverse=True), {c: i for i, c in enumerate(s)}.get('a'),
            'a' in set(s), tuple(filter(str.strip, s)), [*s, *'x'], list(itertools.compress(s, [1, 0, 1]))]


def f_classes(ctx, n):
    s = ctx.text('s', n, 'ab')
    k = ctx.pick('k', [None, 'b-x', 'i-x'])
    pair = _Pair(s, right=s.upper())
    item = _Item(s, tag=k)
    left, *rest = s
    if (m := re.fullmatch(r'(?P<a>a+)(b*)', s)) is not None:
        parts = [m.group('a'), m.groups(), m.span(2), m.start(), m.end('a')]
    else:
        parts = []
    match k:
        case None:
            kind = 'none'
        case str() if k.startswith('b-'):
            kind = 'begin'
        case _:
            kind = 'inside'
    try:
        value = {'b-x': 1}[k]
    except KeyError as e:
        value = repr(e)
    finally:
        parts.append('done')
    return [pair.left, pair.right, pair == (s, s.upper()), item.size, item == _Item(s, k),
            dataclasses.replace(item, tag='y').tag, left, rest, parts, kind, value, item.tag or 'no',
            getattr(item, 'text'), [x for x in (item.tag,) if x], f'{s:>4}|{s!r}|{len(s):03d}',
            '%-4s|%d' % (s, len(s)), '{0}{1}{0}'.format(s, k), not item.tag, bool(s), isinstance(s, str),
            type(item).__name__, k is None, s is s]


def f_regex(ctx, n):
    s = ctx.text('s', n, 'a1. ')
    pattern = re.compile(r'(?i)(A)?(\d*)\.?')
    return [[m.groups() for m in pattern.finditer(s)], pattern.sub(lambda m: '<%s>' % m.group(0), s),
            re.findall(r'[a1]+', s), re.split(r'[. ]+', s), re.subn('a', r'[\g<0>]', s),
            re.sub(r'(a)(1)', r'\2\1', s), bool(re.search(r'\ba\b', s)), bool(re.search(r'(?<=a)1', s)),
            bool(re.search(r'a(?!1)', s)), re.escape(s), bool(re.match(r'\s*$', s)),
            [m.span() for m in re.finditer(r'\S+', s)], bool(re.search(r'^1', s, flags=re.MULTILINE))]


FUNCTIONS = [(f_split, 3), (f_re, 3), (f_num, 2), (f_cmp, 2), (f_fmt, 2), (f_methods, 2), (f_collections, 3),
             (f_classes, 2), (f_regex, 3)]
