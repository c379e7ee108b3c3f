"""C05: fuzzy search reports text that really is as similar as asked for, at its exact place, and finds
text that is there, wherever it is."""
from sciencebeam_trainer_grobid_tools.utils.fuzzy import (
    fuzzy_search_index_range,
    fuzzy_search_index_range_chunks,
    iter_fuzzy_search_all_index_ranges
)

from sx.harness import Harness

SEPARATORS = ' .,-:;()[]\n\t'
FOREIGN = 'xy'


def _range(r):
    return None if r is None else (r[0], r[1])


def _needle(ctx, needle):
    """literal needle, or symbolic letters (distinct from the foreign ones) for each '?'"""
    if '?' not in needle:
        return needle
    n = needle.count('?')
    s = ctx.text('needle', n, 'abc')
    out, k = '', 0
    for c in needle:
        if c == '?':
            c, k = s[k], k + 1
        out = out + c
    return out


def exact(ctx, needle, pre, post, more, start):
    """text that is there is found where it is"""
    needle = _needle(ctx, needle)
    n = len(needle)
    before = ctx.text('pre', pre, FOREIGN + more)
    after = ctx.text('post', post, FOREIGN + more)
    haystack = before + needle + after
    threshold = ctx.pick('threshold', [0.8, 1.0])
    r = _range(fuzzy_search_index_range(haystack, needle, threshold, start_index=start))
    if start > pre:
        # what is left after the start is not enough
        ctx.check(r is None or r[0] >= start, 'found before the start', [r])
        ctx.reach('start')
        return
    word = n < 5 or len(haystack) - start < 5
    left = pre == start or before[pre - 1] in SEPARATORS
    right = post == 0 or after[0] in SEPARATORS
    if word:
        if left and right:
            ctx.check(r == (pre, pre + n), 'a word that is there is not found where it is', [haystack, r])
            ctx.reach('word')
        else:
            ctx.check(r is None, 'a part of a word is found as a word', [haystack, r])
            ctx.reach('part')
        return
    ctx.check(r == (pre, pre + n), 'text that is there is not found where it is', [haystack, r])
    ctx.reach('text')


def _common(a, b):
    """number of characters in common and in order; the alignment library may align a repeated
    character with the same one more than once"""
    repeated = any(s[i] == s[j] for s in (a, b) for i in range(len(s)) for j in range(i))
    row = [0] * (len(b) + 1)
    for x in a:
        prev = row
        row = [0]
        for j, y in enumerate(b):
            if x != y:
                row.append(max(prev[j + 1], row[j]))
            elif repeated:
                row.append(max(prev[j], prev[j + 1], row[j]) + 1)
            else:
                row.append(prev[j] + 1)
    return row[-1]


def _junk(s):
    """characters that need not match: stars, blanks, commas after dots, dots after letters"""
    n, last = 0, ''
    for c in s:
        if c in '* \n\t':
            n += 1
        elif c == ',' and last == '.' or c == '.' and last != '' and last.isalpha():
            n += 1
        if c != ' ':
            last = c
    return n


def _visible(s):
    out = ''
    for c in s:
        if c not in ' \n\t':
            out = out + c
    return out


def similar(ctx, needle, spec, alphabet):
    """what is found is similar enough, lies within the text and a lower threshold finds it too"""
    k = spec.count('?')
    s = ctx.text('s', k, alphabet)
    haystack, j = '', 0
    for c in spec:
        if c == '?':
            c, j = s[j], j + 1
        haystack = haystack + c
    threshold = 0.8
    r = _range(fuzzy_search_index_range(haystack, needle, threshold))
    lower = _range(fuzzy_search_index_range(haystack, needle, 0.7))
    higher = _range(fuzzy_search_index_range(haystack, needle, 0.9))
    ctx.check(higher is None or r == higher, 'found with a higher threshold only', [haystack, r, higher])
    ctx.check(r is None or r == lower, 'found with a higher threshold only', [haystack, lower, r])
    for t, x in ((0.7, lower), (0.8, r), (0.9, higher)):
        if x is None:
            ctx.reach('not found')
            continue
        ctx.reach('found')
        ctx.check(0 <= x[0] < x[1] <= len(haystack), 'range outside of the text', [haystack, x])
        found = haystack[x[0]:x[1]]
        # words are compared with the blanks between them
        a, b = (found, needle) if len(needle) < 5 else (_visible(found), _visible(needle))
        m = _common(a, b)
        size = len(b) + max(0, len(a) - m) - _junk(a) - _junk(b)
        ctx.check(m >= t * size - 1e-9, 'what was found is not similar enough', [haystack, found, t])
        ctx.check(found[0] in needle and found[-1] in needle, 'range starts or ends with other text',
                  [haystack, found])


def edited(ctx, n, kind, k, pre, post):
    """text with some characters changed, added or missing is found if the ratio reaches the threshold"""
    needle = 'abcdefghijklmnopqrstuvw'[:n]
    at = ctx.pick('at', range(n // 2 - 1, n // 2 + 2))
    before = ctx.text('pre', pre, FOREIGN + ' ')
    after = ctx.text('post', post, FOREIGN + ' ')
    other = ctx.text('other', k, 'x1')
    if kind == 'changed':
        text, size, m = needle[:at] + other + needle[at + k:], n + k, n - k
    elif kind == 'added':
        text, size, m = needle[:at] + other + needle[at:], n + k, n
    elif kind == 'missing':
        text, size, m = needle[:at] + needle[at + k:], n, n - k
    else:
        # characters that do not matter
        other = ctx.pick('junk', ['*', '.', ' ', '.,', '\n'][:5 if k > 1 else 3])
        text, size, m = needle[:at] + other + needle[at:], n, n
    haystack = before + text + after
    if m < n and kind == 'changed':
        # not taken for other characters of the value
        ctx.assume(ctx.all(c not in needle for c in other))
    for t in (0.5, 0.6, 0.7, 0.75, 0.8, 0.85, 0.9, 1.0):
        r = _range(fuzzy_search_index_range(haystack, needle, t))
        if m >= t * size - 1e-9:
            ctx.check(r == (pre, pre + len(text)), 'text that is similar enough is not found where it is',
                      [haystack, t, r])
            ctx.reach('found')
        else:
            ctx.check(r is None, 'text that is not similar enough is found', [haystack, t, r])
            ctx.reach('not found')


def every(ctx, needle, parts, sep):
    """all occurrences are found, one after the other"""
    haystack = ''
    expected = []
    for i in range(parts):
        if i:
            haystack = haystack + sep
        if ctx.pick('part%d' % i, [True, False]):
            expected.append((len(haystack), len(haystack) + len(needle)))
            haystack = haystack + needle
        else:
            haystack = haystack + ctx.text('other%d' % i, 1, 'xyz') + 'xyzxyz'
    start = ctx.pick('start', [0] + [e for _, e in expected[:1]] + ([1] if expected else []))
    # the rest of an occurrence may be similar enough, if the search starts within it
    threshold = 1.0 if start == 1 else ctx.pick('threshold', [1.0, 0.8])
    r = [_range(x) for x in iter_fuzzy_search_all_index_ranges(
        haystack, needle, threshold=threshold, start_index=start)]
    expected = [x for x in expected if x[0] >= start]
    ctx.check(r == expected, 'not all, or something else, is found', [haystack, r, expected])
    ctx.reach('%d found' % len(expected))


POSITIONS = sorted(set(
    list(range(0, 40, 3)) + list(range(100, 2300, 97)) + list(range(955, 1005, 2)) +
    list(range(1935, 1990, 3))))


def long(ctx, positions, n, blank):
    """in long text, searched in overlapping windows, a value is found wherever it is"""
    needle = 'abcdefghijklmnopqrst'[:n]
    p = ctx.pick('position', positions)
    edge = ctx.text('edge', 2, 'x ')
    filler = 'xyzx ' if blank else 'xyzxz'
    text = (filler * 500)
    haystack = text[:p] + needle[:1] + needle[1:] + edge + text[:2500 - p]
    r = _range(fuzzy_search_index_range(haystack, needle, 0.8))
    ctx.check(r == (p, p + n), 'text that is there is not found where it is', [p, r])
    start = ctx.pick('start', [1, 977])
    if start <= p:
        r = _range(fuzzy_search_index_range(haystack, needle, 0.8, start_index=start))
        ctx.check(r == (p, p + n), 'text that is there is not found where it is', [p, start, r])
    ctx.reach('found')


def chunks(ctx, positions, gaps, blank):
    """a value in two parts with other text between them is found as these parts"""
    one, two = 'abcdefghij', 'klmnopqrst'
    p = ctx.pick('position', positions)
    gap = ctx.pick('gap', gaps)
    edge = ctx.text('edge', 2, 'x.')
    filler = 'xyzx ' if blank else 'xyzxz'
    text = filler * 500
    between = (edge[0] + text)[:gap]
    swapped = ctx.pick('swapped', [False, True])
    if swapped:
        one, two = two, one
    haystack = text[:p] + one + between + two + edge[1] + text[:40]
    needle = 'abcdefghijklmnopqrst'
    first, second = (p, p + 10), (p + 10 + gap, p + 20 + gap)
    r = fuzzy_search_index_range_chunks(haystack, needle, threshold=0.8, max_chunks=2)
    r = None if r is None else [_range(x) for x in r]
    if swapped:
        ctx.check(r is None or sorted(r) == [first, second], 'parts are found elsewhere', [p, gap, r])
        ctx.reach('swapped')
        return
    visible = sum(c != ' ' for c in between)
    if gap and between[0] == '.':
        visible -= 1        # a dot after a letter does not count
    alone = fuzzy_search_index_range_chunks(haystack, needle, threshold=0.8, max_chunks=1)
    if 20 >= 0.8 * (20 + visible):
        # in parts if a window ends within
        ctx.check(bool(r) and r[0][0] == p and r[-1][1] == second[1],
                  'text that is similar enough is not found', [p, gap, r])
        ctx.reach('one part')
    else:
        ctx.check(r == [first, second], 'parts are not found where they are', [p, gap, r])
        ctx.check(not alone, 'text that is not similar enough is found', [p, gap, alone])
        ctx.reach('two parts')


def shapes_exact(tier):
    out = []
    for needle, more in (
            ('abcdef', ' .'), ('???de', '-'), ('ab cd ef', ' \n'), ('A.B. Cd', '., '), ('a-b(c)d', '-('),
            ('ab', ' .'), ('a', ',('), ('abc', '\n\t'), ('a?b', '-)'), ('abcd', ':;')):
        for pre, post in ((0, 0), (2, 0), (0, 2), (2, 2)):
            out.append({'needle': needle, 'pre': pre, 'post': post, 'more': more, 'start': 0})
        out.append({'needle': needle, 'pre': 3, 'post': 1, 'more': more, 'start': 2})
        out.append({'needle': needle, 'pre': 1, 'post': 3, 'more': more, 'start': 2})
    if tier != 'quick':
        for needle, more in (('??????', ' '), ('ab ??', ' .\n'), ('??', '-]'), ('abcdefghijklmn', ' .')):
            for pre, post in ((3, 3), (0, 4), (4, 0)):
                out.append({'needle': needle, 'pre': pre, 'post': post, 'more': more, 'start': 0})
    return out


def shapes_similar(tier):
    out = [
        {'needle': 'abcde', 'spec': 'x?b?d?x', 'alphabet': 'ace x'},
        {'needle': 'abcde', 'spec': '?????', 'alphabet': 'abcx'},
        {'needle': 'abcdef', 'spec': 'ab??ef?', 'alphabet': 'abcdx '},
        {'needle': 'a. b.c d', 'spec': 'a?b??cd', 'alphabet': '. ,x'},
        {'needle': 'abc', 'spec': '?bc???', 'alphabet': 'abc .'},
        {'needle': 'ab c', 'spec': 'ab??c?', 'alphabet': 'abc ,'},
        {'needle': 'aaaaa', 'spec': 'aa??aaa?', 'alphabet': 'abx '},
        {'needle': 'abababab', 'spec': 'ab?b?bab', 'alphabet': 'abx*'},
    ]
    if tier != 'quick':
        out += [
            {'needle': 'abcde', 'spec': '??????', 'alphabet': 'abcx '},
            {'needle': 'abcdefghij', 'spec': 'abc???ghi??', 'alphabet': 'defjx.'},
            {'needle': 'abab', 'spec': '??????', 'alphabet': 'ab ,'},
        ]
    return out


def shapes_edited(tier):
    out = []
    for kind in ('changed', 'added', 'missing', 'junk'):
        for n in ((9, 12, 13) if tier == 'quick' else (9, 10, 11, 12, 13, 15, 18)):
            for k in (1, 2):
                if k > 1 and n < 12:
                    continue
                out.append({'n': n, 'kind': kind, 'k': k, 'pre': 1, 'post': 1})
    return out


def shapes_every(tier):
    return [{'needle': a, 'parts': p, 'sep': s}
            for a in ('abc', 'a', 'abcdef', 'ab cd ef', 'abcdefghijklm')
            for s in ((' ', '; ') if len(a) < 5 else (' ', '; ', '', ',', '\n'))
            for p in ((3,) if tier == 'quick' else (3, 4, 5))]


def shapes_long(tier):
    step = 8
    ps = POSITIONS if tier == 'quick' else list(range(0, 2300, 7)) + list(range(930, 1010)) + list(
        range(1930, 1999))
    ps = sorted(set(ps))
    return [{'positions': ps[i::step], 'n': n, 'blank': b} for i in range(step)
            for n, b in ([(20, False), (7, True)] if tier == 'quick' else [
                (20, False), (7, True), (5, False), (12, True)])]


def shapes_chunks(tier):
    ps = [0, 1, 100, 950, 960, 970, 976, 977, 980, 990, 1000, 1500, 1950, 2100]
    gaps = [0, 3, 5, 6, 8, 12, 40, 300, 980, 1400]
    if tier != 'quick':
        ps = sorted(set(ps + list(range(0, 2200, 150)) + list(range(960, 1000, 4))))
        gaps = sorted(set(gaps + [4, 7, 10, 11, 20, 700, 960, 1000, 1990]))
    return [{'positions': ps[i::7], 'gaps': gaps, 'blank': b} for i in range(7) for b in (False, True)]


HARNESSES = [
    Harness('exact', exact, shapes_exact, reach=['text', 'word', 'part', 'start']),
    Harness('similar', similar, shapes_similar, reach=['found', 'not found']),
    Harness('edited', edited, shapes_edited, reach=['found', 'not found']),
    Harness('every', every, shapes_every, reach=['0 found', '1 found', '2 found', '3 found']),
    Harness('long', long, shapes_long, reach=['found']),
    Harness('chunks', chunks, shapes_chunks, reach=['one part', 'two parts', 'swapped']),
]
BOUNDS = (
    'values of 1-14 characters (literal or of up to 6 symbolic letters) in text with up to 4 symbolic '
    'characters before and after, letters and separators; 8 (thorough 11) texts with 3-6 symbolic '
    'characters per value, thresholds 0.7-0.9; values of 9-18 characters with 1-2 characters changed, '
    'added, missing or not to be counted, 8 thresholds; up to 3 (5) occurrences; text of 2500 characters '
    'with the value at about 90 (500) positions around the window borders; two parts at 14 (40) positions '
    'with 10 (19) gaps'
)
OUTSIDE = (
    'which of several candidates is found when characters of the value also occur elsewhere, and values '
    'whose beginning or end is separated by more changes than it has characters (the local alignment '
    'leaves it out); repeated content within a value found in two parts'
)
ASSUMPTIONS = [
    'sciencebeam_alignment and difflib only compare characters (or words) for equality: they are run on '
    'text with the same equalities, which the path condition fixes',
]
