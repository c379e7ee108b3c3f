"""C04: the annotators tag exactly the words of a value where it is, and never touch other words."""
from sciencebeam_trainer_grobid_tools.core.structured_document import (
    SimpleStructuredDocument,
    SimpleLine,
    SimpleToken,
    split_tag_prefix
)
from sciencebeam_trainer_grobid_tools.core.annotation.target_annotation import TargetAnnotation
from sciencebeam_trainer_grobid_tools.core.annotation.matching_annotator import MatchingAnnotator
from sciencebeam_trainer_grobid_tools.annotation.simple_matching_annotator import (
    SimpleMatchingAnnotator,
    SimpleTagConfig,
    select_index_ranges
)
from sciencebeam_trainer_grobid_tools.structured_document.grobid_training_tei import (
    GrobidTrainingTeiStructuredDocument
)
from lxml import etree

from sx.harness import Harness


def _doc(lines):
    """document with the given words; returns it with its tokens"""
    tokens = [[SimpleToken(t) for t in line] for line in lines]
    return SimpleStructuredDocument(lines=[SimpleLine(x) for x in tokens]), tokens


def _value(tag):
    return split_tag_prefix(tag)[1]


def _bio(tag, n):
    return ['b-' + tag] + ['i-' + tag] * (n - 1) if n else []


VARIANTS = {'-': '-\u2013\u2014', "'": '\'"', ' ': ' \u2009'}


def _spelled(ctx, name, words, limit, whole):
    """the words as they may be in the document: other case (the tokenizer splits words where the case
    changes: then of whole words), dashes and quotes"""
    out = []
    n = 0
    for i, w in enumerate(words):
        s = ''
        if whole and w.isalpha() and n < limit:
            n += 1
            out.append(ctx.pick('%s%d' % (name, i), [w.lower(), w.upper()]))
            continue
        for j, c in enumerate(w):
            options = VARIANTS.get(c, c.lower() + c.upper() if c.lower() != c.upper() else c)
            if len(options) > 1 and n < limit:
                s = s + ctx.text('%s%d.%d' % (name, i, j), 1, options)
                n += 1
            else:
                s = s + c
        out.append(s)
    return out


def place(ctx, words, value, tei, kind):
    """a value that is in the document once is tagged there, nothing else is"""
    spelled = _spelled(ctx, 'w', words, 6, whole=bool(tei))
    brk = ctx.pick('break', range(0, len(words)))
    before = ctx.pick('before', [0, 1, 2])
    after = ctx.pick('after', [0, 1])
    x = ctx.text('x', 2, 'xyz')
    pre = [['zz', 'yx'], ['x' + x[0]]][:before]
    post = [[x[1] + 'z', 'xy']][:after]
    same = ctx.pick('same line', [False, True] if kind != 'complex' else [False])
    head, tail = spelled[:brk], spelled[brk:]
    lines = [list(p) for p in pre]
    if same and lines:
        lines[-1] += head or tail
        if head:
            lines.append(tail)
    else:
        lines += [head, tail] if head else [tail]
    if same and post:
        lines[-1] = lines[-1] + post[0]
    else:
        lines += post
    expected = [['x'] * len(p) for p in lines]
    k = sum(len(p) for p in pre)
    flat = [None] * k + _bio('a', len(words)) + [None] * sum(len(p) for p in post)
    if tei:
        root = etree.fromstring('<tei><text/></tei>')
        text = root.find('text')
        for line in lines:
            s = ' '.join(line) if tei == 'blank' else ''.join(
                w if i == 0 or w in ',.-' or line[i - 1] in '-' else ' ' + w for i, w in enumerate(line))
            lb = etree.SubElement(text, 'lb')
            lb.tail = s
        doc = GrobidTrainingTeiStructuredDocument(root, container_node_path='text')
        tokens = [t for t in doc.iter_all_tokens()]
        flat_tokens = [t for t in tokens if doc.get_text(t).strip()]
    else:
        doc, tokens = _doc(lines)
        flat_tokens = [t for line in tokens for t in line]
    ctx.check(len(flat_tokens) == len(flat), 'unexpected words', [lines])
    target = TargetAnnotation(value, 'a')
    if kind == 'simple':
        annotator = SimpleMatchingAnnotator([target], extend_to_line_enabled=False)
    elif kind == 'unprefixed':
        annotator = SimpleMatchingAnnotator(
            [target], extend_to_line_enabled=False, use_begin_prefix=False)
        flat = [_value(t) for t in flat]
    else:
        annotator = MatchingAnnotator([target], use_tag_begin_prefix=True)
    annotator.annotate(doc)
    got = [doc.get_tag(t) for t in flat_tokens]
    ctx.check(got == flat, 'not exactly the words of the value are tagged', [lines, got])
    ctx.reach(kind)
    del expected


def several(ctx, parts, values, targets, one_line):
    """each value is tagged where it is first left, values that are there several times one by one"""
    names = sorted(values)
    words, spans = [], []
    lines = []
    for i in range(parts):
        kind = ctx.pick('part%d' % i, names + ['-'])
        part = values[kind].split() if kind in values else ['xx', 'z' + ctx.text('o%d' % i, 1, 'xyz')]
        spans.append((kind, len(words), len(words) + len(part)))
        words += part
        if one_line and lines:
            lines[-1] += part
        else:
            lines.append(list(part))
    existing = ctx.pick('existing', range(-1, parts))
    tags = [ctx.pick('target%d' % i, names) for i in range(targets)]
    doc, tokens = _doc(lines)
    flat = [t for line in tokens for t in line]
    expected = [None] * len(words)
    used = set()
    if existing >= 0:
        used.add(existing)
        _, s, e = spans[existing]
        for i in range(s, e):
            flat[i].set_tag('other')
            expected[i] = 'other'
    for t in tags:
        for k, (kind, s, e) in enumerate(spans):
            if kind == t and k not in used:
                expected[s:e] = _bio('tag-' + t, e - s)
                used.add(k)
                break
    SimpleMatchingAnnotator(
        [TargetAnnotation(values[t], 'tag-' + t) for t in tags], extend_to_line_enabled=False
    ).annotate(doc)
    got = [t.get_tag() for t in flat]
    ctx.check(got == expected, 'not exactly the words of the values are tagged',
              [spans, tags, got, expected])
    ctx.reach('%d used' % len(used))


TARGETS = {
    'one': lambda: [TargetAnnotation('ab cde', 'a')],
    'two': lambda: [TargetAnnotation('cde ab', 'a'), TargetAnnotation('ab', 'b')],
    'list': lambda: [TargetAnnotation(['ab', 'cde'], 'a'), TargetAnnotation('fghijk', 'b')],
    'sub': lambda: [TargetAnnotation('ab cde fghijk', 'a', sub_annotations=[
        TargetAnnotation('ab', 's'), TargetAnnotation('fghijk', 't')])],
    'multiple': lambda: [TargetAnnotation('fghijk', 'a', match_multiple=True),
                         TargetAnnotation(['ab', 'cde'], 'b', match_multiple=True, bonding=True)],
    'next': lambda: [TargetAnnotation('ab', 'a', require_next=True), TargetAnnotation('fghijk', 'b')],
}


def keep(ctx, target, kind, extend, n):
    """words that have a tag keep it, new tags are those of the values, the text is not changed"""
    words = [ctx.pick('w%d' % i, ['ab', 'cde', 'fghijk', 'xx']) for i in range(n)]
    tags = [ctx.pick('t%d' % i, [None, 'b-old', 'i-old'] if i == 1 else [None, 'old']) if i in (0, 1, 3)
            else None for i in range(n)]
    brk = n // 2 + 1
    lines = [words[:brk], words[brk:]]
    doc, tokens = _doc(lines)
    flat = [t for line in tokens for t in line]
    for token, tag in zip(flat, tags):
        if tag:
            token.set_tag(tag)
            token.set_tag('old-sub', level=2)
    targets = TARGETS[target]()
    if kind == 'simple':
        annotator = SimpleMatchingAnnotator(
            targets, extend_to_line_enabled=extend, use_sub_annotations=True)
    else:
        annotator = MatchingAnnotator(targets, use_tag_begin_prefix=True)
    result = annotator.annotate(doc)
    ctx.check(result is doc, 'another document')
    got = [t.get_tag() for t in flat]
    subs = [t.get_tag(level=2) for t in flat]
    ctx.check([t.get_text() for t in flat] == words, 'the text changed')
    names = {t.name for t in targets}
    sub_names = {s.name for t in targets for s in t.sub_annotations or []}
    for i, (old, new, sub) in enumerate(zip(tags, got, subs)):
        if old and not extend:
            ctx.check(new == old, 'an existing tag changed', [words, tags, got])
        if old:
            ctx.check(_value(new) == _value(old), 'an existing tag changed', [words, tags, got])
            ctx.check(sub == 'old-sub', 'an existing sub tag changed', [words, tags, subs])
            ctx.reach('kept')
        elif new:
            allowed = names | ({'old'} if extend else set())
            ctx.check(_value(new) in allowed, 'a tag that is not one of a value', [got])
            ctx.reach('tagged')
        if not old and sub is not None:
            ctx.check(_value(sub) in sub_names and _value(new) == 'a', 'a sub tag outside of its value',
                      [words, tags, got, subs])
            ctx.reach('sub tagged')
        if not old and not extend:
            # a word outside of all values is not tagged
            if words[i] == 'xx' and (i == 0 or all(t is not None or w == 'xx' for t, w in zip(
                    tags[:i], words[:i])) or all(w == 'xx' or t for t, w in zip(
                        tags[i + 1:], words[i + 1:]))):
                ctx.check(new is None, 'a word that is not part of a value is tagged', [words, tags, got])
    if not extend:
        for name in names:
            mine = [t for t, old in zip(got, tags) if not old and t and _value(t) == name]
            at = [i for i, (t, old) in enumerate(zip(got, tags)) if not old and t and _value(t) == name]
            # (parts of a line between other tags are not in order for the complex matcher)
            if mine and (kind == 'simple' or at[-1] - at[0] == len(at) - 1):
                ctx.check(mine[0] == 'b-' + name, 'first word without begin tag', [words, tags, got])
                if kind == 'simple':
                    ctx.check(sum(t[:2] == 'b-' for t in mine) == 1, 'more begin tags than values',
                              [words, tags, got])


def sub(ctx, case):
    """parts of a value are sub tagged where they are, within the value only"""
    upper = '\u0130' if case == 'long' else 'I'
    x = ctx.text('x', 1, 'iI' + upper)
    author, title, year = ['Sm' + x * (4 if case == 'long' else 1) + 'th', 'J'], ['Great', 'words'], ['2001']
    order = ctx.pick('order', ['aty', 'tya', 'yat'])
    missing = ctx.pick('missing', ['', 'a', 't', 'y'])
    parts = {'a': author, 't': title, 'y': year}
    words, expected = [], []
    for i, k in enumerate(order):
        if i:
            words.append('.')
            expected.append(None)
        words += parts[k]
        expected += [None] * len(parts[k]) if k == missing else _bio(k, len(parts[k]))
    value = ' '.join(words)
    outside = ctx.pick('outside', [[], ['2001'], ['zz', 'great', 'words', 'zz']])
    brk = ctx.pick('break', [0, 3])
    doc, tokens = _doc([outside + words[:brk], words[brk:]] if brk else [outside, words])
    flat = [t for line in tokens for t in line]
    subs = [TargetAnnotation(' '.join(parts[k]).lower() if case == 'lower' else ' '.join(parts[k]), k)
            for k in 'aty' if k != missing]
    SimpleMatchingAnnotator(
        [TargetAnnotation(value, 'ref', sub_annotations=subs)], extend_to_line_enabled=False,
        use_sub_annotations=True
    ).annotate(doc)
    got = [t.get_tag() for t in flat]
    ctx.check(got == [None] * len(outside) + _bio('ref', len(words)), 'not exactly the value is tagged', [got])
    got = [t.get_tag(level=2) for t in flat]
    ctx.check(got == [None] * len(outside) + expected, 'not exactly the parts are tagged', [words, got])
    ctx.reach('sub')


def repeated(ctx, n, m):
    """parts that are in the value several times: each part is tagged once, at words not tagged before"""
    vocabulary = ['alpha', 'bcde', 'mnopqr']
    words = [ctx.pick('w%d' % i, vocabulary[:2 + (i > 1)]) for i in range(n)]
    values = []
    for i in range(m):
        values.append([ctx.pick('v%d.%d' % (i, j), vocabulary) for j in range(ctx.pick('n%d' % i, [1, 2]))])
    doc, tokens = _doc([['zz'] + words[:2], words[2:]])
    flat = [t for line in tokens for t in line][1:]
    SimpleMatchingAnnotator(
        [TargetAnnotation(' '.join(words), 'ref', sub_annotations=[
            TargetAnnotation(' '.join(v), 's%d' % i) for i, v in enumerate(values)])],
        extend_to_line_enabled=False, use_sub_annotations=True
    ).annotate(doc)
    got = [t.get_tag(level=2) for t in flat]
    used = [False] * n
    for i, v in enumerate(values):
        at = [k for k in range(n) if _value(got[k]) == 's%d' % i]
        if at:
            ctx.check(got[at[0]:at[0] + len(v)] == _bio('s%d' % i, len(v)) and len(at) == len(v)
                      and words[at[0]:at[0] + len(v)] == v, 'other words than those of the part are tagged',
                      [words, values, got])
            ctx.reach('tagged')
        else:
            # not found only if every place of it is taken, or overlaps with one that is
            places = [k for k in range(n - len(v) + 1) if words[k:k + len(v)] == v]
            for k in places:
                if not any(abs(k - o) < len(v) for o in places if o != k):
                    ctx.check(any(used[k:k + len(v)]), 'a part is not tagged', [words, values, got])
            ctx.reach('not tagged')
        for k in at:
            used[k] = True
    ctx.check([t.get_tag() for t in flat] == _bio('ref', n), 'not exactly the value is tagged', [words])


def prefix(ctx, n):
    """a label before the value is part of it if it matches the configured expression"""
    label = ctx.text('label', n, '1a*.(')
    target = ctx.pick('target', ['1a', '*', 'a*', '1', '.', '(1', '?'])
    first = ctx.pick('first', [True, False])
    lines = [['zz'], [label, 'alpha', 'beta']] if first else [['zz', label], ['alpha', 'beta']]
    doc, tokens = _doc(lines)
    flat = [t for line in tokens for t in line]
    SimpleMatchingAnnotator(
        [TargetAnnotation('alpha beta', 'a', sub_annotations=[TargetAnnotation(target, 'label')])],
        extend_to_line_enabled=False,
        tag_config_map={'a': SimpleTagConfig(match_prefix_regex=r'(?<=\n){label}\s*$')}
    ).annotate(doc)
    got = [t.get_tag() for t in flat]
    if first and label == target:
        ctx.check(got == [None] + _bio('a', 3), 'the label is not tagged', [lines, got])
        ctx.reach('label')
    else:
        ctx.check(got == [None, None] + _bio('a', 2), 'other text is tagged as label', [lines, got])
        ctx.reach('no label')


def order(ctx, n, m):
    """values are found in any order, however many lines are looked at first, whatever the blocks"""
    values = ['alpha beta', 'gamma', 'delta epsilon zeta', 'etatheta'][:m]
    blocks = [ctx.pick('block%d' % i, [None, 'refs']) for i in range(m)]
    left = list(range(m))
    targets = [left.pop(ctx.pick('target%d of %d' % (i, len(left)), range(len(left)))) for i in range(m)]
    lines = [['x' + ctx.text('x', 1, 'xyz')]] + [['zz%d' % i] for i in range(1, n - m)]
    for i in range(m):
        lines.insert(ctx.pick('line%d of %d' % (i, len(lines) + 1), range(len(lines) + 1)), values[i].split())
    doc, tokens = _doc(lines)
    SimpleMatchingAnnotator(
        [TargetAnnotation(values[i], 'v%d' % i) for i in targets], extend_to_line_enabled=False,
        lookahead_sequence_count=ctx.pick('lookahead', [1, 2, 200]),
        tag_config_map={'v%d' % i: SimpleTagConfig(block_name=b) for i, b in enumerate(blocks)}
    ).annotate(doc)
    for words, line in zip(lines, tokens):
        found = [i for i in range(m) if values[i].split() == words]
        want = _bio('v%d' % found[0], len(words)) if found else [None] * len(words)
        ctx.check([t.get_tag() for t in line] == want, 'a value is not tagged', [lines, targets, words])
    ctx.reach('tagged')


def spelling(ctx):
    """an alternative spelling is used if the value is not there"""
    doc_words = ctx.pick('words', ['united kingdom', 'xx uk', 'england', 'great britain', 'france'])
    value = ctx.pick('value', ['united kingdom', 'france'])
    lines = [['zz'], doc_words.split(), ['zz']]
    doc, tokens = _doc(lines)
    flat = [t for line in tokens for t in line]
    SimpleMatchingAnnotator(
        [TargetAnnotation(value, 'a')], extend_to_line_enabled=False,
        tag_config_map={'a': SimpleTagConfig(alternative_spellings={
            'united kingdom': ['uk', 'great britain']})}
    ).annotate(doc)
    known = {'united kingdom': ['united kingdom', 'uk', 'great britain'], 'france': ['france']}[value]
    got = [t.get_text() for t in flat if t.get_tag() is not None]
    expected = [k.split() for k in known if k in doc_words]
    ctx.check(got == (expected[0] if expected else []), 'alternative spelling', [doc_words, value, got])
    ctx.reach('found' if expected else 'not found')


def listed(ctx, n):
    """the values of a list are tagged as one, from the first to the last word, unless far apart"""
    values = [['alpha', 'beta'], ['gamma'], ['delta', 'epsilon']][:n]
    order = ctx.pick('order', range(n))
    values = values[order:] + values[:order]
    gaps = [ctx.pick('gap%d' % i, [0, 1, 30]) for i in range(n - 1)]
    x = ctx.text('x', 1, 'xyz')
    brk = ctx.pick('break', range(1, 4))
    words, expected = ['zz', 'yx'], []
    spans = []
    for i, v in enumerate(values):
        if i:
            words += ['x' + x] * gaps[i - 1]
        spans.append((len(words), len(words) + len(v)))
        words += v
    words += ['yz']
    # near: all of it; apart: the longest group of values (a group of words that are near)
    groups = [[0]]
    for i in range(1, n):
        if gaps[i - 1] < 30:
            groups[-1].append(i)
        else:
            groups.append([i])
    sizes = [len(' '.join(words[spans[g[0]][0]:spans[g[-1]][1]])) for g in groups]
    ctx.assume(sizes.count(max(sizes)) == 1)
    best = groups[sizes.index(max(sizes))]
    s, e = spans[best[0]][0], spans[best[-1]][1]
    expected = [None] * s + _bio('a', e - s) + [None] * (len(words) - e)
    doc, tokens = _doc([words[:brk], words[brk:]])
    flat = [t for line in tokens for t in line]
    SimpleMatchingAnnotator(
        [TargetAnnotation([' '.join(v) for v in sorted(values)], 'a')], extend_to_line_enabled=False
    ).annotate(doc)
    got = [t.get_tag() for t in flat]
    ctx.check(got == expected, 'not exactly the values of the list are tagged', [words, got])
    ctx.reach('near' if len(groups) == 1 else 'apart')


def parts(ctx, chunks):
    """a value in two parts is tagged in both, if enabled for its tag"""
    a, b = ['alphabetic', 'order'], ['gammadelta', 'function']
    swap = ctx.pick('swap', [False, True])
    gap = ctx.pick('gap', [5, 8, 12])
    before = ctx.pick('before', [0, 3])
    x = ctx.text('x', 1, 'xyz')
    filler = ['x' + x + 'x', 'zyz'] * 12
    first, second = (b, a) if swap else (a, b)
    lines = [filler[:before], first, filler[:gap], second, ['zz']]
    doc, tokens = _doc([w for w in lines if w])
    flat = [t for line in tokens for t in line]
    SimpleMatchingAnnotator(
        [TargetAnnotation(' '.join(a + b), 'a')], extend_to_line_enabled=False,
        tag_config_map={'a': SimpleTagConfig(max_chunks=chunks)}
    ).annotate(doc)
    got = [t.get_tag() for t in flat]
    expected = [None] * (before + 5 + gap)
    if chunks > 1:
        expected = [None] * before + _bio('a', 2) + [None] * gap + _bio('a', 2) + [None]
        ctx.reach('parts')
    else:
        ctx.reach('none')
    ctx.check(got == expected, 'not exactly the parts are tagged', [[t.get_text() for t in flat], got])


def ranges(ctx, n, size):
    """parts of a value close to each other are taken together; further apart the longest group is"""
    rs = []
    for i in range(n):
        s = ctx.pick('s%d' % i, [0, 12, 100, 30, 60][:size])
        rs.append((s, s + ctx.pick('l%d' % i, [2, 50, 10, 20][:size])))
    selected, unselected = select_index_ranges(list(rs))
    ctx.check(sorted(list(selected) + list(unselected)) == sorted(rs), 'ranges were lost or added',
              [rs, selected, unselected])
    ctx.check(bool(selected), 'nothing selected', [rs])
    # reference: sweep from left to right, joining what is not further apart than the longer one + 10
    groups = [[r] for r in sorted(rs)]

    def span(g):
        return min(a for a, _ in g), max(b for _, b in g)

    changed = True
    while changed:
        changed = False
        out = [groups[0]]
        for g in groups[1:]:
            (a, b), (c, d) = span(out[-1]), span(g)
            if c - b <= max(b - a, d - c) + 10:
                out[-1] = out[-1] + g
                changed = True
            else:
                out.append(g)
        groups = out
    best = max(span(g)[1] - span(g)[0] for g in groups)
    a, b = span(selected)
    ctx.check(sorted(selected) in [sorted(g) for g in groups], 'not a group', [rs, selected, groups])
    ctx.check(b - a == best, 'not the longest group', [rs, selected, groups])
    ctx.reach('one' if len(groups) == 1 else 'more')


def shapes_place(tier):
    out = []
    for words, value in (
            (['alpha', 'beta'], 'Alpha Beta'),
            (['ab', '-', 'cd', 'efgh'], 'ab-cd efgh'),
            (['Mc', "'", 'Gee', ',', 'A', '.'], "Mc'Gee, A."),
            (['abc'], 'Abc'),
            (['ab', 'c'], 'ab C'),
            (['alpha', 'beta', 'gamma', 'delta', 'eps'], 'alpha beta gamma delta eps')):
        for kind in ('simple', 'unprefixed', 'complex'):
            if kind == 'complex' and value not in ('Alpha Beta', 'Abc', 'alpha beta gamma delta eps'):
                continue
            out.append({'words': words, 'value': value, 'tei': '', 'kind': kind})
        out.append({'words': words, 'value': value, 'tei': 'blank', 'kind': 'simple'})
        if len(words) > 1:
            out.append({'words': words, 'value': value, 'tei': 'tight', 'kind': 'simple'})
    return out


def shapes_several(tier):
    values = {'p': 'alpha beta', 'q': 'gamma delta'}
    short = {'p': 'al', 'q': 'gam'}
    out = [{'parts': 3, 'values': v, 'targets': 2, 'one_line': o}
           for v in (values, short) for o in (False, True)]
    if tier != 'quick':
        out += [{'parts': 4, 'values': v, 'targets': 3, 'one_line': o}
                for v in (values, short) for o in (False, True)]
    return out


def shapes_keep(tier):
    n = 4 if tier == 'quick' else 5
    out = [{'target': t, 'kind': 'simple', 'extend': e, 'n': n}
           for t in ('one', 'two', 'list', 'sub') for e in (False, True)]
    out += [{'target': t, 'kind': 'complex', 'extend': False, 'n': n} for t in sorted(TARGETS)]
    return out


HARNESSES = [
    Harness('place', place, shapes_place, reach=['simple', 'unprefixed']),
    Harness('several', several, shapes_several, reach=['0 used', '1 used', '2 used', '3 used']),
    Harness('keep', keep, shapes_keep, reach=['kept', 'tagged', 'sub tagged']),
    Harness('sub', sub, lambda tier: [{'case': c} for c in ('same', 'lower', 'long')], reach=['sub']),
    Harness('repeated', repeated, lambda tier: [
        {'n': 4, 'm': 2}, {'n': 3, 'm': 2 if tier == 'quick' else 3}], reach=['tagged', 'not tagged']),
    Harness('prefix', prefix, lambda tier: [{'n': 1}, {'n': 2}], reach=['label', 'no label']),
    Harness('order', order, lambda tier: [{'n': 4, 'm': 2}, {'n': 5 if tier == 'quick' else 6, 'm': 3}],
            reach=['tagged']),
    Harness('spelling', spelling, lambda tier: [{}], reach=['found', 'not found']),
    Harness('listed', listed, lambda tier: [{'n': 2}, {'n': 3}], reach=['near', 'apart']),
    Harness('parts', parts, lambda tier: [{'chunks': 1}, {'chunks': 2}], reach=['parts', 'none']),
    Harness('ranges', ranges, lambda tier: [
        {'n': 2, 'size': 5}, {'n': 3, 'size': 3 if tier == 'quick' else 5}], reach=['one', 'more']),
]
BOUNDS = (
    '6 values of 1-6 words in documents of up to 5 lines, up to 6 words or characters of other case, dashes '
    'or quotes, symbolic words around it, every place of a line break, plain and TEI documents, simple '
    '(with and without begin tags) and complex matcher; 3 (thorough 4) parts in every combination of 2 '
    'values and other words, one of them already tagged, 2 (3) target values; documents of 4 (5) words of a '
    'vocabulary of 4 with every combination of existing tags at 3 of them and 6 sets of targets (sub values, lists, multiple, '
    'required next); 3 parts of a value in every order; labels of 1-2 characters; 2-3 values in every order in documents of 4-5 (6) '
    'lines of which 1, 2 or all are looked at first; 2 or 3 values of a list '
    'at gaps of 0, 1 and 30 words; values in two parts; 2 (3) index ranges over 5 x 4 values'
)
OUTSIDE = (
    'which of several similar texts is chosen; values of which parts of words are in the document; for the '
    'complex matcher: values sharing lines with other text, values with punctuation and the order of '
    'begin tags of values spread over parts of lines between other tags'
)
ASSUMPTIONS = [
    'sciencebeam_alignment and difflib only compare characters (or words) for equality (see C05)',
]
