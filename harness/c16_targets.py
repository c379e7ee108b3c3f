"""C16: the values looked for in a document are those of the XML file, as the mapping says."""
from lxml import etree

from sciencebeam_trainer_grobid_tools.annotation.target_annotation import (
    xml_root_to_target_annotations
)

from sx.harness import Harness
from harness.teilib import build

RAW = 'a1 .\n\u00e9'
PLAIN = 'ab \t'


def _is_word(c):
    return c.isalnum() or c == '_'


def _pieces(el, exclude, out):
    if el.text:
        out.append(el.text)
    for child in el:
        if child not in exclude:
            _pieces(child, exclude, out)
        if child.tail:
            out.append(child.tail)
    return out


def _raw_words(el, exclude=()):
    """words of the text of an element; the text of two adjacent elements is not one word"""
    out = []
    prev = None
    for p in _pieces(el, exclude, []):
        if prev is not None and _is_word(prev) and _is_word(p[0]):
            out.append(' ')
        out.append(p)
        prev = p[-1]
    return ''.join(out).split()


def _normal(s):
    """reference: blanks collapsed and stripped"""
    return ' '.join(s.split())


def _names(annotations):
    return [a.name for a in annotations]


def h_raw(ctx, content, ignore):
    """all text of the element, apart from ignored children, in order; blank values left out"""
    root = build(ctx, ['article', {}, ['front', {}, ['title', {}] + content], ['title', {}, '=no']],
                 alphabet=RAW)
    el = root[0][0]
    mapping = {'title': 'front/title'}
    exclude = []
    if ignore:
        mapping['title.ignore'] = './/x|y'
        exclude = [e for e in el.iter() if e.tag == 'x'] + [e for e in el if e.tag == 'y']
    got = xml_root_to_target_annotations(root, {'article': mapping})
    want = _raw_words(el, exclude)
    if not want:
        ctx.check(len(got) == 0, 'blank value', [a.value for a in got])
        ctx.reach('blank')
        return
    ctx.check(len(got) == 1 and got[0].name == 'title', 'number of values')
    ctx.check(ctx.eq(got[0].value.split(), want), 'value differs from the text of the element',
              [got[0].value, want])
    ctx.check(ctx.eq(got[0].value, got[0].value.strip()), 'value not trimmed')
    ctx.reach('value')
    ctx.observe('value', got[0].value)


def _sorted_values(values):
    out = []
    for v in values:            # longest first, in order of the document
        k = len(out)
        while k > 0 and len(out[k - 1]) < len(v):
            k -= 1
        out.insert(k, v)
    return out


def h_children(ctx, content, unmatched, concat, children, raw=None):
    """the text of the selected children, longest first, each separately"""
    root = build(ctx, ['article', {}, ['kwd-group', {}] + content], alphabet=PLAIN)
    el = root[0]
    mapping = {'keywords': 'kwd-group', 'keywords.children': children}
    if unmatched:
        mapping['keywords.unmatched-parent-text'] = 'true'
    if concat:
        mapping['keywords.children.concat'] = (
            '[[{"xpath": "%s"}, {"value": "-"}, {"xpath": "%s"}]]' % tuple(concat))
    if raw is not None:
        mapping['keywords.use-raw-text'] = raw
    got = xml_root_to_target_annotations(root, {'article': mapping})
    own = (el.text or '') + ''.join([c.tail or '' for c in el])
    if children == './/*' and (raw == 'true' or (raw is None and own.strip())):
        want = [_normal(_join_words(_raw_words(el)))]
        want = [w for w in want if w]
        ctx.reach('raw')
    else:
        used = []
        parts = []
        if concat:
            a = [e for e in el if e.tag == concat[0]]
            b = [e for e in el if e.tag == concat[1]]
            if a and b:
                parts.append(
                    ' '.join([_normal(e.text or '') for e in a]) + '-' +
                    ' '.join([_normal(e.text or '') for e in b]))
                used = a + b
        if children == './/*':
            selected = list(el)
        else:
            names = [[x.strip() for x in c.split('|')] for c in children.split('\n')]
            selected = [e for c in names for e in el if e.tag in c or './/*' in c]
        values = [_normal(e.text or '') for e in selected if e not in used] + [
            p.strip() for p in parts]
        values = [v for v in values if v]
        if unmatched:
            rest = el.text or ''
            for c in el:
                if c not in selected and c not in used:
                    rest = rest + (c.text or '')
                rest = rest + (c.tail or '')
            rest = _normal(rest)
            if rest and not any(rest == v for v in values):
                values.append(rest)
        want = _sorted_values(values)
        ctx.reach('children')
    if not want:
        ctx.check(len(got) == 0, 'blank value', [a.value for a in got])
        return
    ctx.check(len(got) == 1, 'number of annotations')
    value = got[0].value
    value = value if isinstance(value, list) else [value]
    ctx.check(ctx.eq([_normal(v) for v in value], want), 'values of the children', [value, want])
    if children != './/*' and not concat:
        ctx.check(ctx.eq(value, want), 'blanks of the values of the children', [value, want])
    ctx.observe('value', value)


def _join_words(words):
    return ' '.join(words)


def h_order(ctx, n, ns=False):
    """highest priority first, then the order of the XML file; the flags of the field"""
    fields = ['a', 'b', 'ab']
    root = etree.Element('article')
    elements = []
    for i in range(n):
        f = ctx.pick('field%d' % i, fields)
        e = etree.SubElement(etree.SubElement(root, 'p'), f)
        blank = ctx.pick('blank%d' % i, [False, True])
        e.text = ' ' if blank else '%s %d' % (f, i)
        elements.append((f, e, blank))
    prio = {f: ctx.pick('prio_%s' % f, [None, '0', '2', '-1']) for f in fields[:2]}
    mapping = {}
    flags = {}
    for f in ('b', 'ab', 'a'):
        mapping[f] = 'p/%s' % f if f != 'b' else '\n  p/none\n  p/b\n'
        if prio.get(f) is not None:
            mapping[f + '.priority'] = prio[f]
    for s, attr in (('match-multiple', 'match_multiple'), ('bonding', 'bonding'),
                    ('require-next', 'require_next')):
        flags[attr] = ctx.pick(attr, [None, 'true', 'false'])
        if flags[attr]:
            mapping['a.' + s] = flags[attr]
    got = xml_root_to_target_annotations(root, {'article': mapping, 'other': {'a': 'x'}})
    want = []
    for p in (2, 0, -1):
        for f, e, blank in elements:
            if not blank and int(prio.get(f) or 0) == p:
                want.append((f, e.text))
    ctx.check([(a.name, a.value) for a in got] == want, 'order of the values',
              [[(a.name, a.value) for a in got], want])
    for a in got:
        for attr, v in flags.items():
            ctx.check(getattr(a, attr) == (a.name == 'a' and v == 'true'), 'flag of the field',
                      [a.name, attr])
    ctx.reach('order')


def h_range(ctx, n, standalone, unmatched=False):
    """page ranges: every number from first to last"""
    root = etree.Element('article')
    m = etree.SubElement(root, 'front')
    first = etree.SubElement(m, 'fpage')
    first.text = ctx.text('first', n, '0123 x')
    has_last = ctx.pick('has_last', [True, False])
    if has_last:
        last = etree.SubElement(m, 'lpage')
        last.text = ctx.text('last', n, '123 ')
    mapping = {
        'page': 'front', 'page.children': 'fpage|lpage', 'page.children.range':
        '[{"min": {"xpath": "fpage"}, "max": {"xpath": "lpage"}%s}]' % (
            ', "standalone": true' if standalone else '')
    }
    rest = []
    if unmatched:
        mapping['page.unmatched-parent-text'] = 'true'
        m.text = ctx.text('rest', 2, 'ab ')
        rest = [_normal(m.text)] if m.text.strip() else []
    got = xml_root_to_target_annotations(root, {'article': mapping})
    values = []
    for a in got:
        ctx.check(a.name == 'page', 'name')
        values.extend(a.value if isinstance(a.value, list) else [a.value])
    f = first.text.strip()
    t = last.text.strip() if has_last else ''
    if f.isdigit() and t.isdigit():
        want = [str(x) for x in range(int(f), int(t) + 1)]
        if standalone:
            want = rest + want
            ctx.check(len(got) == len(want), 'one annotation for each number', [values, want])
            ctx.check(ctx.eq(values, want), 'numbers of the range', [f, t, values])
        else:
            ctx.check(len(got) == (1 if want or rest else 0), 'one annotation')
            ctx.check(ctx.eq(values, _sorted_values(want + rest)), 'numbers of the range',
                      [f, t, values])
        ctx.reach('range')
    else:
        want = _sorted_values([v for v in (_normal(f), _normal(t)) if v] + rest)
        ctx.check(ctx.eq(values, want), 'values without a range', [values, want])
        ctx.reach('no range')


def h_ranges(ctx, n):
    """numbers of several ranges in the order of the XML file, each with the sub values of its element"""
    root = etree.Element('article')
    want = []
    for i in range(n):
        m = etree.SubElement(root, 'front')
        first = ctx.pick('first%d' % i, ['3', '1', 'x'])
        last = ctx.pick('last%d' % i, ['3', '4'])
        etree.SubElement(m, 'fpage').text = first
        etree.SubElement(m, 'lpage').text = last
        vol = etree.SubElement(m, 'vol')
        vol.text = ctx.text('vol%d' % i, 1, 'a1 ')
        sub = [vol.text] if vol.text.strip() else []
        if first == 'x':
            want.append(([last, 'x'], sub))
        else:
            want += [([str(x)], sub) for x in range(int(first), int(last) + 1)]
    multiple = ctx.pick('multiple', [False, True])
    mapping = {
        'page': 'front', 'page.children': 'fpage\nlpage', 'page.children.range':
        '[{"min": {"xpath": "fpage"}, "max": {"xpath": "lpage"}, "standalone": true}]',
        'page.sub.volume': 'vol'}
    if multiple:
        mapping['page.match-multiple'] = 'true'
    got = xml_root_to_target_annotations(root, {'article': mapping})
    values = [sorted(a.value if isinstance(a.value, list) else [a.value]) for a in got]
    ctx.check(values == [v for v, _ in want], 'order of the numbers of the ranges',
              [values, [v for v, _ in want]])
    for a, (_, sub) in zip(got, want):
        ctx.check(ctx.eq([s.value for s in a.sub_annotations], sub), 'sub values of a range',
                  [a.value, [s.value for s in a.sub_annotations], sub])
        ctx.check(bool(a.match_multiple) == multiple, 'flag of a range')
    ctx.reach('ranges')


def h_nested(ctx, content, children):
    """selected children within each other: the text of each child once, piece by piece"""
    root = build(ctx, ['article', {}, ['g', {}] + content], alphabet=PLAIN)
    el = root[0]
    got = xml_root_to_target_annotations(root, {'article': {
        'keywords': 'g', 'keywords.children': children, 'keywords.use-raw-text': 'false'}})
    if children == './/*':
        selected = [e for e in el.iter() if e is not el]
    else:
        selected = [e for name in children.split('\n') for e in el.findall(name.strip())]
    parts = []
    later = []
    for e in selected:
        if any(x.getparent() is e for x in selected):
            later += [_normal(s) for s in [e.text or ''] + [c.tail or '' for c in e]]
        else:
            parts.append(_normal(''.join(e.itertext())))
    want = _sorted_values([v for v in parts + later if v])
    if not want:
        ctx.check(len(got) == 0, 'blank value', [a.value for a in got])
        return
    ctx.check(len(got) == 1, 'number of annotations')
    value = got[0].value
    value = value if isinstance(value, list) else [value]
    ctx.check(ctx.eq([_normal(v) for v in value], want), 'values of nested children', [value, want])
    ctx.reach('nested')


EXTRACT = {
    'digits': '(\\d+)', 'word': '\\b(b)\\b', 'all': '.*(b).*', 'regex': '^(\\w+) .*'
}


def h_extract(ctx, n, kind, sub):
    """extracting a part keeps the other parts, and the whole"""
    root = etree.Element('article')
    e = etree.SubElement(root, 'aff')
    e.text = ctx.text('s', n, 'ab1 .')
    mapping = {'aff': 'aff'}
    if sub:
        mapping['aff.sub.part'] = '.'
        mapping['aff.sub.part.extract-regex'] = EXTRACT[kind]
    else:
        mapping['aff.extract-regex'] = EXTRACT[kind]
    got = xml_root_to_target_annotations(root, {'article': mapping})
    s = e.text.strip()
    if sub:
        got = got[0].sub_annotations if got else []
    if not s:
        ctx.check(len(got) == 0, 'blank value')
        return
    ctx.check(len(got) == 1, 'number of annotations')
    v = got[0].value
    value = v if isinstance(v, list) else [v]
    s = _normal(s) if sub else s
    for x in value:
        ctx.check(ctx.any([ctx.eq(x, s[i:j]) for i in range(len(s))
                           for j in range(i + 1, len(s) + 1)]), 'value that is not in the text',
                  [s, value])
    if len(value) > 1:
        ctx.check(ctx.any([ctx.eq(x, s) for x in value]), 'full text is missing', [s, value])
        parts = list(value)
        for k, x in enumerate(parts):
            if x == s:
                parts = parts[:k] + parts[k + 1:]
                break
        total = sum(len(x.replace(' ', '')) for x in parts)
        ctx.check(total == len(s.replace(' ', '')), 'part of the text is missing', [s, value])
        ctx.reach('parts')
    else:
        ctx.check(ctx.eq(value[0], s), 'text lost', [s, value])
        ctx.reach('whole')
    if kind == 'digits':
        runs = []
        for i, c in enumerate(s):
            if c.isdigit():
                if i and s[i - 1].isdigit():
                    runs[-1] = runs[-1] + c
                else:
                    runs.append(c)
        for r in runs:
            ctx.check(ctx.any([ctx.eq(x, r) for x in value]), 'match not extracted', [s, value])
    ctx.observe('value', value)


def h_regex(ctx, n):
    """a regular expression selects the part of the value"""
    root = etree.Element('article')
    e = etree.SubElement(root, 'aff')
    e.text = ctx.text('s', n, 'ab1:')
    got = xml_root_to_target_annotations(root, {'article': {
        'aff': 'aff', 'aff.regex': '[ab]+:(.*)'}})
    k = 0
    s = e.text
    while k < len(s) and (s[k] == 'a' or s[k] == 'b'):
        k += 1
    if 0 < k < len(s) and s[k] == ':':
        want = s[k + 1:]
        ctx.reach('selected')
    else:
        want = s
    values = [a.value for a in got]
    ctx.check(ctx.eq(values, [want] if want else []), 'selected part', [s, values])


def h_sub(ctx, n):
    """sub values: the non blank text of every matching element, by sub field"""
    root = etree.Element('article')
    ref = etree.SubElement(root, 'ref')
    want = {'year': [], 'vol': []}
    for i in range(n):
        kind = ctx.pick('kind%d' % i, ['year', 'vol', 'none'])
        e = etree.SubElement(ref, kind)
        e.text = ctx.text('t%d' % i, 2, 'a1 ')
        e.tail = ' '
        if kind in want and e.text.strip():
            want[kind].append(_normal(e.text))
    ref.text = 'x '
    has_sub = ctx.pick('has_sub', [True, False])
    mapping = {'reference': 'ref', 'referencex.sub.year': './/none', 'other': './/nothing'}
    if has_sub:
        mapping.update({'reference.sub.vol': './/vol', 'reference.sub.year': './/year',
                        'reference.sub.year.extract-regex': '', 'reference.sub.vol.priority': '1'})
    got = xml_root_to_target_annotations(root, {'article': mapping})
    ctx.check(len(got) == 1, 'number of annotations')
    subs = got[0].sub_annotations
    if not has_sub:
        ctx.check(not subs, 'sub values without sub fields')
        return
    values = [(a.name, a.value) for a in subs]
    for k in want:
        ctx.check(ctx.eq([v for name, v in values if name == k], want[k]), 'sub values',
                  [k, values, want])
    ctx.check(len(values) == len(want['year']) + len(want['vol']), 'other sub values', [values])
    if values:
        ctx.reach('sub')


def h_unknown(ctx):
    """a document type without mapping is refused"""
    tag = ctx.pick('tag', ['article', 'book'])
    root = etree.Element(tag)
    mapping = {'article': {'title': 'x'}}
    try:
        got = xml_root_to_target_annotations(root, mapping)
    except Exception as e:      # pylint: disable=broad-except
        ctx.check(tag == 'book', 'mapped document type refused')
        ctx.check('book' in str(e) and 'article' in str(e), 'message', [str(e)])
        ctx.reach('refused')
        return
    ctx.check(tag == 'article' and got == [], 'document type without mapping accepted')


def shapes_raw(tier):
    big = tier == 'thorough'
    out = []
    for ignore in (False, True):
        out.append({'content': ['#2', ['b', {}, '#1'], '#1'], 'ignore': ignore})
        out.append({'content': ['#1', ['x', {}, '#1'], '#1', ['b', {}, ['x', {}, '=q'], '#1']],
                    'ignore': ignore})
        out.append({'content': [['y', {}, '=u'], '#1', ['b', {}, '#1', ['y', {}, '#1']], '#1'],
                    'ignore': ignore})
    out.append({'content': ['#4' if not big else '#5'], 'ignore': False})
    out.append({'content': [], 'ignore': True})
    if big:
        out.append({'content': ['#2', ['b', {}, '#2', ['x', {}, '#1'], '#1']], 'ignore': True})
    return out


def shapes_children(tier):
    out = []
    n = 2 if tier == 'quick' else 3

    def add(content, unmatched=False, concat=None, children='k', raw=None):
        out.append(dict(content=content, unmatched=unmatched, concat=concat, children=children,
                        raw=raw))
    k = '#%d' % n
    for um in (False, True):
        add(['#1', ['k', {}, k], '#1', ['k', {}, k]], unmatched=um)
        add([['k', {}, k], ['m', {}, '#1'], ['k', {}, '#1'], '#1'], unmatched=um)
        add([['l', {}, k], ['t', {}, k], ['k', {}, '#1']], unmatched=um, concat=['l', 't'],
            children='l|t|k')
        add([['l', {}, k], ['k', {}, '#1']], unmatched=um, concat=['l', 't'], children='l|k')
    add([['k', {}, '#4']])
    for children in ('m\nk', 'k\n.//*'):
        for um in (False, True):
            add(['#1', ['k', {}, k], ['m', {}, '#1'], '#1'], children=children, unmatched=um)
    for raw in (None, 'true', 'false'):
        add(['#1', ['k', {}, k], '#1', ['m', {}, '#1']], children='.//*', raw=raw)
    return out


BOUNDS = (
    'XML elements with up to 5 symbolic characters (word characters, digits, blanks, line feeds, '
    'punctuation, one accented letter) spread over nested elements, ignored children and tails; '
    'children/concat/unmatched-text settings with up to 4 children; 2-3 (thorough 4) elements of 3 '
    'fields with every combination of priorities and flags; page numbers of up to 2 characters; '
    'extraction and selection expressions over strings of up to 4 (thorough 5) characters'
)
OUTSIDE = (
    'arbitrary XPath expressions (evaluated by lxml on the concrete element structure), arbitrary '
    'regular expressions (4 used), selected children that contain each other'
)
ASSUMPTIONS = ['lxml evaluates XPath over the element structure, which is concrete on each path']
HARNESSES = [
    Harness('raw', h_raw, shapes_raw, reach=('blank', 'value')),
    Harness('children', h_children, shapes_children, reach=('raw', 'children')),
    Harness('order', h_order, lambda t: [{'n': 2 if t == 'quick' else 3}], reach=('order',)),
    Harness('range', h_range, lambda t: [
        {'n': 1, 'standalone': True}, {'n': 2, 'standalone': True}, {'n': 2, 'standalone': False},
        {'n': 1, 'standalone': False, 'unmatched': True}, {'n': 1, 'standalone': True, 'unmatched': True}],
        reach=('range', 'no range')),
    Harness('ranges', h_ranges, lambda t: [{'n': 2 if t == 'quick' else 3}], reach=('ranges',)),
    Harness('nested', h_nested, lambda t: [
        {'content': c, 'children': ch}
        for c in (['#1', ['k', {}, '#1', ['m', {}, '#2'], '#1'], ['m', {}, '#1']],
                  [['k', {}, ['m', {}, '#1', ['m', {}, '#1'], '#1'], '#1', ['k', {}, '#1']], '#1'],
                  [['m', {}, '#2'], ['k', {}, '#2'], ['m', {}, '#1']])
        for ch in ('.//*', 'm\nk', './/m\nk/m')], reach=('nested',)),
    Harness('extract', h_extract, lambda t: [
        {'n': n, 'kind': k, 'sub': s} for n in range(1, 5 if t == 'quick' else 6)
        for k in ('digits', 'word', 'all') for s in (False, True)], reach=('parts', 'whole')),
    Harness('regex', h_regex, lambda t: [{'n': n} for n in (1, 3, 4)], reach=('selected',)),
    Harness('sub', h_sub, lambda t: [{'n': 2 if t == 'quick' else 3}], reach=('sub',)),
    Harness('unknown', h_unknown, lambda t: [{}], reach=('refused',)),
]
