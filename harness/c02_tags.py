"""C02: every token ends up under the element its tag maps to; begin/inside prefixes decide where
elements start; reading the written document back gives the same tagging."""
from lxml import etree

from sx.harness import Harness
from harness.teilib import flatten, document, iter_tokens

MAPPINGS = {
    'default': {
        '': 'note[@type="other"]',
        'title': 'docTitle/titlePart',
        'author': 'byline/docAuthor',
        'aff': 'byline/affiliation',
    },
    'similar': {
        '': 'other',
        'title': 'x/a/c',
        'author': 'x/b/c',
        'aff': 'b/a/c',
    },
    'nodefault': {
        'title': 'docTitle/titlePart',
        'author': 'byline/docAuthor',
        'aff': 'byline/affiliation[@type="a b"]',
    },
    'refs': {
        '': '',
        'ref': 'bibl',
        'ref-author': 'bibl/author',
        'ref-year': 'bibl/date[@type="pub"]',
        'ref-deep': 'bibl/idno/x',
        'other': 'note',
    },
    'refsnote': {
        '': 'note[@type="other"]',
        'ref': 'listBibl/bibl',
        'ref-author': 'listBibl/bibl/author',
        'ref-year': 'listBibl/bibl/date',
    },
}

WORDS = ['A', '.', 'b', ',', '1', ';']


def _split(full):
    if full and full[:2] in ('b-', 'i-'):
        return full[:2], full[2:]
    return None, full


def _path(value, mapping):
    if value:
        p = mapping.get(value, value)
    else:
        p = mapping.get('')
    return p.split('/') if p else []


def _expected(main, sub, mapping):
    """(main prefix, main path, sub prefix, sub path or None)"""
    mp, mv = _split(main)
    sp, sv = _split(sub)
    main_path = _path(mv, mapping)
    if not sv:
        return mp, main_path, None, None
    sub_path = _path(sv, mapping)
    if sub_path[:len(main_path)] != main_path:
        return mp, main_path, None, None
    return mp, main_path, sp, sub_path


def _layout(ctx, n, seps):
    """<tei><text><front>A SEP . SEP b ...</front></text></tei>"""
    root = etree.Element('tei')
    front = etree.SubElement(etree.SubElement(root, 'text'), 'front')
    last = None

    def add(s):
        if not s:
            return
        if last is None:
            front.text = (front.text or '') + s
        else:
            last.tail = (last.tail or '') + s
    for i in range(n):
        if i:
            sep = ctx.pick('sep%d' % i, seps)
            if '|' in sep:
                add(sep[:sep.index('|')])
                last = etree.SubElement(front, 'lb')
                add(sep[sep.index('|') + 1:])
            else:
                add(sep)
        add(WORDS[i])
    return root


def _marks(container):
    out = []
    for text, path in flatten(container):
        if text is not None:
            for c in text:
                out.append((c, path))
    return out


def _run(ctx, n, mapping, mains, subs, seps):
    mapping = MAPPINGS[mapping]
    root = _layout(ctx, n, seps)
    doc = document(root, tag_to_tei_path_mapping=mapping, container_node_path='text/front')
    tokens = iter_tokens(doc)
    assert len(tokens) == n
    main = [ctx.choice('main%d' % i, mains) for i in range(n)]
    sub = [ctx.choice('sub%d' % i, subs) for i in range(n)] if subs else [None] * n
    for i in range(n):
        if main[i] is not None:
            doc.set_tag(tokens[i], main[i])
        if sub[i] is not None:
            doc.set_sub_tag(tokens[i], sub[i])
    result = doc.root
    return mapping, main, sub, result


def _check_result(ctx, n, mapping, main, sub, result):
    marks = _marks(result.find('text/front'))
    words = [m for m in marks if not m[0].isspace()]
    ctx.check([m[0] for m in words] == WORDS[:n], 'tokens lost or reordered')
    exp = [_expected(main[i], sub[i], mapping) for i in range(n)]
    for i in range(n):
        mp, main_path, sp, sub_path = exp[i]
        actual = [e for _, e in words[i][1]]
        want = sub_path if sub_path is not None else main_path
        ctx.check(actual == want, 'token is not under the path of its tag',
                  [i, main[i], sub[i], actual, want])
        if not i:
            continue
        if main[i] and main[i - 1] and _split(main[i])[1] == _split(main[i - 1])[1] and main_path:
            same = words[i][1][len(main_path) - 1][0] is words[i - 1][1][len(main_path) - 1][0]
            ctx.check(same == (mp != 'b-'), 'element boundary does not follow the tag prefix',
                      [i, main[i - 1], main[i], sub[i - 1], sub[i]])
            ctx.reach('boundary')
            prev_sub = exp[i - 1][3]
            if same and sub_path is not None and prev_sub == sub_path and (
                    len(sub_path) > len(main_path)):
                same_sub = words[i][1][len(sub_path) - 1][0] is (
                    words[i - 1][1][len(sub_path) - 1][0])
                ctx.check(same_sub == (sp != 'b-'),
                          'sub element boundary does not follow the sub tag prefix',
                          [i, main[i - 1], main[i], sub[i - 1], sub[i]])
                ctx.reach('sub boundary')
        if not main[i] and not main[i - 1] and main_path and (
                sub_path is None and exp[i - 1][3] is None):
            same = words[i][1][-1][0] is words[i - 1][1][-1][0]
            ctx.check(same, 'untagged run split into several elements', [i])
    # a blank is inside a tag's own element only if the tokens on both sides are
    prev = None
    pending = []
    for c, path in marks:
        if c.isspace():
            pending.append(path)
            continue
        for p in pending:
            inside = [e for e, _ in p]
            for a, b in ((prev, path), (path, prev)):
                if a and a[-1][0] in inside:
                    ctx.check(b is not None and a[-1][0] in [e for e, _ in b],
                              'blank next to a tagged token was put into its element')
            ctx.reach('blank')
        pending = []
        prev = path
    ctx.observe('xml', etree.tostring(result).decode())


def h_main(ctx, n, mapping, mains, seps):
    mapping, main, sub, result = _run(ctx, n, mapping, mains, None, seps)
    _check_result(ctx, n, mapping, main, sub, result)


def h_sub(ctx, n, mapping, mains, subs, seps):
    mapping, main, sub, result = _run(ctx, n, mapping, mains, subs, seps)
    _check_result(ctx, n, mapping, main, sub, result)


def h_reload(ctx, n, mapping, mains, subs, seps):
    """write, read back: same tag values, and a begin prefix exactly where an element starts"""
    mapping, main, sub, result = _run(ctx, n, mapping, mains, subs, seps)
    first = [(c, p) for c, p in _marks(result.find('text/front')) if not c.isspace()]
    doc2 = document(result, tag_to_tei_path_mapping=mapping, container_node_path='text/front')
    tokens = iter_tokens(doc2)
    ctx.check([doc2.get_text(t) for t in tokens] == WORDS[:n], 'tokens changed by reload')
    for i, t in enumerate(tokens):
        want = _split(main[i])[1] or None
        got = doc2.get_tag_or_preserved_tag(t)
        prefix, value = _split(got)
        ctx.check((value or None) == want, 'tag changed by write and reload', [i, main[i], got])
        if want:
            ctx.reach('tagged')
            new = i == 0 or not main[i - 1] or _split(main[i - 1])[1] != want or (
                _split(main[i])[0] == 'b-')
            ctx.check(prefix == ('b-' if new else 'i-'), 'begin prefix changed by write and reload',
                      [i, main, got])
        if subs and want:
            sv = _split(sub[i])[1]
            exp = _expected(main[i], sub[i], mapping)
            want_sub = sv if exp[3] is not None and exp[3] != exp[1] else None
            gs = doc2.get_tag_or_preserved_tag(t, level=2)
            ctx.check((_split(gs)[1] or None) == want_sub, 'sub tag changed by write and reload',
                      [i, main[i], sub[i], gs])
            if want_sub:
                ctx.reach('sub')
    # writing the reloaded document again is stable
    again = doc2.root
    second = [(c, p) for c, p in _marks(again.find('text/front')) if not c.isspace()]
    ctx.check([[e for _, e in p] for _, p in first] == [[e for _, e in p] for _, p in second],
              'structure changed by reload and rewrite without any tagging')
    for i in range(1, n):
        same1 = [a[0] is b[0] for a, b in zip(first[i][1], first[i - 1][1])]
        same2 = [a[0] is b[0] for a, b in zip(second[i][1], second[i - 1][1])]
        ctx.check(same1 == same2, 'element boundaries changed by reload and rewrite',
                  [i, main, sub, same1, same2, etree.tostring(result).decode(),
                   etree.tostring(again).decode()])


MAIN_TAGS = [None, 'b-title', 'i-title', 'b-author', 'i-author', 'b-aff', 'i-aff', 'b-x', 'i-x',
             'title']
REF_MAIN = [None, 'b-ref', 'i-ref', 'b-other', 'i-other']
REF_SUB = [None, 'b-ref-author', 'i-ref-author', 'b-ref-year', 'i-ref-year', 'i-other']
SEPS = ['', ' ', '|', ' |\n']


def shapes_main(tier):
    n = 3 if tier == 'quick' else 4
    out = []
    for mapping in ('default', 'nodefault'):
        for s in (SEPS[:2], SEPS[2:]):
            out.append({'n': n, 'mapping': mapping, 'mains': MAIN_TAGS, 'seps': s})
    out.append({'n': n, 'mapping': 'similar', 'mains': MAIN_TAGS, 'seps': [' ', '']})
    out.append({'n': n + 1, 'mapping': 'default', 'mains': MAIN_TAGS[:4], 'seps': [' ']})
    return out


def shapes_sub(tier):
    n = 2 if tier == 'quick' else 3
    out = []
    for mapping in ('refs', 'refsnote'):
        out.append({'n': n, 'mapping': mapping, 'mains': REF_MAIN, 'subs': REF_SUB, 'seps': SEPS})
    out.append({'n': 3, 'mapping': 'refs', 'mains': ['b-ref', 'i-ref'], 'subs': REF_SUB,
                'seps': ['', ' |']})
    out.append({'n': n, 'mapping': 'refs', 'mains': REF_MAIN,
                'subs': [None, 'b-ref-deep', 'i-ref-deep', 'b-ref-author'], 'seps': SEPS[:2]})
    return out


def shapes_reload(tier):
    out = []
    for mapping in ('default', 'nodefault'):
        out.append({'n': 3, 'mapping': mapping, 'mains': MAIN_TAGS[:-1], 'subs': None,
                    'seps': SEPS if tier != 'quick' else [' ', '|']})
    out.append({'n': 2, 'mapping': 'refs', 'mains': REF_MAIN[1:], 'subs': REF_SUB[:-1],
                'seps': SEPS})
    out.append({'n': 2, 'mapping': 'refsnote', 'mains': REF_MAIN[1:3], 'subs': REF_SUB[:-1],
                'seps': SEPS})
    return out


BOUNDS = (
    'documents of 2-4 tokens (thorough 3-5), every separator between them (nothing, blank, line break '
    'element, line break with blanks), symbolic tag per token out of up to 10 (untagged, three mapped '
    'fields and an unmapped one, begin/inside/no prefix) and symbolic sub tag out of 6; 5 mappings '
    '(with/without element for untagged text, shared parent elements, attribute expressions, sub '
    'elements one and two levels below)'
)
OUTSIDE = (
    'longer documents, other mappings; sub tags on tokens whose sub path is not below the main path '
    'are ignored by the tool (checked as such)'
)
ASSUMPTIONS = ['lxml element operations (trusted C code)']
HARNESSES = [
    Harness('main', h_main, shapes_main, reach=('boundary', 'blank')),
    Harness('sub', h_sub, shapes_sub, reach=('boundary', 'sub boundary', 'blank')),
    Harness('reload', h_reload, shapes_reload, reach=('tagged', 'sub')),
]
