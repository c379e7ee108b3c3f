"""C03: which existing tags survive annotation follows the preserve options, and nothing else."""
import os
import shutil
import tempfile

from lxml import etree

from sciencebeam_trainer_grobid_tools.annotation.annotator import (
    annotate_structured_document,
    annotate_structured_document_inplace
)

from sx.harness import Harness
from harness.teilib import document, flatten

MAPPING = {
    '': 'note[@type="other"]',
    'title': 'docTitle/titlePart',
    'abstract': 'div[@type="abstract"]',
    'parent': 'parent',
    'sub1': 'parent/sub1',
    'sub2': 'parent/sub2',
}
WORDS = ['A', 'b', '1', 'C']
FIELDS = ['title', 'abstract', 'other']


class StubAnnotator:
    """an annotator that tags given tokens (symbolic tags), nothing else"""

    def __init__(self, tags, sub_tags=None):
        self.tags = tags
        self.sub_tags = sub_tags or {}
        self.seen = None

    def annotate(self, structured_document):
        tokens = _tokens(structured_document)
        self.seen = [structured_document.get_tag(t) for t in tokens]
        for i, t in enumerate(tokens):
            if i in self.tags and self.tags[i] is not None:
                structured_document.set_tag(t, self.tags[i])
            if i in self.sub_tags and self.sub_tags[i] is not None:
                structured_document.set_tag(t, self.sub_tags[i], level=2)
        return structured_document


def _tokens(doc):
    return [
        t for page in doc.get_pages() for line in doc.get_lines_of_page(page)
        for t in doc.get_tokens_of_line(line)
    ]


def _strip(tag):
    return tag[2:] if tag and tag[:2] in ('b-', 'i-') else (tag or None)


def _el(parent, path):
    for p in path.split('/'):
        if '[' in p:
            name, rest = p.split('[@')
            k, v = rest[:-2].split('="')
            parent = etree.SubElement(parent, name, {k: v})
        else:
            parent = etree.SubElement(parent, p)
    return parent


def _source(ctx, n, kinds, breaks):
    """words in elements of symbolic kind; adjacent equal kinds may share the element"""
    root = etree.Element('tei')
    front = etree.SubElement(etree.SubElement(root, 'text'), 'front')
    existing = []
    lines = []
    prev_el = None
    line = 0
    for i in range(n):
        if i:
            if ctx.pick('break%d' % i, breaks):
                line += 1
                if prev_el is not None:
                    etree.SubElement(prev_el, 'lb')
                else:
                    etree.SubElement(front, 'lb')
        kind = ctx.pick('kind%d' % i, kinds)
        same = kind == (existing[-1][1] if existing else 0) and kind is not None and ctx.pick(
            'joined%d' % i, [True, False])
        if kind is None:
            word = ' ' + WORDS[i]
            if len(front):
                front[-1].tail = (front[-1].tail or '') + word
            else:
                front.text = (front.text or '') + word
            prev_el = None
        else:
            if same and prev_el is not None:
                if len(prev_el):
                    prev_el[-1].tail = (prev_el[-1].tail or '') + ' ' + WORDS[i]
                else:
                    prev_el.text = (prev_el.text or '') + ' ' + WORDS[i]
            else:
                if len(front):
                    front[-1].tail = (front[-1].tail or '') + ' '
                elif i:
                    front.text = (front.text or '') + ' '
                prev_el = _el(front, MAPPING.get(kind, kind))
                prev_el.text = WORDS[i]
        existing.append((('i-' if same else 'b-') if kind else None, kind))
        lines.append(line)
    return root, existing, lines


def _subset(ctx, name, values):
    return {v for v in values if ctx.pick('%s_%s' % (name, v), [False, True])}


def _keep(value, preserve_tags, fields, always):
    if value is None:
        return False
    if always:
        return value in always
    if not preserve_tags:
        return False
    return value not in fields


def _apply(n, lines, preserved, initial, tags):
    """the tags after the annotator set `tags`; a replaced existing tag goes from the whole line"""
    preserved = list(preserved)
    own = list(initial)
    for i in range(n):
        if i not in tags or tags[i] is None:
            continue
        if _strip(tags[i]) != _strip(own[i] or preserved[i]):
            own[i] = tags[i]
            gone = _strip(preserved[i])
            if gone:
                for j in range(n):
                    if lines[j] == lines[i] and _strip(preserved[j]) == gone:
                        preserved[j] = None
        else:
            own[i] = tags[i]
    return [o or p for o, p in zip(own, preserved)]


def _words_paths(root):
    out = []
    for text, path in flatten(root.find('text/front')):
        if text:
            for c in text:
                if not c.isspace():
                    out.append((c, '/'.join(e for _, e in path)))
    return out


def _check(ctx, n, doc_or_root, final, detail):
    got = _words_paths(doc_or_root)
    ctx.check([g[0] for g in got] == WORDS[:n], 'text changed', [g[0] for g in got])
    for i in range(n):
        v = _strip(final[i])
        want = MAPPING.get(v, v) if v else MAPPING['']
        ctx.check(got[i][1] == want, 'tag kept or dropped against the preserve options',
                  [i, got[i][1], want] + detail)


def h_main(ctx, n, kinds, new, breaks, always_fields):
    root, existing, lines = _source(ctx, n, kinds, breaks)
    preserve_tags = ctx.pick('preserve_tags', [True, False])
    fields = _subset(ctx, 'field', FIELDS[:2])
    always = _subset(ctx, 'always', always_fields)
    doc = document(root, tag_to_tei_path_mapping=MAPPING, container_node_path='text/front')
    tags = {i: ctx.choice('tag%d' % i, new) for i in range(n)} if new else {}
    stub = StubAnnotator(tags)
    annotate_structured_document_inplace(
        doc, annotator=stub, preserve_tags=preserve_tags,
        fields=(fields or None) if ctx.pick('none_fields', [True, False]) else fields,
        preserve_fields=always or None
    )
    preserved = [
        (p + v) if v and _keep(v, preserve_tags, fields, always) else None for p, v in existing
    ]
    ctx.check(all(s is None for s in stub.seen), 'preserved tag blocks the annotator')
    final = _apply(n, lines, preserved, [None] * n, tags)
    for t, f in zip(_tokens(doc), final):
        ctx.check(ctx.eq(doc.get_tag_or_preserved_tag(t), f), 'tag of token',
                  [doc.get_tag_or_preserved_tag(t), f, existing, preserve_tags, sorted(fields),
                   sorted(always)])
    _check(ctx, n, doc.root, final, [existing, preserve_tags, sorted(fields), sorted(always)])
    if any(preserved):
        ctx.reach('kept')
    if any(v and not p for p, (_, v) in zip(preserved, existing)):
        ctx.reach('dropped')
    ctx.observe('final', final)


SUB_KINDS = [None, 'sub1', 'sub2']


def h_sub(ctx, n, new):
    """one element of a main tag with sub elements inside"""
    root = etree.Element('tei')
    front = etree.SubElement(etree.SubElement(root, 'text'), 'front')
    parent = etree.SubElement(front, 'parent')
    parent.text = 'P '
    subs = [None]
    for i in range(1, n):
        kind = ctx.pick('kind%d' % i, SUB_KINDS)
        subs.append(kind)
        if kind:
            el = etree.SubElement(parent, kind)
            el.text = WORDS[i]
            el.tail = ' '
        elif len(parent):
            parent[-1].tail += WORDS[i] + ' '
        else:
            parent.text += WORDS[i] + ' '
    preserve_tags = ctx.pick('preserve_tags', [True, False])
    fields = _subset(ctx, 'field', ['parent'])
    preserve_sub = ctx.pick('preserve_sub', [True, False])
    no_sub = _subset(ctx, 'no_sub', ['sub1', 'sub2'])
    doc = document(root, tag_to_tei_path_mapping=MAPPING, container_node_path='text/front')
    sub_tags = {i: ctx.choice('sub%d' % i, new) for i in range(n)} if new else {}
    annotate_structured_document_inplace(
        doc, annotator=StubAnnotator({}, sub_tags), preserve_tags=preserve_tags, fields=fields,
        preserve_sub_tags=preserve_sub, no_preserve_sub_fields=no_sub or None
    )
    main = _keep('parent', preserve_tags, fields, None)
    keep = [
        'b-' + s if s and preserve_sub and s not in no_sub else None for s in subs
    ]
    final = _apply(n, [0] * n, keep, [None] * n, sub_tags)
    for i, t in enumerate(_tokens(doc)):
        got = doc.get_tag_or_preserved_tag(t, level=2)
        ctx.check(ctx.eq(_strip(got), _strip(final[i])), 'sub tag kept or dropped against the options',
                  [i, got, final[i], subs, preserve_sub, sorted(no_sub)])
        ctx.check((_strip(doc.get_tag_or_preserved_tag(t)) == 'parent') == main,
                  'main tag kept or dropped against the options')
    if main:
        got = _words_paths(doc.root)
        for i in range(n):
            v = _strip(final[i])
            want = MAPPING.get(v, v) if v else 'parent'
            ctx.check(got[i][1] == want, 'sub element kept or dropped against the options',
                      [i, got[i], want])
        ctx.reach('written')
    if any(keep):
        ctx.reach('kept')
    if any(s and not k for s, k in zip(subs, keep)):
        ctx.reach('dropped')


class Protecting:
    """an annotator that, like the matchers, only tags tokens that have no tag yet"""

    def __init__(self, tags):
        self.tags = tags

    def annotate(self, structured_document):
        for i, t in enumerate(_tokens(structured_document)):
            if self.tags[i] is not None and not structured_document.get_tag(t):
                structured_document.set_tag(t, self.tags[i])
        return structured_document


def h_file(ctx, n, kinds, new, breaks):
    """file to file: always-preserved fields are protected from the annotator"""
    root, existing, lines = _source(ctx, n, kinds, breaks)
    preserve_tags = ctx.pick('preserve_tags', [True, False])
    always = _subset(ctx, 'always', ['title', 'abstract'])
    passing = ctx.pick('passing', [True, False])
    failed = ctx.pick('failed_path', [True, False])
    tags = {i: ctx.pick('tag%d' % i, new) for i in range(n)}
    d = tempfile.mkdtemp(prefix='sx-c03-')
    try:
        src, dst, bad = (os.path.join(d, x) for x in ('in.xml', 'out.xml', 'bad.xml'))
        with open(src, 'wb') as f:
            f.write(etree.tostring(root))
        annotate_structured_document(
            src, dst, annotator=Protecting(tags), preserve_tags=preserve_tags,
            fields={'title', 'abstract'}, always_preserve_fields=sorted(always) or None,
            is_structured_document_passing_checks=lambda _: passing,
            failed_target_structured_document_path=bad if failed else None,
            container_node_path='text/front', tag_to_tei_path_mapping=MAPPING
        )
        ctx.check(os.path.exists(dst) == passing, 'output written although the checks failed, or '
                  'not written although they passed')
        ctx.check(os.path.exists(bad) == (not passing and failed),
                  'failed document written against the options')
        with open(src, 'rb') as f:
            ctx.check(f.read() == etree.tostring(root), 'source file modified')
        if not passing and not failed:
            ctx.reach('skipped')
            return
        out = etree.parse(dst if passing else bad).getroot()
    finally:
        shutil.rmtree(d)
    final = []
    protected = [v in always for _, v in existing]
    preserved = [
        (p + v) if v and _keep(v, preserve_tags, {'title', 'abstract'}, always) else None
        for p, v in existing
    ]
    own = {i: tags[i] for i in range(n) if not protected[i]}
    final = _apply(n, lines, preserved, [
        (p + v) if protected[i] else None for i, (p, v) in enumerate(existing)
    ], own)
    _check(ctx, n, out, final, [existing, preserve_tags, sorted(always), [str(t) for t in tags.values()]])
    if any(protected):
        ctx.reach('protected')
    ctx.reach('written')


def h_retag(ctx, n, new):
    """words of an existing element with sub elements that get a new main tag lose the old one
    together with its sub tags; words on other lines keep theirs"""
    root = etree.Element('tei')
    front = etree.SubElement(etree.SubElement(root, 'text'), 'front')
    el = etree.SubElement(front, 'parent')
    subs, lines = [], []
    line = 0
    for i in range(n):
        if i and ctx.pick('break%d' % i, [False, True]):
            etree.SubElement(el, 'lb')
            line += 1
        kind = ctx.pick('sub%d' % i, SUB_KINDS)
        if kind is None:
            if len(el):
                el[-1].tail = (el[-1].tail or '') + WORDS[i] + ' '
            else:
                el.text = (el.text or '') + WORDS[i] + ' '
        else:
            x = etree.SubElement(el, kind)
            x.text = WORDS[i]
            x.tail = ' '
        subs.append(kind)
        lines.append(line)
    doc = document(root, tag_to_tei_path_mapping=MAPPING, container_node_path='text/front')
    tokens = _tokens(doc)
    tags = [ctx.pick('tag%d' % i, new) for i in range(n)]
    twice = ctx.pick('twice', [False, True])
    for i in range(n):
        if tags[i]:
            if twice:
                doc.set_tag(tokens[i], 'b-abstract')
            doc.set_tag(tokens[i], tags[i])
    changed = [bool(t) and (twice or _strip(t) != 'parent') for t in tags]
    paths = _words_paths(doc.root)
    for i in range(n):
        if changed[i]:
            want = MAPPING[_strip(tags[i])]
            ctx.check(paths[i][1] == want, 're-tagged word keeps the old tag or sub tag',
                      [i, tags, subs, paths[i][1], want])
            ctx.reach('retagged')
        elif not any(c for c, k in zip(changed, lines) if k == lines[i]):
            want = MAPPING[subs[i] or 'parent']
            ctx.check(paths[i][1] == want, 'word on another line lost its tag',
                      [i, tags, subs, paths[i][1], want])
            ctx.reach('untouched')
    ctx.observe('paths', [p for _, p in paths])


KINDS = [None, 'title', 'abstract', 'other']
NEW = [None, 'b-title', 'i-abstract', 'b-other']


def shapes_main(tier):
    out = [
        {'n': 2, 'kinds': KINDS, 'new': None, 'breaks': [False, True], 'always_fields': FIELDS},
        {'n': 2, 'kinds': KINDS[:3], 'new': NEW, 'breaks': [False, True], 'always_fields': ['title']},
        {'n': 3, 'kinds': KINDS[:3], 'new': NEW[:2], 'breaks': [False, True], 'always_fields': []},
    ]
    if tier != 'quick':
        out.append({'n': 3, 'kinds': KINDS, 'new': NEW, 'breaks': [False, True],
                    'always_fields': ['title']})
        out.append({'n': 4, 'kinds': KINDS, 'new': None, 'breaks': [False, True],
                    'always_fields': ['title', 'other']})
    return out


def shapes_sub(tier):
    return [
        {'n': 3, 'new': None},
        {'n': 3, 'new': [None, 'b-sub1', 'i-sub2']},
    ] + ([{'n': 4, 'new': [None, 'b-sub1', 'i-sub2']}] if tier != 'quick' else [])


def shapes_file(tier):
    return [
        {'n': 2, 'kinds': [None, 'title', 'abstract'], 'new': [None, 'b-abstract'],
         'breaks': [False, True]},
    ] + ([{'n': 3, 'kinds': [None, 'title', 'abstract'], 'new': [None, 'b-abstract'],
           'breaks': [False, True]}] if tier != 'quick' else [])


def h_attribute(ctx, n, nested):
    """an existing element with an attribute of any value stays as it is"""
    value = ctx.text('value', n, 'a/"=\'@{} :' if n > 2 else 'a/]["=\'@{} :')
    name = ctx.pick('name', ['type', 'target'])
    root = etree.Element('tei')
    front = etree.SubElement(etree.SubElement(root, 'text'), 'front')
    front.text = 'A '
    el = etree.SubElement(front, 'ref')
    el.set(name, value)
    inner = etree.SubElement(el, 'hi') if nested else el
    inner.text = 'b'
    el.tail = ' C'
    doc = document(root, tag_to_tei_path_mapping=MAPPING, container_node_path='text/front')
    result = doc.root.find('text/front')
    found = [x for x in result.iter('ref')]
    ctx.check(len(found) == 1, 'the element is not there', etree.tostring(result))
    ctx.check(ctx.eq(found[0].get(name), value), 'the attribute has changed', [found[0].get(name), value])
    ctx.check(len(found[0].attrib) == 1, 'other attributes', etree.tostring(result))
    inner = found[0][0] if nested else found[0]
    ctx.check(inner.text == 'b', 'the text of the element has changed', etree.tostring(result))
    ctx.reach('kept')


BOUNDS = (
    'documents of 2-3 words (thorough: up to 4) with every combination of existing element per '
    'word (none, two mapped fields, an unmapped tag; shared or separate elements; same line or not), '
    'every combination of preserve_tags, annotated fields and always-preserved fields, and symbolic '
    'new tags per word; sub tags: one parent element with up to 3 sub elements, every combination of '
    'preserve_sub_tags and no_preserve_sub_fields; attributes: one attribute with a value of up to 2 '
    '(thorough: 3) characters including slashes, quotes, brackets and braces'
)
OUTSIDE = 'longer documents, more than two mapped fields, nested elements below the sub level, elements with several attributes (refused by the code)'
ASSUMPTIONS = [
    'the annotator is replaced by one that sets arbitrary tags through the document interface',
    'file harness: files in a scratch directory, XML parsed and written by the real lxml',
]
HARNESSES = [
    Harness('attribute', h_attribute, lambda t: [
        {'n': n, 'nested': nested} for n in ((0, 1, 2) if t == 'quick' else (0, 1, 2, 3)) for nested in (False, True)],
        reach=('kept',)),
    Harness('main', h_main, shapes_main, reach=('kept', 'dropped')),
    Harness('sub', h_sub, shapes_sub, reach=('kept', 'dropped', 'written')),
    Harness('retag', h_retag, lambda t: [
        {'n': 3, 'new': [None, 'b-title', 'b-parent']},
    ] + ([{'n': 4, 'new': [None, 'b-title', 'b-parent']}] if t != 'quick' else []),
        reach=('retagged', 'untouched')),
    Harness('file', h_file, shapes_file, reach=('protected', 'written', 'skipped')),
]
