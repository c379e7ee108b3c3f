"""C01: loading a training document, tagging it in any way and writing it back keeps all text."""
import gzip
import os
import shutil
import tempfile

from lxml import etree

from sciencebeam_trainer_grobid_tools.structured_document.grobid_training_tei import (
    load_grobid_training_tei_structured_document,
    save_grobid_training_tei_structured_document
)

from sx.harness import Harness
from harness.teilib import (
    build, text_of, flatten, non_space_marks, document, iter_tokens
)

MAPPING = {
    '': 'note[@type="other"]',
    'title': 'docTitle/titlePart',
    'author': 'byline/docAuthor',
    'aff': 'byline/affiliation',
}

TAGS = [None, 'b-title', 'i-title', 'b-author', 'i-aff', 'unmapped']


def _same_marks(ctx, before, after):
    if len(before) != len(after):
        return False
    return ctx.all([
        a[0] == b[0] if (a[0] != '|' and b[0] != '|') else (a[0] is b[0] or a[0] == b[0])
        for a, b in zip(before, after)
    ])


def _check(ctx, root, result, container, outside_before, text_before, marks_before):
    ctx.check(ctx.eq(text_of(result), text_before), 'document text changed',
              [text_before, text_of(result)])
    after = non_space_marks(flatten(result.find(container)))
    ctx.check(_same_marks(ctx, marks_before, after), 'line breaks moved relative to the text',
              [[m[0] for m in marks_before], [m[0] for m in after]])
    ctx.reach('checked')


NS = '{http://www.tei-c.org/ns/1.0}'


def h_text(ctx, spec, tags, mapping, preserve, ns=False):
    """symbolic characters everywhere, a few symbolic tags"""
    root = build(ctx, spec, ns=NS if ns else '')
    container = '%stext/%sfront' % (NS, NS) if ns else 'text/front'
    before = text_of(root)
    marks = non_space_marks(flatten(root.find(container)))
    doc = document(
        root, tag_to_tei_path_mapping=MAPPING if mapping else {'': ''}, preserve_tags=preserve,
        container_node_path=container
    )
    tokens = iter_tokens(doc)
    for i, token in enumerate(tokens):
        if i < tags:
            doc.set_tag(token, ctx.choice('tag%d' % i, TAGS))
    if tokens:
        ctx.reach('tokens')
    _check(ctx, root, doc.root, container, None, before, marks)
    ctx.check(ctx.eq(text_of(root), before), 'loaded document was modified')
    ctx.observe('text', text_of(doc.root))


def tei(*content, header=True):
    out = ['tei', {}]
    if header:
        out.append(['teiHeader', {}, '=head '])
    out.append(['text', {}, '= ', ['front', {}] + list(content), '=\n'])
    return out


def shapes_text(tier):
    big = tier == 'thorough'
    out = []

    def add(spec, tags=2, mapping=True, preserve=True, ns=False):
        out.append({'spec': spec, 'tags': tags, 'mapping': mapping, 'preserve': preserve,
                    'ns': ns})
    n = '#3' if not big else '#4'
    add(tei('#4' if not big else '#5'), tags=1)
    add(tei('#4' if not big else '#5'), tags=0, mapping=False)
    add(tei('#2', 'lb', '#2'), tags=2)
    add(tei('#1', 'lb', '#1', 'lb', '#1'), tags=2)
    add(tei('lb', '#2', 'lb', 'lb', '#1', 'lb'), tags=2)
    add(tei(['note', {}, '#2'], '#1', ['note', {}, '#2']), tags=1)
    add(tei(['note', {}, '#1', 'lb', '#1'], 'lb', '#2'), tags=1)
    add(tei('#1', ['docTitle', {}, '=\n', ['titlePart', {}, '#2', 'lb', '#1'], '#1'], '#1'), tags=1)
    add(tei(['byline', {}, ['docAuthor', {}, '#1'], '#1', ['affiliation', {'k': 'v'}, '#2']]),
        tags=1)
    add(tei(['byline', {}, '#1', ['docAuthor', {}, '#1', ['hi', {}, '#1'], '#1'], '#1']), tags=1)
    add(tei(['byline', {}, '#1', ['docAuthor', {}, '#1'], '#1']), tags=1, preserve=False)
    add(tei(['lb2', {}, n]), tags=1, mapping=False)
    add(tei(), tags=0)
    add(tei(['note', {}, '#1', 'lb', '#1'], 'lb', '#1'), tags=1, mapping=False, ns=True)
    return out


# ---- everything around the annotated part, and files

def _signature(el, skip):
    """structure, attributes and text outside the children of the annotated element(s)"""
    out = []
    for x in el.iter():
        inside = any(a in skip for a in x.iterancestors())
        if inside:
            continue
        out.append([x.tag, sorted(x.attrib.items()), None if x in skip else x.text,
                    None if x in skip else x.tail])
    return out


def h_around(ctx, spec, container, ns=None, tags=1):
    root = build(ctx, spec, ns=NS if ns else '')
    namespaces = {'tei': NS[1:-1]} if ns else None
    nodes = root.findall(container, namespaces=namespaces)
    before = text_of(root)
    sig = _signature(root, nodes)
    inner = text_of(nodes[0])
    doc = document(
        root, tag_to_tei_path_mapping={'': 'x', 'title': 'docTitle/titlePart'},
        container_node_path=container, namespaces=namespaces
    )
    for i, token in enumerate(iter_tokens(doc)[:tags]):
        doc.set_tag(token, ctx.choice('tag%d' % i, TAGS))
    result = doc.root
    found = result.findall(container, namespaces=namespaces)
    ctx.check(len(found) == len(nodes), 'annotated element lost')
    ctx.reach('several' if len(nodes) > 1 else 'around')
    ctx.check(ctx.eq(_signature(result, found), sig), 'content around the annotated part changed',
              [sig, _signature(result, found)])
    ctx.check(ctx.eq(text_of(found[0])[:len(inner)], inner), 'text of the annotated part changed')
    ctx.check(
        ctx.eq(text_of(result), before), 'document text changed', [before, text_of(result)],
        known={'C01-several-containers': len(nodes) > 1}
    )


def h_file(ctx, n, suffix, tags, entities):
    """file to file, optionally compressed"""
    text = ctx.text('t', n)
    root = etree.Element('tei')
    front = etree.SubElement(etree.SubElement(root, 'text'), 'front')
    front.text = text
    lb = etree.SubElement(front, 'lb')
    lb.tail = entities + text
    before = text_of(root)
    d = tempfile.mkdtemp(prefix='sx-c01-')
    try:
        src = os.path.join(d, 'in.xml' + ('.gz' if suffix.endswith('.gz') else ''))
        data = etree.tostring(root, encoding='utf-8')
        with (gzip.open if src.endswith('.gz') else open)(src, 'wb') as f:
            f.write(data)
        doc = load_grobid_training_tei_structured_document(
            src, tag_to_tei_path_mapping=MAPPING, container_node_path='text/front'
        )
        for i, token in enumerate(iter_tokens(doc)[:tags]):
            doc.set_tag(token, ctx.pick('tag%d' % i, TAGS[:3]))
        dst = os.path.join(d, 'sub', 'out' + suffix)
        save_grobid_training_tei_structured_document(dst, doc)
        with open(dst, 'rb') as f:
            out = f.read()
        ctx.check((out[:2] == b'\x1f\x8b') == suffix.endswith('.gz'),
                  'compressed exactly when the file name says so')
        if suffix.endswith('.gz'):
            out = gzip.decompress(out)
        ctx.check(ctx.eq(text_of(etree.fromstring(out)), before), 'text changed on the way to the file',
                  [before, text_of(etree.fromstring(out))])
        with (gzip.open if src.endswith('.gz') else open)(src, 'rb') as f:
            ctx.check(f.read() == data, 'source file modified')
    finally:
        shutil.rmtree(d)
    ctx.reach('file')


def shapes_around(tier):
    n = '#2' if tier == 'quick' else '#3'
    front = ['front', {'n': '1'}, n, 'lb', '#1']
    out = [
        {'spec': ['tei', {'a': 'b'},
                  ['teiHeader', {'type': 'x'}, '#1', ['fileDesc', {'id': '1'}, '=d'], '=e'],
                  '=\n',
                  ['text', {'lang': 'en'}, '=\n ', front, '=\n', ['back', {'k': 'v'}, '#1'], '= ']],
         'container': 'text/front'},
        {'spec': ['tei', {}, ['text', {'lang': 'en', 'k': 'v'}, n, ['note', {}, '#1'], '#1'], '=\n'],
         'container': 'text'},
        {'spec': ['tei', {}, ['text', {'lang': 'en'}, n, 'lb', '#1'], '=\n'],
         'container': 'tei:text', 'ns': True},
    ]
    out.append({'spec': ['tei', {}, ['author', {}, '#1'], ['author', {}, '#1']],
                'container': 'author'})
    return out


BOUNDS = (
    'documents of up to 5 symbolic characters (thorough 6) in 18 element/line-break layouts with and '
    'without TEI namespace (each character any of 207: XML whitespace, printable ASCII/Latin-1, '
    'typographic punctuation, Greek and combining characters), up to 2 symbolic tags per document '
    'out of 6 (untagged, mapped, nested mapped, unmapped; begin/inside); the rest of the document '
    'around the annotated part with attributes and symbolic text; files of up to 3 (thorough 4) '
    'characters, plain and gzip compressed'
)
OUTSIDE = (
    'longer documents; comments and processing instructions inside the annotated part; elements with '
    'more than one attribute inside it (refused by the tool); non-blank text directly behind the '
    'annotated element; characters outside the alphabet'
)
ASSUMPTIONS = [
    'lxml stores, copies, serialises and parses element text faithfully (trusted C code)'
]
HARNESSES = [
    Harness('text', h_text, shapes_text, reach=('checked', 'tokens')),
    Harness('around', h_around, shapes_around, reach=('around', 'several')),
    Harness('file', h_file, lambda t: [
        {'n': 2 if t == 'quick' else 3, 'suffix': s, 'tags': 2, 'entities': '<&\xe9'}
        for s in ('.xml', '.xml.gz')], reach=('file',)),
]
