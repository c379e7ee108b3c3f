"""C12: which documents pass the quality checks, and where they are written."""
import os
import shutil
import tempfile

from lxml import etree
from sciencebeam_alignment.levenshtein import get_levenshtein_ratio

from sciencebeam_trainer_grobid_tools.annotation.checks import (
    is_structured_document_passing_checks,
    get_target_annotations_from_annotator
)
from sciencebeam_trainer_grobid_tools.annotation.annotator import annotate_structured_document
from sciencebeam_trainer_grobid_tools.annotation.target_annotation import TargetAnnotation
from sciencebeam_trainer_grobid_tools.core.annotation.annotator import Annotator
from sciencebeam_trainer_grobid_tools import (
    auto_annotate_fulltext,
    auto_annotate_header,
    auto_annotate_segmentation
)
from sciencebeam_trainer_grobid_tools.auto_annotate_segmentation import (
    is_segmentation_structured_document_passing_checks
)
from sciencebeam_trainer_grobid_tools.annotation.segmentation_annotator import SegmentationConfig

from sx.harness import Harness
from harness.schedule import scheduled
from harness.teilib import document, iter_tokens

REPO = os.environ.get('VERIF_REPO', '/repo')

TAGS = [None, 'b-title', 'i-title', 'b-other', 'abstract']


def _doc(ctx, words, breaks):
    root = etree.Element('tei')
    front = etree.SubElement(etree.SubElement(root, 'text'), 'front')
    texts = []
    el = None
    for i, w in enumerate(words):
        if i and i in breaks:
            if el is None:
                front.text = front.text + '\n'
            else:
                el.tail = el.tail + '\n'
            el = etree.SubElement(front, 'lb')
        t = (ctx.text('w%d' % i, int(w[1:]), 'abc') if w[0] == '#' else w)
        texts.append(t)
        s = t if i == 0 or i in breaks else ' ' + t
        if el is None:
            front.text = (front.text or '') + s
        else:
            el.tail = (el.tail or '') + s
    return root, texts


def _similar(a, b, threshold=0.8):
    """True / False, or None where the trusted similarity depends on the order of the arguments"""
    r1 = get_levenshtein_ratio(a, b) >= threshold
    r2 = get_levenshtein_ratio(b, a) >= threshold
    return r1 if r1 == r2 else None


def _strip(tag):
    return tag[2:] if tag and tag[:2] in ('b-', 'i-') else tag


def _entities(texts, tags, breaks, name):
    """text of the runs of tokens tagged `name`"""
    out = []
    prev = None
    for i, (t, tag) in enumerate(zip(texts, tags)):
        value = _strip(tag)
        if value == name:
            if prev == name and tag[:2] != 'b-':
                out[-1] = out[-1] + (' ' if i not in breaks else '\n') + t
            else:
                out.append(t)
        prev = value
    return out


def h_checks(ctx, words, breaks, target, require, required, with_abstract):
    """target values vs tagged text: similarity decides, required fields must be there"""
    root, texts = _doc(ctx, words, breaks)
    doc = document(root, tag_to_tei_path_mapping={}, preserve_tags=False)
    tokens = iter_tokens(doc)
    tags = []
    for i, token in enumerate(tokens):
        tag = ctx.pick('tag%d' % i, TAGS)
        tags.append(tag)
        if tag:
            doc.set_tag(token, tag)
    annotations = [TargetAnnotation('x', 'unrelated')]
    values = {}
    if ctx.pick('has_title', [True, False]):
        values['title'] = ctx.text('target', target, 'abc ')
    if with_abstract:
        values['abstract'] = 'ab'
    annotations.extend(TargetAnnotation(v, k) for k, v in values.items())
    got = is_structured_document_passing_checks(
        doc, require_matching_fields=set(require), required_fields=set(required),
        target_annotations=annotations)
    names = set(require) | set(required)
    want = True
    for name in sorted(names):
        if name not in values:
            if name in required:
                want = False
                ctx.reach('missing target')
            continue
        found = _entities(texts, tags, breaks, name)
        if not found:
            want = False
            ctx.reach('missing entity')
            continue
        similar = _similar(values[name], _join(found))
        if similar is None:
            ctx.reach('undefined')
            return
        if not similar:
            want = False
            ctx.reach('different')
        else:
            ctx.reach('similar')
    ctx.check(got == want, 'verdict of the document checks', [
        [str(t) for t in tags], texts, values, got, want])
    ctx.observe('passing', got)


def _join(values):
    out = values[0]
    for v in values[1:]:
        out = out + ' ' + v
    return out


def h_routing(ctx, failed):
    """a passing document goes to the output, a failing one to the failed output or nowhere"""
    passing = ctx.pick('passing', [True, False])
    exists = ctx.pick('exists', [False, True])
    seen = []

    class Tagger:
        def annotate(self, doc):
            for t in iter_tokens(doc):
                doc.set_tag(t, 'title')
            return doc

    def checks(doc):
        seen.append([doc.get_tag(t) for t in iter_tokens(doc)])
        return passing

    d = tempfile.mkdtemp(prefix='sx-c12-')
    try:
        source, out, bad = (os.path.join(d, n) for n in ('s.tei.xml', 'o/s.tei.xml', 'f/s.tei.xml'))
        with open(source, 'wb') as f:
            f.write(b'<tei><text><front>ab cd</front></text></tei>')
        if exists:
            os.makedirs(os.path.dirname(out))
            with open(out, 'wb') as f:
                f.write(b'old')
        annotate_structured_document(
            source, out, annotator=Tagger(), preserve_tags=True, fields={'title'},
            is_structured_document_passing_checks=checks,
            failed_target_structured_document_path=bad if failed else None,
            container_node_path='text/front', tag_to_tei_path_mapping={'title': 'docTitle'}
        )
        content = {}
        for n, p in (('out', out), ('failed', bad)):
            if os.path.exists(p):
                with open(p, 'rb') as f:
                    content[n] = f.read()
        files = sorted(
            os.path.relpath(os.path.join(r, n), d) for r, _, ns in os.walk(d) for n in ns)
    finally:
        shutil.rmtree(d)
    want = {'s.tei.xml'}
    if exists or passing:
        want.add('o/s.tei.xml')
    if failed and not passing:
        want.add('f/s.tei.xml')
    ctx.check(set(files) == want, 'files written', [files, passing])
    if passing:
        ctx.check(b'<docTitle>ab cd</docTitle>' in content['out'], 'annotated document not written')
    else:
        ctx.check(content.get('out') in (None, b'old'), 'failing document written to the output')
        if failed:
            ctx.check(b'<docTitle>ab cd</docTitle>' in content['failed'],
                      'failing document not written')
    ctx.check(len(seen) == 1 and seen[0] == ['title', 'title'], 'checked before annotation', [seen])
    ctx.reach('passing' if passing else 'failing')


SEG = {'front': {'title', 'abstract'}, 'reference': {'ref'}}
SEG_TAGS = [None, 'front', 'b-front', 'reference']


def h_segmentation(ctx, words, breaks, target, kind, require, required):
    """a field is looked for within the text of the area it belongs to"""
    root, texts = _doc(ctx, words, breaks)
    doc = document(root, tag_to_tei_path_mapping={}, preserve_tags=False)
    tags = []
    for i, token in enumerate(iter_tokens(doc)):
        tag = ctx.pick('tag%d' % i, SEG_TAGS)
        tags.append(tag)
        if tag:
            doc.set_tag(token, tag)
    field = ctx.pick('field', ['title', 'ref'])
    has = ctx.pick('has', [True, False])
    annotations = [TargetAnnotation(target, field)] if has else []
    got = is_segmentation_structured_document_passing_checks(
        doc, require_matching_fields=set(require), required_fields=set(required),
        target_annotations=annotations, segmentation_config=SegmentationConfig(SEG))
    names = set(require) | set(required)
    if not has or field not in names:
        want = not required or (has and set(required) == {field})
        if field not in names and not required:
            want = True
        ctx.check(got == want, 'verdict without value', [got, want])
        ctx.reach('no value')
        return
    if set(required) - {field}:
        ctx.check(got is False or got == False, 'required field missing, but passing')  # noqa
        ctx.reach('missing')
        return
    area = 'front' if field == 'title' else 'reference'
    found = _entities(texts, tags, breaks, area)
    if not found:
        ctx.check(not got, 'no text for the area, but passing')
        ctx.reach('no area')
        return
    text = _join(found)
    if kind == 'absent':
        ctx.check(not got, 'value is nowhere in the text, but passing', [text, target])
        ctx.reach('absent')
    elif ctx.eq(text, target):
        ctx.check(got, 'area is the value, but failing', [text, target])
        ctx.reach('present')


def h_target_annotations(ctx):
    """the values checked are those of the annotator that has them, whatever its position"""
    class Plain:
        def annotate(self, doc):
            return doc

    class Having(Plain):
        def __init__(self, v):
            self.target_annotations = v
    n = ctx.pick('n', [1, 2, 3])
    at = ctx.pick('at', [None, 0, 1, 2])
    ctx.assume(at is None or at < n)
    values = [TargetAnnotation('x', 'title')]
    annotators = [Having(values) if i == at else Plain() for i in range(n)]
    got = get_target_annotations_from_annotator(Annotator(annotators))
    ctx.check(got is (None if at is None else values), 'values of the annotator')
    if n == 1:
        got = get_target_annotations_from_annotator(annotators[0])
        ctx.check(got is (None if at is None else values), 'values of the annotator')
    ctx.reach('found')


# {command: module, file name suffix, document, options, [(field, JATS, text)]}
TITLE = ('title', '<front><article-meta><title-group><article-title>Ge~nes of mice</article-title></title-group>'
                  '</article-meta></front>', 'Ge~nes of mice')
ABSTRACT = ('abstract', '<front><article-meta><abstract><p>We have studied ma~ny things.</p></abstract></article-meta>'
                        '</front>', 'We have studied ma~ny things.')
COMMANDS = {
    'header': (auto_annotate_header, 'header', '<tei><text><front>%s</front></text></tei>',
               ['--fields=title,abstract'], [TITLE, ABSTRACT]),
    'segmentation': (auto_annotate_segmentation, 'segmentation', '<tei><text>%s</text></tei>',
                     ['--segmentation-config=' + REPO + '/config/segmentation.conf'], [TITLE, ABSTRACT]),
    'fulltext': (auto_annotate_fulltext, 'fulltext', '<tei><text>%s</text></tei>', [], [
        ('appendix_group_title', '<back><app-group><title>Appen~dix part</title></app-group></back>',
         'Appen~dix part'),
        ('reference_list_title', '<back><ref-list><title>Refer~ences list</title></ref-list></back>',
         'Refer~ences list')]),
}


def h_commands(ctx, command, require, required, failed):
    """the checks of a command line: the document goes to the output, the failed output or nowhere"""
    module, suffix, template, options, fields = COMMANDS[command]
    letter = ctx.text('letter', 1, 'kmz')
    in_source = [ctx.pick('source%d' % i, [True, False]) for i in range(2)]
    in_document = [ctx.pick('document%d' % i, [True, False]) for i in range(2)]
    names = [f for f, _, _ in fields]
    d = tempfile.mkdtemp(prefix='sx-c12-')
    try:
        os.makedirs(d + '/tei')
        os.makedirs(d + '/xml')
        lines = ['Zzvw uhuh'] + [t.replace('~', letter) for (_, _, t), x in zip(fields, in_document) if x]
        jats = '<article>' + ''.join(j.replace('~', letter) for (_, j, _), x in zip(fields, in_source) if x) + '</article>'
        for path, content in (('/tei/doc.%s.tei.xml' % suffix, template % ''.join(l + '<lb/>' for l in lines)),
                              ('/xml/doc.xml', jats)):
            with open(d + path, 'wb') as f:
                f.write(content.encode('utf-8'))
        args = ['--source-base-path=' + d + '/tei', '--output-path=' + d + '/out', '--xml-path=' + d + '/xml',
                '--xml-filename-regex=/(.*)\\.%s\\.tei\\.xml/\\1.xml/' % suffix, '--matcher=simple',
                '--xml-mapping-path=' + REPO + '/config/xml-mapping.conf'] + options
        if require:
            args.append('--require-matching-fields=' + ','.join(names[i] for i in require))
        if required:
            args.append('--required-fields=' + ','.join(names[i] for i in required))
        if failed:
            args.append('--failed-output-path=' + d + '/failed')
        with scheduled(ctx):
            module.main(args, save_main_session=False)
        got = [os.path.exists(d + '/%s/doc.%s.tei.xml' % (n, suffix)) for n in ('out', 'failed')]
    finally:
        shutil.rmtree(d)
    passing = True
    for i in range(2):
        if i in required and not in_source[i]:
            passing = False
        if (i in require or i in required) and in_source[i] and not in_document[i]:
            passing = False
    ctx.check(got == [passing, failed and not passing], 'where the document is written',
              [command, got, passing, in_source, in_document])
    ctx.reach('accepted' if passing else 'rejected')


def shapes_commands(tier):
    return [
        dict(command=c, require=a, required=b, failed=f)
        for c in sorted(COMMANDS) for a, b in (([], []), ([0], []), ([1], []), ([], [0]), ([], [1]), ([0, 1], [1]))
        for f in ((False, True) if (a, b) == ([0], []) or tier != 'quick' else (True,))]


def shapes_checks(tier):
    out = []

    def add(words, breaks, target, require=('title',), required=(), with_abstract=False):
        out.append(dict(words=words, breaks=breaks, target=target, require=list(require),
                        required=list(required), with_abstract=with_abstract))
    big = tier == 'thorough'
    add(['abcab'], [], 5)
    add(['#2', '#1' if not big else '#2'], [], 4)
    add(['#1', 'c', 'a' if not big else '#1'], [2], 4)
    add(['a', 'b', 'c'], [1], 4, require=(), required=('title',))
    add(['#1', 'ab'], [], 2, require=('title', 'abstract'), with_abstract=True)
    add(['#1', 'ab'], [], 2, require=('abstract',), required=('title',), with_abstract=True)
    add(['#1', 'b'], [], 1, require=('title',), required=('abstract',))
    add(['#1', 'b'], [], 1, require=(), required=('title', 'abstract'))
    add(['#1', 'ab'], [], 1, require=(), required=('title', 'abstract'), with_abstract=True)
    if big:
        add(['#2', '#2', '#1'], [1], 5)
        add(['a', '#1', 'b', '#1'], [2], 4, with_abstract=True, require=('title', 'abstract'))
    return out


def shapes_seg(tier):
    out = []
    for kind, target in (('present', 'abcab acb'), ('absent', 'xyzuv wxy')):
        for require, required in ((['title'], []), ([], ['title']), (['title', 'ref'], []),
                                  (['ref'], ['title'])):
            out.append(dict(words=['abcab', '#3', 'bca'] if tier == 'quick' else
                            ['#2', 'abcab', '#3', 'bca'], breaks=[2], target=target, kind=kind,
                            require=require, required=required))
    return out


BOUNDS = (
    'documents of 1-3 tokens (thorough 4) of up to 5 characters, symbolic over {a,b,c} with the '
    'target value symbolic over {a,b,c,blank} up to 5 characters; every combination of 5 token tags '
    '(4 segmentation tags), presence of the target value and required/matching configurations '
    'listed in shapes; the three commands with checks from the command line to the files written, with two '
    'fields, each in the source XML and in the document or not; routing: every combination of verdict, failed output option and existing output'
)
OUTSIDE = (
    'fields with several target values (refused by the tool); text longer than 5 characters per '
    'token; similarity values for which the alignment library is not symmetric'
)
ASSUMPTIONS = [
    'the similarity of two texts is what sciencebeam_alignment computes (trusted; called with text '
    'that has the same equality pattern as the symbolic text)',
]
HARNESSES = [
    Harness('checks', h_checks, shapes_checks,
            reach=('missing target', 'missing entity', 'different', 'similar')),
    Harness('routing', h_routing, lambda t: [{'failed': True}, {'failed': False}],
            reach=('passing', 'failing')),
    Harness('segmentation', h_segmentation, shapes_seg,
            reach=('no value', 'missing', 'no area', 'absent', 'present')),
    Harness('commands', h_commands, shapes_commands, reach=('accepted', 'rejected')),
    Harness('target_annotations', h_target_annotations, lambda t: [{}], reach=('found',)),
]
