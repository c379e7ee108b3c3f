"""C07: segmentation gives every line one area, according to its annotated words and its neighbours."""
import os
import shutil
import tempfile

from lxml import etree

from sciencebeam_trainer_grobid_tools import auto_annotate_segmentation
from sciencebeam_trainer_grobid_tools.annotation.segmentation_annotator import (
    SegmentationAnnotator,
    SegmentationConfig,
    parse_segmentation_config
)
from sciencebeam_trainer_grobid_tools.structured_document.grobid_training_tei import (
    GrobidTrainingTeiStructuredDocument
)

from sx.harness import Harness
from harness.schedule import scheduled

REPO = os.environ.get('VERIF_REPO', '/repo')
MAPPING = {'front': {'title', 'abstract'}, 'body': {'section_title'}, 'annex': {'appendix'},
           'page': {'page_no'}, 'reference': {'reference', 'reference_title'}}
AREA = {field: area for area, fields in MAPPING.items() for field in fields}
TEI_PATHS = auto_annotate_segmentation.SEGMENTATION_TAG_TO_TEI_PATH_MAPPING

# (tag, word) of the words of a line; '%d' is the number of the line
LINES = {
    'text': [(None, 'w%d')],
    'title': [('b-title', 'w%d'), ('i-title', 'x')],
    'section': [('b-section_title', 'w%d')],
    'reference': [('b-reference', 'w%d')],
    'appendix': [('b-appendix', 'w%d')],
    'other': [('b-other', 'w%d')],
    'header': [(None, 'run'), (None, 'head')],
    'header as title': [('b-title', 'run'), ('i-title', 'head')],
    'header 2': [(None, 'left'), (None, 'head')],
    'word': [(None, 'head')],
    '1': [(None, '1')],
    '2': [(None, '2')],
    '4': [(None, '4')],
    '1 2': [(None, '1'), (None, '2')],
    '1200': [(None, '1200')],
    '0012': [(None, '0012')],
    'page 1300': [('b-page_no', '1300')],
    'numbers': [(None, '1'), (None, '.'), (None, '3')],
    'header 3': [(None, 'Vol'), (None, '.'), (None, '3')],
    'page 3': [('b-page_no', '3')],
    'page 5': [('page', '5')],
    'kept page 2': [('b-page kept', '2')],
    'kept page 7': [('page kept', '7')],
    'text and kept page': [(None, 'see'), ('page kept', '2')],
    'empty': [],
}


def _document(lines):
    """TEI document with the lines; elements for existing tags that are to be kept"""
    root = etree.fromstring('<tei><text/></tei>')
    text = root.find('text')
    last = None
    for line in lines:
        kept = [tag for tag, _ in line if tag and tag.endswith(' kept')]
        before = ''.join(word + ' ' for tag, word in line if kept and tag is None)
        words = ' '.join(word for tag, word in line if tag is not None or not kept)
        if before:
            if last is None:
                text.text = (text.text or '') + before
            else:
                last.tail = (last.tail or '') + before
        if kept:
            last = etree.SubElement(text, 'page')
            etree.SubElement(last, 'lb')
            last.text = words
        else:
            if last is None:
                text.text = (text.text or '') + words
            else:
                last.tail = (last.tail or '') + words
            last = etree.SubElement(text, 'lb')
    return root


def _load(lines, preserve):
    doc = GrobidTrainingTeiStructuredDocument(
        _document(lines), container_node_path='text', preserve_tags=preserve,
        tag_to_tei_path_mapping=TEI_PATHS)
    doc_lines = [line for page in doc.get_pages() for line in doc.get_lines_of_page(page)]
    tokens = [doc.get_tokens_of_line(line) for line in doc_lines][:len(lines)]
    for line, line_tokens in zip(lines, tokens):
        assert [doc.get_text(t) for t in line_tokens] == [w for _, w in line], (lines, tokens)
        for (tag, _), token in zip(line, line_tokens):
            if tag and not tag.endswith(' kept'):
                doc.set_tag(token, tag)
    return doc, tokens


def _value(tag):
    return tag[2:] if tag and tag[:2] in ('b-', 'i-') else tag


def expected(lines, preserve, front_max, header_max, no_merge):
    """the tag of every word, and the area of every line"""
    out, area = [], []
    kept_page = [preserve and any(t and t.endswith(' kept') for t, _ in line) for line in lines]
    for line in lines:
        tags = [None if t and t.endswith(' kept') else t for t, _ in line]
        values = [_value(t) for t in tags]
        if not values:
            out.append([])
            area.append(None)
            continue
        most = max(values.count(v) for v in values)
        majority = next(v for v in values if values.count(v) == most)
        mapped = AREA.get(majority)
        if mapped:
            area.append(mapped)
            out.append(tags if mapped == majority and no_merge else [mapped] * len(line))
        elif majority is None:
            area.append(None)
            out.append([None] * len(line))
        else:
            area.append(majority)
            out.append(tags)

    def tag_line(i, tag):
        area[i] = tag
        out[i] = [tag] * len(lines[i])

    # front blocks that start too late
    if front_max:
        i = 0
        while i < len(lines):
            j = i
            while j < len(lines) and area[j] == area[i]:
                j += 1
            if area[i] == 'front' and i > front_max:
                for k in range(i, j):
                    tag_line(k, None)
                    area[k] = ''        # (still separates blocks while looking at them)
            i = j
        area[:] = [a or None for a in area]
    # existing page numbers
    for i in range(len(lines)):
        if kept_page[i] and area[i] is None:
            tag_line(i, 'page')
    # numbers that fit between the page numbers around them
    texts = [' '.join(w for _, w in line) for line in lines]
    free = [i for i in range(len(lines)) if area[i] is None and texts[i].isdigit()]
    low_line, low = 0, 1
    for i in [i for i in range(len(lines)) if area[i] == 'page']:
        number = int(texts[i]) if texts[i].isdigit() else -1
        for k in free:
            if low_line <= k <= i and low <= int(texts[k]) < number:
                tag_line(k, 'page')
                low += 1
        low_line, low = i, number
    # repeated lines
    counts = {}
    for i in range(len(lines)):
        if area[i] is None:
            counts[texts[i]] = counts.get(texts[i], 0) + 1
    least = 2
    first = True
    for text in sorted(counts, key=lambda t: -counts[t]):
        if counts[text] < least or len(text.split(' ')) < 2 or not text.strip('0123456789. '):
            continue
        if texts.index(text) >= header_max:
            continue
        if first:
            least = max(2, counts[text] - 1)
            first = False
        for i in range(len(lines)):
            if texts[i] == text:
                tag_line(i, 'headnote')
    # lines within an area
    merged = ['front', 'annex'] + ([] if no_merge else ['reference'])
    for i in range(len(lines)):
        if area[i] is not None or kept_page[i]:
            continue
        before = [a for a in area[:i] if a not in (None, '', 'headnote', 'page')] or ['front']
        after = [a for a in area[i + 1:] if a not in (None, 'headnote', 'page')]
        if after and before[-1] == after[0] and after[0] in merged:
            out[i] = [after[0]] * len(lines[i])
        elif not after and before[-1] == 'annex':
            out[i] = ['annex'] * len(lines[i])
        elif not preserve:
            out[i] = ['body'] * len(lines[i])
    return out


def _check(ctx, lines, preserve, front_max, header_max, no_merge):
    doc, tokens = _load(lines, preserve)
    SegmentationAnnotator(
        SegmentationConfig(
            MAPPING, front_max_start_line_index=front_max, page_header_max_first_line_index=header_max,
            no_merge_references=no_merge),
        preserve_tags=preserve).annotate(doc)
    got = [[doc.get_tag(t) for t in line] for line in tokens]
    want = expected(lines, preserve, front_max, header_max, no_merge)
    ctx.check(got == want, 'unexpected area', [lines, got, want])
    ctx.check([[doc.get_text(t) for t in line] for line in tokens] == [[w for _, w in line] for line in lines],
              'the text changed')
    if not preserve:
        ctx.check(all(any(line) for line in got if line), 'a line without area', [lines, got])
    for line in got:
        for t in line:
            ctx.reach(t or 'none')


def lines(ctx, first, kinds, n, preserve):
    """every sequence of lines"""
    names = [first] + [ctx.pick('line%d' % i, kinds) for i in range(1, n)]
    doc = []
    for i, name in enumerate(names):
        doc.append([(tag, word % i if '%d' in word else word) for tag, word in LINES[name]])
    front_max = ctx.pick('front', [0, 1])
    header_max = ctx.pick('header', [50, 1])
    no_merge = ctx.pick('no merge', [False, True]) if 'reference' in kinds else False
    _check(ctx, doc, preserve, front_max, header_max, no_merge)


def repeats(ctx, preserve):
    """lines repeated several times"""
    counts = [(name, ctx.pick(name, c)) for name, c in (
        ('header', [0, 2, 3, 4]), ('header 2', [1, 2, 3, 4]), ('header 3', [0, 2, 3]), ('numbers', [0, 3]))]
    if ctx.pick('mixed', [False, True]):
        names = [name for k in range(4) for name, c in counts if k < c]
    else:
        names = [name for name, c in counts for _ in range(c)]
    doc = [LINES[name] for name in names] + [[('b-title', 'x')], [('b-appendix', 'y')]]
    _check(ctx, doc, preserve, 0, ctx.pick('header_max', [50, 1, 3, 5]), False)
    ctx.reach('repeated')


def words(ctx, n, preserve):
    """the area of a line is the one of most of its words"""
    tags = [ctx.pick('tag%d' % i, [None, 'b-title', 'i-title', 'reference', 'b-other', 'abstract'])
            for i in range(n)]
    no_merge = ctx.pick('no merge', [False, True])
    doc = [[(t, 'w%d' % i) for i, t in enumerate(tags)], [(None, 'x')], [('b-reference', 'y')]]
    _check(ctx, doc, preserve, 0, 50, no_merge)


def numbers(ctx, n):
    """numbers on their own line"""
    doc = []
    for i in range(n):
        s = ctx.text('n%d' % i, 1, '0123459a')
        tag = ctx.pick('p%d' % i, [None, 'page']) if i in (1, 3) else None
        doc.append([(tag, s + '')])
    pages = [ctx.pick('q', ['3', '12', 'v'])]
    doc.append([('b-page_no', pages[0])])
    d, tokens = _load(doc, True)
    SegmentationAnnotator(SegmentationConfig(MAPPING), preserve_tags=True).annotate(d)
    got = [d.get_tag(line[0]) for line in tokens]
    want = [x[0] for x in expected(doc, True, 0, 50, False)]
    ctx.check(got == want, 'unexpected area', [doc, got, want])
    for i, t in enumerate(got):
        if t == 'page' and doc[i][0][0] is None:
            ctx.check(doc[i][0][1].isdigit(), 'not a number', [doc, got])
            later = [j for j in range(i + 1, n + 1) if doc[j][0][0]]
            ctx.check(bool(later), 'no page number follows', [doc, got])
            follow = doc[later[0]][0][1]
            ctx.check(follow.isdigit() and int(doc[i][0][1]) < int(follow), 'page numbers do not increase',
                      [doc, got])
            ctx.reach('added')
        elif t != 'page':
            ctx.reach('not added')


def config(ctx):
    """settings and the command line"""
    tmp = tempfile.mkdtemp()
    try:
        front = ctx.pick('front', [None, 0, 7])
        header = ctx.pick('header', [None, 0, 3])
        merge = ctx.pick('merge', [True, False])
        fields = ctx.pick('fields', ['title,abstract', 'title, abstract ', ' title'])
        path = os.path.join(tmp, 'segmentation.conf')
        with open(path, 'w') as f:
            f.write('[tags]\nfront = ' + fields + '\nbody = section\n')
            if front is not None or header is not None:
                f.write('[config]\n')
            if front is not None:
                f.write('front_max_start_line_index = %d\n' % front)
            if header is not None:
                f.write('page_header_max_first_line_index = %d\n' % header)
        got = parse_segmentation_config(path)
        want = SegmentationConfig(
            {'front': {'title', 'abstract'} if 'abstract' in fields else {'title'}, 'body': {'section'}},
            front_max_start_line_index=front or 0,
            page_header_max_first_line_index=50 if header is None else header)
        ctx.check(got == want, 'unexpected settings', [repr(got)])
        args = auto_annotate_segmentation.parse_args([
            '--source-base-path=' + tmp, '--output-path=' + tmp, '--xml-path=' + tmp,
            '--xml-filename-regex=/a/b/', '--segmentation-config=' + path,
            '--xml-mapping-path=' + REPO + '/config/xml-mapping.conf'] + (
                [] if merge else ['--no-merge-references']))
        factory = auto_annotate_segmentation.AnnotatePipelineFactory(args)
        ctx.check(factory.segmentation_config == want._replace(no_merge_references=not merge),
                  'unexpected settings of the pipeline', [repr(factory.segmentation_config)])
        ctx.reach('config')
    finally:
        shutil.rmtree(tmp)


def pipeline(ctx):
    """segmentation of a whole document from its source XML"""
    tmp = tempfile.mkdtemp()
    try:
        preserve = ctx.pick('preserve', [False, True])
        x = ctx.text('x', 1, 'xy')
        body = ctx.pick('body', ['front', 'page', 'plain'])
        tei = os.path.join(tmp, 'doc.segmentation.tei.xml')
        middle = {'front': '<front>A Title' + x + 'word of mice<lb/></front>',
                  'page': 'A Title' + x + 'word of mice<lb/><page>2<lb/></page>',
                  'plain': 'A Title' + x + 'word of mice<lb/>'}[body]
        with open(tei, 'wb') as f:
            f.write(('<tei><text><page>1<lb/></page>' + middle + 'Other q<lb/>An Abstract about r<lb/>'
                     '<body>Rest<lb/></body></text></tei>').encode('utf-8'))
        with open(os.path.join(tmp, 'doc.xml'), 'w') as f:
            f.write('<article><front><article-meta><title-group><article-title>A Title' + x + 'word of mice'
                    '</article-title></title-group><abstract><p>An Abstract about r</p></abstract>'
                    '</article-meta></front></article>')
        args = ['--source-base-path=' + tmp, '--output-path=' + tmp + '/out', '--xml-path=' + tmp,
                '--xml-filename-regex=/(.*).segmentation.tei.xml/\\1.xml/', '--fields=title,abstract',
                '--matcher=simple', '--segmentation-config=' + REPO + '/config/segmentation.conf',
                '--xml-mapping-path=' + REPO + '/config/xml-mapping.conf']
        if not preserve:
            args.append('--no-preserve-tags')
        with scheduled(ctx):
            auto_annotate_segmentation.main(args, save_main_session=False)
        root = etree.parse(tmp + '/out/doc.segmentation.tei.xml').getroot()
        text = root.find('text')
        front = ''.join(''.join(e.itertext()) for e in text.iter('front'))
        ctx.check('A Title' + x + 'word of mice' in front, 'the title is not in the front', etree.tostring(root))
        ctx.check('An Abstract about r' in front and 'Other q' in front, 'the abstract is not in the front', front)
        ctx.check('Rest' not in front, 'text after the front is in the front', front)
        ctx.check([e.text for e in text.iter('body')] == ['Rest'], 'the body', etree.tostring(root))
        pages = [e.text for e in text.iter('page')]
        if preserve:
            ctx.check(pages == (['1', '2'] if body == 'page' else ['1']), 'page numbers are not kept', pages)
            ctx.reach('preserved')
        else:
            ctx.reach('not preserved')
    finally:
        shutil.rmtree(tmp)


AREAS = ['text', 'title', 'section', 'reference', 'appendix', 'header', 'empty', 'other']
HEADERS = ['text', 'header', 'header as title', 'header 2', 'word', 'title', '1 2', 'appendix']
PAGES = ['text', '1', '2', '4', 'page 3', 'page 5', 'title', 'kept page 2', 'kept page 7']
LONG = ['text', 'text and kept page', '0012', '1200', '4', 'page 1300', 'page 5']


def shapes_lines(tier):
    out = []
    for kinds, n, preserves in ((AREAS, 4, (False, True)), (HEADERS, 5, (True,)), (PAGES, 4, (False, True)),
                               (LONG, 3, (False, True))):
        if tier == 'quick' and kinds is HEADERS:
            n = 4
        if tier != 'quick' and kinds is not HEADERS:
            n = 5
        for preserve in preserves:
            out += [{'first': f, 'kinds': kinds, 'n': n, 'preserve': preserve} for f in kinds]
    return out


HARNESSES = [
    Harness('lines', lines, shapes_lines,
            reach=['front', 'body', 'reference', 'annex', 'page', 'headnote', 'b-other', 'none']),
    Harness('repeats', repeats, lambda tier: [{'preserve': p} for p in (False, True)], reach=['repeated']),
    Harness('words', words, lambda tier: [
        {'n': n, 'preserve': p} for n in ((2, 3) if tier == 'quick' else (2, 3, 4)) for p in (False, True)],
            reach=['front', 'body', 'reference', 'b-other']),
    Harness('numbers', numbers, lambda tier: [{'n': 3 if tier == 'quick' else 4}], reach=['added', 'not added']),
    Harness('config', config, lambda tier: [{}], reach=['config']),
    Harness('pipeline', pipeline, lambda tier: [{}], reach=['preserved', 'not preserved']),
]
BOUNDS = (
    'documents of 4 (thorough 5) lines, each of 8 or 9 kinds (three families: areas, repeated lines, page '
    'numbers), with tags kept or not, 2 front and 2 header limits, references merged or not; lines of 2-3 '
    '(4) words with any of 6 tags; up to 4 different lines repeated up to 4 times; 3 (4) lines of one symbolic character before a page number; settings and '
    'command line options; one document through the whole pipeline'
)
OUTSIDE = (
    'a repeated line is a page header everywhere, even where a value was found (kept as it is); longer '
    'documents'
)
ASSUMPTIONS = []
