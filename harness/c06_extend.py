"""C06: tags are extended to neighbouring words exactly where configured."""
import os
import shutil
import tempfile

from lxml import etree

from sciencebeam_trainer_grobid_tools import auto_annotate_reference
from sciencebeam_trainer_grobid_tools.annotation.reference_annotator import (
    ReferenceAnnotatorConfig,
    ReferencePostProcessingAnnotator
)
from sciencebeam_trainer_grobid_tools.annotation.simple_matching_annotator import (
    SimpleMatchingAnnotator,
    SimpleSimpleMatchingConfig,
    SimpleTagConfig,
    get_extended_line_token_tags
)
from sciencebeam_trainer_grobid_tools.core.annotation.target_annotation import TargetAnnotation
from sciencebeam_trainer_grobid_tools.core.structured_document import (
    SimpleStructuredDocument,
    SimpleLine,
    SimpleToken
)
from sciencebeam_trainer_grobid_tools.structured_document.grobid_training_tei import (
    GrobidTrainingTeiStructuredDocument
)

from sx.harness import Harness
from harness.schedule import scheduled

REPO = os.environ.get('VERIF_REPO', '/repo')


def _split(tag):
    if tag and tag[:2] in ('b-', 'i-'):
        return tag[:2], tag[2:]
    return '', tag


def expected_line(tags, extend, merge):
    """tags of the words of a line, after extending them"""
    values = [_split(t)[1] for t in tags]
    n = len(tags)
    out = list(tags)
    filled = [False] * n
    for i in range(n):
        if values[i]:
            continue
        left = max([j for j in range(i) if values[j]], default=None)
        right = min([j for j in range(i + 1, n) if values[j]], default=None)
        if left is not None and right is not None:
            if values[left] == values[right] and merge(values[left]):
                filled[i] = values[left]
        elif left is not None:
            run = 1
            while left - run >= 0 and values[left - run] == values[left]:
                run += 1
            if extend(values[left]) and run > n - 1 - left:
                filled[i] = values[left]
        elif right is not None:
            run = 1
            while right + run < n and values[right + run] == values[right]:
                run += 1
            if extend(values[right]) and run > right:
                filled[i] = values[right]
    prefixed = {v: any(_split(t)[0] for t, w in zip(tags, values) if w == v) for v in values if v}
    for i in range(n):
        value = filled[i] or values[i]
        if not value or not prefixed[value]:
            out[i] = value
            continue
        before = (filled[i - 1] or values[i - 1]) if i else None
        if filled[i]:
            out[i] = ('i-' if before == value else 'b-') + value
        elif before == value and (filled[i - 1] or merge(value)):
            out[i] = 'i-' + value
    return out


def extend(ctx, n, prefixed):
    """every sequence of tags on a line"""
    tags = []
    for i in range(n):
        options = [None, 'b-a', 'b-b', 'c'] if prefixed else [None, 'a', 'b']
        if tags and prefixed and tags[-1] and tags[-1] != 'c':
            options.append('i-' + tags[-1][2:])
        elif i == 0 and prefixed:
            options.append('i-a')
        tags.append(ctx.pick('tag%d.%d' % (i, len(options)), options))
    enabled = {}
    for what in ('extend', 'merge'):
        for v in 'ab':
            if any(t and t.endswith(v) for t in tags):
                enabled[what, v] = ctx.pick('%s %s' % (what, v), [True, False] + ([None] if v == 'a' else []))
    maps = {
        what: {v: e for (w, v), e in enabled.items() if w == what and e is not None}
        for what in ('extend', 'merge')
    }
    got = get_extended_line_token_tags(
        tags, extend_to_line_enabled_map=maps['extend'], merge_enabled_map=maps['merge'])
    want = expected_line(
        tags, lambda v: maps['extend'].get(v, True), lambda v: maps['merge'].get(v, True))
    ctx.check(list(got) == want, 'unexpected tags', [tags, got, want, maps])
    ctx.reach('extended' if [_split(t)[1] for t in got] != [_split(t)[1] for t in tags] else 'as before')


WORDS = {'a': ['one', 'two'], 'b': ['five', 'six', 'seven']}


def line(ctx, n, m):
    """annotating with and without extending: the difference is the one specified, line by line"""
    config = {}
    for v in 'ab':
        config[v] = SimpleTagConfig(
            merge_enabled=ctx.pick('merge ' + v, [True, False]),
            extend_to_line_enabled=ctx.pick('extend ' + v, [True, False]))
    lines = []
    for i in range(n):
        words = []
        for j in range(m):
            kind = ctx.pick('part%d.%d' % (i, j), ['-', 'a', 'b'] if i == 0 else ['-', 'b'])
            words += WORDS.get(kind) or ['x' + (ctx.text('x', 1, 'xyz') if i == j == 0 else 'q')]
        lines.append(words)
    tags = []
    for enabled in (False, True):
        tokens = [[SimpleToken(w) for w in words] for words in lines]
        doc = SimpleStructuredDocument(lines=[SimpleLine(x) for x in tokens])
        SimpleMatchingAnnotator(
            [TargetAnnotation(' '.join(WORDS[v]), v) for v in 'aabb'],
            SimpleSimpleMatchingConfig(extend_to_line_enabled=enabled, tag_config_map=config)
        ).annotate(doc)
        tags.append([[doc.get_tag(t) for t in x] for x in tokens])
    want = [
        expected_line(t, lambda v: config[v].extend_to_line_enabled, lambda v: config[v].merge_enabled)
        for t in tags[0]
    ]
    ctx.check(tags[1] == want, 'unexpected tags', [lines, tags, want])
    ctx.reach('extended' if tags[1] != tags[0] else 'as before')


# ---- parts of references

REF = 'reference-'
NAMES = ('author', 'editor')
IDS = ('issn', 'isbn', 'doi', 'pii', 'pmid', 'pmcid', 'arxiv')
MERGED = ('author', 'editor', 'issue', 'page')


def _prefix_start(value, text):
    """where the name of the identifier starts at the end of the text"""
    if text.endswith(':'):
        text = text[:-1]
        if text[-1:].isspace():
            text = text[:-1]
    start = len(text)
    if value in ('doi', 'pii'):
        start -= 3
        if start < 0 or text[start:].lower() != value:
            return None
    else:
        while start > 0 and text[start - 1].lower() in 'abcdefghijklmnopqrstuvwxyz':
            start -= 1
        if len(text) - start < 2:
            return None
    if start > 0 and (text[start - 1].isalnum() or text[start - 1] == '_'):
        return None
    return start


def expected_reference(tags, texts, blanks, with_prefix):
    """sub tags of the words of a reference"""
    n = len(tags)
    values, begins = [], []
    for t in tags:
        prefix, value = _split(t)
        value = value and value[len(REF):]
        values.append('page' if value in ('fpage', 'lpage') else value)
        begins.append(prefix == 'b-')
    # et al. belongs to the names before it
    for i in range(n):
        if values[i] == 'etal':
            before = [v for v in values[:i] if v]
            if before and before[-1] in NAMES:
                values[i] = before[-1]
    # the dot after a name
    before = list(values)
    for i in range(1, n):
        if not before[i] and before[i - 1] in NAMES and texts[i][:1] == '.':
            values[i] = before[i - 1]
            begins[i] = False
    # the name of an identifier
    if with_prefix:
        for i in range(1, n):
            if values[i] in IDS and not values[i - 1]:
                first = i - 1
                while first > 0 and not values[first - 1]:
                    first -= 1
                text = ''.join(texts[k] + (blanks[k] if k < i - 1 else '') for k in range(first, i))
                start = _prefix_start(values[i], text)
                if start is None:
                    continue
                position = 0
                for k in range(first, i):
                    position += len(texts[k])
                    if position > start:
                        begins[k] = not any(v for v in values[first:k])
                        values[k] = values[i]
                    position += len(blanks[k])
                begins[i] = False
    # several parts of the same kind
    for v in MERGED:
        at = [i for i in range(n) if values[i] == v]
        for i, k in zip(at, at[1:]):
            if not any(values[i + 1:k]):
                for j in range(i + 1, k + 1):
                    values[j] = v
                    begins[j] = False
    return [v and ('b-' if b else 'i-') + REF + v for v, b in zip(values, begins)]


PIECES = {
    'author': 'Smith J', 'editor': 'Lee', 'etal': 'et al', 'fpage': '1', 'lpage': '9', 'doi': '10/1',
    'pmid': '123', 'volume': '7', 'issue': '4', 'page': '5', 'isbn': '978', 'pii': 'S1', 'issn': '12-5', 'pmcid': 'PMC8', 'arxiv': 'h/3',
}


CONFIGS = {}


def _config(with_prefix):
    """settings of the command line tool"""
    if with_prefix not in CONFIGS:
        CONFIGS[with_prefix] = auto_annotate_reference.AnnotatePipelineFactory(auto_annotate_reference.parse_args([
            '--source-base-path=/none', '--output-path=/none', '--xml-path=/none', '--xml-filename-regex=/a/b/',
            '--xml-mapping-path=' + REPO + '/config/xml-mapping.conf'
        ] + ['--include-idno-prefix'] * with_prefix)).reference_annotator_config
    return CONFIGS[with_prefix]


def reference(ctx, pieces, alphabet, n, between):
    """parts of references, with text between them"""
    with_prefix = ctx.pick('prefix', [True, False]) if any(
        p in IDS for options in pieces for p in options) else True
    parts = []
    for i, options in enumerate(pieces):
        kind = ctx.pick('piece%d' % i, options)
        if kind == '?':
            parts.append((None, ctx.text('text%d' % i, n, alphabet)))
        else:
            parts.append((kind if kind in PIECES else None, PIECES.get(kind, kind)))
    second = ctx.pick('second', [0] + list(range(1, len(parts))) if between else [0])
    other = ctx.pick('other', [False, True]) if second else False
    root = etree.fromstring('<tei><text/></tei>')
    text = root.find('text')
    text.text = ''
    last = None
    for i, (kind, s) in enumerate(parts):
        s = (' ' if i and kind and parts[i - 1][0] else '') + s
        if between and i == 2:
            last = etree.SubElement(text, 'lb')
            last.tail = s
        elif last is not None:
            last.tail = last.tail + s
        else:
            text.text = text.text + s
    doc = GrobidTrainingTeiStructuredDocument(root, container_node_path='text')
    tokens = [t for page in doc.get_pages() for l in doc.get_lines_of_page(page) for t in doc.get_tokens_of_line(l)]
    # tags according to the position of the words
    ends, total = [], 0
    for i, (kind, s) in enumerate(parts):
        total += len([c for c in s if not c.isspace()])
        ends.append(total)
    position, tags, mains, previous = 0, [], [], None
    for token in tokens:
        word = doc.get_text(token)
        part = next(i for i in range(len(parts)) if position < ends[i])
        ctx.assume(position + len(word) <= ends[part])
        position += len(word)
        kind = parts[part][0]
        tags.append(kind and ('i-' if part == previous else 'b-') + REF + kind)
        entity = part >= second > 0
        new = not mains or mains[-1][0] != entity
        mains.append((entity, ('b-' if new else 'i-') + 'reference' if not (other and entity) else None))
        previous = part
        doc.set_tag(token, mains[-1][1])
        if tags[-1]:
            doc.set_sub_tag(token, tags[-1])
    ReferencePostProcessingAnnotator(_config(with_prefix)).annotate(doc)
    got = [doc.get_sub_tag(t) for t in tokens]
    texts = [doc.get_text(t) for t in tokens]
    blanks = [' ' if doc.get_whitespace(t) is None else doc.get_whitespace(t) for t in tokens]
    want = []
    for e in (False, True):
        k = [i for i in range(len(tokens)) if mains[i][0] == e]
        if k:
            s = slice(k[0], k[-1] + 1)
            want += expected_reference(tags[s], texts[s], blanks[s], with_prefix)
    ctx.check(got == want, 'unexpected sub tags', [parts, tags, got, want])
    ctx.check([doc.get_tag(t) for t in tokens] == [m for _, m in mains], 'the main tags changed')
    ctx.reach('changed' if got != tags else 'as before')


def custom(ctx, n):
    """the settings decide"""
    values = ['p', 'q']
    chosen = {what: set(ctx.pick(what, [(), ('p',), ('p', 'q')])) for what in ('merge', 'prefix', 'suffix')}
    config = ReferenceAnnotatorConfig(
        sub_tag_map={'m': 'p'}, merge_enabled_sub_tags=chosen['merge'],
        include_prefix_enabled_sub_tags=chosen['prefix'], include_suffix_enabled_sub_tags=chosen['suffix'],
        prefix_regex_by_sub_tag_map={'p': '#$', 'q': '#$'}, etal_sub_tag='e', etal_merge_enabled_sub_tags={'q'})
    root = etree.fromstring('<tei><text/></tei>')
    texts, tags = [], []
    for i in range(n):
        kind = ctx.pick('word%d' % i, ['b-p', 'b-q', 'b-m', '#', '.'])
        texts.append('w' if kind not in '#.' else kind)
        tags.append(kind if kind not in '#.' else None)
    root.find('text').text = ' '.join(texts)
    doc = GrobidTrainingTeiStructuredDocument(root, container_node_path='text')
    tokens = [t for page in doc.get_pages() for l in doc.get_lines_of_page(page) for t in doc.get_tokens_of_line(l)]
    for t, tag in zip(tokens, tags):
        doc.set_tag(t, 'reference')
        if tag:
            doc.set_sub_tag(t, tag)
    ReferencePostProcessingAnnotator(config).annotate(doc)
    got = [doc.get_sub_tag(t) for t in tokens]
    v = [{'b-p': 'p', 'b-m': 'p', 'b-q': 'q'}.get(t) for t in tags]
    b = [t is not None for t in tags]
    v0 = list(v)
    for i in range(1, n):
        if not v0[i] and texts[i] == '.' and v0[i - 1] in chosen['suffix']:
            v[i] = v0[i - 1]
    v0 = list(v)
    for i in range(n - 1):
        if not v0[i] and texts[i] == '#' and v0[i + 1] in chosen['prefix']:
            v[i], b[i], b[i + 1] = v0[i + 1], True, False
    for x in values:
        if x in chosen['merge']:
            at = [i for i in range(n) if v[i] == x]
            for i, k in zip(at, at[1:]):
                if not any(v[i + 1:k]):
                    for j in range(i + 1, k + 1):
                        v[j], b[j] = x, False
    want = [y and ('b-' if z else 'i-') + y for y, z in zip(v, b)]
    ctx.check(got == want, 'unexpected sub tags', [tags, texts, got, want, repr(chosen)])
    ctx.reach('changed' if got != tags else 'as before')


TEI = 'http://www.tei-c.org/ns/1.0'


def pipeline(ctx):
    """a reference file through the whole pipeline"""
    tmp = tempfile.mkdtemp()
    try:
        segment = ctx.pick('segment', [False, True])
        prefix = ctx.pick('prefix', [False, True])
        remove = ctx.pick('remove', [False, True]) if segment else False
        x = ctx.text('x', 1, 'xy')
        title = 'Title ' + x + 'word of mice'
        with open(os.path.join(tmp, 'doc.references.tei.xml'), 'wb') as f:
            f.write((
                '<TEI xmlns="' + TEI + '"><text><back><listBibl>'
                '<bibl>Other text before this<lb/></bibl>'
                '<bibl>Smith J. et al. 2001. ' + title + '. 12-19. doi: 10.1234/abc<lb/></bibl>'
                '</listBibl></back></text></TEI>').encode('utf-8'))
        with open(os.path.join(tmp, 'doc.xml'), 'wb') as f:
            f.write((
                '<article><back><ref-list><ref><mixed-citation><string-name><surname>Smith</surname> '
                '<given-names>J</given-names></string-name>. <etal>et al.</etal> <year>2001</year>. '
                '<article-title>' + title + '</article-title>. <fpage>12</fpage>-<lpage>19</lpage>. doi: '
                '<pub-id pub-id-type="doi">10.1234/abc</pub-id></mixed-citation></ref></ref-list></back>'
                '</article>').encode('utf-8'))
        args = [
            '--source-base-path=' + tmp, '--output-path=' + tmp + '/out', '--xml-path=' + tmp,
            '--xml-filename-regex=/(.*).references.tei.xml/\\1.xml/', '--fields=reference', '--matcher=simple',
            '--xml-mapping-path=' + REPO + '/config/xml-mapping.conf']
        args += ['--segment-references'] * segment + ['--include-idno-prefix'] * prefix
        args += ['--remove-invalid-references'] * remove
        with scheduled(ctx):
            auto_annotate_reference.main(args, save_main_session=False)
        root = etree.parse(tmp + '/out/doc.references.tei.xml').getroot()
        bibls = list(root.iter('{%s}bibl' % TEI))
        other = [e for e in root.iter() if 'Other text before' in (e.text or '')]
        if segment:
            ctx.check(len(bibls) == 1, 'references', etree.tostring(root))
            ctx.check([etree.QName(e).localname for e in other] == ([] if remove else ['note']),
                      'text outside of references', etree.tostring(root))
        else:
            ctx.check(len(bibls) == 2 and other == [bibls[0]] and len(bibls[0]) <= 1,
                      'references are not kept', etree.tostring(root))
        bibl = bibls[-1]
        parts = [[etree.QName(e).localname, ' '.join(''.join(e.itertext()).split())]
                 for e in bibl if etree.QName(e).localname != 'lb']
        ctx.check(ctx.eq(parts, [
            ['author', 'Smith J. et al.'], ['date', '2001'], ['title', title], ['biblScope', '12-19'],
            ['idno', 'doi: 10.1234/abc' if prefix else '10.1234/abc']]), 'unexpected parts', parts)
        ctx.reach('segmented' if segment else 'kept')
    finally:
        shutil.rmtree(tmp)


TEXT = 'dOi:1. '
QUICK_PIECES = [
    # names and et al.
    ([['author', 'editor'], ['?', '.', ' '], ['etal', 'author'], ['?', ', '], ['etal', 'editor', 'volume']], '., ', 1, False),
    ([['author', 'volume', '.'], ['?'], ['author', 'year', ' ']], '.a ', 2, False),
    # pages and issues
    ([['fpage', 'page', 'issue'], ['-', '?'], ['lpage', 'issue', 'volume'], [' '], ['page', 'issue']], '-, ', 1, False),
    # identifiers
    ([['volume', ' '], ['?'], ['doi', 'pmid']], TEXT, 4, False),
    ([['?'], ['doi', 'pmid', 'isbn']], 'DoI_: é', 3, False),
    ([['doi', 'volume'], [' doi: ', ' DOI ', ' xdoi:', ' Doi : ', ' doi  : ', ' pmid:', 'doi', ' Pii : ', '. a pMid : '], ['doi', 'pmid', 'pii', 'issn', 'volume'],
      [' doi:', '. ', ' '], ['doi', 'author']], '.', 1, False),
    ([['?'], ['pii', 'issn', 'pmcid', 'arxiv']], 'PiI: ', 4, False),
    # several references and lines
    ([['author', 'doi'], ['. ', ' doi: '], ['etal', 'doi', 'author'], [' ', '.'], ['author', 'fpage', 'etal']], '.', 1, True),
]


def shapes_reference(tier):
    out = []
    for pieces, alphabet, n, between in QUICK_PIECES:
        out.append({'pieces': pieces, 'alphabet': alphabet, 'n': n if tier == 'quick' else n + 1, 'between': between})
    return out


HARNESSES = [
    Harness('extend', extend, lambda tier: [
        {'n': n, 'prefixed': p} for n, p in ((3, True), (4, True), (5, True), (5, False), (6, False))
        ] + ([] if tier == 'quick' else [{'n': 6, 'prefixed': True}, {'n': 7, 'prefixed': False}]),
            reach=['extended', 'as before']),
    Harness('line', line, lambda tier: [
        {'n': n, 'm': m} for n, m in (((1, 3), (2, 2)) if tier == 'quick' else ((1, 4), (2, 3), (3, 2)))],
            reach=['extended', 'as before']),
    Harness('reference', reference, shapes_reference, reach=['changed', 'as before']),
    Harness('custom', custom, lambda tier: [{'n': n} for n in ((4,) if tier == 'quick' else (4, 5))],
            reach=['changed', 'as before']),
    Harness('pipeline', pipeline, lambda tier: [{}], reach=['segmented', 'kept']),
]
BOUNDS = (
    'lines of 3-6 (thorough 7) words with any well-formed sequence of tags of three fields, every '
    'combination of the two settings per field; documents of 1-2 (3) lines of 2-3 (2-4) values or other '
    'words, annotated with and without extending; references of 2-5 parts of 11 kinds with 1-4 (2-5) '
    'symbolic characters between them, on one or two lines, one or two references; 4 (5) words with every '
    'combination of the settings of the reference annotator; one reference file through the whole pipeline'
)
OUTSIDE = (
    'a line starting with untagged words before the continuation of a value of the line before (the '
    'matching annotator tags all words within a value); sub tags starting with an inside tag; longer lines '
    'and references; other regular expressions for the names of identifiers than the configured ones'
)
ASSUMPTIONS = []
