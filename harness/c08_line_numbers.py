"""C08: what the line number annotator tags, and that its options reach it."""
import os

from lxml import etree

from sciencebeam_trainer_grobid_tools.core.structured_document import (
    SimpleStructuredDocument, SimplePage, SimpleLine, SimpleToken
)
from sciencebeam_trainer_grobid_tools.annotation.line_number_annotator import (
    TextLineNumberAnnotator,
    TextLineNumberAnnotatorConfig
)
from sciencebeam_trainer_grobid_tools.auto_annotate_utils import get_default_annotators
from sciencebeam_trainer_grobid_tools import auto_annotate_header, auto_annotate_segmentation

from sx.harness import Harness
from harness.teilib import document, text_of

REPO = os.environ.get('VERIF_REPO', '/repo')
DIGITS = '0123456789'


def _is_number(s):
    try:
        return int(s) > 0
    except ValueError:
        return False


def _check(ctx, numbers, tagged, min_count, max_gap, ratio, total):
    """numbers: value or None per first token; tagged: which of them were tagged"""
    seq = [i for i in range(len(numbers)) if tagged[i]]
    for i in seq:
        ctx.check(numbers[i] is not None, 'tagged a token that is not a positive number', [i])
    for a, b in zip(seq, seq[1:]):
        ctx.check(numbers[a] < numbers[b], 'tagged line numbers do not increase down the page',
                  [a, b, numbers])
    if seq:
        ctx.check(len(seq) >= ratio * total, 'tagged although line numbers are too rare',
                  [len(seq), total, ratio])
        run = 1
        for a, b in zip(seq, seq[1:]):
            if numbers[b] - numbers[a] <= max_gap + 1:
                run += 1
            else:
                ctx.check(run >= min_count, 'tagged a run shorter than the minimum',
                          [run, min_count, numbers, max_gap])
                run = 1
        ctx.check(run >= min_count, 'tagged a run shorter than the minimum', [run, min_count])
        ctx.reach('tagged')
    # a page whose only numbers are one plain run must be tagged completely
    nums = [i for i in range(len(numbers)) if numbers[i] is not None]
    plain = len(nums) > 0 and len(nums) >= min_count and len(nums) >= ratio * total
    if plain:
        for a, b in zip(nums, nums[1:]):
            d = numbers[b] - numbers[a]
            if d < 1 or d > max_gap + 1:
                plain = False
                break
    if plain:
        ctx.check(seq == nums, 'a plain run of line numbers was not tagged',
                  [numbers, seq, min_count, max_gap, ratio])
        ctx.reach('complete')
    if not seq:
        ctx.reach('nothing')


def _config(ctx, mins, gaps, ratios):
    return (
        ctx.pick('min', mins), ctx.pick('gap', gaps), ctx.pick('ratio', ratios)
    )


def h_annotate(ctx, chars, alphabet, rest, mins, gaps, ratios, existing):
    n = len(chars)
    texts = [ctx.text('t%d' % i, k, alphabet) if k else '' for i, k in enumerate(chars)]
    root = etree.Element('tei')
    front = etree.SubElement(etree.SubElement(root, 'text'), 'front')
    last = None
    for i in range(n):
        s = texts[i] + rest[i]
        if last is None:
            front.text = s
        else:
            last.tail = s
        last = etree.SubElement(front, 'lb')
    doc = document(root, container_node_path='text/front', tag_to_tei_path_mapping={'': ''})
    lines = [line for page in doc.get_pages() for line in doc.get_lines_of_page(page)]
    firsts, others = [], []
    for line in lines:
        tokens = doc.get_tokens_of_line(line)
        if tokens:
            firsts.append(tokens[0])
            others.extend(tokens[1:])
    for k, t in enumerate(others):
        doc.set_tag(t, existing)
    before = text_of(doc.root)
    min_count, max_gap, ratio = _config(ctx, mins, gaps, ratios)
    result = TextLineNumberAnnotator(TextLineNumberAnnotatorConfig(
        tag='no', min_line_number=min_count, max_line_number_gap=max_gap,
        line_number_ratio_threshold=ratio
    )).annotate(doc)
    ctx.check(result is doc, 'annotator does not return the document')
    for t in others:
        ctx.check(doc.get_tag(t) == existing, 'changed a token that is not first on its line')
    tagged = []
    for t in firsts:
        tag = doc.get_tag(t)
        ctx.check(tag is None or tag == 'no', 'unexpected tag', [tag])
        tagged.append(tag == 'no')
    numbers = []
    for t in firsts:
        s = doc.get_text(t)
        numbers.append(int(s) if _is_number(s) else None)
    _check(ctx, numbers, tagged, min_count, max_gap, ratio, len(firsts))
    ctx.check(ctx.eq(text_of(doc.root), before), 'text changed')
    ctx.observe('tagged', tagged)


def h_pages(ctx, n, alphabet):
    """pages are judged on their own"""
    pages = []
    for p in range(2):
        toks = [SimpleToken(ctx.text('p%d_%d' % (p, i), 1, alphabet)) for i in range(n)]
        pages.append(SimplePage([SimpleLine([t, SimpleToken('w')]) for t in toks]))
    doc = SimpleStructuredDocument(pages)
    min_count, max_gap, ratio = _config(ctx, [1, 2], [0], [0.1, 1.0])
    TextLineNumberAnnotator(TextLineNumberAnnotatorConfig(
        tag='no', min_line_number=min_count, max_line_number_gap=max_gap,
        line_number_ratio_threshold=ratio
    )).annotate(doc)
    for page in pages:
        firsts = [line.tokens[0] for line in page.lines]
        numbers = [int(t.get_text()) if _is_number(t.get_text()) else None for t in firsts]
        _check(ctx, numbers, [t.get_tag() == 'no' for t in firsts], min_count, max_gap, ratio, n)


ARGS = [
    '--source-base-path=/none', '--output-path=/none', '--xml-path=/none',
    '--xml-filename-regex=/(.*)/\\1/', '--num_workers=1',
    '--xml-mapping-path=%s/config/xml-mapping.conf' % REPO
]
PIPELINES = {'header': auto_annotate_header, 'segmentation': auto_annotate_segmentation}


def h_options(ctx, pipeline):
    """the command line options decide, for a page numbered 1, 1+step, ..."""
    use = ctx.pick('use', [True, False])
    min_count = ctx.pick('min', [None, 2, 3, 4])
    max_gap = ctx.pick('gap', [None, 0, 1, 11])
    ratio = ctx.pick('ratio', [None, 0.25, 0.5, 1.0])
    step = ctx.pick('step', [1, 2, 11, 12, 13])
    fillers = ctx.pick('fillers', [0, 3])
    count = ctx.pick('count', [3, 10])
    args = list(ARGS)
    if pipeline == 'segmentation':
        args.append('--segmentation-config=%s/config/segmentation.conf' % REPO)
    args.append('--use-line-number-annotator' if use else '--no-line-number-annotator')
    if min_count is not None:
        args.append('--min-line-numbers-per-page=%d' % min_count)
    if max_gap is not None:
        args.append('--max-line-number-gap=%d' % max_gap)
    if ratio is not None:
        args.append('--min-line-number-ratio=%s' % ratio)
    mod = PIPELINES[pipeline]
    factory = mod.AnnotatePipelineFactory(mod.parse_args(args))
    annotators = get_default_annotators(
        None, {}, annotator_config=factory.get_annotator_config())
    lines = [SimpleLine([SimpleToken(str(1 + i * step)), SimpleToken('w')]) for i in range(count)]
    lines += [SimpleLine([SimpleToken('w')]) for i in range(fillers)]
    doc = SimpleStructuredDocument(SimplePage(lines))
    for a in annotators:
        doc = a.annotate(doc)
    tagged = [line.tokens[0].get_tag() == 'line_no' for line in lines]
    want = (
        use and count >= (10 if min_count is None else min_count)
        and step <= (10 if max_gap is None else max_gap) + 1
        and count >= (0.1 if ratio is None else ratio) * (count + fillers)
    )
    ctx.check(all(tagged[:count]) == want and any(tagged[:count]) == want,
              'line number options do not decide', [args[-4:], step, count, fillers, tagged])
    ctx.check(not any(tagged[count:]), 'tagged a word')
    ctx.reach('on' if want else 'off')


def shapes_annotate(tier):
    big = tier != 'quick'
    x = DIGITS + 'x'
    a = {'alphabet': x, 'mins': [1, 2, 3], 'gaps': [0, 2], 'ratios': [0.1, 0.5, 0.75, 1.0],
         'existing': 'title'}
    out = [
        dict(a, chars=[1, 1, 1], rest=['', ' w', ' 7']),
        dict(a, chars=[1, 1, 0, 1], rest=['', '', '', ''], ratios=[0.34, 1.0]),
        dict(a, chars=[2, 2], rest=['', ' w'], mins=[1, 2], ratios=[0.5, 1.0]),
        dict(a, chars=[1, 1, 1, 1], rest=['', '', '', ''], alphabet='12345x', mins=[2, 3],
             gaps=[0, 1], ratios=[0.5, 0.75]),
        dict(a, chars=[1], rest=[''], alphabet=x + '\u00b2\u0663-.\u00bd'),
    ]
    if big:
        out.append(dict(a, chars=[1, 1, 1, 1], rest=['', ' w', '', ''], mins=[2, 3], gaps=[0, 2]))
        out.append(dict(a, chars=[2, 2, 2], rest=['', ' w', ''], mins=[1, 2, 3], gaps=[0, 10],
                        ratios=[0.5]))
    return out


def shapes_pages(tier):
    return [{'n': 2, 'alphabet': '0123x'}]


def shapes_options(tier):
    return [{'pipeline': p} for p in PIPELINES]


BOUNDS = (
    'pages of up to 4 lines whose first tokens are symbolic (digits and letters, 1-2 characters), '
    'minimum count 1-3, gap 0-2 (thorough 0-10), ratios 0.1-1.0; two-page documents of 2 lines; '
    'options: every combination of 4 values per option through two command lines'
)
OUTSIDE = 'longer pages and larger numbers; which of several competing runs is preferred'
ASSUMPTIONS = ['argument parsing by the real argparse, xml mapping files read from /repo/config']
HARNESSES = [
    Harness('annotate', h_annotate, shapes_annotate, reach=('tagged', 'complete', 'nothing')),
    Harness('pages', h_pages, shapes_pages, reach=('tagged', 'complete', 'nothing')),
    Harness('options', h_options, shapes_options, reach=('on', 'off')),
]
