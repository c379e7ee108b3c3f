"""C13: post-processing steps change exactly what they say."""
from sciencebeam_trainer_grobid_tools.annotation.replace_tags_annotator import (
    ReplaceTagsAnnotatorConfig,
    ReplaceTagsPostProcessingAnnotator
)
from sciencebeam_trainer_grobid_tools.annotation.merge_group_tags_annotator import (
    MergeGroupTagsAnnotatorConfig,
    MergeGroupTagsPostProcessingAnnotator
)
from sciencebeam_trainer_grobid_tools.annotation.expand_to_untagged_lines_annotator import (
    ExpandToUntaggedLinesAnnotatorConfig,
    ExpandToPreviousUntaggedLinesPostProcessingAnnotator,
    ExpandToFollowingUntaggedLinesPostProcessingAnnotator
)
from sciencebeam_trainer_grobid_tools.annotation.remove_untagged_annotator import (
    RemoveUntaggedPostProcessingAnnotator
)
from sciencebeam_trainer_grobid_tools.annotation.sub_tag_annotator import SubTagOnlyAnnotator
from sciencebeam_trainer_grobid_tools.annotation.simple_matching_annotator import (
    SimpleSimpleMatchingConfig
)
from sciencebeam_trainer_grobid_tools.annotation.target_annotation import TargetAnnotation

from sx.harness import Harness
from harness.teilib import document, text_of, flatten
from harness.c03_preserve import _source, _tokens, _strip, WORDS

MAPPING = {
    '': 'note[@type="other"]',
    'title': 'docTitle/titlePart',
    'abstract': 'div[@type="abstract"]',
    'figure': 'figure',
    'item': 'list/item',
    'list': 'list',
}


def _doc(ctx, n, kinds, own, breaks):
    root, existing, lines = _source(ctx, n, kinds, breaks)
    doc = document(root, tag_to_tei_path_mapping=MAPPING, container_node_path='text/front')
    tokens = _tokens(doc)
    for i in range(n):
        t = ctx.choice('own%d' % i, own) if own else None
        if t is not None:
            doc.set_tag(tokens[i], t)
    tags = [doc.get_tag_or_preserved_tag(t) or None for t in tokens]
    return doc, tokens, tags, lines


def _compare(ctx, doc, tokens, want, before, label):
    now = _tokens(doc)
    ctx.check(len(now) == len(tokens) and all(a is b for a, b in zip(now, tokens)),
              'tokens added or removed')
    for i, t in enumerate(tokens):
        got = doc.get_tag_or_preserved_tag(t)
        ctx.check(ctx.eq(got or None, want[i]), label, [i, before, got, want[i]])
    ctx.observe('tags', [doc.get_tag_or_preserved_tag(t) for t in tokens])


REPLACE = {'title': None, 'abstract': 'figure', 'figure': 'abstract'}


def _prefix(tag):
    return tag[:2] if tag and tag[:2] in ('b-', 'i-') else ''


def h_replace(ctx, n, kinds, own, breaks, nonemap):
    doc, tokens, tags, lines = _doc(ctx, n, kinds, own, breaks)
    table = {'title': None} if nonemap else REPLACE
    text = text_of(doc.root)
    result = ReplaceTagsPostProcessingAnnotator(
        ReplaceTagsAnnotatorConfig(replaced_tag_by_tag=table)).annotate(doc)
    ctx.check(result is doc, 'annotator does not return the document')
    want = []
    for t in tags:
        v = _strip(t)
        if v is not None and v in table:
            want.append(_prefix(t) + table[v] if table[v] else None)
            ctx.reach('replaced')
        else:
            want.append(t)
            if v:
                ctx.reach('other')
    _compare(ctx, doc, tokens, want, tags, 'replaced the wrong tag or with the wrong tag')
    ctx.check(ctx.eq(text_of(doc.root), text), 'text changed')


def h_merge(ctx, n, kinds, own, breaks):
    doc, tokens, tags, lines = _doc(ctx, n, kinds, own, breaks)
    result = MergeGroupTagsPostProcessingAnnotator(MergeGroupTagsAnnotatorConfig(
        get_group_tag_for_tag_fn=lambda v: 'list' if v == 'item' else None)).annotate(doc)
    ctx.check(result is doc, 'annotator does not return the document')
    want = []
    group = None
    for t in tags:
        v = _strip(t)
        if v is not None:
            group = 'list' if v == 'item' else None
            want.append(t)
        elif group is not None:
            want.append('i-' + group)
            ctx.reach('grouped')
        else:
            want.append(None)
            ctx.reach('left')
    _compare(ctx, doc, tokens, want, tags, 'group tag missing or misplaced')


def h_merge_sub(ctx, n, main, sub):
    root, _, _ = _source(ctx, n, [None], [False, True])
    doc = document(root, tag_to_tei_path_mapping=MAPPING, container_node_path='text/front')
    tokens = _tokens(doc)
    mains = [ctx.choice('main%d' % i, main) for i in range(n)]
    subs = [ctx.choice('sub%d' % i, sub) for i in range(n)]
    for i in range(n):
        doc.set_tag_only(tokens[i], mains[i])
        doc.set_sub_tag_only(tokens[i], subs[i])
    MergeGroupTagsPostProcessingAnnotator(MergeGroupTagsAnnotatorConfig(
        get_group_tag_for_tag_fn=lambda v: 'address' if 'city' in v else None,
        tag_level=2)).annotate(doc)
    group = False
    for i, t in enumerate(tokens):
        want = subs[i]
        if mains[i] is not None:
            if _prefix(mains[i]) == 'b-':
                # another element
                group = False
            if subs[i] is not None:
                group = _strip(subs[i]) == 'city'
            elif group:
                want = 'i-address'
                ctx.reach('grouped')
            else:
                ctx.reach('left')
        ctx.check(ctx.eq(doc.get_sub_tag(t), want), 'sub group tag missing or misplaced',
                  [i, mains, subs, doc.get_sub_tag(t), want])
        ctx.check(ctx.eq(doc.get_tag(t), mains[i]), 'main tag changed')


def h_expand(ctx, n, kinds, own, breaks, previous):
    doc, tokens, tags, lines = _doc(ctx, n, kinds, own, breaks)
    cls = (ExpandToPreviousUntaggedLinesPostProcessingAnnotator if previous
           else ExpandToFollowingUntaggedLinesPostProcessingAnnotator)
    result = cls(ExpandToUntaggedLinesAnnotatorConfig(enabled_tags={'figure'})).annotate(doc)
    ctx.check(result is doc, 'annotator does not return the document')
    vals = [_strip(t) for t in tags]
    want = list(tags)
    for i in range(n):
        if vals[i] is not None:
            continue
        if previous:
            near = [v for v in vals[i + 1:] if v is not None][:1]
        else:
            near = [v for v in reversed(vals[:i]) if v is not None][:1]
        if near and near[0] == 'figure':
            start = previous and (i == 0 or vals[i - 1] is not None)
            want[i] = 'b-figure' if start else 'i-figure'
            ctx.reach('expanded')
            if previous and i + 1 < n and vals[i + 1] is not None:
                # the element now starts at the expanded token
                want[i + 1] = 'i-figure'
        else:
            ctx.reach('left')
    _compare(ctx, doc, tokens, want, tags, 'expanded to the wrong tokens')


def h_remove(ctx, n, own, breaks):
    doc, tokens, tags, lines = _doc(ctx, n, [None], own, breaks)
    before = [(i, t) for i, t in enumerate(tokens)]
    result = RemoveUntaggedPostProcessingAnnotator().annotate(doc)
    ctx.check(result is doc, 'annotator does not return the document')
    kept = [i for i in range(n) if tags[i] is not None]
    now = _tokens(doc)
    ctx.check([t is tokens[i] for i, t in zip(kept, now)] == [True] * len(kept)
              and len(now) == len(kept), 'removed a tagged token or kept an untagged one',
              [tags, [doc.get_text(t) for t in now]])
    for i, t in zip(kept, now):
        ctx.check(ctx.eq(doc.get_tag(t), tags[i]), 'tag changed')
    flat = flatten(doc.root.find('text/front'))
    text = ''.join('|' if s is None else s for s, _ in flat)
    ctx.check([c for c in text if not c.isspace() and c != '|'] == [WORDS[i] for i in kept],
              'written words are not the tagged ones', [text])
    for a, b in zip(kept, kept[1:]):
        between = text[text.index(WORDS[a]) + 1:text.index(WORDS[b])]
        ctx.check(between != '', 'two words were joined', [text])
        ctx.check(('|' in between) == (lines[a] != lines[b]),
                  'line structure of the kept words changed', [text, lines])
    if len(kept) not in (0, n):
        ctx.reach('some')


def h_sub_only(ctx, n, kinds, own, sub, preserve_sub):
    doc, tokens, tags, lines = _doc(ctx, n, kinds, own, [False, True])
    every = [
        t for page in doc.get_pages() for line in doc.get_lines_of_page(page)
        for t in doc.get_all_tokens_of_line(line)
    ]
    all_before = [doc.get_tag_or_preserved_tag(t) for t in every]
    targets = [TargetAnnotation(
        'A b', 'figure', sub_annotations=[TargetAnnotation('b', 'figure-label')])]
    config = SimpleSimpleMatchingConfig(
        threshold=0.8, lookahead_sequence_count=10, use_sub_annotations=True,
        preserve_sub_annotations=preserve_sub, extend_to_line_enabled=False)
    text = text_of(doc.root)
    result = SubTagOnlyAnnotator(targets, config=config).annotate(doc)
    ctx.check(result is doc, 'annotator does not return the document')
    _compare(ctx, doc, tokens, tags, tags, 'main tag changed by annotating sub tags only')
    ctx.check(ctx.eq([doc.get_tag_or_preserved_tag(t) for t in every], all_before),
              'main tag of a blank changed')
    ctx.check(ctx.eq(text_of(doc.root), text), 'text changed')
    subs = [_strip(doc.get_tag_or_preserved_tag(t, level=2)) for t in tokens]
    ctx.check(subs[:2] == [None, 'figure-label'] and not any(subs[2:]), 'sub tags', [subs, tags])
    ctx.reach('done')


OWN = [None, 'b-title', 'i-title', 'b-figure', 'i-abstract', 'figure']
LIST = [None, 'b-item', 'i-item', 'b-list', 'b-title']
FIG = [None, 'b-figure', 'i-figure', 'b-title']
B = [False, True]


def shapes_replace(tier):
    n = 3 if tier == 'quick' else 4
    return [
        {'n': n, 'kinds': [None], 'own': OWN, 'breaks': B, 'nonemap': False},
        {'n': n, 'kinds': [None, 'title', 'abstract'], 'own': None, 'breaks': B, 'nonemap': True},
        {'n': 2, 'kinds': [None, 'title', 'abstract'], 'own': OWN[:4], 'breaks': B,
         'nonemap': True},
        {'n': n, 'kinds': [None, 'title', 'abstract'], 'own': None, 'breaks': B,
         'nonemap': False},
    ]


def shapes_merge(tier):
    n = 4 if tier == 'quick' else 5
    return [
        {'n': 4, 'kinds': [None], 'own': LIST, 'breaks': B if tier != 'quick' else [False]},
        {'n': 3, 'kinds': [None, 'item', 'title'], 'own': [None, 'b-item'], 'breaks': B},
    ]


def shapes_merge_sub(tier):
    return [{'n': 3 if tier == 'quick' else 4, 'main': [None, 'b-aff', 'i-aff'],
             'sub': [None, 'b-city', 'i-city', 'b-dept']}]


def shapes_expand(tier):
    return [
        {'n': 4, 'kinds': [None], 'own': FIG, 'breaks': B if tier != 'quick' else [False],
         'previous': p} for p in (True, False)
    ] + [
        {'n': 3, 'kinds': [None, 'figure', 'title'], 'own': [None, 'b-title'], 'breaks': B,
         'previous': p} for p in (True, False)
    ]


def shapes_remove(tier):
    return [{'n': 4, 'own': [None, 'b-title', 'i-title'], 'breaks': B}]


def shapes_sub_only(tier):
    out = []
    for p in (True, False):
        out.append({'n': 3, 'kinds': [None, 'figure'], 'own': [None, 'b-figure', 'i-title'],
                    'sub': None, 'preserve_sub': p})
    return out


BOUNDS = (
    'documents of 3-4 words over every line layout, every combination of symbolic own tags and '
    'existing element tags per word, one fixed replacement / group / enabled-tag table each; sub tag '
    'only annotation with one target of two words'
)
OUTSIDE = 'longer documents and other tables'
ASSUMPTIONS = []
HARNESSES = [
    Harness('replace', h_replace, shapes_replace, reach=('replaced', 'other')),
    Harness('merge', h_merge, shapes_merge, reach=('grouped', 'left')),
    Harness('merge_sub', h_merge_sub, shapes_merge_sub, reach=('grouped', 'left')),
    Harness('expand', h_expand, shapes_expand, reach=('expanded', 'left')),
    Harness('remove', h_remove, shapes_remove, reach=('some',)),
    Harness('sub_only', h_sub_only, shapes_sub_only, reach=('done',)),
]
