"""C14: list/map options, mapping selection and overrides, file name substitution."""
import os
import shutil
import tempfile

from sciencebeam_trainer_grobid_tools.utils.string import (
    comma_separated_str_to_list,
    plus_minus_comma_separated_str_to_list,
    plus_minus_comma_separated_str_to_set,
    parse_dict
)
from sciencebeam_trainer_grobid_tools.utils.regex import regex_change_name
from sciencebeam_trainer_grobid_tools.auto_annotate_utils import (
    get_filtered_xml_mapping_and_fields,
    get_xml_mapping_with_overrides,
    get_xml_mapping_and_fields
)
from sciencebeam_trainer_grobid_tools import (
    auto_annotate_affiliation_address, auto_annotate_reference, auto_annotate_fulltext,
    auto_annotate_header, auto_annotate_segmentation, auto_annotate_figure, auto_annotate_table,
    auto_annotate_reference_segmenter
)

from sx.harness import Harness

REPO = os.environ.get('VERIF_REPO', '/repo')


def _split(s, sep):
    """reference splitting"""
    out = ['']
    for c in s:
        if c == sep:
            out.append('')
        else:
            out[-1] = out[-1] + c
    return out


def _trim(s):
    chars = list(s)
    while chars and chars[0].isspace():
        chars = chars[1:]
    while chars and chars[-1].isspace():
        chars = chars[:-1]
    return ''.join(chars)


def _items(s):
    if not _trim(s):
        return []
    return [_trim(x) for x in _split(s, ',')]


def h_list(ctx, n, alphabet):
    s = ctx.text('s', n, alphabet)
    got = comma_separated_str_to_list(s)
    ctx.check(ctx.eq(got, _items(s)), 'list option', [s, got])
    ctx.reach('empty' if not got else 'items')
    ctx.observe('got', got)


def h_plus_minus(ctx, n, alphabet, default, as_set):
    s = ctx.text('s', n, alphabet)
    items = _items(s)
    if not items or not items[0] or not (items[0][0] == '+' or items[0][0] == '-'):
        want = items
        ctx.reach('replace')
    else:
        want = list(default)
        mode = None
        for item in items:
            if not item:
                continue
            if item[0] == '+' or item[0] == '-':
                mode = item[0]
                item = item[1:]
            if mode == '+':
                want.append(item)
            else:
                # removing what is not there is refused; not part of this claim
                ctx.assume(ctx.any([ctx.eq(item, w) for w in want]))
                for k, w in enumerate(want):
                    if item == w:
                        want = want[:k] + want[k + 1:]
                        break
                ctx.reach('minus')
            ctx.reach('modified')
    before = list(default)
    if as_set:
        got = plus_minus_comma_separated_str_to_set(s, set(default))
        for w in want:
            ctx.check(ctx.any([ctx.eq(w, g) for g in got]), 'value missing', [s, sorted(got), w])
        for g in got:
            ctx.check(ctx.any([ctx.eq(w, g) for w in want]), 'value that was not selected',
                      [s, sorted(got), want])
    else:
        got = plus_minus_comma_separated_str_to_list(s, default)
        ctx.check(ctx.eq(got, want), 'plus/minus option', [s, got, want])
        ctx.check(default == before, 'default list modified')


def h_dict(ctx, n, alphabet):
    s = ctx.text('s', n, alphabet)
    want = {}
    for fragment in (_split(s, '|') if len(s) else []):
        parts = _split(fragment, '=')
        if len(parts) < 2:
            try:
                parse_dict(s)
            except ValueError:
                ctx.reach('refused')
                return
            ctx.fail('entry without value accepted', [s])
        value = parts[1]
        for p in parts[2:]:
            value = value + '=' + p
        key = _trim(parts[0])
        want[key] = _trim(value)
    got = parse_dict(s)
    ctx.check(len(got) == len(want), 'map option: number of entries', [s])
    for k, v in want.items():
        ctx.check(ctx.any([ctx.and_(ctx.eq(k, gk), ctx.eq(v, gv)) for gk, gv in got.items()]),
                  'map option: entry', [s, k, v])
    ctx.reach('parsed')


KEYS = ['a', 'a.x', 'a.sub.p', 'a.sub.p.extract-regex', 'a.sub.q', 'ab', 'ab.sub.p', 'b']


def _mapping(ctx, keys):
    out = {}
    for k in keys:
        if ctx.pick('has_%s' % k, [True, False]):
            out[k] = 'v_' + k
    return out


def _expected_keys(mapping, fields, sub_fields):
    out = {}
    for k, v in mapping.items():
        parts = k.split('.')
        if fields and parts[0] not in fields:
            continue
        if len(parts) > 2 and parts[1] == 'sub' and sub_fields and parts[2] not in sub_fields:
            continue
        out[k] = v
    return out


def h_mapping(ctx, keys):
    m = _mapping(ctx, keys)
    fields = {f for f in ('a', 'ab', 'b') if ctx.pick('field_%s' % f, [False, True])}
    subs = {f for f in ('p', 'q') if ctx.pick('sub_%s' % f, [False, True])}
    over = None
    if ctx.pick('override', [False, True]):
        over = {'a': 'new', 'c': 'added', 'b': ''}
    source = {'article': m, 'other': {'a': 'o'}}
    copy = {k: dict(v) for k, v in source.items()}
    overridden = get_xml_mapping_with_overrides(source, over)
    got, got_fields = get_filtered_xml_mapping_and_fields(
        overridden, fields or None, sub_fields=subs or None)
    ctx.check(source == copy, 'mapping passed in was modified')
    want = {}
    for k, v in source.items():
        want[k] = _expected_keys(dict(v, **(over or {})), fields, subs)
    ctx.check(got == want, 'selected settings', [got, want])
    want_fields = fields or {
        k for v in source.values() for k in dict(v, **(over or {})) if '.' not in k
    }
    ctx.check(set(got_fields) == want_fields, 'selected fields', [sorted(got_fields)])
    ctx.reach('filtered')


def h_mapping_file(ctx, keys):
    """the same through a mapping file"""
    m = _mapping(ctx, keys)
    fields = {f for f in ('a', 'ab') if ctx.pick('field_%s' % f, [False, True])}
    subs = {f for f in ('p',) if ctx.pick('sub_%s' % f, [False, True])}
    over = ctx.pick('override', [None, 'a=front/x[@y="1"]|c.sub.p=z'])
    d = tempfile.mkdtemp(prefix='sx-c14-')
    try:
        path = os.path.join(d, 'm.conf')
        with open(path, 'w') as f:
            f.write('[article]\n' + ''.join('%s = %s\n' % kv for kv in m.items()))
        got, got_fields = get_xml_mapping_and_fields(
            path, fields, sub_fields=subs,
            xml_mapping_overrides=parse_dict(over) if over else None)
    finally:
        shutil.rmtree(d)
    full = dict(m, **({'a': 'front/x[@y="1"]', 'c.sub.p': 'z'} if over else {}))
    ctx.check(got == {'article': _expected_keys(full, fields, subs)}, 'selected settings', [got])
    ctx.reach('file')


def h_rename(ctx, n, alphabet, pattern, expected):
    """file name substitution as in the documentation"""
    name = ctx.text('name', n, alphabet) + '.header.tei.xml.gz'
    got = regex_change_name(name, pattern)
    want = name[:n] + expected
    ctx.check(ctx.eq(got, want), 'substituted file name', [name, got, want])
    ctx.reach('renamed')


PIPELINES = {
    'header': auto_annotate_header, 'segmentation': auto_annotate_segmentation,
    'fulltext': auto_annotate_fulltext, 'figure': auto_annotate_figure,
    'table': auto_annotate_table, 'reference': auto_annotate_reference,
    'refseg': auto_annotate_reference_segmenter, 'affiliation': auto_annotate_affiliation_address
}
TEI = '{http://www.tei-c.org/ns/1.0}'


def h_pipeline(ctx, pipeline):
    """a selected field reaches the mapping of the pipeline, and every tag has an element path"""
    mod = PIPELINES[pipeline]
    args = [
        '--source-base-path=/none', '--output-path=/none', '--xml-path=/none',
        '--xml-filename-regex=/(.*)/\\1/', '--num_workers=1',
        '--xml-mapping-path=%s/config/xml-mapping.conf' % REPO
    ]
    if pipeline == 'segmentation':
        args.append('--segmentation-config=%s/config/segmentation.conf' % REPO)
    base_args = mod.parse_args(args)
    base = mod.AnnotatePipelineFactory(base_args)
    first = sorted(base.fields)[0]
    default = set(_items(','.join(sorted(base_args.fields or []))))
    mode = ctx.pick('mode', ['default', 'plus', 'minus', 'exact'])
    if mode == 'plus':
        args.append('--fields=+journal')
        want = default | {'journal'}
    elif mode == 'minus':
        ctx.assume(first in default and len(default) > 1)
        args.append('--fields=-%s' % first)
        want = default - {first}
    elif mode == 'exact':
        args.append('--fields=journal, %s' % first)
        want = {'journal', first}
    else:
        want = set(base.fields)
    over = ctx.pick('override', [False, True])
    if over:
        args.append('--xml-mapping-overrides=journal=x/y|%s=z[@a="b"]' % first)
    no_preserve = ctx.pick('no_preserve', [False, True])
    if no_preserve:
        args.append('--no-preserve-tags')
    f = mod.AnnotatePipelineFactory(mod.parse_args(args))
    ctx.check(set(f.fields) == want, 'fields of the pipeline', [mode, sorted(f.fields)])
    for section, m in f.xml_mapping.items():
        for k in m:
            ctx.check(k.split('.')[0] in want, 'setting of a field that was not selected', [k])
    m = f.xml_mapping['article']
    if over:
        if 'journal' in want:
            ctx.check(m['journal'] == 'x/y', 'override ignored')
        if first in want:
            ctx.check(m[first] == 'z[@a="b"]', 'override ignored')
    else:
        if 'journal' in want:
            ctx.check('journal-title' in m['journal'], 'setting changed')
    ctx.check(f.preserve_tags == (not no_preserve), 'preserve option ignored')
    for tag, path in f.tag_to_tei_path_mapping.items():
        ctx.check('tei:' not in path, 'namespace prefix not resolved', [tag, path])
    ctx.reach('pipeline')


ALPHA = 'ab, \t+-='


def shapes_list(tier):
    return [{'n': n, 'alphabet': ALPHA} for n in range(0, 6 if tier == 'quick' else 7)]


def shapes_pm(tier):
    top = 5 if tier == 'quick' else 6
    return [
        {'n': n, 'alphabet': 'ab,+- ', 'default': ['a', 'b'], 'as_set': s}
        for n in range(1, top) for s in (False, True)
    ] + [{'n': 4, 'alphabet': 'ab,+-', 'default': [], 'as_set': True}]


def shapes_dict(tier):
    return [{'n': n, 'alphabet': 'ab|= '} for n in range(0, 6 if tier == 'quick' else 7)]


BOUNDS = (
    'option strings of up to 5 symbolic characters (thorough 6) over separators, blanks, signs and '
    'letters; mappings over 8 setting keys of 3 fields with every subset of settings, fields and sub '
    'fields; file names with up to 4 symbolic characters; the 8 pipelines with every combination of '
    'field selection, override and preserve option'
)
OUTSIDE = 'removing a value that is not in the default list (refused by the parser)'
ASSUMPTIONS = ['argparse and configparser run concretely']
HARNESSES = [
    Harness('list', h_list, shapes_list, reach=('empty', 'items')),
    Harness('plus_minus', h_plus_minus, shapes_pm, reach=('replace', 'modified', 'minus')),
    Harness('dict', h_dict, shapes_dict, reach=('refused', 'parsed')),
    Harness('mapping', h_mapping, lambda t: [{'keys': KEYS}], reach=('filtered',)),
    Harness('mapping_file', h_mapping_file, lambda t: [{'keys': KEYS[:5]}], reach=('file',)),
    Harness('rename', h_rename, lambda t: [
        {'n': 4, 'alphabet': 'ab.-1_', 'pattern': '/(.*).header.tei.xml/\\1.xml/',
         'expected': '.xml.gz'},
        {'n': 3, 'alphabet': 'ab.-1_/', 'pattern': '#\\.header\\.tei\\.xml.*#.nxml#',
         'expected': '.nxml'},
    ], reach=('renamed',)),
    Harness('pipeline', h_pipeline, lambda t: [{'pipeline': p} for p in PIPELINES],
            reach=('pipeline',)),
]
