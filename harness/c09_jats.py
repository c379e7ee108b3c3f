"""C09: fixing a JATS document changes the mark-up of references, never their text, and marks up the
identifiers and titles it finds exactly."""
import argparse
import os
import shutil
import tempfile

from lxml import etree

from sciencebeam_trainer_grobid_tools.fix_jats_xml import (
    fix_reference,
    fix_jats_xml_file,
    FixJatsProcessor,
    XLINK_HREF
)

from sx.harness import Harness
from harness.teilib import build, text_of

QUOTES = '"\u2018\u2019\u201c\u201d'
GEN = 'aS1x. ,;:/()[]\n' + QUOTES
EDGE = 'a1. ,;)]\u201d'
MOVABLE = ('pub-id', 'ext-link')
DIGITS = '0123456789'


def _ref(ctx, spec, alphabet=GEN):
    return build(ctx, ['ref', {'id': 'r1'}, ['mixed-citation', {}] + spec], alphabet=alphabet)


def _others(el):
    """start and end of the elements that are not identifiers or links"""
    out = []
    for c in el.iter():
        if isinstance(c.tag, str) and c.tag not in MOVABLE:
            out.append([c.tag, sorted(c.attrib.items())])
    return out


def _pub_ids(ref, kind=None):
    return [p for p in ref.iter('pub-id') if kind is None or p.get('pub-id-type') == kind]


def _starts(s, prefix):
    return s[:len(prefix)] == prefix


def _check_formats(ctx, ref):
    for p in _pub_ids(ref):
        t, kind = p.text, p.get('pub-id-type')
        if not t or len(p):
            continue
        if kind == 'doi':
            ctx.check(_starts(t, '10.'), 'a DOI does not start with 10.', t)
        if kind == 'pmid':
            ctx.check(ctx.and_(len(t) <= 10, ctx.all(c.isdigit() for c in t)),
                      'a PMID is not a number of up to ten digits', t)
        if kind == 'pmcid':
            ctx.check(ctx.and_(ctx.eq(t[:3].lower(), 'pmc'), len(t) > 3,
                               ctx.all(c.isdigit() for c in t[3:])),
                      'a PMCID is not PMC and digits', t)
        if kind == 'pii':
            ctx.check(ctx.or_(ctx.eq(t[:1], 'S'), ctx.eq(t[:1], 'B')),
                      'a PII does not start with S or B', t)


D = ['pub-id', {'pub-id-type': 'doi'}]
I = ['pub-id', {'pub-id-type': 'pmid'}]
C = ['pub-id', {'pub-id-type': 'pmcid'}]
P = ['pub-id', {'pub-id-type': 'pii'}]
T = ['article-title', {}]
Y = ['year', {}, '=2001']
IT = ['italic', {}, '=it']
URL = 'https://doi.org/'


def L(text, href=None):
    return ['ext-link', {'ext-link-type': 'uri', XLINK_HREF: href or text}, '=' + text]


LAYOUTS = [
    # existing identifiers that are valid, have text around or are no identifier
    ['#1', D + ['#1', '=10.1234/a', '#2'], '#1', Y, '=.'],
    ['=A ', D + ['#2'], '#2', Y, '=.'],
    ['=A ', D + ['#1', IT, '=x'], '#1', Y, '=.'],
    ['=A ', D + ['=10.1234/', IT, '#1'], '#1', Y],
    ['=A ', D + ['=10.1234/ab', '#1', IT], '#1', Y],
    [D, '#1', Y],
    ['#1', D, '#1'],
    ['=' + URL, D, '#1'],
    ['=' + URL, D + ['=10.1234/', IT, '#1'], '#1', Y],
    [Y, '=' + URL + ' ', D + ['#1', '=10.1234/a', '#1'], '#2', Y],
    [Y, '#1', '=doi.org/', '#1', D + ['=10.1234/a', '#1'], '#1'],
    ['=10.1234/x', '#1', D + ['=10.1234/a', '#1'], '#1', D + ['#1']],
    ['=A ', D + ['=10.1234/a PMID', '#2'], '#1'],
    ['=A ', D + ['=10.1234/ab', '#1', '=ab', '#1', '=[pii]'], '#1'],
    ['=A ', D + ['=10.1234/ab', '#1', '=10.1234/a', '#1'], '#1'],
    ['=A', I + ['#2', '=12', '#1'], '#2', Y],
    ['=A', I + ['=PMID', '#1', '=: 12', '#1'], '#1', Y],
    ['=A', C + ['#1', '=PMC1', '#1'], '#2', Y],
    ['=A', C + ['#3'], '#1', Y],
    [Y, P + ['#1'], '#2', Y],
    ['=A', P + ['#1', '=S0968-0004(01)0184X-3', '#1'], '#2', Y],
    ['#1', ['pub-id', {'pub-id-type': 'ARXIV'}, '#1'], '#1'],
    ['#1', ['pub-id', {'pub-id-type': 'PMID'}, '#2'], '#1'],
    # titles
    ['#1', T + ['#3'], '#1', Y],
    ['#1', T + ['#2', IT, '#2'], '#1', Y],
    ['=A', T + ['#1', IT, '=b', IT, '#1'], '#1'],
    ['=A', T + [IT], '#1'],
    ['=A', T + ['=ab', '#1', '=PMC12', '#1'], '#1'],
    ['=A', T + ['=ab', '#1', '=PMC12', IT], '#1'],
    # links
    ['=A', L('http://a.b/http://c.d'), '#2', Y],
    ['=A', L('http://a.b/whttps://c.d'), '#2', Y],
    ['=A', L('https://doi.org/10.1234/a[10.1234/a]'), '#1'],
    ['=A', L('https://doi.org/10.1234/a[10.1234/a]', 'http://x'), '#1'],
    ['=A', ['ext-link', {XLINK_HREF: 'http://a'}, '=http://doi.org/x', '#1', '=[10.1234/a', '#2'], '#1'],
    ['=A', ['ext-link', {XLINK_HREF: 'http://a'}, '=x', '#1', IT, '#1'], '#1'],
    ['=A', ['ext-link', {}, '#1'], '#1'],
    # identifiers in text
    ['#1', '=PMID: 12', '#2', Y, '#1'],
    ['=A', Y, '#1', '=PMID', '#1', '=12', '#1', IT, '#1'],
    ['#1', '=pmc12', '#2', Y, '#1'],
    ['=A', Y, '#1', '=10.1234/a', '#2', IT, '#1'],
    ['=A', '#1', '=S0968-0004(01)0184X-3', '#2', Y],
    ['=Nature, 2010;463(7283):1234-1245', '#1', Y],
    ['=A', Y, '#1', '=12345 [pii]', '#1', IT],
    ['=A', Y, '#1', '=WOS:000123456789012', '#1', IT],
    ['=WOS:000123456789012', '#1', '=PMID:12 10.1234/ab', '#1', IT, '#1'],
    # comments
    ['=A', ['comment', {}, '#1', '=PMID: 12', '#1'], '#2', Y],
    ['=A', ['comment', {}, '=PMC12', '#1', IT, '#1'], '#1', Y],
    ['=A', ['comment', {}, '=WOS:000123456789012', '#1'], '#1',
     ['comment', {}, '=PMID:12', '#1'], '#1'],
    # several elements within one that is no identifier
    ['=A ', D + ['#1', IT, '=x', ['bold', {}, '=bo'], '#1'], '#1', Y],
    ['=A ', I + ['=ab', IT, ['bold', {}, '=bo'], '#1'], Y],
]


def text(ctx, **shape):
    ref = _ref(ctx, _grow(LAYOUTS[shape['i']], shape.get('more', 0)),
               EDGE if ctx_edge(shape['i']) else GEN)
    before = text_of(ref)
    others = _others(ref)
    n = len(ref)
    fix_reference(ref)
    after = text_of(ref)
    ctx.observe('xml', [[e.tag, e.text, e.tail] for e in ref.iter()])
    ctx.check(ctx.eq(before, after), 'the text of the reference changed', [before, after])
    ctx.check(_others(ref) == others and len(ref) == n and ref.get('id') == 'r1',
              'other elements of the reference changed', [[before], repr(_others(ref))])
    for e in ref.iter():
        if e is not ref and e.tag not in ('mixed-citation',):
            ctx.check(e.getparent() is not ref, 'an element left the citation', e.tag)
    _check_formats(ctx, ref)
    ctx.reach('fixed')


def _grow(items, k):
    """the layout with k more characters in the first symbolic text of each element"""
    out = []
    for x in items:
        if isinstance(x, str) and x[0] == '#':
            x, k = '#%d' % (int(x[1:]) + k), 0
        elif not isinstance(x, str):
            x = x[:2] + _grow(x[2:], k)
        out.append(x)
    return out


def ctx_edge(i):
    # layouts with many symbolic characters use the smaller alphabet
    def count(items):
        return sum(int(x[1:]) if isinstance(x, str) and x[0] == '#' else
                   count(x[2:]) if not isinstance(x, str) else 0 for x in items)
    return count(LAYOUTS[i]) >= 5


# ---- identifiers found in text

WORDS = 'aZ90\xe9'


def _surround(ctx, place, value, nsym, pre_alphabet, post):
    """a citation with value placed as text, as tail or within a comment"""
    pre = ctx.text('pre', nsym, pre_alphabet)
    s = 'A' + pre + value + post
    if place == 'text':
        ref = build(ctx, ['ref', {}, ['mixed-citation', {}, '=@', Y, '=.']])
        ref[0].text = s
    elif place == 'tail':
        ref = build(ctx, ['ref', {}, ['mixed-citation', {}, '=B', Y, '=@', IT]])
        ref[0][0].tail = s
    elif place == 'tail2':
        ref = build(ctx, ['ref', {}, ['mixed-citation', {}, '=B', IT, '=b, ', Y, '=@', IT]])
        ref[0][1].tail = s
    elif place == 'comment2':
        ref = build(ctx, ['ref', {}, ['mixed-citation', {}, '=B', ['comment', {}, '=see'], '=, ',
                                      ['comment', {}, '=@'], '=.']])
        ref[0][1].text = s
    elif place == 'citation2':
        ref = build(ctx, ['ref', {}, ['mixed-citation', {}, '=B', Y, '=.'],
                          ['mixed-citation', {}, '=B', Y, '=@', IT]])
        ref[1][0].tail = s
    elif place in OWN:
        ref = build(ctx, ['ref', {}, ['mixed-citation', {}, '=B', Y, '=, ', [
            'pub-id', {'pub-id-type': place}, '=@'], '=.', IT]])
        ref[0][1].text = s
    else:
        ref = build(ctx, ['ref', {}, ['mixed-citation', {}, '=B', Y, ['comment', {}, '=@'], '=.']])
        ref[0][1].text = s
    return ref


def _expect(ctx, ref, kind, value, before):
    found = [p.text for p in _pub_ids(ref, kind)]
    ctx.check(len(found) == 1, 'the identifier is not marked up exactly once', [kind, found])
    ctx.check(ctx.eq(found[0], value), 'the identifier is not marked up exactly', [found[0], value])
    ctx.check(ctx.eq(text_of(ref), before), 'the text of the reference changed')


DOI_POSTS = ['', '.', ' [doi]', '. PMID: 123', ' PubMed x', '. Epub 2010.', ' (Accessed 2010)',
             ' [doi].', ']', ';', '];', '].', ' same [pii]', ' again']
# an identifier within an existing element of its kind
OWN = ('doi', 'DOI', 'pmid', 'pmcid', 'PMCID', 'pii')


def ids(ctx, **shape):
    kind, place = shape['kind'], shape['place']
    if kind == 'doi':
        sub = ctx.text('sub', shape['n'], WORDS + '.-()<'[:-1])
        last = ctx.text('last', 1, 'aZ90')
        prefix = ctx.pick('prefix', ['10.1234/', '10.12345.1/']) if place == 'text' else '10.1234/'
        if not shape['n']:
            prefix = prefix + 'a(1'
        value = prefix + sub + last
        # brackets are part of a DOI as long as they are not closing ones only
        post = ctx.pick('post', DOI_POSTS)
        # repeated parts of it are not
        if post == ' same [pii]':
            post = ' ' + value[8 if prefix[:8] == '10.1234/' else 11:] + ' [pii]'
        elif post == ' again':
            post = ' ' + value
        ref = _surround(ctx, place, value, 1, ' .,;:([', post)
        out = 'doi'
    elif kind == 'pmid':
        value = ctx.text('v', shape['n'], DIGITS)
        label = 'PMID' + ctx.pick('sep', [':', ': ', ' : '])
        post = ctx.text('post', 1, ' .,;)]a-')
        ctx.assume(ctx.not_(ctx.eq(post, 'a')))
        pre = ctx.text('p', 1, ' a.(')
        ref = _surround(ctx, place, value, 0, ' ', post)
        e = _holder(ref, place)
        s = _get(e, place)
        _set(e, place, 'A' + pre + label + s[1:])
        out = 'pmid'
    elif kind == 'pmcid':
        value = ctx.pick('pmc', ['PMC', 'pmc', 'Pmc']) + ctx.text('v', shape['n'], DIGITS)
        post = ctx.text('post', 1, ' .,;)a')
        ref = _surround(ctx, place, value, 1, ' .:(a', post)
        out = 'pmcid'
    elif kind == 'pii':
        a = ctx.text('v', shape['n'], DIGITS)
        value = ctx.pick('first', 'SB') + ctx.pick('form', [
            '0968-0004(01)018', '0968000401018', '0968 0004 01 018'])
        value = value + a + ctx.text('x', 1, DIGITS + 'X')
        post = ctx.text('post', 1, ' .,;)')
        ref = _surround(ctx, place, value, 1, ' .:(', post)
        # further digits after a blank would be part of it
        out = 'pii'
    elif kind == 'wos':
        value = '00012345678' + ctx.text('v', 4, DIGITS)
        label = ctx.pick('label', ['WOS:', 'wos: ', 'WOS : '])
        ref = _surround(ctx, place, value, 0, ' ', ctx.text('post', 1, ' .,;)'))
        e = _holder(ref, place)
        _set(e, place, 'A ' + label + _get(e, place)[1:])
        out = 'other'
    elif kind == 'text url':
        # a URL earlier in the text does not make the DOI a link
        a = ctx.text('a', shape['n'], 'ab1/.')
        b = ctx.text('b', 2, ' .,;a')
        value = '10.1234/' + ctx.text('last', 1, 'aZ90')
        ref = build(ctx, ['ref', {}, ['mixed-citation', {}, '=A', D + ['=@'], '=.']])
        ref[0].text = 'A https://doi.org/' + a + b
        ref[0][0].text = value
        before = text_of(ref)
        fix_reference(ref)
        _expect(ctx, ref, 'doi', value, before)
        ctx.check(not list(ref.iter('ext-link')), 'a DOI that is not part of a URL became a link', before)
        ctx.reach('text url')
        return
    else:
        assert kind == 'url'
        sub = ctx.text('sub', shape['n'], WORDS + '.-')
        value = '10.1234/' + sub + ctx.text('last', 1, 'aZ90')
        prefix = ctx.pick('prefix', [
            'https://doi.org/', 'http://dx.doi.org/', 'doi.org/', 'https : // doi . org / '])
        pre = ctx.text('pre', 1, ' .,;(')
        post = ctx.pick('post', ['', '. PMID: 123', ' [doi]'])
        inside = ctx.flag('inside')
        ref = build(ctx, ['ref', {}, ['mixed-citation', {}, '=A', D + ['=@'], '=.']])
        if inside:
            ref[0].text = 'A' + pre
            ref[0][0].text = prefix + value + post
        else:
            ref[0].text = 'A' + pre + prefix
            ref[0][0].text = value + post
        before = text_of(ref)
        fix_reference(ref)
        links = list(ref.iter('ext-link'))
        ctx.check(not _pub_ids(ref, 'doi') and len(links) == 1, 'a DOI URL is not marked up as a link', before)
        ctx.check(ctx.eq(links[0].text, prefix + value), 'the link is not the DOI URL', links[0].text)
        href = ''.join(x for x in prefix if x != ' ') + value
        if '://' not in href:
            href = 'https://' + href
        ctx.check(ctx.eq(links[0].get(XLINK_HREF), href), 'the target of the link is not the DOI URL',
                  links[0].get(XLINK_HREF))
        ctx.check(ctx.eq(text_of(ref), before), 'the text of the reference changed')
        ctx.reach('url')
        return
    had = ctx.flag('had') if shape.get('had') else False
    if had:
        other = {'doi': '10.9999/zz', 'pmid': '99', 'pmcid': 'PMC99',
                 'pii': 'S0968-0004(99)9999X-9'}[kind]
        e = etree.SubElement(ref[0], 'pub-id')
        e.set('pub-id-type', kind)
        e.text = other
        e.tail = '.'
        before = text_of(ref)
        fix_reference(ref)
        found = [p.text for p in _pub_ids(ref, out)]
        ctx.check(found == [other], 'a second identifier of the kind was marked up', [before, found])
        ctx.check(ctx.eq(text_of(ref), before), 'the text of the reference changed')
        ctx.reach('had ' + kind)
        return
    before = text_of(ref)
    fix_reference(ref)
    _expect(ctx, ref, out, value, before)
    ctx.reach(kind + ' ' + place)


def _holder(ref, place):
    if place == 'text':
        return ref[0]
    if place == 'citation2':
        return ref[1][0]
    return ref[0][0] if place == 'tail' else ref[0][1]


IN_TAIL = ('tail', 'tail2', 'citation2')


def _get(e, place):
    return e.tail if place in IN_TAIL else e.text


def _set(e, place, s):
    if place in IN_TAIL:
        e.tail = s
    else:
        e.text = s


# ---- several citations in one reference: an identifier is marked up once

def once(ctx, **shape):
    s1 = ctx.text('s1', 1, ' .,;)')
    s2 = ctx.text('s2', 1, ' .,;)')
    v1 = ctx.text('v1', 2, DIGITS)
    v2 = ctx.text('v2', 2, DIGITS)
    ref = build(ctx, ['ref', {}, ['mixed-citation', {}, '=A', ['comment', {}, '=@'], '=.'],
                      ['mixed-citation', {}, '=B', ['comment', {}, '=@'], '=.']])
    ref[0][0].text = shape['label'] + v1 + s1
    ref[1][0].text = shape['label'] + v2 + s2
    before = text_of(ref)
    fix_reference(ref)
    kind = 'pmid' if shape['label'].startswith('PMID') else 'pmcid'
    _expect(ctx, ref, kind, v1 if kind == 'pmid' else 'PMC' + v1, before)
    ctx.reach('once')


# ---- titles

def title(ctx, **shape):
    q1 = ctx.pick('q1', ['', '"', '\u2018', '\u201c'])
    q2 = ctx.pick('q2', ['', '"', '\u2019', '\u201d'])
    body = ctx.text('body', shape['n'], 'abZ1\xe9')
    body2 = ctx.text('body2', 2, 'abZ1.?\xe9') if shape['child'] else ''
    seps = ['', ',', ' , ', ', ']
    if shape['child']:
        # a separator that follows a quote after child elements is not looked at
        seps = [''] if q1 else seps
    else:
        seps = seps + ['; PMC12', ';PMC1']
    sep = ctx.pick('sep', seps)
    mid = ctx.pick('mid', ['b', '\u2019b', '\u201db', ' "b']) if shape.get('mid') else ''
    ref = build(ctx, ['ref', {}, ['mixed-citation', {}, '=A ', T + ['=@'], '=. ', Y]])
    t = ref[0][0]
    rest = body + mid
    t.text = q1 + rest + ('' if shape['child'] else q2 + sep)
    if shape['child']:
        e = etree.SubElement(t, 'italic')
        e.text = 'it'
        e.tail = body2 + q2 + sep
        rest = rest + 'it' + body2
    before = text_of(ref)
    fix_reference(ref)
    ctx.check(ctx.eq(text_of(ref), before), 'the text of the reference changed', [before, text_of(ref)])
    pairs = {'"': '"', '\u2018': '\u2019', '\u201c': '\u201d', '': None}
    if q1 and q2 == pairs[q1]:
        expected = rest
        ctx.reach('quoted')
    elif q1 and pairs[q1] not in mid + q2:
        expected = rest + q2
        ctx.reach('opening quote only')
    else:
        expected = q1 + rest + q2
        ctx.reach('unquoted')
    ctx.check(ctx.eq(text_of(t), expected), 'the title is not the quoted text', [text_of(t), expected])


# ---- whole files

def _canon(el):
    return [el.tag, sorted(el.attrib.items()), el.text or '', [
        [_canon(c), c.tail or ''] if isinstance(c.tag, str) else ['#', c.tail or ''] for c in el]]


def file(ctx, **shape):
    root = build(ctx, ['article', {'k': 'v'}, '=\n', ['front', {}, '#1', ['article-title', {}, '=T,'],
                                                 ['pub-id', {'pub-id-type': 'doi'}, '=x']], '=\n',
                       ['body', {}, '=PMID: 12', ['p', {}, '#1']],
                       ['back', {}, ['ref-list', {}, ['title', {}, '=R']] + [
                           ['ref', {'id': 'r%d' % i}, ['label', {}, '=PMID:1'],
                            ['mixed-citation', {}] + ctx.pick('ref%d' % i, FILE_REFS)]
                           for i in range(shape['n'])]]], alphabet='a1 .\xe9\u2020<&')
    if shape['meta']:
        g = etree.Element('custom-meta-group')
        etree.SubElement(g, 'custom-meta').text = 'm'
        root.insert(0, g)
    expected = []
    for ref in root.iter('ref'):
        copy = etree.fromstring(etree.tostring(ref, encoding='unicode'))
        was = _canon(copy)
        fix_reference(copy)
        if not (_canon(copy) == was):
            expected.append(ref.get('id'))
        ref.set('expected', '1')    # replaced below
        ref.attrib.pop('expected')
    before = text_of(root)
    data = etree.tostring(root, encoding='unicode')
    if shape['broken'] == 'dagger':
        data = data.replace('<title>R</title>', '<title>R&dagger;</title>')
        root.find('.//title').text = 'R\u2020'
        before = text_of(root)
    tmp = tempfile.mkdtemp()
    try:
        source = os.path.join(tmp, 'in', 'a.xml')
        output = os.path.join(tmp, 'out', 'a.xml')
        os.makedirs(os.path.dirname(source))
        blob = ((' \n' if shape['broken'] == 'newline' else '') + shape['decl'] + data).encode('utf-8')
        with open(source, 'wb') as f:
            f.write(blob)
        fix_jats_xml_file(source, output)
        with open(output, 'rb') as f:
            result = f.read()
        with open(source, 'rb') as f:
            ctx.check(ctx.eq(f.read(), blob), 'the source file changed')
    finally:
        shutil.rmtree(tmp)
    out = etree.fromstring(result)
    meta = {m.findtext('meta-name'): m.findtext('meta-value')
            for m in out.findall('custom-meta-group/custom-meta') if m.find('meta-name') is not None}
    ctx.check(meta.get('fix-jats-changed-reference-count') == str(len(expected)),
              'the number of changed references is wrong', [repr(meta), expected])
    ctx.check(meta.get('fix-jats-changed-reference-ids') == ','.join(expected),
              'the ids of changed references are wrong', [repr(meta), expected])
    ctx.check(meta.get('fix-jats-malformatted-xml') == str(shape['broken'] != '').lower(),
              'the file was recorded as malformatted wrongly', repr(meta))
    group = out.find('custom-meta-group')
    ctx.check(len([m for m in group if m.find('meta-name') is None]) == (1 if shape['meta'] else 0),
              'existing meta data was lost')
    if shape['meta']:
        for m in list(group)[1:]:
            group.remove(m)
        group.text = (group.text or '').strip() or None
        group[0].tail = None
    else:
        out.remove(group)
    ctx.check(ctx.eq(_norm(text_of(out)), _norm(before)), 'the text of the document changed',
              [text_of(out), before])
    a, b = _canon(out), _canon(root)
    # everything but the references
    ctx.check(_same(ctx, _without_refs(a), _without_refs(b)), 'content outside of the references changed',
              [repr(a), repr(b)])
    ctx.reach(shape['broken'] or 'valid')
    ctx.reach('changed %d' % len(expected))


def _norm(s):
    return ''.join(c for c in s if not c.isspace())


def _without_refs(c):
    if c[0] == 'article':
        c = [c[0], c[1], '', [[x, ''] for x, t in c[3]]]
    if c[0] == 'mixed-citation':
        return ['mixed-citation']
    return [c[0], c[1], c[2], [[_without_refs(x) if x != '#' else x, t] for x, t in c[3]]]


def _same(ctx, a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return ctx.all([_same(ctx, x, y) for x, y in zip(a, b)])
    return ctx.eq(a, b)


FILE_REFS = [
    ['=A', D + ['=10.1234/a'], '#1'],
    ['=A', D + ['=10.1234/a.'], '#1'],
    ['=A', T + ['=T,'], '#1', I + ['=x'], '=.'],
    ['=A', '#1', '=PMID: 12.'],
]


# ---- where the output goes

def _options(base, out, **kwargs):
    return argparse.Namespace(**{
        'num_workers': 1, 'multi_processing': False, 'source_path': None, 'source_file_list': None,
        'source_file_list_column': 'xml_url', 'source_base_path': base, 'output_path': out,
        'source_filename_pattern': '**', 'limit': None, 'no_log_file': True, **kwargs})


def paths(ctx, base, out, n):
    """the result goes below the output path, to the path of the source relative to the base path"""
    name = ctx.text('name', n, 'a/.-')
    ctx.assume(ctx.and_(ctx.not_(ctx.eq(name[:1], '/')), ctx.not_(ctx.eq(name[-1:], '/')),
                        ctx.not_('//' in name)))
    sep = '' if base.endswith('/') else '/'
    source = base + sep + name
    how = ctx.pick('how', ['base', 'list', 'file'])
    if how == 'base':
        opt = _options(base, out)
    elif how == 'list':
        opt = _options(None, out, source_file_list=base + sep + 'list.tsv')
    else:
        opt = _options(base, out, source_path=source)
    target = FixJatsProcessor(opt).get_output_file_for_source_file(source)
    expected = out + ('' if out.endswith('/') else '/') + name
    ctx.check(ctx.eq(target, expected), 'unexpected output file', [source, target])
    ctx.reach(how)


def overwrite(ctx):
    """however the output path is spelled, a source file is not overwritten"""
    tmp = tempfile.mkdtemp()
    try:
        base = os.path.join(tmp, 'in')
        os.makedirs(base)
        os.makedirs(os.path.join(tmp, 'other'))
        source = os.path.join(base, 'a.xml')
        end = ctx.text('end', 1, ' .')
        data = '<article><back><ref-list><ref><mixed-citation>PMID: 12' + end + (
            '</mixed-citation></ref></ref-list></back></article>')
        with open(source, 'wb') as f:
            f.write(data.encode('utf-8'))
        out = os.path.join(tmp, ctx.pick('out', [
            'in', 'in/', 'in/.', './in', 'in//', 'other/../in', 'out', 'in/out']))
        given = ctx.pick('base', ['in', 'in/', 'x'])
        opt = _options(os.path.join(tmp, given), out, source_path=source)
        try:
            FixJatsProcessor(opt).process_source_file(source)
            ctx.reach('written')
        except RuntimeError:
            ctx.reach('refused')
        with open(source, 'rb') as f:
            content = f.read()
        ctx.check(ctx.eq(content, data.encode('utf-8')), 'the source file was overwritten', [out])
        if given != 'x' and out.endswith('out'):
            ctx.check(os.path.exists(os.path.join(out, 'a.xml')), 'the output file was not written', [out])
    finally:
        shutil.rmtree(tmp)


def shapes_text(tier):
    return [{'i': i} for i in range(len(LAYOUTS))] + (
        [] if tier == 'quick' else [{'i': i, 'more': 1} for i in range(len(LAYOUTS))])


def shapes_ids(tier):
    n = 2 if tier == 'quick' else 3
    out = []
    for place in ('text', 'tail'):
        out.append({'kind': 'doi', 'place': place, 'n': n, 'had': place == 'text'})
        out.append({'kind': 'pii', 'place': place, 'n': 3, 'had': place == 'text'})
    for place in ('tail2', 'citation2', 'doi', 'DOI'):
        out.append({'kind': 'doi', 'place': place, 'n': n - 2})
    for place in ('tail2', 'citation2', 'pii'):
        out.append({'kind': 'pii', 'place': place, 'n': 3})
    for place in ('tail2', 'comment2', 'citation2', 'pmid'):
        out.append({'kind': 'pmid', 'place': place, 'n': 2})
    for place in ('tail2', 'comment2', 'citation2', 'pmcid', 'PMCID'):
        out.append({'kind': 'pmcid', 'place': place, 'n': 2})
    for place in ('tail2', 'comment2', 'citation2'):
        out.append({'kind': 'wos', 'place': place})
    for place in ('text', 'tail', 'comment'):
        for k in ((1, 3, 10) if tier == 'quick' else (1, 2, 5, 9, 10)):
            out.append({'kind': 'pmid', 'place': place, 'n': k, 'had': place == 'tail'})
        for k in ((1, 3) if tier == 'quick' else (1, 2, 6)):
            out.append({'kind': 'pmcid', 'place': place, 'n': k, 'had': place == 'comment'})
        out.append({'kind': 'wos', 'place': place})
    out.append({'kind': 'url', 'place': 'doi', 'n': n})
    out.append({'kind': 'text url', 'place': 'doi', 'n': n})
    return out


def shapes_title(tier):
    n = 2 if tier == 'quick' else 4
    return [{'n': n, 'child': False}, {'n': n, 'child': True}, {'n': n, 'child': False, 'mid': True},
            {'n': n, 'child': True, 'mid': True}]


def shapes_file(tier):
    decls = ['<?xml version="1.0" encoding="utf-8"?>\n', '']
    out = []
    for decl, broken in ((0, ''), (1, ''), (0, 'dagger'), (1, 'dagger'), (0, 'newline')):
        decl = decls[decl]
        out.append({'n': 2, 'meta': False, 'broken': broken, 'decl': decl})
    out.append({'n': 1, 'meta': True, 'broken': '', 'decl': ''})
    if tier != 'quick':
        out.append({'n': 3, 'meta': False, 'broken': '', 'decl': ''})
    return out


HARNESSES = [
    Harness('text', text, shapes_text, reach=['fixed']),
    Harness('ids', ids, shapes_ids, reach=[
        'doi text', 'doi tail', 'pmid text', 'pmid tail', 'pmid comment', 'pmcid text', 'pmcid tail',
        'pmcid comment', 'pii text', 'pii tail', 'wos text', 'wos tail', 'wos comment', 'url', 'text url',
        'had doi', 'had pii', 'had pmid', 'had pmcid', 'doi tail2', 'doi citation2', 'doi doi', 'doi DOI',
        'pii pii', 'pmid comment2', 'pmid pmid', 'pmcid pmcid', 'wos comment2']),
    Harness('once', once, lambda tier: [{'label': 'PMID: '}, {'label': 'PMC'}], reach=['once']),
    Harness('title', title, shapes_title, reach=['quoted', 'opening quote only', 'unquoted']),
    Harness('paths', paths, lambda tier: [
        {'base': b, 'out': o, 'n': n} for b in ('/data/in', '/data/in/', 'in', 'gs://bucket/in')
        for o in ('/data/out', 'out/', '/data/in/out', 'gs://bucket/out')
        for n in ((3,) if tier == 'quick' else (2, 4, 5))], reach=['base', 'list', 'file']),
    Harness('overwrite', overwrite, lambda tier: [{}], reach=['written', 'refused']),
    Harness('file', file, shapes_file, reach=['valid', 'dagger', 'newline', 'changed 0', 'changed 1', 'changed 2']),
]
BOUNDS = (
    '48 reference layouts (existing DOI/PMID/PMCID/PII/other identifiers, titles, links, comments, year '
    'and italic elements, with and without children, text before, within and after) with 1-6 symbolic '
    'characters out of 19 (thorough: one more per element); identifiers of every digit / 2-3 symbolic '
    'characters in text, tail and comment, with and without an existing one; titles of 2-4 symbolic '
    'characters with all combinations of quotes and separators; files with 2-3 references out of 4 '
    'kinds, 4 symbolic characters, declaration, leading blanks, entities and existing meta data; '
    'relative paths of 3 (5) symbolic characters, 4 base and 4 output paths'
)
OUTSIDE = (
    'longer text (long runs of digits are literal); XML comments, processing instructions and '
    'unresolved entities within references; local files that are compressed (only remote ones are '
    'decompressed); multi processing; symbolic links to the source directory'
)
ASSUMPTIONS = [
    'lxml keeps text and tail of elements as set, and parses what it serialised',
]
