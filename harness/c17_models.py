"""C17: each command marks up the documents of its model with the elements of the JATS fields, from the
command line and the shipped settings to the file written."""
import os
import shutil
import tempfile

from lxml import etree

from sciencebeam_trainer_grobid_tools import (
    auto_annotate_affiliation_address,
    auto_annotate_figure,
    auto_annotate_fulltext,
    auto_annotate_header,
    auto_annotate_reference,
    auto_annotate_reference_segmenter,
    auto_annotate_segmentation,
    auto_annotate_table
)

from sx.harness import Harness
from harness.schedule import scheduled

REPO = os.environ.get('VERIF_REPO', '/repo')
NS = ' xmlns="http://www.tei-c.org/ns/1.0"'

# where the JATS of a kind goes
JATS = [
    ('meta', '<front><article-meta>', '</article-meta></front>'),
    ('body', '<body><sec>', '</sec></body>'),
    ('ack', '<back>', ''),
    ('back', '', ''),
    ('refs', '<ref-list>', '</ref-list>'),
    ('end', '', '</back>'),
]

# JATS parts by kind; '~' is the symbolic letter of the kind
SOURCES = {
    'title': ('meta', '<title-group><article-title>Ge~nes of mice</article-title></title-group>'),
    'abstract': ('meta', '<abstract><p>We have studied ma~ny things.</p></abstract>'),
    'keywords': ('meta', '<kwd-group><title>Keywords</title><kwd>alpha</kwd><kwd>be~ta</kwd></kwd-group>'),
    'authors': ('meta', '<contrib-group><contrib contrib-type="author"><name><surname>Smi~th</surname>'
                        '<given-names>John</given-names></name></contrib><contrib contrib-type="author"><name>'
                        '<surname>Brown</surname><given-names>Anna</given-names></name></contrib></contrib-group>'),
    'aff1': ('meta', '<contrib-group><aff><label>1</label><institution>University of Be~rn</institution>, '
                     '<country>Norway</country></aff></contrib-group>'),
    'aff2': ('meta', '<aff><label>2</label><addr-line><named-content content-type="department">Dep of Lawn'
                     '</named-content>, <named-content content-type="city">Pa~rix</named-content></addr-line></aff>'),
    'section': ('body', '<label>1.</label><title>Intro~duction</title>'),
    'paragraph': ('body', '<p>This is shown in <xref ref-type="fig">Figure 4</xref> and by '
                          '<xref ref-type="bibr">Mil~ler</xref>.</p>'),
    'figure': ('body', '<fig><label>Figure 5</label><caption><p>Some dra~wing here</p></caption></fig>'),
    'table': ('body', '<table-wrap><label>Table 3</label><caption><p>Numbers of ce~lls</p></caption></table-wrap>'),
    'item1': ('body', '<list><list-item><p>first en~try</p></list-item></list>'),
    'item2': ('body', '<list><list-item><p>later co~urse</p></list-item></list>'),
    'box': ('body', '<boxed-text><label>Box 7</label><caption><title>Big pla~te</title></caption></boxed-text>'),
    'item3': ('body', '<list><list-item><p>see <xref ref-type="table">Table 8</xref> or <xref ref-type="sec">Part 6'
                      '</xref> so~on</p></list-item></list>'),
    'list': ('body', '<list><title>Gath~ered</title></list>'),
    'paragraph2': ('body', '<p>Put <xref ref-type="table">Table 9</xref> with <xref ref-type="disp-formula">Eq 2'
                           '</xref> into <xref ref-type="sec">Chapter 3</xref> near <xref ref-type="boxed-text">Box 11'
                           '</xref> you~ng.</p>'),
    'box2': ('body', '<boxed-text><p>Boxes hold <xref ref-type="bibr">Kuhn</xref> wal~ks.</p></boxed-text>'),
    'ack': ('ack', '<ack><title>Acknowledgements</title><p>Thanks to ev~erybody</p></ack>'),
    'appendix': ('back', '<app-group><title>Appen~dix</title></app-group>'),
    'appendix2': ('back', '<app-group><app><p>Extra stu~ff</p></app></app-group>'),
    'aff3': ('meta', '<aff><label>3</label><institution>Col~lege</institution> <addr-line>'
                     '<named-content content-type="postcode">55321</named-content> '
                     '<named-content content-type="state">Ohio</named-content></addr-line> <country>Gabon</country>'
                     '</aff>'),
    'references': ('refs', '<title>Refer~ences</title>'),
    'ref1': ('refs', '<ref><label>1</label><mixed-citation><string-name><surname>Mill~er</surname> <given-names>K'
                     '</given-names></string-name>. <year>2001</year>. <article-title>Old gazette</article-title>. '
                     '<source>Nature</source> <volume>12</volume>:<fpage>34</fpage>-<lpage>56</lpage>'
                     '</mixed-citation></ref>'),
    'ref2': ('refs', '<ref><label>2</label><mixed-citation><string-name><surname>Jon~es</surname> <given-names>P'
                     '</given-names></string-name> <etal>et al.</etal> <year>1999</year>. <article-title>Quick foxes'
                     '</article-title>. <source>Cell</source> <issue>77</issue>, <issue>Suppl 8</issue> '
                     '<pub-id pub-id-type="doi">10.1234/xyz</pub-id></mixed-citation></ref>'),
    'ref3': ('refs', '<ref><label>3</label><mixed-citation><person-group person-group-type="editor"><string-name>'
                     '<surname>Wul~f</surname> <given-names>B</given-names></string-name>, <string-name><surname>Frey'
                     '</surname> <given-names>Q</given-names></string-name></person-group> <etal>et al.</etal> <year>1985'
                     '</year>. <source>Boats</source>. <publisher-name>Brill</publisher-name>, <publisher-loc>Oslo'
                     '</publisher-loc>. <isbn>978-3-16-148410-0</isbn> <ext-link>http://mno.org</ext-link>'
                     '</mixed-citation></ref>'),
    'ref4': ('refs', '<ref><label>N4</label><mixed-citation><string-name><surname>Va~nce</surname></string-name> '
                     '<issn>1234-5678</issn> <pub-id pub-id-type="pii">S0140</pub-id> <pub-id pub-id-type="pmid">'
                     '7654321</pub-id> <pub-id pub-id-type="pmcid">PMC9988</pub-id> <pub-id pub-id-type="arXiv">'
                     'hep3333</pub-id></mixed-citation></ref>'),
}


class Model:
    """kinds: {kind: (text, path) pieces}; other: path of text of no field"""
    def __init__(self, module, suffix, template, kinds, other, options=((),), element=None, removed=()):
        self.module, self.suffix, self.template = module, suffix, template
        self.kinds, self.other, self.options, self.element = kinds, other, options, element
        self.removed = removed


OTHER = 'note[@type="other"]'
P = 'p'
FIG_TEXT = {
    'figure': [('Figure 5', 'figure/head/label'), (' Some dra~wing here', 'figure/figDesc')]
}
TAB_TEXT = {
    'table': [('Table 3', 'figure[@type="table"]/head/label'),
              (' Numbers of ce~lls', 'figure[@type="table"]/figDesc')]
}
REF_TEXT = {
    'ref1': [('1', 'bibl/label'), (' Mill~er K.', 'bibl/author'), (' 2001', 'bibl/date'), ('.', 'bibl'),
             (' Old gazette', 'bibl/title[@level="a"]'), ('.', 'bibl'), (' Nature', 'bibl/title[@level="j"]'),
             (' 12', 'bibl/biblScope[@unit="volume"]'), (':', 'bibl'), ('34-56', 'bibl/biblScope[@unit="page"]')],
    'ref2': [('2', 'bibl/label'), (' Jon~es P et al.', 'bibl/author'), (' 1999', 'bibl/date'), ('.', 'bibl'),
             (' Quick foxes', 'bibl/title[@level="a"]'), ('.', 'bibl'), (' Cell', 'bibl/title[@level="j"]'),
             (' 77, Suppl 8', 'bibl/biblScope[@unit="issue"]'), (' doi:', '?DOI'),
             (' 10.1234/xyz', 'bibl/idno[@type="DOI"]')],
    'ref3': [('3', 'bibl/label'), (' Wul~f B, Frey Q. et al.', 'bibl/editor'), (' 1985', 'bibl/date'), ('.', 'bibl'),
             (' Boats', 'bibl/title[@level="j"]'), ('.', 'bibl'), (' Brill', 'bibl/publisher'), (',', 'bibl'),
             (' Oslo', 'bibl/pubPlace'), ('.', 'bibl'), (' ISBN', '?ISBN'), (' 978-3-16-148410-0', 'bibl/idno[@type="ISBN"]'),
             (' http://mno.org', 'bibl/ptr[@type="web"]')],
    'ref4': [('N4', 'bibl/label'), (' Va~nce', 'bibl/author'), (', ', 'bibl'), (' ISSN:', '?ISSN'), (' 1234-5678', 'bibl/idno[@type="ISSN"]'),
             (' PII:', '?PII'), (' S0140', 'bibl/idno[@type="PII"]'), (' PMID:', '?PMID'),
             (' 7654321', 'bibl/idno[@type="PMID"]'), (' PMCID:', '?PMC'), (' PMC9988', 'bibl/idno[@type="PMC"]'),
             (' arXiv:', '?arxiv'), (' hep3333', 'bibl/idno[@type="arxiv"]')],
}
AFF_TEXT = {
    'aff1': [('1', 'affiliation/marker'), (' University of Be~rn', 'affiliation/orgName[@type="institution"]'),
             (',', 'affiliation'), (' Norway', 'affiliation/address/country')],
    'aff2': [('2', 'affiliation/marker'), (' Dep of Lawn', 'affiliation/orgName[@type="department"]'),
             (',', 'affiliation'), (' Pa~rix', 'affiliation/address/settlement')],
    'aff3': [('3', 'affiliation/marker'), (' Col~lege', 'affiliation/orgName[@type="institution"]'),
             (' 55321', 'affiliation/address/postCode'), (' Ohio', 'affiliation/address/region'),
             (' Gabon', 'affiliation/address/country')],
}
AFF_BOX = ('<TEI' + NS + '><teiHeader><fileDesc><sourceDesc><biblStruct><analytic><author>%s</author></analytic>'
           '</biblStruct></sourceDesc></fileDesc></teiHeader></TEI>')
REF_BOX = '<TEI' + NS + '><text><back><listBibl>%s</listBibl></back></text></TEI>'

MODELS = {
    'header': Model(
        auto_annotate_header, 'header', '<tei><text><front>%s</front></text></tei>', {
            'title': [('Ge~nes of mice', 'docTitle/titlePart')],
            'authors': [('John Smi~th, Anna Brown', 'byline/docAuthor')],
            'aff1': [('1 University of Be~rn, Norway', 'byline/affiliation')],
            'abstract': [('We have studied ma~ny things.', 'div[@type="abstract"]')],
            'keywords': [('Keywords', 'note[@type="keywords_title"]'), (' alpha, be~ta', 'note[@type="keywords"]')],
        }, OTHER),
    'fulltext': Model(
        auto_annotate_fulltext, 'fulltext', '<tei><text>%s</text></tei>', {
            'section': [('1. Intro~duction', 'head')],
            'paragraph': [('This is shown in ', P), ('Figure 4', 'p/ref[@type="figure"]'), (' and by ', P),
                          ('Mil~ler', 'p/ref[@type="biblio"]'), ('.', P)],
            'figure': [('Figure 5 Some dra~wing here', 'figure')],
            'table': [('Table 3 Numbers of ce~lls', 'figure[@type="table"]')],
            'item1': [('first en~try', 'list/item')],
            'item2': [('later co~urse', 'list/item')],
            'item3': [('see ', 'list/item'), ('Table 8', 'list/item/ref[@type="table"]'), (' or ', 'list/item'),
                      ('Part 6', 'list/item/ref[@type="section"]'), (' so~on', 'list/item')],
            'list': [('Gath~ered', 'list')],
            'paragraph2': [('Put ', P), ('Table 9', 'p/ref[@type="table"]'), (' with ', P),
                           ('Eq 2', 'p/ref[@type="formula"]'), (' into ', P),
                           ('Chapter 3', 'p/ref[@type="section"]'), (' near ', P),
                           ('Box 11', 'p/ref[@type="box"]'), (' you~ng.', P)],
            'box2': [('Boxes hold ', 'p[@type="box"]'), ('Kuhn', 'p[@type="box"]/ref[@type="biblio"]'),
                     (' wal~ks.', 'p[@type="box"]')],
            'keywords': [('alpha, be~ta', 'other[@type="keywords"]')],
            'box': [('Box 7 Big pla~te', 'head[@type="box"]')],
            'appendix': [('Appen~dix', 'head[@type="appendix-group"]')],
            'appendix2': [('Extra stu~ff', 'figure[@xtype="appendix"]')],
            'references': [('Refer~ences', 'other[@type="ref-list-title"]')],
        }, 'other', options=((), ('--expand-to-following-untagged-lines',), ('--expand-to-previous-untagged-lines',),
                             ('--no-extend-to-line',))),
    'segmentation': Model(
        auto_annotate_segmentation, 'segmentation', '<tei><text>%s</text></tei>', {
            'title': [('Ge~nes of mice', 'front')],
            'authors': [('John Smi~th, Anna Brown', 'front')],
            'abstract': [('We have studied ma~ny things.', 'front')],
            'section': [('Intro~duction', 'body')],
            'paragraph': [('This is shown in Figure 4 and by Mil~ler.', 'body')],
            'figure': [('Figure 5 Some dra~wing here', 'body')],
            'ack': [('Thanks to ev~erybody', 'div[@type="acknowledgment"]')],
            'references': [('Refer~ences', 'listBibl')],
            'ref1': [('1 Mill~er K. 2001. Old gazette. Nature 12:34-56', 'listBibl')],
            'appendix2': [('Extra stu~ff', 'div[@type="annex"]')],
        }, 'body'),
    'reference segmenter': Model(
        auto_annotate_reference_segmenter, 'references.referenceSegmenter', '<tei><text>%s</text></tei>', {
            'ref1': [('1', 'listBibl/bibl/label'),
                     (' Mill~er K. 2001. Old gazette. Nature 12:34-56', 'listBibl/bibl')],
            'ref2': [('2', 'listBibl/bibl/label'),
                     (' Jon~es P et al. 1999. Quick foxes. Cell 77, Suppl 8 doi: 10.1234/xyz', 'listBibl/bibl')],
        }, OTHER),
    'figure': Model(auto_annotate_figure, 'figure', '<tei><text>%s</text></tei>', FIG_TEXT, OTHER,
                    options=(('--segment-figures',),)),
    'figure kept': Model(auto_annotate_figure, 'figure', '<tei><text>%s</text></tei>', FIG_TEXT, 'figure',
                         element='figure'),
    'table': Model(auto_annotate_table, 'table', '<tei><text>%s</text></tei>', TAB_TEXT, OTHER,
                   options=(('--segment-tables',),)),
    'table kept': Model(auto_annotate_table, 'table', '<tei><text>%s</text></tei>', TAB_TEXT, 'figure[@type="table"]',
                        element='figure type="table"'),
    'reference': Model(auto_annotate_reference, 'references', REF_BOX, REF_TEXT, OTHER,
                       options=(('--segment-references',), ('--segment-references', '--include-idno-prefix'),
                                ('--segment-references', '--remove-invalid-references')),
                       removed=('--remove-invalid-references',)),
    'reference kept': Model(auto_annotate_reference, 'references', REF_BOX, REF_TEXT, 'bibl', element='bibl',
                            options=((), ('--include-idno-prefix',))),
    'affiliation': Model(auto_annotate_affiliation_address, 'affiliation', AFF_BOX, AFF_TEXT, OTHER,
                         options=(('--segment-affiliation',), ('--segment-affiliation', '--remove-invalid-affiliations')),
                         removed=('--remove-invalid-affiliations',)),
    'affiliation kept': Model(auto_annotate_affiliation_address, 'affiliation', AFF_BOX, AFF_TEXT, 'affiliation',
                              element='affiliation'),
}
AREA_ORDER = ['front', 'body', 'div[@type="acknowledgment"]', 'listBibl', 'div[@type="annex"]']


def _name(el):
    out = etree.QName(el).localname
    for k in sorted(el.attrib):
        out += '[@%s="%s"]' % (k, el.attrib[k])
    return out


def _flat(el, path=()):
    """(non-blank character, path of element names), each element occurrence"""
    out = [(c, path) for c in el.text or '' if not c.isspace()]
    for child in el:
        if etree.QName(child).localname == 'lb':
            out.append(('|', path))
        else:
            out.extend(_flat(child, path + (_name(child),)))
        out.extend((c, path) for c in child.tail or '' if not c.isspace())
    return out


def _places(el, path=()):
    """path of (element name, position) for each non-blank character"""
    out = [path] * sum(1 for c in el.text or '' if not c.isspace())
    for i, child in enumerate(el):
        out.extend(_places(child, path + ((_name(child), i),)))
        out.extend([path] * sum(1 for c in child.tail or '' if not c.isspace()))
    return out


def _joined(model, path, path2, same_line, field, field2):
    """how many elements of the first character's path the next character is expected to share"""
    common = 0
    while common < min(len(path), len(path2)) and path[common][0] == path2[common][0]:
        common += 1
    if same_line or model == 'segmentation':
        return common
    if MODELS[model].element:
        return 0
    if field is None or field2 is None:
        # text of no field is part of the element before or after, where it has one
        return common
    return min(common, 1 if field2.startswith(('list/', 'byline/', 'listBibl/', 'docTitle/')) else 0)


def _path(path, options):
    if path.startswith('?'):
        # prefix of an identifier
        path = 'bibl/idno[@type="%s"]' % path[1:] if '--include-idno-prefix' in options else 'bibl'
    return tuple(path.split('/'))


def _jats(kinds, letters):
    out = '<article>'
    for place, start, end in JATS:
        out += start
        for k in kinds:
            if SOURCES[k][0] == place:
                out += SOURCES[k][1].replace('~', letters[k])
        out += end
    return out + '</article>'


def _run(ctx, module, suffix, tei, jats, options):
    tmp = tempfile.mkdtemp()
    try:
        os.makedirs(tmp + '/tei')
        os.makedirs(tmp + '/xml')
        for path, content in (('/tei/doc.%s.tei.xml' % suffix, tei), ('/xml/doc.xml', jats)):
            with open(tmp + path, 'wb') as f:
                f.write(content.encode('utf-8'))
        args = ['--source-base-path=' + tmp + '/tei', '--output-path=' + tmp + '/out', '--xml-path=' + tmp + '/xml',
                '--xml-filename-regex=/(.*)\\.%s\\.tei\\.xml/\\1.xml/' % suffix, '--matcher=simple',
                '--xml-mapping-path=' + REPO + '/config/xml-mapping.conf'] + list(options)
        if module is auto_annotate_segmentation:
            args.append('--segmentation-config=' + REPO + '/config/segmentation.conf')
        if module is auto_annotate_header and not any(o.startswith('--fields=') for o in options):
            args.append('--fields=title,abstract,author,author_aff,keywords_title,keywords')
        with scheduled(ctx):
            module.main(args, save_main_session=False)
        path = tmp + '/out/doc.%s.tei.xml' % suffix
        ctx.check(os.path.exists(path), 'no output')
        return etree.parse(path).getroot()
    finally:
        shutil.rmtree(tmp)


def _context(model, name, order, want, options):
    """rules of the models that depend on the lines before: [path of each line or None for its own]"""
    out = [None] * len(order)
    if name == 'fulltext':
        # text between and after items belongs to the list
        in_list = False
        for i, (k, w) in enumerate(zip(order, want)):
            if w and w.startswith('list/item'):
                in_list = True
            elif w:
                in_list = False
            elif in_list:
                out[i] = 'list'
        FIGS = ('figure', 'figure[@type="table"]')
        own = [w or o for w, o in zip(want, out)]
        if '--expand-to-previous-untagged-lines' in options:
            for i in range(len(order) - 2, -1, -1):
                if own[i] is None and own[i + 1] in FIGS:
                    own[i] = out[i] = own[i + 1]
        if '--expand-to-following-untagged-lines' in options:
            for i in range(1, len(order)):
                if own[i] is None and own[i - 1] in FIGS:
                    own[i] = out[i] = own[i - 1]
    elif name == 'segmentation':
        for i, w in enumerate(want):
            if w is None:
                before = ([x for x in want[:i] if x] or ['front'])[-1]
                after = ([x for x in want[i + 1:] if x] or [None])[0]
                if before == after and after in ('front', 'listBibl', 'div[@type="annex"]'):
                    out[i] = before
                elif after is None and before == 'div[@type="annex"]':
                    out[i] = before
    return out


def lines(ctx, model, first, n, options):
    """a document of n lines: each of a field or of no field; one field may be missing in the source XML"""
    name = model
    m = MODELS[name]
    kinds = sorted(m.kinds)
    order = [first]
    for i in range(1, n):
        choices = [k for k in kinds if k not in order] + ['none']
        order.append(ctx.pick('line%d of %d' % (i, len(choices)), choices))
    choices = ['-'] + [k for k in kinds if k in order]
    missing = ctx.pick('missing of %d' % len(choices), choices)
    letters = {k: 'k' for k in SOURCES}
    if first in m.kinds:
        letters[first] = ctx.text('letter', 1, 'ae')
    known = [k for k in kinds if k != missing]
    jats = _jats(known, letters)
    texts, field, pieces = [], [], []
    letter = ctx.text('noise', 1, 'xw') if 'none' in order[:2] else 'x'
    for i, k in enumerate(order):
        if k == 'none':
            noise = 'zzvw' + letter + ' 88 uhuh'[:8 - i]
            pieces.append([(noise, None)])
            field.append(None)
        else:
            ps = [(t.replace('~', letters[k]), p) for t, p in m.kinds[k]]
            if k == missing:
                ps = [(t, None) for t, _ in ps]
            pieces.append(ps)
            field.append(ps[0][1])
        texts.append(''.join(t for t, _ in pieces[-1]))
    if m.element:
        tag = m.element.split()[0]
        content = ''.join('<' + m.element + '>' + t + '<lb/></' + tag + '>' for t in texts)
    else:
        content = '<lb/>\n'.join(texts) + '<lb/>'
        if '%s' not in m.template:
            raise ValueError(m.template)
    root = _run(ctx, m.module, m.suffix, m.template.replace('%s', content), jats, options)
    depth = m.template[:m.template.index('%s')].count('<')
    container = root
    for _ in range(depth - 1):
        container = container[0]
    got = [(c, p) for c, p in _flat(container) if c != '|']
    breaks = sum(1 for c, _ in _flat(container) if c == '|')
    context = _context(m, name, order, field, options)
    want, owner = [], []
    n_lines = 0
    for i, ps in enumerate(pieces):
        if field[i] is None and any(o in m.removed for o in options):
            continue
        n_lines += 1
        for t, p in ps:
            if p is None:
                p = context[i] or m.other
            want.extend((c, _path(p, options)) for c in t if not c.isspace())
            owner.extend([i] * sum(1 for c in t if not c.isspace()))
    ctx.check(ctx.eq([c for c, _ in got], [c for c, _ in want]), 'unexpected text', ''.join(c for c, _ in got))
    for (c, p), (_, w) in zip(got, want):
        if p != w:
            ctx.check(False, 'unexpected elements', [c, '/'.join(p), '/'.join(w), order, missing,
                                                     etree.tostring(root).decode('utf-8')])
    places = _places(container)
    for p, p2, i, j in zip(places, places[1:], owner, owner[1:]):
        same = 0
        while same < min(len(p), len(p2)) and p[same] == p2[same]:
            same += 1
        joined = _joined(name, p, p2, i == j, field[i], field[j])
        ctx.check(same == joined, 'elements are split or joined', [same, joined, etree.tostring(root).decode('utf-8')])
    if n_lines == n:
        ctx.check(breaks == n_lines, 'unexpected line breaks', etree.tostring(root))
    for f in field:
        ctx.reach('other' if f is None else 'field')


# existing elements: {name: (field, start, end, path)}
EXISTING = {
    'header': {
        'plain': (None, '', '', None),
        'title': ('title', '<docTitle><titlePart>', '</titlePart></docTitle>', 'docTitle/titlePart'),
        'author': ('author', '<byline><docAuthor>', '</docAuthor></byline>', 'byline/docAuthor'),
        'unknown': ('?', '<note type="xx">', '</note>', 'note[@type="xx"]'),
    },
    'fulltext': {
        'plain': (None, '', '', None),
        'section_title': ('section_title', '<head>', '</head>', 'head'),
        'table': ('table', '<figure type="table">', '</figure>', 'figure[@type="table"]'),
        'figure': ('figure', '<figure>', '</figure>', 'figure'),
        'unknown': ('?', '<formula>', '</formula>', 'formula'),
        'note': ('note_other', '<note type="other">', '</note>', 'note[@type="other"]'),
    },
    'segmentation': {
        'plain': (None, '', '', None),
        'body': ('body', '<body>', '</body>', 'body'),
        'page': ('page', '<page>', '</page>', 'page'),
        'reference': ('reference', '<listBibl>', '</listBibl>', 'listBibl'),
        'unknown': ('?', '<titlePage>', '</titlePage>', 'titlePage'),
    },
    'reference segmenter': {
        'plain': (None, '', '', None),
        'reference': ('reference', '<listBibl><bibl>', '</bibl></listBibl>', 'listBibl/bibl'),
        'unknown': ('?', '<head>', '</head>', 'head'),
    },
    'figure': {
        'plain': (None, '', '', None),
        'figure': ('figure', '<figure>', '</figure>', 'figure'),
        'unknown': ('?', '<head>', '</head>', 'head'),
    },
    'table': {
        'plain': (None, '', '', None),
        'table': ('table', '<figure type="table">', '</figure>', 'figure[@type="table"]'),
        'unknown': ('?', '<head>', '</head>', 'head'),
    },
    'reference': {
        'plain': (None, '', '', None),
        'reference': ('reference', '<bibl>', '</bibl>', 'bibl'),
        'unknown': ('?', '<head>', '</head>', 'head'),
    },
    'affiliation': {
        'plain': (None, '', '', None),
        'author_aff': ('author_aff', '<affiliation>', '</affiliation>', 'affiliation'),
        'unknown': ('?', '<persName>', '</persName>', 'persName'),
    },
}
# field that is found in the last line
FOUND = {'header': 'title', 'fulltext': 'section', 'segmentation': 'references', 'reference segmenter': 'ref1',
         'figure': 'figure', 'table': 'table', 'reference': 'ref1', 'affiliation': 'aff1'}
DEFAULT_FIELDS = {
    'fulltext': list(auto_annotate_fulltext.ALL_FIELDS), 'reference segmenter': ['reference'], 'figure': ['figure'],
    'table': ['table'], 'reference': ['reference'], 'affiliation': ['author_aff'], 'segmentation': [],
}
EXISTING_OPTIONS = {
    'header': [('title', None, False), ('title,author', 'title', False), ('title', None, True),
               ('title,author', 'author', True)],
    'fulltext': [(None, None, False), ('section_title,figure', None, False), ('section_title,figure', 'figure', False),
                 ('section_title,figure', None, True)],
}


def existing(ctx, model, first, n, fields, always, no_preserve):
    """elements that are there already: which are kept"""
    m = MODELS[model]
    elements = EXISTING[model]
    chosen = [first] + [ctx.pick('element%d' % i, sorted(elements)) for i in range(1, n)]
    found = FOUND[model]
    content, want = '', []
    configured = DEFAULT_FIELDS.get(model) if fields is None else fields.split(',')
    kept_any = []
    for i, e in enumerate(chosen):
        field, start, end, path = elements[e]
        text = 'zzvw' + (ctx.text('noise', 1, 'xw') if i == 0 else 'x') + ' 88 uhuh'[:8 - i]
        content += start + text + '<lb/>' + end
        if always is not None:
            kept = field in always.split(',')
        elif no_preserve:
            kept = False
        else:
            kept = field is not None and field not in configured
        if model == 'fulltext' and field == 'note_other':
            kept = False
        kept_any.append(kept)
        want.append([(text, path if kept else m.other)])
        ctx.reach('kept' if kept else 'not kept')
    pieces = [(t.replace('~', 'k'), p) for t, p in m.kinds[found]]
    text = ''.join(t for t, _ in pieces)
    content += text + '<lb/>'
    want.append(pieces)
    options = list(m.options[0]) + (['--no-preserve-tags'] if no_preserve else [])
    if fields is not None:
        options.append('--fields=' + fields)
    if always is not None:
        options.append('--always-preserve-fields=' + always)
    root = _run(ctx, m.module, m.suffix, m.template.replace('%s', content),
                _jats([found], {k: 'k' for k in SOURCES}), options)
    container = root
    for _ in range(m.template[:m.template.index('%s')].count('<') - 1):
        container = container[0]
    got = [(c, p) for c, p in _flat(container) if c != '|']
    want = [(c, tuple(p.split('/'))) for ps in want for t, p in ps for c in t if not c.isspace()]
    ctx.check(ctx.eq([c for c, _ in got], [c for c, _ in want]), 'unexpected text', ''.join(c for c, _ in got))
    for (c, p), (_, w) in zip(got, want):
        if p != w:
            ctx.check(False, 'unexpected elements', [c, '/'.join(p), '/'.join(w), chosen,
                                                     etree.tostring(root).decode('utf-8')])


SUB_ELEMENTS = {
    'figure kept': {
        'plain': (None, '', '', ''),
        'figure-label': ('figure-label', '<head><label>', '</label></head>', 'head/label'),
        'figure-caption': ('figure-caption', '<figDesc>', '</figDesc>', 'figDesc'),
        'unknown': ('?', '<trash>', '</trash>', 'trash'),
    },
    'table kept': {
        'plain': (None, '', '', ''),
        'table-label': ('table-label', '<head><label>', '</label></head>', 'head/label'),
        'table-caption': ('table-caption', '<figDesc>', '</figDesc>', 'figDesc'),
        'unknown': ('?', '<trash>', '</trash>', 'trash'),
    },
    'affiliation kept': {
        'plain': (None, '', '', ''),
        'author_aff-label': ('author_aff-label', '<marker>', '</marker>', 'marker'),
        'author_aff-institution': ('author_aff-institution', '<orgName type="institution">', '</orgName>',
                                   'orgName[@type="institution"]'),
        'author_aff-address-country': ('author_aff-address-country', '<address><country>', '</country></address>',
                                       'address/country'),
        'unknown': ('?', '<trash>', '</trash>', 'trash'),
    },
}
SUB_FIELDS = {
    'figure kept': ['figure-label', 'figure-caption'],
    'table kept': ['table-label', 'table-caption'],
    'affiliation kept': ['author_aff-label', 'author_aff-institution'],
}


def sub_elements(ctx, model, first, n, preserve, no_preserve, sub_fields):
    """elements within the element of the model: which are kept, and which are added"""
    m = MODELS[model]
    elements = SUB_ELEMENTS[model]
    chosen = [first] + [ctx.pick('element%d' % i, sorted(elements)) for i in range(1, n)]
    found = {'figure kept': 'figure', 'table kept': 'table', 'affiliation kept': 'aff1'}[model]
    tag = m.element.split()[0]
    content, want = '<' + m.element + '>', []
    address = False
    for i, e in enumerate(chosen):
        field, start, end, path = elements[e]
        text = 'zzvw' + (ctx.text('noise', 1, 'xw') if i == 0 else 'x') + ' 88 uhuh'[:8 - i]
        content += (' ' if i else '') + start + text + end
        kept = preserve and field is not None and field != no_preserve
        p = m.other + ('/' + path if kept and path else '')
        if kept:
            address = field == 'author_aff-address-country'
        elif address:
            # text after an address belongs to it
            p = m.other + '/address'
        want.append((text, p))
        ctx.reach('kept' if kept else 'not kept')
    content += '<lb/></' + tag + '><' + m.element + '>'
    for t, p in m.kinds[found]:
        t = t.replace('~', 'k')
        field = {'head/label': 0, 'marker': 0, 'figDesc': 1, 'orgName[@type="institution"]': 1}.get(
            p[len(m.other) + 1:])
        if sub_fields is not None and p != m.other and (
                field is None or SUB_FIELDS[model][field] not in sub_fields.split(',')):
            p = m.other
        content += t
        want.append((t, p))
    content += '<lb/></' + tag + '>'
    options = (['--preserve-sub-tags'] * preserve
               + ['--no-preserve-sub-fields=%s' % no_preserve] * (no_preserve is not None)
               + ['--sub-fields=%s' % sub_fields] * (sub_fields is not None))
    root = _run(ctx, m.module, m.suffix, m.template.replace('%s', content),
                _jats([found], {k: 'k' for k in SOURCES}), options)
    container = root
    for _ in range(m.template[:m.template.index('%s')].count('<') - 1):
        container = container[0]
    got = [(c, p) for c, p in _flat(container) if c != '|']
    want = [(c, tuple(p.split('/'))) for t, p in want for c in t if not c.isspace()]
    ctx.check(ctx.eq([c for c, _ in got], [c for c, _ in want]), 'unexpected text', ''.join(c for c, _ in got))
    for (c, p), (_, w) in zip(got, want):
        if p != w:
            ctx.check(False, 'unexpected elements', [c, '/'.join(p), '/'.join(w), chosen,
                                                     etree.tostring(root).decode('utf-8')])
    ctx.check(len(container) == 2, 'elements were split or joined', etree.tostring(root))


def threshold(ctx, model, kind):
    """the score threshold of the command line decides whether a value with another letter is found"""
    m = MODELS[model]
    limit = ctx.pick('threshold', ['0.6', '1.0'])
    letter = ctx.text('letter', 1, 'kxz')
    pieces = [(t.replace('~', letter), p) for t, p in m.kinds[kind]]
    options = list(m.options[0]) + ['--matcher-score-threshold=' + limit]
    root = _run(ctx, m.module, m.suffix, m.template.replace('%s', ''.join(t for t, _ in pieces) + '<lb/>'),
                _jats([kind], {k: 'k' for k in SOURCES}), options)
    found = etree.tostring(root).decode('utf-8').count(m.other.split('[')[0]) == 0
    if letter == 'k':
        ctx.check(found, 'the exact value is not found', etree.tostring(root))
        ctx.reach('exact')
    elif limit == '1.0':
        ctx.check(not found, 'found below the threshold', etree.tostring(root))
        ctx.reach('below')
    else:
        ctx.check(found, 'not found above the threshold', etree.tostring(root))
        ctx.reach('above')


# path of a word that is not part of the value, by model; None: not extended; kinds not listed: not judged
EXTENDED = {
    'header': {'title': None, 'authors': 'byline/docAuthor', 'aff1': 'byline/affiliation',
               'abstract': 'div[@type="abstract"]'},
    'fulltext': {'section': 'head', 'paragraph': P, 'paragraph2': P, 'figure': 'figure',
                 'table': 'figure[@type="table"]', 'item1': 'list/item', 'item2': 'list/item', 'item3': 'list/item',
                 'box': 'head[@type="box"]', 'box2': 'p[@type="box"]', 'appendix2': 'figure[@xtype="appendix"]',
                 'keywords': 'other[@type="keywords"]'},
    'reference segmenter': {'ref1': 'listBibl/bibl', 'ref2': 'listBibl/bibl'},
    'segmentation': {'title': 'front', 'authors': 'front', 'abstract': 'front', 'paragraph': 'body', 'figure': 'body',
                     'ack': 'div[@type="acknowledgment"]', 'ref1': 'listBibl', 'appendix2': 'div[@type="annex"]'},
    'figure': {'figure': None}, 'table': {'table': None},
    'reference': {'ref1': None, 'ref2': None, 'ref3': None, 'ref4': None},
    'affiliation': {'aff1': None, 'aff2': None, 'aff3': None},
}


def extend(ctx, model, kind, before, options):
    """a line of a value and another word"""
    m = MODELS[model]
    word = 'uh' + ctx.text('letter', 1, 'xz') + 'h'
    path = EXTENDED[model][kind]
    if '--no-extend-to-line' in options:
        # what follows an item is still in the list
        path = 'list' if kind.startswith('item') and not before else None
    pieces = [(t.replace('~', 'k'), p) for t, p in m.kinds[kind]]
    pieces = [(word + ' ', path or m.other)] + pieces if before else pieces + [(' ' + word, path or m.other)]
    root = _run(ctx, m.module, m.suffix, m.template.replace('%s', ''.join(t for t, _ in pieces) + '<lb/>'),
                _jats([kind], {k: 'k' for k in SOURCES}), options)
    container = root
    for _ in range(m.template[:m.template.index('%s')].count('<') - 1):
        container = container[0]
    got = [(c, p) for c, p in _flat(container) if c != '|']
    want = [(c, _path(p, options)) for t, p in pieces for c in t if not c.isspace()]
    ctx.check(ctx.eq([c for c, _ in got], [c for c, _ in want]), 'unexpected text', ''.join(c for c, _ in got))
    for (c, p), (_, w) in zip(got, want):
        if p != w:
            ctx.check(False, 'unexpected elements', [c, '/'.join(p), '/'.join(w),
                                                     etree.tostring(root).decode('utf-8')])
    ctx.reach('extended' if path else 'not extended')


def shapes_extend(tier):
    out = []
    for model, kinds in sorted(EXTENDED.items()):
        for kind in sorted(kinds):
            for options in MODELS[model].options:
                if set(options) & set(MODELS[model].removed) or 'expand' in str(options):
                    continue
                for before in (False, True):
                    out.append({'model': model, 'kind': kind, 'before': before, 'options': list(options)})
    return out


REF_FIELDS = {'biblio': 'bib'}


def sub_fields(ctx, kind, field):
    """only the selected sub fields of a paragraph or item are marked up"""
    m = MODELS['fulltext']
    letter = ctx.text('letter', 1, 'kz')
    pieces = [(t.replace('~', letter), p) for t, p in m.kinds[kind]]
    inner = sorted({p.split('"')[-2] for _, p in pieces if '/ref[' in p})
    selected = ctx.pick('selected', [(x,) for x in inner] + [tuple(inner)])
    options = ['--sub-fields=' + ','.join('%s-xref-%s' % (field, REF_FIELDS.get(x, x)) for x in selected)]
    root = _run(ctx, m.module, m.suffix, m.template.replace('%s', ''.join(t for t, _ in pieces) + '<lb/>'),
                _jats([kind], {k: letter for k in SOURCES}), options)
    got = [(c, p) for c, p in _flat(root[0]) if c != '|']
    want = []
    for t, p in pieces:
        if '/ref[' in p and p.split('"')[-2] not in selected:
            p = p[:p.index('/ref[')]
        want.extend((c, tuple(p.split('/'))) for c in t if not c.isspace())
    ctx.check(ctx.eq([c for c, _ in got], [c for c, _ in want]), 'unexpected text', ''.join(c for c, _ in got))
    for (c, p), (_, w) in zip(got, want):
        if p != w:
            ctx.check(False, 'unexpected elements', [c, '/'.join(p), '/'.join(w),
                                                     etree.tostring(root).decode('utf-8')])
    ctx.reach('some' if len(selected) < len(inner) else 'all')


def shapes_sub(tier):
    out = []
    for model, elements in sorted(SUB_ELEMENTS.items()):
        one, two = SUB_FIELDS[model]
        for preserve, no_preserve, sub_fields in (
                (False, None, None), (True, None, None), (True, one, None), (True, two, None), (False, None, one),
                (True, None, two)):
            for e in sorted(elements):
                out.append({'model': model, 'first': e, 'n': 2 if tier == 'quick' else 3, 'preserve': preserve,
                            'no_preserve': no_preserve, 'sub_fields': sub_fields})
    return out


def shapes_existing(tier):
    out = []
    for model, elements in sorted(EXISTING.items()):
        for fields, always, no_preserve in EXISTING_OPTIONS.get(model, [(None, None, False), (None, None, True)]):
            for e in sorted(elements):
                out.append({'model': model, 'first': e, 'n': 2 if tier == 'quick' else 3, 'fields': fields,
                            'always': always, 'no_preserve': no_preserve})
    return out


def shapes(tier):
    out = []
    for name, m in sorted(MODELS.items()):
        n = 2 if len(m.kinds) > 2 else 3
        if tier != 'quick' and len(m.kinds) < 12:
            n += 1
        for options in m.options:
            for k in sorted(m.kinds) + ['none']:
                if tier == 'quick' and name == 'fulltext' and options and k not in (
                        'figure', 'table', 'item1', 'section', 'paragraph', 'none'):
                    continue
                out.append({'model': name, 'first': k, 'n': n, 'options': list(options)})
    return out


HARNESSES = [
    Harness('lines', lines, shapes, reach=['field', 'other']),
    Harness('existing', existing, shapes_existing, reach=['kept', 'not kept']),
    Harness('threshold', threshold, lambda tier: [
        {'model': a, 'kind': b} for a, b in (
            ('header', 'title'), ('fulltext', 'box'), ('segmentation', 'title'), ('figure', 'figure'),
            ('table', 'table'))], reach=['exact', 'below', 'above']),
    Harness('sub_fields', sub_fields, lambda tier: [
        {'kind': a, 'field': b} for a, b in (
            ('paragraph', 'section_paragraph'), ('paragraph2', 'section_paragraph'), ('item3', 'list_item'),
            ('box2', 'boxed_text_paragraph'))], reach=['some', 'all']),
    Harness('extend', extend, shapes_extend, reach=['extended', 'not extended']),
    Harness('sub_elements', sub_elements, shapes_sub, reach=['kept', 'not kept']),
]
BOUNDS = (
    'every command with the shipped mapping settings and the simple matcher, from its command line to the file '
    'written: documents of 2-3 (thorough 3-4) lines, each holding one value of 1 of up to 10 fields or text of no '
    'field, one field possibly missing in the source XML, symbolic letters in the first value and the first other '
    'text; 2 (3) existing elements per document or element, with every combination of the preserve options; lines of '
    'a value and one other word before or after it'
)
OUTSIDE = (
    'values spread over lines or appearing twice, inexact values (see C04, C05); the complex matcher; header '
    'elements kept when no fields are selected on the command line'
)
ASSUMPTIONS = []
