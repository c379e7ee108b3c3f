"""C15: repairing a source document keeps valid ones as they are, and otherwise keeps all text and
elements, closing elements that were left open."""
import gzip
import os
import shutil
import tempfile

from lxml import etree

from sciencebeam_trainer_grobid_tools.utils.xml import (
    get_fixed_xml_str,
    get_fixed_xml_bytes,
    get_fixed_source_url,
    parse_xml
)
from sciencebeam_trainer_grobid_tools import auto_annotate_figure

from sx.harness import Harness

CHARS = 'ab Z1>"\';=/&'[:-1] + '\xe9\u2020]'


# ---- reference: events -> expected tree, as a flat list of marks

class Tree:
    def __init__(self):
        self.out = []
        self.stack = []
        self.repaired = False
        self.done = False

    def start(self, tag, attrs=()):
        self.out.append(['<', tag, [list(a) for a in attrs]])
        self.stack.append(tag)

    def _pop(self):
        self.out.append(['>', self.stack.pop()])
        if not self.stack:
            self.done = True

    def end(self, tag):
        if tag in self.stack:
            while self.stack[-1] != tag:
                self.repaired = True
                self._pop()
            self._pop()
            return
        self.repaired = True
        if len(self.stack) > 1:
            self._pop()

    def text(self, s):
        if self.out and self.out[-1][0] == '"':
            self.out[-1] = ['"', self.out[-1][1] + s]
        else:
            self.out.append(['"', s])

    def finish(self):
        while self.stack:
            self.repaired = True
            self._pop()


def marks(el):
    out = [['<', el.tag, [list(a) for a in sorted(el.attrib.items())]]]
    if el.text:
        out.append(['"', el.text])
    for c in el:
        if isinstance(c.tag, str):
            out.extend(marks(c))
        if c.tail:
            if out[-1][0] == '"':
                out[-1] = ['"', out[-1][1] + c.tail]
            else:
                out.append(['"', c.tail])
    out.append(['>', el.tag])
    return out


def _drop_empty(ms):
    return [m for m in ms if m[0] != '"' or m[1]]


PIECES = {
    'amp': ('x &amp; y', 'x & y', True),
    'lt': ('1 &lt; 2', '1 < 2', True),
    'num': ('a&#x2020;b', 'a\u2020b', True),
    'bare': ('1 < 2', '1 < 2', False),
    'named': ('a&dagger;', 'a\u2020', False),
    'nl': ('a\n b', 'a\n b', True),
    'blank': ('<![CDATA[ ]]>', ' ', True),
    'cdata': ('<![CDATA[1 < 2]]>', '1 < 2', True),
}


def _event(ctx, tree, i, kinds, nchars):
    """one picked event: returns its source text"""
    kind = ctx.pick('e%d' % i, kinds)
    if kind == '#':
        s = ctx.text('t%d' % i, nchars, CHARS)
        tree.text(s)
        return s
    if kind in PIECES:
        src, value, valid = PIECES[kind]
        tree.text(value)
        if not valid:
            tree.repaired = True
        return src
    if kind == 'attr':
        v = ctx.text('v%d' % i, nchars, 'ab Z1;/=\xe9')
        tree.start('row', [('k', v)])
        return '<row k="' + v + '">'
    if kind == 'noval':
        tree.start('row', [('k', '')])
        tree.repaired = True
        return '<row k>'
    if kind.startswith('</'):
        tree.end(kind[2:-1])
        return kind
    if kind.endswith('/>'):
        tree.start(kind[1:-2])
        tree.end(kind[1:-2])
        return kind
    tree.start(kind[1:-1])
    return kind


def _source(ctx, n, kinds, nchars, prolog, closed):
    tree = Tree()
    tree.start('tei')
    src = prolog + '<tei>'
    for i in range(n):
        src += _event(ctx, tree, i, kinds, nchars)
        ctx.assume(not tree.done)
    if closed:
        src += '</tei>'
        tree.end('tei')
    tree.finish()
    return src, tree


def _check(ctx, src, result, tree, label):
    try:
        root = etree.fromstring(result.encode('utf-8'))
    except etree.XMLSyntaxError:
        ctx.fail('the result is not well-formed XML', [src, result])
    if not tree.repaired:
        ctx.check(ctx.eq(result, src), 'a valid document was changed', [src, result])
        ctx.reach('valid')
    else:
        ctx.reach('repaired')
    ctx.check(ctx.eq(_drop_empty(marks(root)), _drop_empty(tree.out)), label,
              [src, result, tree.out])


def h_repair(ctx, n, kinds, nchars, prolog='', closed=True):
    src, tree = _source(ctx, n, kinds, nchars, prolog, closed)
    result = get_fixed_xml_str(src)
    _check(ctx, src, result, tree, 'text, elements or attributes lost or moved by the repair')
    ctx.observe('result', result)


def h_attribute_case(ctx):
    name = ctx.pick("name", ["n", "xml:lang", 'corresp', 'targetType'])
    src = '<tei><row %s="1">x</tei>' % name
    result = get_fixed_xml_str(src)
    root = etree.fromstring(result)
    key = name.replace('xml:', '{http://www.w3.org/XML/1998/namespace}')
    ctx.check(root[0].get(key) == '1', 'attribute renamed by the repair', [src, result],
              known={'C15-attribute-case': name != name.lower()})
    ctx.reach('done')


def h_file(ctx, suffix, kinds, n):
    """the repaired copy used for reading; the source file stays as it is"""
    src, tree = _source(ctx, n, kinds, 1, '', True)
    d = tempfile.mkdtemp(prefix='sx-c15-')
    try:
        path = os.path.join(d, 'a' + suffix)
        data = src.encode('utf-8')
        with (gzip.open if suffix.endswith('.gz') else open)(path, 'wb') as f:
            f.write(data)
        with get_fixed_source_url(path) as fixed:
            ctx.check(os.path.basename(fixed) == 'a' + suffix, 'name of the repaired file')
            ctx.check(os.path.dirname(fixed) != d, 'repaired in place')
            with (gzip.open if suffix.endswith('.gz') else open)(fixed, 'rb') as f:
                result = f.read()
        ctx.check(not os.path.exists(fixed), 'temporary file left behind')
        with (gzip.open if suffix.endswith('.gz') else open)(path, 'rb') as f:
            ctx.check(ctx.eq(f.read(), data), 'source file modified')
    finally:
        shutil.rmtree(d)
    _check(ctx, src, result.decode('utf-8'), tree, 'text, elements or attributes lost or moved')
    ctx.check(ctx.eq(get_fixed_xml_bytes(data), result), 'file and data are repaired differently')


def h_figure(ctx, n, kinds):
    """figure documents: end tags of content elements that were never opened are dropped"""
    src = ''
    stack = []
    opened = stray = False
    text = ''
    for i in range(n):
        kind = ctx.pick('e%d' % i, kinds)
        if kind == '#':
            s = ctx.text('t%d' % i, 2, CHARS)
            text += s
            src += s
            continue
        src += kind
        opened = opened or kind == '<content>'
        stray = stray or kind == '</content>'
    src = '<tei><figure>' + src + '</figure></tei>'
    d = tempfile.mkdtemp(prefix='sx-c15-')
    try:
        path = os.path.join(d, 'a.xml')
        data = src.encode('utf-8')
        with open(path, 'wb') as f:
            f.write(data)
        with auto_annotate_figure.get_fixed_source_url(path) as fixed:
            with open(fixed, 'rb') as f:
                result = f.read()
        with open(path, 'rb') as f:
            ctx.check(ctx.eq(f.read(), data), 'source file modified')
    finally:
        shutil.rmtree(d)
    result = result.decode('utf-8')
    if stray and not opened:
        want = src.replace('</content>', '')
        ctx.reach('stray')
    else:
        want = src
        ctx.reach('kept')
    ctx.check(ctx.eq(result, want), 'figure document changed otherwise than by dropping stray end '
              'tags', [src, result])


def h_parse(ctx, lead, pieces, n):
    """reading source XML: leading blanks and the dagger entity are tolerated when asked to fix"""
    fix = ctx.pick('fix', [True, False])
    blanks = ctx.pick('lead', lead)
    text = ctx.text('t', n, CHARS + ' \t')
    piece = ctx.pick('piece', pieces)
    tail = ctx.text('u', 1, CHARS)
    src = blanks + '<article><p>' + text + piece + tail + '</p></article>'
    decl = ctx.pick('decl', [False, True])
    if decl:
        src = blanks + '<?xml version="1.0" encoding="utf-8"?>' + src[len(blanks):]
    d = tempfile.mkdtemp(prefix='sx-c15-')
    try:
        path = os.path.join(d, 'a.xml')
        data = src.encode('utf-8')
        with open(path, 'wb') as f:
            f.write(data)
        with open(path, 'rb') as f:
            ctx.check(ctx.eq(f.read(), data), 'harness')
        error = None
        root = None
        try:
            root = parse_xml(path, fix_xml=fix).getroot()
        except Exception as e:  # pylint: disable=broad-except
            error = e
        with open(path, 'rb') as f:
            ctx.check(ctx.eq(f.read(), data), 'source file modified')
    finally:
        shutil.rmtree(d)
    value = {'': '', '&amp;': '&', '&dagger;': '\u2020', '&#8224;': '\u2020', '</q>': None,
             '&other;': None}[piece]
    ok = value is not None
    if not fix:
        if piece == '&dagger;':
            ok = False
        if decl and '\n' in blanks:
            ok = False
    if not ok:
        ctx.check(error is not None, 'invalid source XML was accepted', [src])
        line = getattr(error, 'error_line', None)
        if line is not None:
            line = line.decode('utf-8')
            ctx.check(line != '' and line in src, 'reported line is not a line of the file',
                      [src, line])
            ctx.reach('error line')
        ctx.reach('refused')
        return
    ctx.check(error is None, 'source XML could not be read', [src, repr(error)])
    ctx.check(ctx.eq(root[0].text or '', text + value + tail), 'text of the source XML changed',
              [root[0].text, src])
    ctx.reach('read')


K1 = ['<a>', '</a>', '<b>', '</b>', '#']
K2 = ['<listBibl>', '</listBibl>', '<lb/>', '</q>', 'attr', '#']
K3 = ['<a>', '</a>', 'noval', '</row>', 'bare', 'named', 'amp']
K4 = ['<title>', '</title>', '<hi>', '</hi>', 'amp', '</x>']
K5 = ['<script>', '</script>', '<a>', 'lt', 'cdata', 'nl', 'num']
K6 = ['<br>', '</br>', '<col>', '</link>', '<img/>', 'blank', 'amp']


def shapes_repair(tier):
    big = tier == 'thorough'
    n = 6 if big else 5
    out = [
        {'n': n, 'kinds': K1, 'nchars': 1},
        {'n': n - 1, 'kinds': K1, 'nchars': 2, 'closed': False},
        {'n': n, 'kinds': K2, 'nchars': 1},
        {'n': n - 1, 'kinds': K3, 'nchars': 1},
        {'n': n, 'kinds': K4, 'nchars': 1},
        {'n': n - 1, 'kinds': K5, 'nchars': 1},
        {'n': n - 1, 'kinds': K6, 'nchars': 1},
        {'n': 2, 'kinds': K1, 'nchars': 2,
         'prolog': '<?xml version="1.0" encoding="UTF-8"?>\n'},
    ]
    if big:
        out.append({'n': 7, 'kinds': ['<a>', '</a>', '<b>', '</b>', '</c>'], 'nchars': 1})
        out.append({'n': 3, 'kinds': K1 + K2 + K3, 'nchars': 1, 'closed': False})
    return out


BOUNDS = (
    'documents <tei>...</tei> (or without end tag, or with an XML declaration) of every sequence of 4-5 '
    '(thorough 5-7) events out of start, end, empty and unrelated end tags of 2-3 names (mixed case, '
    'names with special rules in HTML), attributes with and without value, symbolic text of 1-2 '
    'characters, entities, bare < and CDATA; source XML files with leading blanks, entities and text'
)
OUTSIDE = (
    'documents with more than one root element or text outside of it; longer documents; comments and '
    'processing instructions (not kept by the repair); symbolic < and & (the XML parser decides on '
    'concrete markup)'
)
ASSUMPTIONS = [
    'lxml parses and serialises faithfully and treats every character of the text alphabet (no < or &) '
    'alike',
]
HARNESSES = [
    Harness('repair', h_repair, shapes_repair, reach=('valid', 'repaired')),
    Harness('attribute_case', h_attribute_case, lambda t: [{}], reach=()),
    Harness('file', h_file, lambda t: [
        {'suffix': s, 'kinds': ['<a>', '</a>', '</b>', '#', 'named'], 'n': 2 if t == 'quick' else 3}
        for s in ('.xml', '.xml.gz')], reach=('valid', 'repaired')),
    Harness('figure', h_figure, lambda t: [
        {'n': 3 if t == 'quick' else 4, 'kinds': ['<content>', '</content>', '#', '<content/>']}],
        reach=('stray', 'kept')),
    Harness('parse', h_parse, lambda t: [
        {'lead': ['', ' ', '  ', '\n', ' \n\t'], 'n': 2,
         'pieces': ['', '&amp;', '&dagger;', '&#8224;', '</q>', '&other;']}],
        reach=('refused', 'read', 'error line')),
]
