"""helpers shared by the document harnesses"""
from lxml import etree

from sciencebeam_trainer_grobid_tools.structured_document.grobid_training_tei import (
    GrobidTrainingTeiStructuredDocument
)


def build(ctx, spec, name='t', alphabet=None, parent=None, counter=None, ns=''):
    """spec: [tag, attrib, content...] with content: '#n' symbolic text of n characters,
    '=text' literal text, 'lb', or nested specs"""
    if counter is None:
        counter = [0]
    tag, attrib = ns + spec[0], spec[1]
    el = etree.Element(tag) if parent is None else etree.SubElement(parent, tag)
    for k, v in attrib.items():
        el.set(k, v)
    last = None
    for item in spec[2:]:
        if isinstance(item, str) and item != 'lb':
            if item[0] == '#':
                n = int(item[1:])
                counter[0] += 1
                kw = {} if alphabet is None else {'alphabet': alphabet}
                s = ctx.text('%s%d' % (name, counter[0]), n, **kw)
            else:
                s = item[1:]
            if last is None:
                el.text = (el.text or '') + s
            else:
                last.tail = (last.tail or '') + s
        elif item == 'lb':
            last = etree.SubElement(el, ns + 'lb')
        else:
            last = build(ctx, item, name, alphabet, el, counter, ns)
    return el


def text_of(el):
    return ''.join(el.itertext())


def expr_of(el):
    out = el.tag
    for k, v in sorted(el.attrib.items()):
        out += '[@%s="%s"]' % (k, v)
    return out


def flatten(el, path=(), own=True):
    """document order list of (text, path of (element, expression)) and (None, path) for lb"""
    out = []
    if el.text:
        out.append((el.text, path))
    for child in el:
        if child.tag == 'lb' or child.tag.endswith('}lb'):
            out.append((None, path))
            if child.text:
                out.append((child.text, path))
            for x in child:
                out.extend(flatten(x, path + ((x, expr_of(x)),)))
        else:
            out.extend(flatten(child, path + ((child, expr_of(child)),)))
        if child.tail:
            out.append((child.tail, path))
    return out


def non_space_marks(flat):
    """sequence of non-blank characters and line break marks ('\\n' marks), blanks dropped"""
    out = []
    for text, path in flat:
        if text is None:
            out.append(('|', path))
        else:
            for c in text:
                if not c.isspace():
                    out.append((c, path))
    return out


def document(root, **kwargs):
    return GrobidTrainingTeiStructuredDocument(root, **kwargs)


def iter_tokens(doc, all_tokens=False):
    out = []
    for page in doc.get_pages():
        for line in doc.get_lines_of_page(page):
            if all_tokens:
                out.extend(doc.get_all_tokens_of_line(line))
            else:
                out.extend(doc.get_tokens_of_line(line))
    return out
