#!/usr/bin/env python3
"""fills the generated sections of DESIGN.md (properties, planted changes)"""
import ast
import glob
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from properties_table import PROPS  # noqa

# what is executed symbolically, and what the result is compared with; seconds of the quick check on 8 cores
HOW = {
    'C01': ('the TEI document model: load, set any tags through its interface, write (and through files)',
            'the text read off the source tree before: same non-blank characters, blanks only where blanks or line '
            'breaks were, same line breaks, everything around the annotated part equal', 55),
    'C02': ('writing a document with any tags and sub tags per word',
            'the element path of each word computed from the mapping, element boundaries from begin/inside prefixes, '
            'and the tagging read back', 30),
    'C03': ('annotate_structured_document and the document model with every combination of preserve options',
            'the set of surviving tags by the definition of the options', 45),
    'C04': ('SimpleMatchingAnnotator and MatchingAnnotator on documents holding the value at a known place',
            'exactly the words at that place carry the tag, with one begin tag; other words keep what they had', 60),
    'C05': ('utils/fuzzy.py search functions',
            'reported range compared with the place the value was put at; ratio recomputed from the definition', 40),
    'C06': ('the line extension and reference post-processing functions, and one file through the pipeline',
            'tags of every word by the definition of the settings', 60),
    'C07': ('SegmentationAnnotator, its configuration, and one file through the pipeline',
            'the area of every line by the rules (mapped majority, page numbers, repeated lines, neighbours)', 60),
    'C08': ('LineNumberAnnotator and the options that configure it',
            'tagged words are increasing numbers at the start of lines within the limits; complete where claimed', 30),
    'C09': ('fix_jats_xml: references, identifiers, titles, whole files, output paths',
            'text before = text after; expected identifiers and titles from the place they were put at', 50),
    'C10': ('download_source_files: lists, patterns, copies, thread schedules (symbolic choices)',
            'expected set of files and their content', 15),
    'C11': ('the annotation pipeline and the JATS fixer over several files; the thread schedule and each file\'s fate '
            'are symbolic choices', 'the result of each file on its own, expected output names, error reporting', 60),
    'C12': ('document checks and the routing of files', 'verdict by the definition (present, similar enough)', 90),
    'C13': ('the post-processing annotators', 'tag of every word by the definition', 15),
    'C14': ('option parsers, mapping selection, the settings of the eight pipelines', 'definitions of the syntax', 20),
    'C15': ('the repair of source documents', 'well-formed ones unchanged; text and elements of others in order', 20),
    'C16': ('xml_root_to_target_annotations and get_text_content', 'values computed from the element layout', 20),
    'C17': ('main() of all eight commands, with the real settings, on files in a scratch directory (the symbolic '
            'letters travel through the files)', 'element path of every character from the model definition', 140),
}

CAUGHT = {}  # planted change -> other checks that catch it, where known


def module(pid):
    return glob.glob(os.path.join(VERIF, 'harness', 'c%s_*.py' % pid[1:]))[0]


def constants(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') in ('BOUNDS', 'OUTSIDE', 'ASSUMPTIONS'):
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


def props():
    out = []
    for e in PROPS:
        pid = e['id']
        c = constants(module(pid))
        what, oracle, cost = HOW[pid]
        out.append('### %s %s\n' % (pid, e['title']))
        out.append('- executed: %s (`%s`)' % (what, os.path.relpath(module(pid), VERIF)))
        out.append('- oracle: %s' % oracle)
        out.append('- bounds: %s' % c['BOUNDS'])
        out.append('- outside: %s' % c['OUTSIDE'])
        for a in c.get('ASSUMPTIONS') or []:
            out.append('- assumption: %s' % a)
        out.append('- cost: about %d s quick on 8 cores; beyond the tests: %s\n' % (cost, e['why']))
    return '\n'.join(out)


def seeded():
    out = ['| change | property | needs | caught by |', '|---|---|---|---|']
    for d in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*'))):
        m = json.load(open(os.path.join(d, 'meta.json')))
        name = os.path.basename(d)
        out.append('| %s | %s | %s | %s |' % (
            name, m['property'], m['needs'].replace('|', '\\|'), CAUGHT.get(name, m['property'])))
    return '\n'.join(out)


def main():
    path = os.path.join(VERIF, 'DESIGN.md')
    text = open(path).read()
    for name, content in (('PROPS', props()), ('SEEDED', seeded())):
        text = re.sub(r'<!-- %s -->.*<!-- /%s -->' % (name, name),
                      lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (name, content, name), text, flags=re.S)
    open(path, 'w').write(text)


if __name__ == '__main__':
    main()
