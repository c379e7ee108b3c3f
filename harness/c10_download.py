"""C10: document and target files are copied in pairs, unchanged, to the names given by the patterns."""
import gzip
import os
import shutil
import tempfile

from sciencebeam_trainer_grobid_tools import download_source_files
from sciencebeam_trainer_grobid_tools.download_source_files import (
    FileList,
    get_output_file_list,
    get_relative_output_file_list
)

from sx.harness import Harness
from harness.schedule import scheduled


def _write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with (gzip.open if path.endswith('.gz') else open)(path, 'wb') as f:
        f.write(data)


def _read(path):
    with open(path, 'rb') as f:
        data = f.read()
    return gzip.decompress(data) if path.endswith('.gz') else data


def _raw(path):
    with open(path, 'rb') as f:
        return f.read()


def _files(d):
    return sorted(os.path.relpath(os.path.join(base, name), d)
                  for base, _, names in os.walk(d) for name in names)


def _parts(path):
    """directory (with /), file name, name and extension without .gz"""
    d, _, filename = path.rpartition('/')
    plain = filename[:-3] if filename.lower().endswith('.gz') else filename
    i = plain.rfind('.')
    name, ext = (plain[:i], plain[i:]) if i > 0 and plain[:i].strip('.') else (plain, '')
    return {'dir': d + '/' if d else '', 'filename': filename, 'name': name, 'ext': ext}


def _expected(pattern, path, index, document, target):
    """reference: replace what is in the braces"""
    out = pattern
    for prefix, p in (('', path), ('document.', document), ('target.', target)):
        for k, v in _parts(p).items():
            out = v.join(out.split('{' + prefix + k + '}'))
    return out.replace('{index}', str(index))


PATTERNS = ['{filename}', '{name}.pdf', '{document.name}.xml.gz', '{dir}{filename}', '{index}{ext}',
            '{target.dir}{document.name}{ext}', 'd{index}/{name}']
NAMES = ['a.pdf', 'sub/b.pdf', 'sub/c.d.pdf.gz', 'e']
LISTS = {'tsv': '\t', 'csv': ',', 'lst': ''}


def run(ctx, n, kind, base, doc_pattern, target_pattern):
    """pairs of which both files exist are copied, and nothing else"""
    tmp = tempfile.mkdtemp()
    try:
        src = os.path.join(tmp, 'src')
        docs = [NAMES[i] for i in range(n)]
        targets = ['xml/t%d.xml' % i if i != 1 else 't%d.xml.gz' % i for i in range(n)]
        have_doc = [ctx.pick('doc%d' % i, [True, False]) for i in range(n)]
        have_target = [ctx.pick('target%d' % i, [True, False]) for i in range(n)]
        limit = ctx.pick('limit', [None] + list(range(1, n)))
        threads = ctx.pick('threads', [None, 2])
        absolute = ctx.pick('absolute', [False, True])
        for i in range(n):
            if have_doc[i]:
                _write(os.path.join(src, docs[i]), b'document %d' % i)
            if have_target[i]:
                _write(os.path.join(src, targets[i]), b'target %d' % i)
        sep = LISTS[kind]
        prefix = src + '/' if absolute else ''
        args = []
        for name, column, paths in (('document', 'source_url', docs), ('target', 'xml_url', targets)):
            lines = [prefix + p for p in paths]
            if sep:
                lines = ['other' + sep + column] + [str(i) + sep + p for i, p in enumerate(lines)]
            path = os.path.join(src, name + '.' + kind)
            _write(path, '\n'.join(lines).encode('utf-8') + b'\n')
            args += ['--%s-file-list=%s' % (name, path)]
            if base:
                args.append('--%s-base-path=%s' % (name, src))
        before = {f: _raw(os.path.join(src, f)) for f in _files(src)}
        out = os.path.join(tmp, 'out')
        args += ['--document-output-path=' + out + '/pdf', '--target-output-path=' + out + '/xml',
                 '--document-output-filename-pattern=' + doc_pattern,
                 '--target-output-filename-pattern=' + target_pattern]
        if limit:
            args.append('--limit=%d' % limit)
        if threads:
            args.append('--threads=%d' % threads)
        raised = None
        with scheduled(ctx, 0):
            try:
                download_source_files.main(args)
            except Exception as e:      # pylint: disable=broad-except
                raised = e
            pairs = [i for i in range(limit or n) if have_doc[i] and have_target[i]]
            expected = {}
            for index, i in enumerate(pairs):
                expected['pdf/' + _expected(doc_pattern, docs[i], index, docs[i], targets[i])] = b'document %d' % i
                expected['xml/' + _expected(target_pattern, targets[i], index, docs[i], targets[i])] = b'target %d' % i
            got = {f: _read(os.path.join(out, f)) for f in _files(out)}
            ctx.check(got == expected, 'not exactly the pairs are copied', [repr(got), repr(expected)])
            ctx.check((raised is not None) == (not pairs), 'error not reported, or without reason', [repr(raised)])
            after = {f: _raw(os.path.join(src, f)) for f in _files(src)}
            ctx.check(after == before, 'a source file changed')
        ctx.reach('copied' if pairs else 'none')
    finally:
        shutil.rmtree(tmp)


def same(ctx, threads):
    """copying to where the files are does not destroy them"""
    tmp = tempfile.mkdtemp()
    try:
        src = os.path.join(tmp, 'src')
        out = ctx.pick('out', [src, src + '/', src + '/.', tmp + '/link', src + '/sub'])
        pattern = ctx.pick('pattern', ['{filename}', '{dir}{filename}', '{name}.txt'])
        _write(src + '/a.pdf', b'document')
        _write(src + '/sub/a.xml', b'target')
        os.symlink(src, tmp + '/link')
        for name, path in (('document', 'a.pdf'), ('target', 'sub/a.xml')):
            _write(src + '/' + name + '.lst', path.encode('utf-8'))
        with scheduled(ctx, 0):
            try:
                download_source_files.main([
                    '--document-file-list=' + src + '/document.lst', '--target-file-list=' + src + '/target.lst',
                    '--document-output-path=' + out, '--target-output-path=' + out,
                    '--document-output-filename-pattern=' + pattern,
                    '--target-output-filename-pattern=' + pattern, '--threads=%d' % threads])
                ctx.reach('copied')
            except Exception:      # pylint: disable=broad-except
                ctx.reach('refused')
        ctx.check(_raw(src + '/a.pdf') == b'document' and _raw(src + '/sub/a.xml') == b'target',
                  'a source file was overwritten', [out, pattern])
    finally:
        shutil.rmtree(tmp)


def lengths(ctx, n):
    """lists of different length are not pairs: refused, nothing is written"""
    tmp = tempfile.mkdtemp()
    try:
        a, b = ctx.pick('documents', range(n)), ctx.pick('targets', range(n))
        ctx.assume(a != b)
        for i in range(n):
            _write(tmp + '/src/%d.pdf' % i, b'document')
            _write(tmp + '/src/%d.xml' % i, b'target')
        _write(tmp + '/src/document.lst', ''.join('%d.pdf\n' % i for i in range(a)).encode('utf-8'))
        _write(tmp + '/src/target.lst', ''.join('%d.xml\n' % i for i in range(b)).encode('utf-8'))
        raised = None
        with scheduled(ctx, 0):
            try:
                download_source_files.main([
                    '--document-file-list=' + tmp + '/src/document.lst',
                    '--target-file-list=' + tmp + '/src/target.lst',
                    '--document-output-path=' + tmp + '/out', '--target-output-path=' + tmp + '/out'])
            except Exception as e:      # pylint: disable=broad-except
                raised = e
        ctx.check(raised is not None, 'not refused', [a, b])
        ctx.check(_files(tmp + '/out') == [], 'files are written', [a, b])
        ctx.reach('refused')
    finally:
        shutil.rmtree(tmp)


def parallel(ctx, n, threads, preemptions):
    """the result does not depend on the schedule; a file that cannot be written is reported"""
    tmp = tempfile.mkdtemp()
    try:
        src, out = tmp + '/src', tmp + '/out'
        broken = ctx.pick('broken', [False, True])
        for i in range(n):
            _write(src + '/%d/a.pdf' % i, b'document %d' % i)
            _write(src + '/%d/a.xml' % i, b'target %d' % i)
        if broken:
            _write(out + '/1', b'in the way')
        _write(src + '/document.lst', ''.join('%d/a.pdf\n' % i for i in range(n)).encode('utf-8'))
        _write(src + '/target.lst', ''.join('%d/a.xml\n' % i for i in range(n)).encode('utf-8'))
        raised = None
        with scheduled(ctx, preemptions) as scheduler:
            try:
                download_source_files.main([
                    '--document-file-list=' + src + '/document.lst', '--target-file-list=' + src + '/target.lst',
                    '--document-base-path=' + src, '--target-base-path=' + src,
                    '--document-output-path=' + out, '--target-output-path=' + out,
                    '--document-output-filename-pattern={dir}{filename}',
                    '--target-output-filename-pattern={document.dir}{filename}', '--threads=%d' % threads])
            except Exception as e:      # pylint: disable=broad-except
                raised = e
            ctx.check((raised is not None) == broken, 'error not reported, or without reason', [repr(raised)])
            if not broken:
                got = {f: _raw(os.path.join(out, f)) for f in _files(out)}
                expected = {'%d/a.pdf' % i: b'document %d' % i for i in range(n)}
                expected.update({'%d/a.xml' % i: b'target %d' % i for i in range(n)})
                ctx.check(got == expected, 'the result depends on the schedule', [repr(got)])
            else:
                ctx.reach('reported')
            if scheduler.switches:
                ctx.reach('switched')
    finally:
        shutil.rmtree(tmp)


def names(ctx, n, pattern):
    """output names, for every file name"""
    base = ctx.text('base', n, 'aG./-')
    ctx.assume(not base.startswith('/') and not base.endswith('/') and not base.startswith('.')
               and '/.' not in base)
    gz = ctx.pick('gz', ['', '.gz', '.GZ', '.xml', '.xml.gz'])
    path = base + gz
    ctx.assume('{' not in path)
    others = ['x/y.pdf', path]
    targets = [path, 'u.v.xml.gz']
    got = get_relative_output_file_list(others, pattern, {'document': others, 'target': targets})
    expected = [_expected(pattern, others[i], i, others[i], targets[i]) for i in range(2)]
    ctx.check(ctx.eq(got[0], expected[0]), 'unexpected name', got[0])
    ctx.check(ctx.eq(got[1], expected[1]), 'unexpected name', got[1])
    for root in ('/src', '/src/'):
        files = FileList(root, ['/src/' + p for p in others])
        ctx.check(ctx.eq(files.relative_file_list[1], path), 'unexpected relative path')
        out = get_output_file_list(files, '/out', pattern, {'document': others, 'target': targets})
        ctx.check(ctx.eq(out.absolute_file_list[1], '/out/' + expected[1]), 'unexpected file', expected[1])
    ctx.reach('names')


HARNESSES = [
    Harness('run', run, lambda tier: [
        {'n': 2 if tier == 'quick' else 3, 'kind': k, 'base': b, 'doc_pattern': p, 'target_pattern': q}
        for k, b, p, q in [
            ('tsv', True, '{filename}', '{document.name}.xml'),
            ('csv', True, '{dir}{name}{ext}', '{document.dir}{document.name}{ext}'),
            ('lst', True, '{name}.pdf.gz', '{document.name}.xml.gz'),
            ('lst', False, '{filename}', '{filename}'),
            ('tsv', False, '{index}{ext}', '{document.filename}-{index}.xml'),
            ('csv', False, '{dir}{filename}', '{dir}{filename}'),
        ]], reach=['copied', 'none']),
    Harness('same', same, lambda tier: [{'threads': t} for t in (1, 2)], reach=['copied', 'refused']),
    Harness('lengths', lengths, lambda tier: [{'n': 3 if tier == 'quick' else 5}], reach=['refused']),
    Harness('parallel', parallel, lambda tier: [
        {'n': n, 'threads': t, 'preemptions': p}
        for n, t, p in ([(2, 2, 2)] if tier == 'quick' else [(2, 2, 4), (3, 3, 2)])],
            reach=['switched', 'reported']),
    Harness('names', names, lambda tier: [
        {'n': 3 if tier == 'quick' else 5, 'pattern': p} for p in PATTERNS], reach=['names']),
]
BOUNDS = (
    '2 (thorough 3) pairs of files, each present or not, in lists of 3 formats with relative or absolute '
    'names, with and without base path, limits, 1 or 2 threads and 6 combinations of patterns, plain and '
    'compressed files; outputs at the place of the sources, spelled in 5 ways; lists of 0-2 (0-4) files; '
    'two (three) pairs with two (three) threads under every schedule with up to 2 (4) preemptions at file '
    'operations; names of 3 (5) symbolic characters with 5 endings, 7 patterns'
)
OUTSIDE = (
    'two sources that the pattern gives the same output name (the last one written stays); remote file '
    'systems; a process ended while copying; file content is not symbolic'
)
ASSUMPTIONS = [
    'the thread pool is replaced with one that runs one task at a time and switches at file operations',
    'files written to a scratch directory read back as written',
]
