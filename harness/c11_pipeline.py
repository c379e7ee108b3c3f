"""C11: the pipeline annotates every selected file once, writes it to the right place, and files do not
affect each other, whatever fails and however the work is scheduled."""
import os
import shutil
import tempfile

from lxml import etree

from sciencebeam_trainer_grobid_tools import (
    auto_annotate_header,
    auto_annotate_figure,
    auto_annotate_fulltext,
    fix_jats_xml
)
from sciencebeam_trainer_grobid_tools.utils.regex import regex_change_name

from sx.harness import Harness
from harness.schedule import scheduled

REPO = os.environ.get('VERIF_REPO', '/repo')


def _xml(title):
    return ('<article><front><article-meta><title-group><article-title>' + title +
            '</article-title></title-group></article-meta></front></article>')


def _write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(text.encode('utf-8'))


def _read(path):
    with open(path, 'rb') as f:
        return f.read().decode('utf-8')


def _listing(d):
    return sorted(os.listdir(d)) if os.path.isdir(d) else []


KINDS = ('ok', 'failing', 'broken', 'missing')


class Env:
    def __init__(self, ctx, tmp, kinds, syms, ext='header'):
        self.tmp = tmp
        self.names = ['doc%d.%s.tei.xml' % (i, ext) for i in range(len(kinds))]
        self.kinds = kinds
        self.src = os.path.join(tmp, 'tei-raw')
        self.xml = os.path.join(tmp, 'xml')
        self.sources = {}
        for i, (name, kind) in enumerate(zip(self.names, kinds)):
            s = syms[i] if i < len(syms) else 'q'
            body = {'broken': '   '}.get(kind, '<tei><text><front>Intro ' + s + '<lb/>Title ' + 'abc'[i] + ' mice<lb/>'
                          + '</front></text></tei>')
            if kind == 'failing':
                body = '<tei><text><front>Intro ' + s + '<lb/>other</front></text></tei>'
            self.sources[name] = body
            _write(os.path.join(self.src, name), body)
            if kind != 'missing':
                _write(os.path.join(self.xml, 'doc%d.xml' % i), _xml('Title ' + 'abc'[i] + ' mice'))
        os.makedirs(self.xml, exist_ok=True)

    def args(self, out, *more):
        return [
            '--source-base-path=' + self.src, '--output-path=' + out, '--xml-path=' + self.xml,
            '--xml-filename-regex=/(.*).header.tei.xml/\\1.xml/', '--fields=title', '--matcher=simple',
            '--required-fields=title', '--xml-mapping-path=' + REPO + '/config/xml-mapping.conf'
        ] + list(more)


def run(ctx, n, first):
    tmp = tempfile.mkdtemp()
    try:
        with scheduled(ctx):
            _run(ctx, n, first, tmp)
    finally:
        shutil.rmtree(tmp)


def _run(ctx, n, first, tmp):
    kinds = [first] + [ctx.pick('kind%d' % i, ('ok', 'failing', 'missing')) for i in range(1, n)]
    syms = [ctx.text('s%d' % i, 1, 'z\xe9') for i in range(min(n, 2))]
    env = Env(ctx, tmp, kinds, syms)
    resume = ctx.pick('resume', [False, True])
    skip = ctx.pick('skip', [False, True])
    failed = ctx.pick('failed', [False, True])
    done = [ctx.pick('done%d' % i, [False, True]) for i in range(n)]
    out, failed_out = os.path.join(tmp, 'out'), os.path.join(tmp, 'failed')
    for i, d in enumerate(done):
        if d:
            _write(os.path.join(out, env.names[i]), 'EXISTING')
    args = env.args(out)
    if resume:
        args.append('--resume')
    if skip:
        args.append('--skip-errors')
    if failed:
        args.append('--failed-output-path=' + failed_out)
    todo = [i for i in range(n) if not (resume and done[i])]
    bad = [i for i in todo if kinds[i] in ('broken', 'missing')]
    raised = None
    try:
        auto_annotate_header.main(args, save_main_session=False)
    except Exception as e:      # pylint: disable=broad-except
        raised = e
    if bad and not skip:
        ctx.check(raised is not None, 'an error was not reported', [kinds])
        ctx.check(any(env.names[i] in str(raised) for i in bad), 'the error does not name the file',
                  [kinds, str(raised)])
        ctx.reach('error')
    else:
        ctx.check(raised is None, 'unexpected error', [kinds, str(raised)])
        ctx.reach('no error')
        for i in range(n):
            path = os.path.join(out, env.names[i])
            if i in todo and kinds[i] == 'ok':
                ctx.check(os.path.exists(path), 'a file was not annotated', [kinds, env.names[i]])
            if i in todo and kinds[i] == 'failing':
                ctx.check(os.path.exists(os.path.join(failed_out, env.names[i])) == failed,
                          'a document failing the checks is not where it should be', [kinds, failed])
    for i in range(n):
        path = os.path.join(out, env.names[i])
        if os.path.exists(path):
            content = _read(path)
            if i not in todo or kinds[i] != 'ok':
                ctx.check(done[i] and ctx.eq(content, 'EXISTING'),
                          'an output file that should not be written was', [kinds, env.names[i]])
            elif not (done[i] and content == 'EXISTING'):
                root = etree.fromstring(content)
                title = ''.join(root.find('.//titlePart').itertext())
                ctx.check(title == 'Title ' + 'abc'[i] + ' mice', 'annotated with the wrong target',
                          [title])
                ctx.check(ctx.eq(_text(content), _text(env.sources[env.names[i]])),
                          'the text is not the one of the source', content)
                ctx.reach('annotated')
            else:
                # left as it was because of an error in another file
                ctx.check(raised is not None, 'an existing output file was not replaced', [kinds])
    extra = [x for x in _listing(out) if x not in env.names]
    ctx.check(not extra and (failed or not os.path.exists(failed_out)), 'unexpected files', extra)
    ctx.check(all(kinds[env.names.index(x)] == 'failing' for x in _listing(failed_out)),
              'a document that did not fail the checks is with the failed ones', _listing(failed_out))
    for name, body in env.sources.items():
        ctx.check(ctx.eq(_read(os.path.join(env.src, name)), body), 'a source file changed', name)


def _text(xml):
    root = etree.fromstring(xml)
    return ''.join(c for t in root.itertext() for c in t if not c.isspace())


def limit(ctx):
    """at most the given number of files is processed; with a source path just that file"""
    tmp = tempfile.mkdtemp()
    try:
        with scheduled(ctx):
            env = Env(ctx, tmp, ['ok'] * 3, [])
            k = ctx.pick('limit', [1, 2, 3, 4])
            out = os.path.join(tmp, 'out')
            single = ctx.pick('single', [-1, 0, 1, 2])
            if single >= 0:
                args = ['--source-path=' + os.path.join(env.src, env.names[single])] + env.args(out)[1:]
            else:
                args = env.args(out, '--limit=%d' % k)
            auto_annotate_header.main(args, save_main_session=False)
            expected = 1 if single >= 0 else min(k, 3)
            ctx.check(len(_listing(out)) == expected, 'wrong number of files', _listing(out))
            if single >= 0:
                ctx.check(_listing(out) == [env.names[single]], 'wrong file', _listing(out))
            ctx.reach('limit')
    finally:
        shutil.rmtree(tmp)


# ---- schedules

FIG = ('<tei><text><figure>Figure 1 %s</figure></text></tei>')
FULL = '<tei><text>Section %s<lb/>This is it %s</text></tei>'


def _fig_xml(t):
    return ('<article><body><sec><title>Section ' + t + '</title><p>This is it ' + t + '</p><fig><label>Figure 1'
            '</label><caption><p>' + t + '</p></caption></fig></sec></body><back><ref-list><ref>'
            '<mixed-citation><article-title>Title ' + t + '</article-title></mixed-citation></ref>'
            '</ref-list></back></article>')


PIPES = {
    'figure': (auto_annotate_figure, FIG, 1, '--fields=figure'),
    'fulltext': (auto_annotate_fulltext, FULL, 2, '--fields=section_title,section_paragraph'),
    'header': (auto_annotate_header, None, 0, '--fields=title'),
}


def parallel(ctx, pipe, n, workers, preemptions):
    """files annotated by several workers come out as if annotated one at a time"""
    module, body, k, fields = PIPES[pipe]
    tmp = tempfile.mkdtemp()
    try:
        src, xml = os.path.join(tmp, 'src'), os.path.join(tmp, 'xml')
        words = ['alpha', 'beta', 'gamma'][:n]
        names = ['doc%d.%s.tei.xml' % (i, pipe) for i in range(n)]
        for i, w in enumerate(words):
            if body is None:
                text = '<tei><text><front>Intro<lb/>Title %s<lb/></front></text></tei>' % w
            else:
                text = body % ((w,) * k)
            _write(os.path.join(src, names[i]), text)
            _write(os.path.join(xml, 'doc%d.xml' % i), _xml('Title ' + w) if body is None else _fig_xml(w))

        def args(base, out, num):
            return [base, '--output-path=' + out, '--xml-path=' + xml,
                    '--xml-filename-regex=/(.*).%s.tei.xml/\\1.xml/' % pipe, fields, '--matcher=simple',
                    '--xml-mapping-path=' + REPO + '/config/xml-mapping.conf', '--num-workers=%d' % num]

        alone = os.path.join(tmp, 'alone')
        with scheduled(ctx, 0):
            for i in range(n):
                module.main(args('--source-path=' + os.path.join(src, names[i]), alone, 1),
                            save_main_session=False)
        expected = [_read(os.path.join(alone, x)) for x in names]
        out = os.path.join(tmp, 'out')
        with scheduled(ctx, preemptions) as scheduler:
            try:
                module.main(args('--source-base-path=' + src, out, workers), save_main_session=False)
            except Exception as e:      # pylint: disable=broad-except
                ctx.fail('failed because of the schedule', [repr(e)])
            got = [_read(os.path.join(out, x)) if os.path.exists(os.path.join(out, x)) else None
                   for x in names]
            ctx.check(got == expected, 'the result depends on the schedule', [repr(got)])
            ctx.check(_listing(out) == names, 'unexpected files', _listing(out))
            if scheduler.switches:
                ctx.reach('switched')
            ctx.reach(pipe)
    finally:
        shutil.rmtree(tmp)


def fix_jats(ctx, n, workers, preemptions):
    """several JATS files are fixed by several workers, one may be invalid"""
    tmp = tempfile.mkdtemp()
    try:
        src, out = os.path.join(tmp, 'src'), os.path.join(tmp, 'out')
        bad = ctx.pick('bad', range(-1, n))
        names = ['d%d.xml' % i for i in range(n)]
        for i in range(n):
            _write(os.path.join(src, names[i]), '<article>' if i == bad else (
                '<article><back><ref-list><ref id="r%d"><mixed-citation>PMID: 1%d.</mixed-citation></ref>'
                '</ref-list></back></article>' % (i, i)))
        raised = None
        with scheduled(ctx, preemptions) as scheduler:
            try:
                fix_jats_xml.main(['--source-base-path=' + src, '--output-path=' + out,
                                   '--source-filename-pattern=*.xml', '--num-workers=%d' % workers])
            except Exception as e:      # pylint: disable=broad-except
                raised = e
            ctx.check((raised is not None) == (bad >= 0), 'error not reported, or without reason', [bad, repr(raised)])
            if raised is not None:
                ctx.check(names[bad] in str(raised), 'the error does not name the file', repr(raised))
                ctx.reach('error')
            for i in range(n):
                if i != bad and raised is None:
                    root = etree.fromstring(_read(os.path.join(out, names[i])).encode('utf-8'))
                    ctx.check([p.text for p in root.iter('pub-id')] == ['1%d' % i], 'wrong content', names[i])
                    ctx.reach('fixed')
            ctx.check(bad < 0 or names[bad] not in _listing(out), 'output for a file that failed')
            if scheduler.switches:
                ctx.reach('switched')
    finally:
        shutil.rmtree(tmp)


# ---- names

def names(ctx, n, pattern):
    """output, failed output and target file names"""
    base = ctx.text('base', n, 'a.1_-x')
    ext = ctx.pick('ext', ['.header.tei.xml', '.header.tei.xml.gz'])
    name = base + ext
    src = ctx.pick('src', ['/data/in/', 'gs://b/in/', 'in/'])
    out = ctx.pick('out', ['/data/out', 'out/', 'gs://b/out'])
    failed = ctx.pick('failed', ['', '/data/failed'])
    opt = auto_annotate_header.parse_args([
        '--source-base-path=x', '--output-path=' + out, '--xml-path=/xml',
        '--xml-filename-regex=' + pattern, '--fields=title',
        '--xml-mapping-path=' + REPO + '/config/xml-mapping.conf',
        '--failed-output-path=' + failed])
    factory = auto_annotate_header.AnnotatePipelineFactory(opt)
    got = factory.get_tei_xml_output_file_for_source_file(src + name)
    ctx.check(ctx.eq(got, out + ('' if out.endswith('/') else '/') + name), 'unexpected output file', got)
    got = factory.get_tei_xml_failed_output_file_for_source_file(src + name)
    if failed:
        ctx.check(ctx.eq(got, failed + '/' + name), 'unexpected file for failed documents', got)
    else:
        ctx.check(got is None, 'unexpected file for failed documents', got)
    target = factory.get_target_xml_for_source_file(src + name)
    expected = {'/(.*).header.tei.xml/\\1.xml/': base + '.xml' + ext[15:],
                '#\\.header\\.tei\\.xml(\\.gz)?$#.jats.xml#': base + '.jats.xml',
                '/^(.*?)\\.header.*$/\\1/': base}[pattern]
    ctx.check(ctx.eq(target, '/xml/' + expected), 'unexpected target file', target)
    ctx.check(ctx.eq(regex_change_name(name, pattern), expected), 'unexpected name')
    ctx.reach('names')


PATTERNS = ['/(.*).header.tei.xml/\\1.xml/', '#\\.header\\.tei\\.xml(\\.gz)?$#.jats.xml#',
            '/^(.*?)\\.header.*$/\\1/']


HARNESSES = [
    Harness('run', run, lambda tier: [
        {'n': 2 if tier == 'quick' else 3, 'first': k} for k in KINDS],
            reach=['error', 'no error', 'annotated']),
    Harness('limit', limit, lambda tier: [{}], reach=['limit']),
    Harness('parallel', parallel, lambda tier: [
        {'pipe': p, 'n': n, 'workers': w, 'preemptions': k} for p in ('figure', 'fulltext', 'header')
        for n, w, k in ([(2, 2, 2)] if tier == 'quick' else [(2, 2, 3), (3, 2, 1), (3, 3, 1)])],
            reach=['switched', 'figure', 'fulltext', 'header']),
    Harness('fix_jats', fix_jats, lambda tier: [
        {'n': n, 'workers': w, 'preemptions': k}
        for n, w, k in ([(2, 2, 2), (3, 1, 0)] if tier == 'quick' else [(2, 2, 4), (3, 2, 2), (3, 3, 2)])],
            reach=['error', 'fixed', 'switched']),
    Harness('names', names, lambda tier: [
        {'n': 2 if tier == 'quick' else 4, 'pattern': p} for p in PATTERNS], reach=['names']),
]
BOUNDS = (
    '2 (thorough 3) source files, each well-formed, failing the checks, empty or without target file, with '
    'existing output or not, one symbolic character of text each, all combinations of --resume, --skip-errors '
    'and --failed-output-path; limits 1-4; two files and two workers (thorough 3) of three annotators and of '
    'the JATS fixer under every schedule with up to 2 preemptions (thorough 3 for two files, 1 for three; JATS 4 and 2) at file operations and at temporary '
    'directory clean up; file names with 2 (4) symbolic characters, 3 base, 3 output paths, 3 patterns'
)
OUTSIDE = (
    'a process ended while it writes (a partial output file counts as done with --resume); '
    '--multi-processing; cloud runners and remote file systems; preemption between other instructions; '
    'schedules with more preemptions'
)
ASSUMPTIONS = [
    'the thread pool of concurrent.futures is replaced with one that runs one worker at a time and switches '
    'at file operations; anything the workers share is only touched between them',
    'files written to a scratch directory read back as written',
]
