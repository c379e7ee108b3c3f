#!/opt/venv/bin/python
"""setup_cmd: is the engine usable here, and does it agree with Python on small programs?"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0' or not os.environ.get('PYTHONDONTWRITEBYTECODE'):
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))


def main():
    import harness.selftest_fns as plain
    from sx.ctx import ConCtx, norm
    plain_fns = {f.__name__: f for f, _ in plain.FUNCTIONS}
    del sys.modules['harness.selftest_fns']
    from sx import loader, run
    loader.install(['harness'])
    import harness.selftest_fns as sym
    assert sym is not plain
    bad = 0
    for fn, n in sym.FUNCTIONS:
        def h(ctx, fn=fn, n=n):
            ctx.observe('r', fn(ctx, n))
        # one witness per path, the model of every path
        r = run.explore(h, {}, witnesses=10 ** 6, slice_s=1000)
        assert not r['violations'] and not r['incomplete'] and not r['frontier'], (fn.__name__, r)
        for w in r['witnesses']:
            want = norm(plain_fns[fn.__name__](ConCtx(w['inputs']), n))
            got = dict(w['observed'])['r']
            if norm(got) != want:
                bad += 1
                print('MISMATCH', fn.__name__, w['inputs'], ascii(got), ascii(want))
        print('%s: %d paths agree' % (fn.__name__, r['stats']['paths']))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
