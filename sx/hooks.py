"""Run-time entry points the rewritten code calls."""
import functools
import itertools
import logging
import operator
import re
import types

import regex

from . import core, symre
from .core import (
    SymBool, SymFD, SymInt, SymStr, concretize, has_sym, is_sym, mk_str, s_and, s_eq, s_in,
    s_mod, s_not, unwrap, wrap
)

_RE_FUNCS = {}
for _mod in (re, regex):
    for _n in ('match', 'fullmatch', 'search', 'finditer', 'findall', 'split'):
        _RE_FUNCS[getattr(_mod, _n)] = (_mod, _n)
    for _n in ('sub', 'subn'):
        _RE_FUNCS[getattr(_mod, _n)] = (_mod, _n)

_PATTERN_TYPES = (re.Pattern, type(regex.compile('a')))


def sx_regex(module, name, pattern, *args, **kwargs):
    if type(pattern) is SymFD or type(pattern) is SymStr:
        pattern = concretize(pattern)
    args = list(args)
    if name in ('sub', 'subn'):
        repl = args.pop(0) if args else kwargs.pop('repl')
        string = args.pop(0) if args else kwargs.pop('string')
        count = args.pop(0) if args else kwargs.pop('count', 0)
        flags = args.pop(0) if args else kwargs.pop('flags', 0)
        if isinstance(string, SymFD):
            string = concretize(string)
        if not has_sym(string) and not callable(repl) and not has_sym(repl):
            return _real(module, pattern, name, (repl, string, count), flags)
        if not isinstance(string, str):
            return _real(module, pattern, name, (repl, string, count), flags)
        rx = symre.get(pattern, flags, module)
        if rx is None:
            string = concretize(string)
            return wrap(_real(module, pattern, name, (
                (lambda m: unwrap(repl(m))) if callable(repl) else concretize(repl), string, count
            ), flags))
        return symre.sub(rx, repl, SymStr(string), count, with_count=name == 'subn')
    string = args.pop(0) if args else kwargs.pop('string')
    flags = 0
    if isinstance(pattern, str):
        if name == 'split':
            maxsplit = args.pop(0) if args else kwargs.pop('maxsplit', 0)
            flags = args.pop(0) if args else kwargs.pop('flags', 0)
            args = [maxsplit]
        else:
            flags = args.pop(0) if args else kwargs.pop('flags', 0)
    if type(string) is SymFD:
        if name == 'split':
            return concretize_call(lambda s: _real(module, pattern, name, (s, *args), flags), string)
        string = concretize(string)
    if type(string) is not SymStr:
        return _real(module, pattern, name, (string, *args), flags, **kwargs)
    rx = symre.get(pattern, flags, module)
    if rx is None:
        return wrap(_real(module, pattern, name, (concretize(string), *args), flags, **kwargs))
    return symre.op(rx, name, string, *args, **kwargs)


def concretize_call(f, x):
    return f(concretize(x))


def _real(module, pattern, name, args, flags, **kwargs):
    if isinstance(pattern, str):
        pattern = module.compile(pattern, flags)
    return getattr(pattern, name)(*args, **kwargs)


# ---------------------------------------------------------------------------
def _sx_isinstance(obj, cls):
    t = type(obj)
    if t is SymFD:
        return obj.lift(lambda v: isinstance(v, cls))
    if t is SymInt:
        return isinstance(0, cls)
    if t is SymBool:
        return isinstance(True, cls)
    return isinstance(obj, cls)


def _sx_str(*args, **kwargs):
    if args and type(args[0]) is SymStr:
        return args[0]
    if args and type(args[0]) is SymFD:
        return args[0].lift(str)
    return wrap(str(*[concretize(a) for a in args], **kwargs))


def _sx_int(*args, **kwargs):
    if args:
        a = args[0]
        if type(a) is SymInt:
            return a
        if type(a) is SymFD:
            return a.lift(int, *args[1:])
        if type(a) is SymStr and len(args) == 1:
            ok = s_and(*[
                core.char_pred(c, 'asciidigit', lambda x: '0' <= x <= '9') for c in str.__iter__(a)
            ])
            if len(a) and ok:
                import z3
                z = z3.IntVal(0)
                deps = set()
                for c in str.__iter__(a):
                    if c >= core.PUA_CHR:
                        var, table = core.engine().chars[c]
                        deps.add(var)
                        d = core.engine().domain(var)
                        vals = [(i, int(table[i])) for i in range(var.size)
                                if d >> i & 1 and table[i] in '0123456789']
                        e = z3.IntVal(vals[-1][1])
                        for i, v in vals[:-1]:
                            e = z3.If(var.z == i, z3.IntVal(v), e)
                        core.engine().entangled.add(var)
                    else:
                        e = z3.IntVal(int(c))
                    z = z * 10 + e
                return core.mk_int(z, frozenset(deps))
            if len(a):
                # neither blank-padded nor otherwise accepted by int(): cheap exact test first
                p = s_and(*[
                    core.char_pred(c, 'plainnondigit', lambda x: not x.isdigit() and x not in '_+-'
                                   and not x.isspace()) for c in str.__iter__(a)
                ])
                if p:
                    raise ValueError('invalid literal for int()')
            return int(concretize(a))
    return int(*[concretize(a) for a in args], **kwargs)


def _sx_bool(*args):
    if args and type(args[0]) is SymFD:
        return args[0].lift(bool)
    if args and type(args[0]) is SymBool:
        return args[0]
    return bool(*args)


def _sx_len(x):
    if type(x) is SymFD:
        return x.lift(len)
    return len(x)


def _sx_ord(c):
    return ord(concretize(c))


def _sx_dict(*args, **kwargs):
    if args and type(args[0]).__module__.startswith('lxml'):
        return {k: mk_str(v) for k, v in dict(args[0]).items()}
    return dict(*args, **kwargs)


def _sx_set(*args):
    return set(*args)


def _sx_list(*args):
    return wrap(list(*args))


def _sx_tuple(*args):
    return wrap(tuple(*args))


def _sx_sum(it, *a):
    return sum(it, *a)


def _sx_map(f, *its):
    return map(lambda *a: call(f, *a), *its)


def _sx_filter(f, it):
    if f is None:
        return filter(None, it)
    return filter(lambda a: call(f, a), it)


def _sx_sorted(it, *, key=None, reverse=False):
    if key is None:
        return sorted(it, reverse=reverse)
    return sorted(it, key=lambda a: call(key, a), reverse=reverse)


def _sx_minmax(f):
    def g(*args, **kwargs):
        if 'key' in kwargs and kwargs['key'] is not None:
            k = kwargs['key']
            kwargs['key'] = lambda a: call(k, a)
        return f(*args, **kwargs)
    return g


def _sx_groupby(it, key=None):
    if key is None:
        return itertools.groupby(it)
    return itertools.groupby(it, key=lambda a: call(key, a))


def _sx_reduce(f, *a):
    return functools.reduce(lambda x, y: call(f, x, y), *a)


def _sx_iter(*a):
    return iter(*a)


SPECIAL = {
    isinstance: _sx_isinstance, str: _sx_str, int: _sx_int, bool: _sx_bool, len: _sx_len,
    ord: _sx_ord, dict: _sx_dict, set: _sx_set, list: _sx_list, tuple: _sx_tuple,
    map: _sx_map, filter: _sx_filter, sorted: _sx_sorted, min: _sx_minmax(min),
    max: _sx_minmax(max), itertools.groupby: _sx_groupby, functools.reduce: _sx_reduce,
}
OVERRIDES = {}      # callable -> replacement (environment stubs installed by harnesses)

# builtins that handle symbolic arguments through the data model
_NATIVE_OK = {
    sum, any, all, zip, enumerate, reversed, next, iter, range, hash, id, getattr, setattr,
    hasattr, type, callable, print, repr, abs, divmod, pow, slice, frozenset, object, property,
    issubclass, round, float, itertools.chain, itertools.zip_longest, itertools.islice,
    itertools.chain.from_iterable, itertools.takewhile, itertools.dropwhile, itertools.product,
    itertools.count, itertools.repeat, itertools.tee, itertools.accumulate, functools.partial,
    itertools.starmap, itertools.filterfalse, itertools.compress
}
_OPERATOR = set(
    v for v in vars(operator).values() if callable(v)
)
_LOGGER_METHODS = {
    'debug', 'info', 'warning', 'error', 'exception', 'log', 'critical', 'warn'
}
_CONTAINER_MODULES = {'builtins', 'collections', 'itertools', 'functools', 'typing', '_collections'}
FOREIGN_OK = set()          # callables harnesses declare safe for symbolic arguments


def _mod_of(f):
    m = getattr(f, '__module__', None)
    if m is None:
        s = getattr(f, '__self__', None)
        if s is not None:
            m = s.__name__ if isinstance(s, types.ModuleType) else type(s).__module__
        else:
            oc = getattr(f, '__objclass__', None)
            m = oc.__module__ if oc is not None else type(f).__module__
    return m if isinstance(m, str) else ''


_IO_MODULES = ('_io', 'io', 'pathlib', 'shutil', 'tempfile', 'gzip')


def _moves_text(f, m):
    """input/output: passes text through unchanged"""
    return m in _IO_MODULES or m.startswith('apache_beam.io')


_PY = (types.FunctionType, types.MethodType)


_CALLS_BACK = ('itertools', 'functools', '_functools')


def _callback(f):
    if type(f) in (types.MethodDescriptorType, types.BuiltinFunctionType, types.WrapperDescriptorType) or (
            f in (int, str, float, bool, list, tuple, set) if isinstance(f, type) else False):
        return lambda *a, **k: call(f, *a, **k)
    return f


def call(f, /, *args, **kwargs):
    try:
        o = OVERRIDES.get(f)
        if o is not None:
            return o(*args, **kwargs)
        sp = SPECIAL.get(f)
    except TypeError:
        sp = None
    if sp is not None:
        return sp(*args, **kwargs)
    tf = type(f)
    if tf is types.FunctionType:
        g = f.__globals__
    elif tf is types.MethodType:
        g = getattr(f.__func__, '__globals__', None)
    else:
        g = None
    if g is not None and '_sx_call' in g:
        return f(*args, **kwargs)
    try:
        r = _RE_FUNCS.get(f)
    except TypeError:
        r = None
    if r is not None:
        return sx_regex(r[0], r[1], *args, **kwargs)
    if getattr(f, '__module__', None) in _CALLS_BACK:
        # itertools.takewhile(str.isalpha, ...): called from C code
        args = [_callback(a) for a in args]
        kwargs = {k: _callback(v) for k, v in kwargs.items()}
    sym = any(has_sym(a) for a in args) or any(has_sym(v) for v in kwargs.values())
    if not sym:
        m = _mod_of(f)
        if m.startswith('lxml'):
            return _wrap_lxml(f(*args, **kwargs))
        if _moves_text(f, m):
            return wrap(f(*args, **kwargs))
        return f(*args, **kwargs)
    return _call_foreign(f, args, kwargs)


def _equality_classes(seqs):
    """sequences with the same equalities between their items, as concrete text: enough for a
    function whose result depends only on which items are equal"""
    reps = []
    out = []
    for seq in seqs:
        items = list(str.__iter__(seq)) if isinstance(seq, str) else list(seq)
        codes = []
        for item in items:
            if isinstance(item, str) and len(item) == 1:
                item = mk_str(item)
            for k, rep in enumerate(reps):
                if s_eq(item, rep):
                    break
            else:
                k = len(reps)
                reps.append(item)
            codes.append(chr(0x4e00 + k))
        out.append(''.join(codes) if isinstance(seq, str) else codes)
    return out


def _by_equality(f, args, kwargs):
    """call f with text replaced by text that has the same equality pattern"""
    where = []
    seqs = []
    args = list(args)
    for i, a in enumerate(args):
        if type(a) is SymFD:
            a = args[i] = concretize(a)
        if isinstance(a, (str, list)):
            where.append((args, i))
            seqs.append(a)
    for k, a in list(kwargs.items()):
        if type(a) is SymFD:
            a = kwargs[k] = concretize(a)
        if isinstance(a, (str, list)):
            where.append((kwargs, k))
            seqs.append(a)
    for (target, key), value in zip(where, _equality_classes(seqs)):
        target[key] = value
    return f(*args, **kwargs)


def _equality_functions():
    import difflib
    from sciencebeam_alignment import align, levenshtein
    return {
        align.LocalSequenceMatcher, align.GlobalSequenceMatcher,
        levenshtein.get_levenshtein_ratio, levenshtein.get_levenshtein_distance,
        difflib.SequenceMatcher
    }


_EQUALITY = []


def _call_foreign(f, args, kwargs):
    if not _EQUALITY:
        _EQUALITY.append(_equality_functions())
    try:
        kind = 1 if f in _EQUALITY[0] else (
            2 if f in _NATIVE_OK or f in _OPERATOR or f in FOREIGN_OK else 0)
    except TypeError:       # unhashable
        kind = 0
    if kind == 1:
        return _by_equality(f, args, kwargs)
    if kind == 2:
        return f(*args, **kwargs)
    if type(f) is SymFD:
        return f(*args, **kwargs)
    m = _mod_of(f)
    if m.startswith('lxml'):
        return _wrap_lxml(f(*[unwrap(a) for a in args], **{k: unwrap(v) for k, v in kwargs.items()}))
    if _moves_text(f, m):
        return wrap(f(*[unwrap(a) for a in args], **{k: unwrap(v) for k, v in kwargs.items()}))
    if isinstance(f, type):
        # classes written in rewritten modules, exceptions, named tuples, ...
        import sys
        mod = sys.modules.get(f.__module__)
        if mod is not None and '_sx_call' in mod.__dict__:
            return f(*args, **kwargs)
        if issubclass(f, (BaseException, tuple, dict)) or f.__module__ in _CONTAINER_MODULES:
            return f(*args, **kwargs)
    if m.split('.')[0] in ('unittest', 'harness', 'sx', 'contextlib', 'copy') or m == 'operator':
        return f(*args, **kwargs)
    s = getattr(f, '__self__', None)
    if s is not None and isinstance(s, (
            list, dict, set, frozenset, tuple, types.GeneratorType)) or (
            s is not None and type(s).__module__ in ('collections',)):
        return f(*args, **kwargs)
    if isinstance(f, functools.partial):
        return call(f.func, *f.args, *args, **{**f.keywords, **kwargs})
    if type(f).__module__.split('.')[0] in ('unittest',):
        return f(*args, **kwargs)
    if type(f) in (types.WrapperDescriptorType, types.MethodDescriptorType) and (
            f.__objclass__ is str and args and isinstance(args[0], (str, SymFD))):
        return callm(args[0], f.__name__, *args[1:], **kwargs)     # str.lower(s)
    if type(f) in (types.MethodWrapperType, types.WrapperDescriptorType,
                   types.MethodDescriptorType) or m == 'typing':
        return f(*args, **kwargs)
    tf = type(f)
    mod = getattr(tf, '__module__', '')
    import sys
    if mod in sys.modules and '_sx_call' in sys.modules[mod].__dict__:
        return f(*args, **kwargs)      # instance of a rewritten class with __call__
    if mod.startswith('lxml'):
        return _wrap_lxml(f(*[unwrap(a) for a in args], **{k: unwrap(v) for k, v in kwargs.items()}))
    FOREIGN_CONCRETISED.add('%s.%s' % (m, getattr(f, '__name__', type(f).__name__)))
    return wrap(f(*[concretize(a) for a in args], **{k: concretize(v) for k, v in kwargs.items()}))


FOREIGN_CONCRETISED = set()


def _wrap_lxml(r):
    t = type(r)
    if t is str or t is list or t is tuple or t is dict:
        return wrap(r)
    if t.__name__ in ('ElementTextIterator', 'itertext'):
        return map(mk_str, r)
    if isinstance(r, str):
        # smart strings from xpath: keep the object when it is concrete
        m = mk_str(str(r))
        return m if type(m) is SymStr else r
    return r


_DICT_LOOKUPS = {'get', 'pop', 'setdefault'}
METHOD_OVERRIDES = {}     # (type, name) -> f(obj, *args)


def callm(obj, name, /, *args, **kwargs):
    t = type(obj)
    if t is SymStr or t is SymInt or t is SymFD or t is SymBool:
        return getattr(obj, name)(*args, **kwargs)
    if t is str:
        if name == 'join' and len(args) == 1:
            items = list(args[0])
            for v in items:
                if type(v) is SymStr or type(v) is SymFD:
                    return SymStr(obj).join(items)
            return obj.join(items)
        for a in args:
            if has_sym(a):
                return getattr(SymStr(obj), name)(*args, **kwargs)
        for a in kwargs.values():
            if has_sym(a):
                return getattr(SymStr(obj), name)(*args, **kwargs)
        return getattr(obj, name)(*args, **kwargs)
    if t is logging.Logger:
        if name in _LOGGER_METHODS:
            return None
        return getattr(obj, name)(*args, **kwargs)
    if METHOD_OVERRIDES:
        o = METHOD_OVERRIDES.get((t, name))
        if o is not None:
            return o(obj, *args, **kwargs)
    if t in _PATTERN_TYPES and name in (
            'match', 'fullmatch', 'search', 'finditer', 'findall', 'split', 'sub', 'subn'):
        return sx_regex(re if t is re.Pattern else regex, name, obj, *args, **kwargs)
    if isinstance(obj, dict) and args and is_sym(args[0]) and name in ('get', 'pop', 'setdefault'):
        k = dict_key(obj, args[0])
        if k is _MISSING:
            if name == 'setdefault':
                return obj.setdefault(concretize(args[0]), *args[1:])
            return dict.get({}, None, *args[1:]) if name == 'get' else {}.pop('x', *args[1:])
        return getattr(obj, name)(k, *args[1:])
    return call(getattr(obj, name), *args, **kwargs)


_MISSING = object()


def dict_key(d, key):
    """concrete key of d equal to the symbolic key, forking; _MISSING if none"""
    for k in list(d.keys()):
        if s_eq(k, key):
            return k
    return _MISSING


def sx_getattr(obj, name):
    r = getattr(obj, name)
    if type(r) is str:
        return mk_str(r)
    return r


def sx_setattr(obj, name, value):
    if is_sym(value) and type(obj).__module__.startswith('lxml'):
        value = unwrap(value)
    setattr(obj, name, value)


def sx_getitem(obj, key):
    if is_sym(key):
        if isinstance(obj, dict):
            k = dict_key(obj, key)
            if k is _MISSING:
                if hasattr(type(obj), '__missing__'):
                    return obj[concretize(key)]
                raise KeyError('symbolic key')
            return obj[k]
        if type(obj).__module__.startswith('lxml'):
            key = concretize(key)
    r = obj[key]
    if type(r) is str:
        return mk_str(r)
    return r


def sx_setitem(obj, key, value):
    if is_sym(key):
        if isinstance(obj, dict):
            k = dict_key(obj, key)
            obj[concretize(key) if k is _MISSING else k] = value
            return
        key = concretize(key)
    if is_sym(value) and type(obj).__module__.startswith('lxml'):
        value = unwrap(value)
    obj[key] = value


def sx_in(a, b):
    if is_sym(a) or is_sym(b) or type(b) is list or type(b) is tuple:
        return s_in(a, b)
    return a in b


def sx_notin(a, b):
    return s_not(sx_in(a, b))


def sx_is(a, b):
    if type(a) is SymFD and (b is None or isinstance(b, (bool, int))):
        return a.lift(lambda v: v is b)
    if type(b) is SymFD and a is None:
        return b.lift(lambda v: v is a)
    if type(a) is SymBool and isinstance(b, bool):
        return a == b
    return a is b


def sx_isnot(a, b):
    return s_not(sx_is(a, b))


def sx_eq(a, b):
    if type(a) in (list, tuple) and type(b) is type(a):
        return s_eq(a, b)
    return a == b


def sx_ne(a, b):
    if type(a) in (list, tuple) and type(b) is type(a):
        return s_not(s_eq(a, b))
    return a != b


def sx_fstr(parts, lenient=False):
    out = []
    sym = False
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if is_sym(v):
                if lenient:
                    out.append('<sym>')
                    continue
                if type(v) is SymStr and conv in (-1, 115) and not spec:
                    sym = True
                    out.append(v)
                    continue
                v = concretize(v)
            elif conv == 114 and has_sym(v):
                v = concretize(v)
            if conv == 114:
                v = repr(v)
            elif conv == 115:
                v = str(v)
            elif conv == 97:
                v = ascii(v)
            out.append(format(v, spec))
        else:
            out.append(p)
    if sym:
        return SymStr('').join(out)
    return wrap(''.join(out))


def sx_mod(a, b, lenient=False):
    ta = type(a)
    if ta is int or ta is float:
        return a % b
    return s_mod(a, b, lenient)


NAMES = {
    '_sx_call': call, '_sx_callm': callm, '_sx_getattr': sx_getattr,
    '_sx_setattr': sx_setattr, '_sx_getitem': sx_getitem, '_sx_setitem': sx_setitem,
    '_sx_in': sx_in, '_sx_notin': sx_notin, '_sx_is': sx_is, '_sx_isnot': sx_isnot,
    '_sx_eq': sx_eq, '_sx_ne': sx_ne, '_sx_fstr': sx_fstr, '_sx_mod': sx_mod,
    '_sx_slice': slice,
}
