"""Static objects which get their value at run time: `static const T x = f();`, at namespace
scope (stored by the module's __cxx_global_var_init) or in a function (guarded by __cxa_guard_*).

Such an object counts as a constant when
  - the module never stores to it outside its initialisation, never lets its address escape,
    and only hands it to functions that take it by reference to const, and
  - the value which the initialisation computes depends on no input.
A read then gives the initialised value on every call: the first call (which initialises) and
the later ones see the same.  Every other mutable static stays what it was: a hidden input of
unknown value."""
import re
import ir
from term import T


def _g(x, name):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'g' and x[1] == name:
            return True
        return any(_g(y, name) for y in x)
    if isinstance(x, list):
        return any(_g(y, name) for y in x)
    return False


def functions(mod):
    seen = set()
    for fs in (mod.fns.values(), mod.internal.values(), *mod.dups.values()):
        for f in fs:
            if id(f) not in seen:
                seen.add(id(f))
                yield f


def uses(mod, prefix, name):
    pat = re.compile(r'@"?%s"?(?![-\w.$])' % re.escape(name))
    for f in functions(mod):
        if prefix is not None and f.prefix != prefix:
            continue
        if any(isinstance(s, str) and pat.search(s) for b in f.blocks.values() for s in b) or \
           (f.parsed and any(_g(i, name) for b in f.blocks.values() for i in b)):
            ir.ensure(f)
            for b in f.blocks.values():
                for i in b:
                    if _g(i, name):
                        yield f, i


def is_init(f):
    return f.name.startswith('__cxx_global_var_init')


def reads(mod, f, i, name, local):
    """the instruction only reads the object (or initialises it)"""
    op = i[0]
    if op == 'load':
        return True
    if op == 'store':
        if _g(i[2], name):
            return False
        return is_init(f) or local
    if op == 'call':
        callee = i[3]
        cn = callee[1] if callee[0] == 'g' else ''
        if is_init(f) or cn in ('__cxa_atexit',):
            return True
        if cn.startswith('llvm.memcpy') or cn == 'memcpy':
            return local or not _g(i[4][0], name)
        d = mod.dem.get(cn, '')
        m = re.search(r'(\w+)::(~?\w+)(\[abi:\w+\])?\(', d)
        if m and m.group(1) == m.group(2) and local and _g(i[4][0], name):
            return True                       # constructed in place
        return 'const' in d
    return False


def kind(mod, prefix, name):
    """'local', 'global' or None (not a constant initialised at run time)"""
    memo = mod.__dict__.setdefault('_statics', {})
    key = (prefix, name)
    if key in memo:
        return memo[key]
    k = None
    guard = '_ZGV' + name[2:] if name.startswith('_Z') else None
    if guard and ((prefix, guard) in mod.globals or guard in mod.globals):
        k = 'local'
    us = list(uses(mod, prefix, name))
    if k is None and any(is_init(f) for f, _ in us):
        k = 'global'
    if k and not all(reads(mod, f, i, name, k == 'local') for f, i in us):
        k = None
    memo[key] = k
    return k


def guarded(mod, prefix, guard):
    """name of the static object of a guard variable, when it is a run-time constant"""
    if not guard.startswith('_ZGV'):
        return None
    name = '_Z' + guard[4:]
    if (prefix, name) not in mod.globals and name not in mod.globals:
        return None
    return name if kind(mod, prefix if (prefix, name) in mod.globals else None, name) == 'local' else None


def constant(flat):
    """no input in the contents"""
    from evalt import syms

    def ok(v):
        if isinstance(v, T):
            return not syms([v])
        if isinstance(v, (tuple, list)):
            return all(ok(x) for x in v)
        return getattr(v, 'reg', None) is None
    return all(f[2] == ('zero',) for f in flat.fills) and all(ok(v) for v, _ in flat.cells.values())
