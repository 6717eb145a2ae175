"""Effect contracts: `allocates nothing, does no I/O, on every path which returns normally`.

Modular: a function satisfies the contract if every call on a path from its entry to a normal return goes to a function
which satisfies it. Externals satisfy it if they are in the list of pure functions below."""
import re
import ir
from builtins_ import UNARY, BINARY

PURE = UNARY | BINARY | {'cabs', 'csqrt', 'cexp', 'carg', 'cpow', 'csqrt', 'csinh', 'ccosh', 'clog', '__muldc3', '__divdc3', 'memcpy', 'memmove', 'memset', 'memcmp',
                         'sincos', 'ldexp', 'frexp', 'modf', 'lround', 'llround', 'lrint', 'abs', 'labs', 'nan', 'isnan', 'isinf', 'finite', 'fdim', 'fma', 'remainder', 'scalbn', 'logb', 'ilogb', 'nextafter',
                         'tgamma', 'lgamma', 'erf', 'erfc', '__gxx_personality_v0'}
NORETURN = {'__cxa_throw', '__cxa_rethrow', '_ZSt9terminatev', '__clang_call_terminate', 'abort', 'exit', '__assert_fail', '_Unwind_Resume',
            '_ZSt21__glibcxx_assert_failPKciS0_S0_'}


class Effects:
    def __init__(self, mod):
        self.mod = mod
        self.memo = {}
        self.rets = {}

    def target(self, f, name):
        return self.mod.internal.get((f.prefix, name)) or self.mod.fns.get(name)

    def succ(self, f, b):
        """successors, cut at calls which do not return"""
        for ins in b:
            if ins[0] == 'call':
                cv = ins[3]
                if cv[0] == 'g' and not self.returns_name(f, cv[1]):
                    return [ins[6]] if ins[6] else []
        t = b[-1]
        if t[0] == 'br':
            return [t[2]] if t[3] is None else [t[2], t[3]]
        if t[0] == 'switch':
            return [t[2]] + [x for _, x in t[3]]
        if t[0] == 'call' and t[5]:
            return [t[5], t[6]] if t[6] else [t[5]]
        return []

    def returns_name(self, f, name):
        if name in NORETURN:
            return False
        g = self.target(f, name)
        return True if g is None or not g.blocks and not getattr(g, 'raw', None) else self.returns(g)

    def returns(self, f):
        """may f return normally"""
        k = id(f)
        if k in self.rets:
            return self.rets[k]
        self.rets[k] = True
        ir.ensure(f)
        if not f.blocks:
            return True
        self.rets[k] = bool(self.live(f))
        return self.rets[k]

    def live(self, f):
        """blocks on a path from the entry to a normal return"""
        s = {l: self.succ(f, b) for l, b in f.blocks.items()}
        fwd, st = set(), [f.entry]
        while st:
            x = st.pop()
            if x not in fwd:
                fwd.add(x)
                st += s[x]
        pred = {}
        for a in fwd:
            for b in s[a]:
                pred.setdefault(b, []).append(a)

        def cut(b):
            return any(i[0] == 'call' and i[3][0] == 'g' and not self.returns_name(f, i[3][1]) for i in b)
        bwd, st = set(), [l for l in fwd if f.blocks[l][-1][0] == 'ret' and not cut(f.blocks[l])]
        while st:
            x = st.pop()
            if x not in bwd:
                bwd.add(x)
                st += pred.get(x, [])
        return bwd

    def check(self, f):
        """violations [(function, callee)] of the contract by f alone, and the callees it relies on"""
        ir.ensure(f)
        bad, rely = [], []
        lv = self.live(f)
        for l in f.blocks:
            if l not in lv:
                continue
            for ins in f.blocks[l]:
                if ins[0] == 'landingpad':
                    bad.append('catches an exception')
                if ins[0] != 'call':
                    continue
                cv = ins[3]
                if cv[0] != 'g':
                    bad.append('indirect call')
                    continue
                name = cv[1]
                if name.startswith('llvm.') or name in PURE or re.fullmatch(r'(%s)[fl]' % '|'.join(sorted(UNARY | BINARY)), name) or not self.returns_name(f, name):
                    continue
                g = self.target(f, name)
                if g is None:
                    bad.append('calls ' + self.mod.dem.get(name, name))
                    continue
                ir.ensure(g)
                if not g.blocks:
                    bad.append('calls ' + (g.dem or name))
                else:
                    rely.append(g)
        return bad, rely

    def closure(self, roots):
        """functions reached on normal paths: yields (function, violations)"""
        seen, st = {}, list(roots)
        while st:
            f = st.pop()
            if id(f) in seen:
                continue
            bad, rely = self.check(f)
            seen[id(f)] = (f, bad)
            st += rely
        return list(seen.values())
