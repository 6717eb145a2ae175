"""Renders the contracts of the analogue prototypes (kernel.spec, spec_odd, spec_normal, consts, par_ok: what the checks verify
against the code) as Lean definitions, the premises of lemmas/Laws.lean."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kernel import *

BIN = dict(fadd='+', fsub='-', fmul='*', fdiv='/', flt='<', fle='≤', feq='=')
FN = dict(sin='Real.sin', cos='Real.cos', sinh='Real.sinh', cosh='Real.cosh', tan='Real.tan', log='Real.log', exp='Real.exp', sqrt='Real.sqrt')


def lean(t, names):
    if t in names:
        return names[t]
    o = t.op
    s = lambda x: lean(x, names)
    if o == 'fc':
        v = fval(t)
        r = '(%d : ℝ)' % abs(v.numerator) if v.denominator == 1 else '((%d : ℝ) / %d)' % (abs(v.numerator), v.denominator)
        return r if v >= 0 else '(-%s)' % r
    if o == 'pi':
        return 'Real.pi'
    if t is tm.LN10:
        return '(Real.log 10)'
    if o == 'i2f':
        return '(%s : ℝ)' % s(t.args[0])
    if o in BIN:
        return '(%s %s %s)' % (s(t.args[0]), BIN[o], s(t.args[1]))
    if o == 'fneg':
        return '(-%s)' % s(t.args[0])
    if o == 'ite':
        return '(if %s then %s else %s)' % tuple(s(a) for a in t.args)
    if o == 'not':
        return '(¬ %s)' % s(t.args[0])
    if o == 'and':
        return '(%s)' % ' ∧ '.join(s(a) for a in t.args)
    if o == 'true':
        return 'True'
    if o == 'fn' and t.args[0] == 'pow':
        return '(%s ^ %s)' % (s(t.args[1]), s(t.args[2]))
    if o == 'fn':
        return '(%s %s)' % (FN[t.args[0]], s(t.args[1]))
    raise Unsupported('lean: %s' % t)


def render(ns, cls):
    nm = '%s_%s' % (ns, cls)
    n, i, par = ivar('n'), ivar('i', True), params(ns, cls)
    names = {n.args[1][0][0]: 'n', i.args[1][0][0]: 'i'}
    names.update({p: 'p%d' % k for k, p in enumerate(par)})
    sig = ' '.join(['(n : ℕ)'] + ['(p%d : ℝ)' % k for k in range(len(par))])
    act = ' '.join(['n'] + ['p%d' % k for k in range(len(par))])
    out = ['/-! ### %s::%s -/' % (ns, cls)]

    def d(x, ty, body, extra=''):
        out.append('noncomputable def %s_%s %s%s : %s := %s' % (nm, x, sig, extra, ty, body))
    c = consts(ns, cls, n, par)
    v = {}
    for k, t in c.items():
        d(k, 'ℝ', lean(t, names))
        names[t] = '(%s_%s %s)' % (nm, k, act)
    # the points in terms of these constants
    u = {k: fvar('const.' + k) for k in c}
    names.update({u[k]: '(%s_%s %s)' % (nm, k, act) for k in c})
    p, z = spec(ns, cls, n, par, i, u)
    q, y = spec_odd(ns, cls, n, par, u)
    L = lambda t: lean(t, names)
    pt = lambda a: 'none' if a is None else 'some (%s, %s)' % (L(a[0]), L(a[1]))
    d('pole', 'Pt', pt(p), ' (i : ℕ)')
    d('zero', 'Pt', pt(z), ' (i : ℕ)')
    d('realpole', 'Pt', pt((q, FC(0))))
    d('realzero', 'Pt', pt(None if y is None else (y, FC(0))))
    for odd in (False, True):
        w, g = spec_normal(ns, cls, par, odd)
        d('gain_' + ('odd' if odd else 'even'), 'ℝ', L(g))
        out.append('-- reference frequency, %s order: %s' % ('odd' if odd else 'even', w))
    out.append('def %s_ok %s : Prop := %s' % (nm, ' '.join('(p%d : ℝ)' % k for k in range(len(par))), L(par_ok(ns, cls, par))))
    return '\n'.join(out)


def transform(t):
    """the contract of a transform (kernel.Trans.image), the mapped frequency (laws.xy) and the band edges"""
    import laws
    T = object.__new__(Trans)
    T.t, T.k, T.ab_ = t, TRANS[t], None
    T.f = fv('fc', 'fw')[:T.k]
    names = {T.f[0]: 'fc'}
    sig = '(fc : ℝ)'
    if T.k == 2:
        names[T.f[1]] = 'fw'
        sig = '(fc fw : ℝ)'
    out = ['/-! ### %sTransform -/' % t]

    def d(x, ty, body, extra=''):
        out.append('noncomputable def %s_%s %s%s : %s := %s' % (t, x, sig, extra, ty, body))
    L = lambda x: lean(x, names)
    act = ' '.join(['fc', 'fw'][:T.k])
    if T.k == 1:
        c = {'f': T.fn('tan', PI * T.f[0])}
    else:
        lo, hi = T.edges()
        d('lo', 'ℝ', L(lo))
        d('hi', 'ℝ', L(hi))
        a, tn = T.ab()
        c = {'a': a, 'f': tn}
    for k, x in c.items():
        d(k, 'ℝ', L(x))
        names[x] = '(%s_%s %s)' % (t, k, act)
    s = fv('sx', 'sy')
    names.update({s[0]: 's.1', s[1]: 's.2'})
    P = lambda z: '(%s, %s)' % (L(z[0]), L(z[1]))
    C = '(ℝ × ℝ)'
    out.append('noncomputable def %s_image %s : Pt → %s' % (t, sig, ' × '.join([C] * (T.k + 1))))
    out.append('  | none => (%s)' % ', '.join(P(z) for z in T.image(None)))
    out.append('  | some s => (%s)' % ', '.join(P(z) for z in T.image(tuple(s))))
    e, h = fv('ex', 'ey'), fv('hx', 'hy')
    names.update({e[0]: '(Real.cos w)', e[1]: '(Real.sin w)', h[0]: '(Real.cos (w / 2))', h[1]: '(Real.sin (w / 2))'})
    X, Y = laws.xy(T, tuple(e), tuple(h))
    d('X', 'ℝ', L(X), ' (w : ℝ)')
    d('Y', 'ℝ', L(Y), ' (w : ℝ)')
    return '\n'.join(out)


if __name__ == '__main__':
    print("set_option linter.unusedVariables false\n\nnamespace Iir\n")
    for ns, cls in PROTO:
        print(render(ns, cls))
        print()
    for t in TRANS:
        print(transform(t))
        print()
    print('end Iir')
