"""C17: every accepted RBJ design is stable: both poles strictly inside the unit circle (Jury's conditions)."""
from lib import *
from props.c18 import designed


def stable(ck, cls):
    for o, c, v in designed(ck, cls):
        pc = o.st.pc
        a0, a1, a2 = c['a0'], c['a1'], c['a2']
        # |a2/a0| < 1 and |a1/a0| < 1 + a2/a0
        w = 'RBJ::%s: ' % cls
        ck.holds(w + 'a0 is not zero', pc, nt(feq(a0, FC(0))))
        ck.holds(w + 'product of the poles below 1', pc, flt(FC(0), a0 * (a0 - a2)))
        ck.holds(w + 'product of the poles above -1', pc, flt(FC(0), a0 * (a0 + a2)))
        ck.holds(w + 'no pole at or beyond 1', pc, flt(FC(0), a0 * (a0 + a2 + a1)))
        ck.holds(w + 'no pole at or beyond -1', pc, flt(FC(0), a0 * (a0 + a2 - a1)))
        ck.feasible(cls, pc)
    ck.contracts['Iir::RBJ::%s::setupN' % cls] = 'for every valid argument: the denominator satisfies Jury\'s conditions'


def check(ck):
    ck.m = mod('core')
    for cls in RBJ:
        ck.group(cls, lambda: stable(ck, cls))
