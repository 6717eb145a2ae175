TECH = 'contract-based deductive verification: verification conditions generated from the LLVM IR clang produces from /repo, discharged by an algebraic normaliser and z3'
COMMON = ('Every obligation is generated from /repo as compiled on this run and has to be discharged. Trusted: clang\'s front end, the IR executor in vc/, z3, '
          'stated contracts of libm/libstdc++. Floating point is treated as real arithmetic unless the property is about IEEE values.')
NA = {}
NOTE = {
 'C01': 'For each structure: any coefficients, any delay lines reachable by an invariant, any input.',
 'C02': 'CascadeStages/SOSCascade with 1..6 sections (12 in the thorough tier) and every design family once; all coefficients, delay lines and samples.',
 'C03': 'reset() from arbitrary delay lines, compared cell by cell with a new object.',
 'C04': 'Every sample type against the double path, all inputs and delay lines.',
 'C05': 'Linearity and non-interference of one step from any delay lines; induction over samples.',
 'C06': 'setCoefficients/getters and the sos matrix for all values with non-zero a0.',
 'C07': 'setOnePole/setTwoPole and Custom filters for all arguments.',
 'C08': 'Root identities for all sections; cascades and layouts of any length by loop induction.',
 'C09': 'All coefficients, all frequencies, any number of sections by induction over the sections.',
 'C15': 'RBJ overloads by comparing all paths of both calls; the others by what reaches the size-independent setup, for every argument.',
 'C17': 'Jury conditions for every accepted argument, by nonlinear real arithmetic over sin/cos facts.',
 'C18': 'Gains as rational identities in sin/cos of the centre frequency, for every valid argument.',
 'C24': 'Copy constructor and assignment of every class run from arbitrary contents; ownership of every internal pointer checked.',
 'C25': 'Effect contracts over the call graph of the compiled library: allocation, throws, I/O and writes.',
 'C10': 'Rejection in IEEE doubles including NaN and infinities, acceptance in real arithmetic; every family, overload, transform and prototype, any order.',
 'C11': 'IEEE doubles: every setup of every family, transform and overload, and direct coefficient import: either an exception or no NaN coefficient; any order by loop induction.',
 'C12': 'Any order and capacity by loop induction, any integer argument, floating-point values and comparisons left completely arbitrary; instantiated filters for orders 1..5 (1..8 in the thorough tier).',
 'C14': 'setLayout and setup for any reserved and requested order; identity sections by an inductive invariant of the delay lines.',
 'C16': 'Pole locations of every prototype as contracts of design for every order; transforms map the open left half plane into the unit disc; setLayout keeps the poles.',
 'C13': 'Every output of a setup is a function of its arguments: contracts of design (incl. the prototype caches), transforms, setLayout and setup; any order, parameters and earlier state.',
 'C19': 'Contracts of design, transforms, setLayout and setup composed: |response at the reference| is the nominal gain, any order by loop induction.',
 'C26': 'Contracts of the four transforms for any number of pairs, by loop induction; image relations and the left-half-plane lemma as polynomial obligations.',
 'C20': 'The contracts of design, transforms, setLayout and setup give the response section by section for any order; the product over the sections and the closed magnitude law are Lean theorems over those contracts (definitions rendered from the same terms).',
 'C21': 'As C20, with the ellipse product law of the Chebyshev prototype proved in Lean; passband bounds follow from |T_n| <= 1.',
 'C22': 'As C20, with the inverted Chebyshev prototype (zeros included); stopband bound from |T_n| >= 1 outside the band.',
 'C23': 'As C20, for the shelving prototypes of all three families: product laws in Lean, gains at both ends and at the band centre.',
}
