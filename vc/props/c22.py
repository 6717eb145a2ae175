"""C22: Chebyshev II pass filters keep the specified stopband attenuation."""
import laws

KEYS = ['ChebyshevII_' + c for c in ('LowPass', 'HighPass', 'BandPass', 'BandStop')]


def check(ck):
    laws.check(ck, [('ChebyshevII', 'AnalogLowPass')], 'zeros', ('LowPass', 'HighPass', 'BandPass', 'BandStop'), KEYS, ['C22_filter', 'C22_form', 'C22_band', 'C22_edge'])
