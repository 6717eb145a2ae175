"""C21: Chebyshev I pass filters have the specified equiripple passband."""
import laws

KEYS = ['ChebyshevI_' + c for c in ('LowPass', 'HighPass', 'BandPass', 'BandStop')]


def check(ck):
    laws.check(ck, [('ChebyshevI', 'AnalogLowPass')], 'all-pole', ('LowPass', 'HighPass', 'BandPass', 'BandStop'), KEYS, ['C21_filter', 'C21_band', 'C21_edge'])
