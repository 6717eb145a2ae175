"""C20: Butterworth filters follow the Butterworth magnitude law."""
import laws

KEYS = ['Butterworth_' + c for c in ('LowPass', 'HighPass', 'BandPass', 'BandStop')]


def check(ck):
    laws.check(ck, [('Butterworth', 'AnalogLowPass')], 'all-pole', ('LowPass', 'HighPass', 'BandPass', 'BandStop'), KEYS, ['C20_filter', 'C20_edge', 'C20_mono'])
