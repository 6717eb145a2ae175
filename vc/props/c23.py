"""C23: shelving designs have the requested gain on one side and 0 dB on the other."""
import laws

NS = ('Butterworth', 'ChebyshevI', 'ChebyshevII')
KEYS = [n + '_' + c for n in NS for c in ('LowShelf', 'HighShelf', 'BandShelf')]


def check(ck):
    laws.check(ck, [(n, 'AnalogLowShelf') for n in NS], 'shelf', ('LowPass', 'HighPass', 'BandPass'), KEYS, ['C23_%s_filter' % n for n in NS])
