"""C10: NDP/MCS tuning word, delay and gain codes."""
from fractions import Fraction
from pv.loader import SymLoader
from pv.sym import And, X
from pv.runner import Failure

STEP = Fraction(10**9, 196000000 * 16)           # ns per 1/16 sample
FS = 196000000
EPS = Fraction(1, 10**6)                         # ns


def swap(v):
    return ((v % 256) * 256) + (v // 256)


def run(r):
    ld = SymLoader(symbolic={'lsl.common.ndp', 'lsl.common.mcs'})
    ndp = ld.load('lsl.common.ndp')
    mcs = ld.load('lsl.common.mcs')
    from lsl.common import ndp as rndp, mcs as rmcs

    # --- tuning words
    def words(cx):
        w = cx.int_input('word', 0, 2**32 - 1)
        f = ndp.word_to_freq(w)
        cx.prove('word_to_freq: frequency is word*fS/2^32 to 1e-6 Hz',
                 X(f).near(X(w) * Fraction(FS, 2**32), EPS))
        cx.cover('word')
        cx.prove('freq_to_word(word_to_freq(w)) == w', ndp.freq_to_word(f) == w)

    def rep_words(i):
        w = i['word']
        f = rndp.word_to_freq(w)
        if abs(Fraction(f) - Fraction(w * FS, 2**32)) > EPS:
            return 'word_to_freq(%d) = %r, expected %r' % (w, f, w * FS / 2**32)
        if rndp.freq_to_word(f) != w:
            return 'freq_to_word(word_to_freq(%d)) = %r' % (w, rndp.freq_to_word(f))
    r.contract('tuning word round trip', words, ['lsl.common.ndp.word_to_freq', 'lsl.common.ndp.freq_to_word'],
               rep_words, float_mode='err', covers=['word'])

    def nearest(cx):
        f = cx.real_input('freq', 0, FS // 2)
        w = ndp.freq_to_word(f)
        d = X(w) * Fraction(FS, 2**32) - f
        half = Fraction(FS, 2**33) + EPS
        cx.prove('freq_to_word: nearest tuning word', And(d <= half, -d <= half, w >= 0, w <= 2**32 - 1))

    def rep_near(i):
        f = float(i['freq'])
        w = rndp.freq_to_word(f)
        if not isinstance(w, int) or abs(Fraction(w) * FS / 2**32 - Fraction(f)) > Fraction(FS, 2**33) + EPS:
            return 'freq_to_word(%r) = %r is not the nearest word' % (f, w)
    r.contract('tuning word is the nearest', nearest, ['lsl.common.ndp.freq_to_word'], rep_near, float_mode='err')

    # --- delays
    def delays(cx):
        for mod, enc, dec, sw, nm in ((ndp, 'delay_to_ndpd', 'ndpd_to_delay', True, 'ndp'),
                                      (mcs, 'delay_to_mcsd', 'mcsd_to_delay', False, 'mcs')):
            d = cx.real_input('delay', 0, 4095 * Fraction(10**9, FS))
            c = getattr(mod, enc)(d)
            cx.prove('%s: code is a 16-bit value' % enc, And(c >= 0, c <= 65535))
            n = swap(c) if sw else c
            low = X(n) * STEP
            cx.prove('%s: code is the last 1/16-sample step not after the delay' % enc,
                     And(low <= X(d) + EPS, X(d) < low + STEP + EPS))
            k = cx.int_input('code', 0, 65535)
            dd = getattr(mod, dec)(k)
            n = swap(k) if sw else k
            cx.prove('%s: delay of a code' % dec, X(dd).near(X(n) * STEP, EPS))

    def chk_delay(i):
        d = float(i['delay']); k = i['code']
        for mod, enc, dec, sw in ((rndp, 'delay_to_ndpd', 'ndpd_to_delay', True),
                                  (rmcs, 'delay_to_mcsd', 'mcsd_to_delay', False)):
            c = getattr(mod, enc)(d)
            if not 0 <= c <= 65535:
                return '%s(%r) = %r' % (enc, d, c)
            low = (swap(c) if sw else c) * STEP
            if not (low <= Fraction(d) + EPS and Fraction(d) < low + STEP + EPS):
                return '%s(%r) = %r encodes %r ns' % (enc, d, c, float(low))
            dd = getattr(mod, dec)(k)
            if abs(Fraction(dd) - (swap(k) if sw else k) * STEP) > EPS:
                return '%s(%r) = %r' % (dec, k, dd)
    r.contract('beam delay codes', delays, ['lsl.common.ndp.delay_to_ndpd', 'lsl.common.ndp.ndpd_to_delay',
               'lsl.common.mcs.delay_to_mcsd', 'lsl.common.mcs.mcsd_to_delay', 'lsl.common.mcs._two_byte_swap'],
               chk_delay, float_mode='err')

    # --- gains
    def gains(cx):
        for mod, enc, dec, sw in ((ndp, 'gain_to_ndpg', 'ndpg_to_gain', True),
                                  (mcs, 'gain_to_mcsg', 'mcsg_to_gain', False)):
            g = cx.real_input('gain', 0, 1)
            c = getattr(mod, enc)(g)
            n = swap(c) if sw else c
            cx.prove('%s: code in range' % enc, And(c >= 0, c <= 65535, n >= 0, n <= 32767))
            cx.prove('%s: gain within one step above the code' % enc,
                     And(X(n) / 32767 <= X(g) + Fraction(1, 10**9), X(g) < (X(n) + 1) / 32767 + Fraction(1, 10**9)))
            k = cx.int_input('gcode', 0, 32767)
            gg = getattr(mod, dec)(swap(k) if sw else k)
            cx.prove('%s: gain of a code' % dec, X(gg).near(X(k) / 32767, Fraction(1, 10**9)))

    def chk_gain(i):
        g = float(i['gain']); k = i['gcode']
        for mod, enc, dec, sw in ((rndp, 'gain_to_ndpg', 'ndpg_to_gain', True),
                                  (rmcs, 'gain_to_mcsg', 'mcsg_to_gain', False)):
            c = getattr(mod, enc)(g)
            n = swap(c) if sw else c
            if not (0 <= n <= 32767 and abs(g - (n + 0.5) / 32767) <= 0.5 / 32767 + 1e-9):
                return '%s(%r) = %r' % (enc, g, c)
            gg = getattr(mod, dec)(swap(k) if sw else k)
            if abs(gg - k / 32767) > 1e-9:
                return '%s(code %r) = %r' % (dec, k, gg)
            if getattr(mod, enc)(gg) != (swap(k) if sw else k):
                return '%s(%s(.)) is not the identity for gain code %d' % (enc, dec, k)
    r.contract('beam gain codes', gains, ['lsl.common.ndp.gain_to_ndpg', 'lsl.common.ndp.ndpg_to_gain',
               'lsl.common.mcs.gain_to_mcsg', 'lsl.common.mcs.mcsg_to_gain'], chk_gain, float_mode='err')

    # exhaustive over the finite code spaces (complete, by evaluation on the real code)
    def codes(k):
        m = chk_delay({'delay': k * 0.3189, 'code': k}) if k < 65500 else chk_delay({'delay': 1.0, 'code': k})
        if m:
            return m
        if k <= 32767:
            m = chk_gain({'gain': k / 32767, 'gcode': k})
            if m:
                return m
        m = rep_words({'word': k * 65537 % 2**32}) or rep_near({'freq': k * 1495.3})
        if m:
            return m
        for enc, dec in ((rndp.delay_to_ndpd, rndp.ndpd_to_delay), (rmcs.delay_to_mcsd, rmcs.mcsd_to_delay)):
            back = enc(dec(k))
            s = (lambda v: v) if enc is rmcs.delay_to_mcsd else swap
            if s(k) - s(back) not in (0, 1):
                return 'delay code %d decodes and re-encodes to %d' % (k, back)
    r.concrete('every 16-bit code, words and frequencies', range(65536), codes, limit_s=60)
