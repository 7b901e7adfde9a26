"""P13: evaluating effects, bands and channels; reported lengths."""
from contracts.pairs import *
from engine.spec import Suite, MODEL, at_index
from contracts import p07
from engine import solver as S
from fractions import Fraction
import math

SRC = ['Types/src/Band.cpp', 'Types/src/Effect.cpp', 'Types/src/Channel.cpp', 'Types/src/Keyframe.cpp', 'Tools/src/Tools.cpp', 'Synthesizer/src/Helper.cpp', 'Types/src/Haptics.cpp', 'Types/src/Perception.cpp']
suite = Suite('P13', SRC, harness='synth', stand_in='random bands against an independent reading of the format: silence outside the effects, vectorial, linear curve, transient and wavelet values, sampled sums, clipping, lengths', link=MODEL, nolink=['Synthesizer/src/Helper.cpp'])
TRANS, CURVE, VECT, WAVE = 0, 1, 2, 3


def kpos(e, k):
    return I(get(e, 'keyframes', norm(k), 'relativePosition', '!'))


def khas(e, k, f='relativePosition'):
    return B(get(e, 'keyframes', norm(k), f, '?'))


def kamp(e, k):
    return R(get(e, 'keyframes', norm(k), 'amplitudeModulation', '!'))


def nkeys(e):
    return I(get(e, 'keyframes', '#'))


def last_positioned(e, k):
    a = z3.Int('a!')
    return z3.And(k >= 0, k < nkeys(e), khas(e, k), z3.ForAll([a], z3.Implies(z3.And(a > k, a < nkeys(e)), z3.Not(khas(e, a)))))


def none_positioned(e):
    a = z3.Int('a!')
    return z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < nkeys(e)), z3.Not(khas(e, a))))


@suite.unit(TY + 'Effect::getEffectTimeLength', 'the position of the last positioned keyframe, plus the duration for transients; zero without one and for wavelets', label='length')
def _(c):
    c.build()
    e = c.old['this']
    r = R(c.call())
    bt = I(c.arg('bandType'))
    c.no_throw()
    p07.frame(c, None)
    c.ensure('zero without positioned keyframes', r == 0, st=c.where(none_positioned(e)))
    k = fresh_int('k', 0)
    st = lambda *x: c.where(last_positioned(e, k), *x)
    c.ensure('last position of a curve or vectorial effect', r == z3.ToReal(kpos(e, k)), st=st(z3.Or(bt == CURVE, bt == VECT)))
    c.ensure('last position and duration of a transient effect', r == z3.ToReal(kpos(e, k)) + R(c.arg('transientDuration')), st=st(bt == TRANS))
    c.ensure('zero for wavelets', r == 0, when=bt == WAVE)


def outside(c, e, t, length):
    """t is before the effect or after its last positioned keyframe (and the duration)"""
    k = fresh_int('k', 0)
    start = z3.ToReal(I(e.get('position')))
    return [('before the effect', t < start), ('after the last keyframe', z3.And(last_positioned(e, k), t > start + z3.ToReal(kpos(e, k)) + length)),
            ('nothing positioned', z3.And(none_positioned(e), t > start))]


@suite.unit(TY + 'Effect::EvaluateVectorial', 'silence outside the effect', label='outside')
def _(c):
    c.build()
    e, t = c.old['this'], R(c.arg('position'))
    c.pre(z3.Or(*[x for n, x in outside(c, e, t, z3.RealVal(0))], nkeys(e) == 0))
    r = R(c.call())
    c.no_throw()
    p07.frame(c, None)
    c.ensure('silent', r == 0)


@suite.unit(TY + 'Effect::EvaluateWavelet', 'the sample at that time, silence after the last one', label='sample')
def _(c):
    c.build()
    e, t = c.old['this'], R(c.arg('position'))
    s = e.get('waveletSamples')
    fs, ts = R(c.arg('fs')), R(c.arg('timescale'))
    c.pre(z3.And(fs > 0, ts > 0, t >= z3.ToReal(I(e.get('position')))))
    x = (t - z3.ToReal(I(e.get('position')))) * fs / ts
    c.pre(x < 2 ** 31)
    r = R(c.call())
    c.no_throw()
    p07.frame(c, None)
    k = fresh_int('k', 0)
    c.ensure('the sample', r == R(get(s, k)), st=c.where(k < I(seq_len(s)), z3.ToReal(k) <= x, x < z3.ToReal(k) + 1))
    c.ensure('silent after the last sample', r == 0, st=c.where(x >= z3.ToReal(I(seq_len(s)))))


@suite.unit(TY + 'Effect::EvaluateTransient', 'silence when no keyframe sounds at that time', label='outside')
def _(c):
    c.build()
    e, t = c.old['this'], R(c.arg('position'))
    rel = t - z3.ToReal(I(e.get('position')))
    d = R(c.arg('transientDuration'))
    a = z3.Int('a!')
    on = lambda a: z3.And(khas(e, a), z3.ToReal(kpos(e, a)) <= rel, rel <= z3.ToReal(kpos(e, a)) + d)
    c.pre(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < nkeys(e)), z3.Not(on(a)))))
    r = R(c.call())
    c.no_throw()
    c.ensure('silent', r == 0)
    p07.frame(c, None)


@suite.unit(TY + 'Effect::EvaluateTransient', 'two periods of a sine per keyframe that sounds at that time, added up', label='strikes')
def _(c):
    c.build()
    e, t = c.old['this'], R(c.arg('position'))
    rel = t - z3.ToReal(I(e.get('position')))
    d = R(c.arg('transientDuration'))
    a, n = z3.Int('a!'), nkeys(e)
    lo, hi = fresh_int('l', 0), fresh_int('h', 0)
    on = lambda a: z3.And(khas(e, a), z3.ToReal(kpos(e, a)) <= rel, rel <= z3.ToReal(kpos(e, a)) + d)
    # keyframes in order sound one after the other: those from lo to hi
    c.pre(z3.And(d > 0, lo <= hi, hi < n, z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n), on(a) == z3.And(a >= lo, a <= hi)))))
    SIN = z3.Function('fn.sin', z3.RealSort(), z3.RealSort())
    v = lambda k: z3.If(khas(e, k, 'amplitudeModulation'), SIN(4 * z3.RealVal('%.16f' % math.pi) * (rel - z3.ToReal(kpos(e, k))) / d) * kamp(e, k), 0)
    STRIKES = z3.Function('STRIKES', z3.IntSort(), z3.RealSort())       # the sum from that keyframe to hi
    c.pre(STRIKES(hi + 1) == 0)
    at = lambda L: I(L.ip.read(L.st, L.ref('it')).pos)
    c.loop(0, lambda L: [('keyframe', z3.And(at(L) >= n - 1 - hi, at(L) <= n - lo)), ('sum so far', R(L('res')) == STRIKES(n - at(L)))], variant=lambda L: n - at(L),
           hints=lambda L: [STRIKES(n - at(L)) == STRIKES(n - at(L) + 1) + v(n - at(L))])
    r = R(c.call())
    c.no_throw()
    p07.frame(c, None)
    c.ensure('the sum of their sines', r == STRIKES(lo))


def amp_after(e, k, rel, strict=True):
    """k is the first keyframe with a position and an amplitude after (or, not strict, at) that time"""
    a = z3.Int('a!')
    late = lambda a: z3.And(khas(e, a), khas(e, a, 'amplitudeModulation'), z3.ToReal(kpos(e, a)) > rel if strict else z3.ToReal(kpos(e, a)) >= rel)
    return z3.And(k >= 0, k < nkeys(e), late(k), z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < k), z3.Not(late(a)))))


def no_amp_after(e, rel, strict=True):
    a = z3.Int('a!')
    late = lambda a: z3.And(khas(e, a), khas(e, a, 'amplitudeModulation'), z3.ToReal(kpos(e, a)) > rel if strict else z3.ToReal(kpos(e, a)) >= rel)
    return z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < nkeys(e)), z3.Not(late(a))))


def before(e, j, k, has):
    """j is the last keyframe before k with the property"""
    a = z3.Int('a!')
    return z3.And(j >= 0, j < k, has(j), z3.ForAll([a], z3.Implies(z3.And(a > j, a < k), z3.Not(has(a)))))


def none_before(e, k, has):
    a = z3.Int('a!')
    return z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < k), z3.Not(has(a))))


LIN, CUB = 2, 1


@suite.unit(TY + 'Effect::EvaluateKeyframes', 'the curve between the neighbouring amplitude keyframes, silence after the last one', label='curve')
def _(c):
    c.build()
    e, t = c.old['this'], R(c.arg('position'))
    rel = t - z3.ToReal(I(e.get('position')))
    ts = R(c.arg('timescale'))
    c.pre(ts > 0)
    both = lambda a: z3.And(khas(e, a), khas(e, a, 'amplitudeModulation'))
    a, b = z3.Ints('a! b!')
    c.pre(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < nkeys(e), both(a), both(b)), kpos(e, a) < kpos(e, b))))
    r = R(c.call())
    c.no_throw()
    p07.frame(c, None)
    c.ensure('silent after the last keyframe', r == 0, st=c.where(no_amp_after(e, rel)))
    j, k = fresh_int('j', 0), fresh_int('k', 0)
    c.ensure('the first value before the first keyframe', r == kamp(e, k), st=c.where(amp_after(e, k, rel), none_before(e, k, both)))
    ct = I(c.arg('curveType'))
    P0, P1 = z3.ToReal(kpos(e, j)), z3.ToReal(kpos(e, k))
    sec = lambda x: x / ts
    h, u = sec(P1) - sec(P0), sec(rel) - sec(P0)
    c.ensure('the line between two keyframes (in seconds)', r == (kamp(e, j) * (sec(P1) - sec(rel)) + kamp(e, k) * u) / h,
             st=c.where(amp_after(e, k, rel), before(e, j, k, both), ct == LIN), settle=True)
    c.ensure('the smooth cubic between two keyframes (in seconds)', r == kamp(e, j) + (kamp(e, k) - kamp(e, j)) * (3 * h - 2 * u) * (u * u) / (h * h * h),
             st=c.where(amp_after(e, k, rel), before(e, j, k, both), ct == CUB), settle=True)


BASE = z3.Function('BASE', z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.RealSort())


class Carrier:
    """computeBaseSignal: some function of the time, the frequency and the phase"""

    def apply(self, ip, st, d, this, args):
        v = [ip.read(st, a) if isinstance(a, LRef) else a for a in args]
        return BASE(*[R(x) for x in v])


LINE = z3.Function('LINE', *[z3.RealSort()] * 6)


class Line:
    """linearInterpolation (P12): some function of the two points and the position"""

    def apply(self, ip, st, d, this, args):
        a, b, x = [ip.read(st, v) if isinstance(v, LRef) else v for v in args]
        return LINE(R(get(a, '0')), R(get(a, '1')), R(get(b, '0')), R(get(b, '1')), R(x))


def vectorial(label, claim):
    def deco(f):
        @suite.unit(TY + 'Effect::EvaluateVectorial', claim, label=label)
        def _(c):
            c.range('Keyframe.relativePosition', 0, 1 << 30)
            c.build()
            e, t = c.old['this'], R(c.arg('position'))
            c.ip.contracts[TY + 'Effect::computeBaseSignal'] = Carrier()
            c.ip.contracts['haptics::tools::linearInterpolation'] = Line()
            a, b = z3.Ints('a! b!')
            # positioned keyframes in order
            c.pre(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < nkeys(e)), khas(e, a))))
            c.pre(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < nkeys(e)), kpos(e, a) < kpos(e, b))))
            c.pre(nkeys(e) >= 1)
            start = z3.ToReal(I(e.get('position')))
            c.pre(z3.And(R(c.arg('timescale')) > 0, t >= start, t <= start + z3.ToReal(kpos(e, nkeys(e) - 1))))
            f(c, e, t - start)
    return deco


@vectorial('amplitude', 'without frequencies: the interpolated amplitude times the base signal at its phase')
def _(c, e, rel):
    a = z3.Int('a!')
    has = lambda a: khas(e, a, 'amplitudeModulation')
    c.pre(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < nkeys(e)), z3.Not(khas(e, a, 'frequencyModulation')))))
    r = R(c.call())
    c.no_throw()
    p07.frame(c, None)
    ph = z3.If(B(get(e, 'phase', '?')), R(get(e, 'phase', '!')), 0)
    w = BASE(rel / R(c.arg('timescale')), 0, ph)
    j, k = fresh_int('j', 0), fresh_int('k', 0)
    P0, P1 = z3.ToReal(kpos(e, j)), z3.ToReal(kpos(e, k))
    c.ensure('full without amplitudes', r == w, st=c.where(none_before(e, nkeys(e), has)))
    c.ensure('the first amplitude before the first', r == kamp(e, k) * w, st=c.where(amp_after(e, k, rel, False), none_before(e, k, has)))
    c.ensure('the last amplitude after the last', r == kamp(e, j) * w, st=c.where(no_amp_after(e, rel, False), before(e, j, nkeys(e), has)))
    c.ensure('the line between two amplitudes', r == LINE(P0, kamp(e, j), P1, kamp(e, k), rel) * w, st=c.where(amp_after(e, k, rel, False), before(e, j, k, has)))


CHIRP = z3.Function('CHIRP', *[z3.RealSort()] * 6)
PREV = z3.Function('PREV', z3.IntSort(), z3.IntSort())
PHASE = z3.Function('PHASE', z3.IntSort(), z3.RealSort())


class Chirp:
    """chirpInterpolation (P12): some function of the two times and frequencies and the position"""

    def apply(self, ip, st, d, this, args):
        return CHIRP(*[R(ip.read(st, v) if isinstance(v, LRef) else v) for v in args])


@vectorial('frequency', 'the carrier runs at the frequency of the interval, its phase is the sum over the intervals before')
def _(c, e, rel):
    c.ip.contracts['haptics::tools::chirpInterpolation'] = Chirp()
    a = z3.Int('a!')
    n = nkeys(e)
    has = lambda a: khas(e, a, 'frequencyModulation')
    f = lambda a: z3.ToReal(I(get(e, 'keyframes', norm(a), 'frequencyModulation', '!')))
    p = lambda a: z3.ToReal(kpos(e, a))
    ts = R(c.arg('timescale'))
    PI = z3.RealVal('%.16f' % math.pi)
    ph = z3.If(B(get(e, 'phase', '?')), R(get(e, 'phase', '!')), 0)
    c.pre(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n), z3.Not(khas(e, a, 'amplitudeModulation')))))
    step = lambda a: z3.If(has(a), z3.If(PREV(a) >= 0, PI * (p(a) - p(PREV(a))) / ts * (f(PREV(a)) + f(a)), z3.If(kpos(e, a) > 0, 2 * PI * p(a) / ts * f(a), 0)), 0)
    c.pre(z3.And(PREV(0) == -1, PHASE(0) == ph))
    c.pre(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n), PREV(a + 1) == z3.If(has(a), a, PREV(a))), patterns=[has(a)]))

    c.ground(deep=True)
    S.GHOST.add('PREV')

    def cases(i):
        h, first, pos = has(i), PREV(i) < 0, kpos(e, i) > 0
        return [z3.Not(h), z3.And(h, z3.Not(first)), z3.And(h, first, pos), z3.And(h, first, z3.Not(pos))]

    def inv(L):
        i = at(L)
        b = z3.Int('b!')
        q = PREV(i)
        return [('in range', z3.And(i >= 0, i <= n)), ('phase so far', R(L('phi')) == PHASE(i), cases(i - 1)),
                ('before the time', z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < i, has(b)), p(b) < rel))),
                ('previous frequency', z3.And(q >= -1, q < i, z3.Implies(q >= 0, has(q)), z3.ForAll([b], z3.Implies(z3.And(b > q, b < i), z3.Not(has(b))))))]
    at = lambda L: I(L.ip.read(L.st, L.ref('firstFrequencyKeyframeAfterPositionIt')).pos)
    c.loop(0, inv, variant=lambda L: n - at(L), hints=lambda L: [PHASE(at(L)) == PHASE(at(L) - 1) + step(at(L) - 1)])      # definition of PHASE
    r = R(c.call())
    c.no_throw()
    p07.frame(c, None)
    i, q = fresh_int('i', 0), fresh_int('q', 0)
    lo, hi = z3.ToReal(I(c.arg('lowFrequencyLimit'))), z3.ToReal(I(c.arg('highFrequencyLimit')))
    late = lambda k: z3.And(k >= 0, k < n, has(k), p(k) >= rel, z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < k, has(a)), p(a) < rel)))
    none_late = z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n, has(a)), p(a) < rel))
    c.ensure('before the first frequency', r == BASE(rel / ts, f(i), PHASE(i)), st=c.where(late(i), none_before(e, i, has)), settle=True)
    x = CHIRP(p(q), p(i), f(q), f(i), rel)
    clip = z3.If(x < lo, lo, z3.If(hi < x, hi, x))
    c.ensure('between two frequencies', r == BASE((rel - p(q)) / ts, clip, PHASE(i)), st=c.where(late(i), before(e, q, i, has)), settle=True)
    c.ensure('after the last frequency', r == BASE((rel - p(q)) / ts, f(q), PHASE(n)), st=c.where(none_late, before(e, q, n, has)), settle=True)


@suite.unit(TY + 'Effect::computeBaseSignal', 'the base signals stay in [-1,1]; a sine is the sine of its phase', label='range')
def _(c):
    c.build()
    b = get(c.old['this'], 'baseSignal')
    t, f, ph = R(c.arg('time')), R(c.arg('frequency')), R(c.arg('phase'))
    r = R(c.call())
    c.no_throw()
    p07.frame(c, None)
    c.ensure('in range', z3.And(r >= -1, r <= 1))
    sine = z3.Or(z3.Not(B(get(b, '?'))), I(get(b, '!')) == 0)
    SIN = z3.Function('fn.sin', z3.RealSort(), z3.RealSort())
    PI2 = 2 * z3.RealVal('%.16f' % math.pi)
    c.ensure('a sine of a phase', r == SIN(PI2 * (t + ph / (PI2 * f)) * f), st=c.where(sine, f != 0))
    c.ensure('silent sine without frequency', r == SIN(0), st=c.where(sine, f == 0))


# ---------------------------------------------------------------- bands
VAL = z3.Function('VAL', z3.IntSort(), z3.RealSort(), z3.RealSort())
END = z3.Function('END', z3.IntSort(), z3.RealSort())


def element(r):
    """index of the effect a reference or pointer names"""
    if isinstance(r, PtrVal):
        alts = [a for g, a in r.alts if a is not None]
        if len(alts) != 1:
            raise Unsupported('effect pointer')
        r = alts[0]
    if not r.path or r.path[-1][0] != 'i':
        raise Unsupported('effect reference')
    return I(r.path[-1][1])


class Signal:
    """EvaluationSwitch: the signal of that effect at that time (its cases are proved separately)"""

    def apply(self, ip, st, d, this, args):
        t = ip.read(st, args[0]) if isinstance(args[0], LRef) else args[0]
        e = args[1]
        if isinstance(e, LRef):
            e = ip.read(st, e)
        return VAL(element(e), R(t))


class Length:
    """getEffectTimeLength, proved above: the length of that effect"""

    def __init__(self, band=None, dur=None):
        self.band, self.dur = band, dur

    def apply(self, ip, st, d, this, args):
        v = [ip.read(st, a) if isinstance(a, LRef) else a for a in args]
        if self.band is not None:
            ip.oblige(st, I(v[0]) == I(self.band), 'length asked for the type of the band')
            ip.oblige(st, R(v[1]) == R(self.dur), 'length asked for the duration of a transient')
        return END(element(this))


def duration(c):
    return z3.RealVal(22) * R(c.arg('timescale')) / 1000


@suite.unit(TY + 'Band::getTransientDuration', '22 ms in ticks', label='ticks')
def _(c):
    c.build()
    c.pre(R(c.arg('timescale')) > 0)
    r = R(c.call())
    c.no_throw()
    c.ensure('22 ms', r * 1000 == 22 * R(c.arg('timescale')))


@suite.unit(TY + 'Band::getBandTimeLength', 'covers every effect, and no more', label='length')
def _(c):
    c.build()
    b = c.old['this']
    c.pre(R(c.arg('timescale')) > 0)
    n = I(get(b, 'effects', '#'))
    c.ip.contracts[TY + 'Effect::getEffectTimeLength'] = Length(b.get('bandType'), duration(c))
    end = lambda a: z3.ToReal(I(get(b, 'effects', norm(a), 'position'))) + END(a)
    a, m = z3.Int('a!'), z3.Int('m!')
    W = z3.Function('WHICH', z3.IntSort(), z3.IntSort())

    def inv(L):
        i, x = I(L('#i')), R(L('length'))
        return [('in range', z3.And(i >= 0, i <= n, x >= 0)), ('covers every effect so far', z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < i), x >= end(a)))),
                ('no more', z3.Or(x == 0, z3.Exists([a], z3.And(a >= 0, a < i, x == end(a)))))]
    c.loop(0, inv)
    r = R(c.call())
    c.no_throw()
    p07.frame(c, None)
    c.ensure('nothing for an empty band', r == 0, when=n == 0)
    k = c.forall(0, n)
    c.ensure('covers every effect', r >= end(I(k)))
    c.ensure('ends with an effect', z3.Or(r == 0, z3.Exists([a], z3.And(a >= 0, a < n, r == end(a)))))


@suite.unit(TY + 'Band::Evaluate', 'silence outside the effects, else the signal of the effect that started last', label='pick')
def _(c):
    c.build()
    b, t = c.old['this'], R(c.arg('position'))
    c.pre(R(c.arg('timescale')) > 0)
    n = I(get(b, 'effects', '#'))
    start = lambda a: z3.ToReal(I(get(b, 'effects', norm(a), 'position')))
    x, y = z3.Ints('x! y!')
    c.pre(z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, x < y, y < n), start(x) <= start(y))))
    c.ip.contracts[TY + 'Effect::getEffectTimeLength'] = Length(b.get('bandType'), duration(c))
    c.ip.contracts[TY + 'Band::EvaluationSwitch'] = Signal()

    def at(L):
        return I(L.ip.read(L.st, L.ref('it')).pos)
    c.loop(0, lambda L: [('in range', z3.And(at(L) >= 0, at(L) < n)), ('later effects have not started', z3.ForAll([x], z3.Implies(z3.And(x > at(L), x < n), start(x) > t)))], variant=lambda L: at(L) + 1)
    r = R(c.call())
    c.no_throw()
    p07.frame(c, None)
    wave = I(get(b, 'bandType')) == WAVE
    k = fresh_int('k', 0)
    c.ensure('silent without effects', r == 0, when=n == 0)
    c.ensure('silent before the first effect', r == 0, st=c.where(n > 0, t < start(0)))
    c.ensure('silent after the last effect', r == 0, st=c.where(n > 0, t > start(n - 1) + END(n - 1), z3.Not(wave)))
    c.ensure('the effect that started last', r == VAL(k, t), st=c.where(k < n, start(k) <= t, z3.ForAll([x], z3.Implies(z3.And(x > k, x < n), start(x) > t)), t >= 0, z3.Or(wave, t <= start(n - 1) + END(n - 1))))


@suite.unit(TY + 'Band::EvaluationSwitch', 'every kind of band asks its effect for that kind of signal; a transient only sounds in its time range', label='dispatch')
def _(c):
    eff = c.sym('effect', T('record', TY + 'Effect'))
    c.build(effect=PtrVal([(True, c.cell(eff))]))
    b, t = c.old['this'], R(c.arg('position'))
    ts = R(c.arg('timescale'))
    c.pre(ts > 0)
    kind = I(b.get('bandType'))
    A = {k: z3.Real('SIGNAL.' + k) for k in ('Keyframes', 'Vectorial', 'Wavelet', 'Transient')}
    LEN = z3.Real('LENGTH')

    class Part:
        def __init__(self, k, *want):
            self.k, self.want = k, want

        def apply(self, ip, st, d, this, args):
            v = [ip.read(st, a) if isinstance(a, LRef) else a for a in args]
            for a, w in zip(v, self.want):
                ip.oblige(st, R(a) == R(w), '%s asked for what was asked' % self.k)
            return A[self.k] if self.k in A else LEN
    lo, hi = c.arg('lowFrequencyLimit'), c.arg('highFrequencyLimit')
    ct = get(b, 'curveType')
    for k, w in {'Keyframes': (t, z3.If(B(get(ct, '?')), I(get(ct, '!')), 0), ts), 'Vectorial': (t, lo, hi, ts), 'Wavelet': (t, b.get('upperFrequencyLimit'), ts), 'Transient': (t, duration(c))}.items():
        c.ip.contracts[TY + 'Effect::Evaluate' + k] = Part(k, *w)
    c.ip.contracts[TY + 'Effect::getEffectTimeLength'] = Part('length', z3.RealVal(TRANS), duration(c))
    start = z3.ToReal(I(get(eff, 'position')))
    r = R(c.call())
    c.no_throw()
    c.ensure('a curve', r == A['Keyframes'], st=c.where(kind == CURVE))
    c.ensure('a vectorial wave', r == A['Vectorial'], st=c.where(kind == VECT))
    c.ensure('a wavelet wave', r == A['Wavelet'], st=c.where(kind == WAVE))
    c.ensure('a transient in its time range', r == A['Transient'], st=c.where(kind == TRANS, t >= start, t <= start + LEN))
    c.ensure('silent outside', r == 0, st=c.where(kind == TRANS, z3.Or(t < start, t > start + LEN)))


SUM = z3.Function('SUM', z3.RealSort(), z3.IntSort(), z3.RealSort())


@suite.unit(TY + 'Band::EvaluationBand', 'each sample is the sum of the signals of the effects that started', label='sum')
def _(c):
    c.build()
    b = c.old['this']
    fs, ts, pad = R(c.arg('fs')), R(c.arg('timescale')), R(c.arg('pad'))
    c.pre(z3.And(ts > 0, fs > 0, I(get(b, 'bandType')) != CURVE))
    n, m = I(get(b, 'effects', '#')), I(c.arg('sampleCount'))
    start = lambda a: z3.ToReal(I(get(b, 'effects', norm(a), 'position')))
    T_ = lambda i: ts * (z3.ToReal(i) / fs - pad * z3.RealVal('0.001'))
    # SUM(t, a): the effects from a on
    part = lambda t, a: SUM(t, a) == SUM(t, a + 1) + z3.If(start(a) <= t, VAL(a, t), 0)
    t0 = z3.Real('t!')
    c.pre(z3.ForAll([t0], z3.And(SUM(t0, n) == 0, z3.Implies(n > 0, part(t0, I(0)))), patterns=[SUM(t0, n)]))
    c.ip.contracts[TY + 'Effect::getEffectTimeLength'] = Length(b.get('bandType'), duration(c))
    c.ip.contracts[TY + 'Band::EvaluationSwitch'] = Signal()
    j = c.forall(0, m, 'j')

    def at(L):
        return I(L.ip.read(L.st, L.ref('it')).pos)

    def outer(L):
        i = I(L('ti'))
        y = L('bandAmp')
        return [('in range', z3.And(i >= 0, i <= m, I(seq_len(y)) == m)), ('samples so far', at_index(y, j, lambda e: R(e) == z3.If(j < i, SUM(T_(j), 0), 0)), [i == j, i == j + 1, z3.And(i != j, i != j + 1)])]

    def inner(L):
        i, k = I(L('ti')), at(L)
        y = L('bandAmp')
        return [('in range', z3.And(k >= 0, k < n, I(seq_len(y)) == m)), ('sum so far', at_index(y, j, lambda e: R(e) == z3.If(j < i, SUM(T_(j), 0), z3.If(j == i, SUM(T_(i), k + 1), 0))))]
    c.loop(3, outer)
    c.loop(4, inner, variant=lambda L: at(L) + 1, hints=lambda L: [part(T_(I(L('ti'))), at(L) + 1)])
    r = c.call()
    c.no_throw()
    p07.frame(c, None)
    c.ensure('as many samples as asked', I(seq_len(r)) == m)
    c.ensure('sum of the started effects', R(get(r, j)) == SUM(T_(j), 0))


# ---------------------------------------------------------------- channels
BV = z3.Function('BAND', z3.IntSort(), z3.RealSort())
BS = z3.Function('BANDSAMPLE', z3.IntSort(), z3.IntSort(), z3.RealSort())
TOTAL = z3.Function('TOTAL', z3.IntSort(), z3.IntSort(), z3.RealSort())


def clip(x):
    return z3.If(x < -1, z3.RealVal(-1), z3.If(x > 1, z3.RealVal(1), x))


@suite.unit(TY + 'Channel::Evaluate', 'the sum of its bands, clipped to [-1,1]', label='sum')
def _(c):
    c.build()
    ch = c.old['this']
    n = I(get(ch, 'bands', '#'))

    class Value:
        def apply(self, ip, st, d, this, args):
            v = [ip.read(st, a) if isinstance(a, LRef) else a for a in args]
            k = element(this)
            for a, w in zip(v, (c.arg('position'), get(ch, 'bands', norm(k), 'lowerFrequencyLimit'), get(ch, 'bands', norm(k), 'upperFrequencyLimit'), c.arg('timescale'))):
                ip.oblige(st, R(a) == R(w), 'the band is asked for what was asked')
            return BV(k)
    c.ip.contracts[TY + 'Band::Evaluate'] = Value()
    c.pre(TOTAL(0, 0) == 0)
    c.loop(0, lambda L: [('in range', z3.And(I(L('#i')) >= 0, I(L('#i')) <= n)), ('sum so far', R(L('res')) == TOTAL(0, I(L('#i'))))],
           hints=lambda L: [TOTAL(0, I(L('#i'))) == TOTAL(0, I(L('#i')) - 1) + BV(I(L('#i')) - 1)])
    r = R(c.call())
    c.no_throw()
    p07.frame(c, None)
    c.ensure('clipped sum of the bands', r == clip(TOTAL(0, n)))


@suite.unit(TY + 'Channel::EvaluateChannel', 'each sample is the sum of the samples of its bands, clipped to [-1,1]', label='sum')
def _(c):
    c.build()
    ch = c.old['this']
    n, m = I(get(ch, 'bands', '#')), I(c.arg('sampleCount'))

    class Sampled:
        def apply(self, ip, st, d, this, args):
            v = [ip.read(st, a) if isinstance(a, LRef) else a for a in args]
            k = element(this)
            for a, w in zip(v, ('sampleCount', 'fs', 'pad', 'timescale')):
                ip.oblige(st, R(a) == R(c.arg(w)), 'the band is asked for what was asked')
            i = index_var('s')
            return Seq([Loop(i, 0, norm(m), [U(norm(BS(k, i)))])], T('float', 'double'))
    c.ip.contracts[TY + 'Band::EvaluationBand'] = Sampled()
    j = c.forall(0, m, 'j')
    c.pre(TOTAL(j, 0) == 0)
    c.loop(0, lambda L: [('in range', z3.And(I(L('#i')) >= 0, I(L('#i')) <= n, I(seq_len(L('channelAmp'))) == m)),
                         ('sum so far', at_index(L('channelAmp'), j, lambda e: R(e) == TOTAL(j, I(L('#i')))))],
           hints=lambda L: [TOTAL(j, I(L('#i'))) == TOTAL(j, I(L('#i')) - 1) + BS(I(L('#i')) - 1, j)])
    r = c.call()
    c.no_throw()
    p07.frame(c, None)
    c.ensure('as many samples as asked', I(seq_len(r)) == m)
    c.ensure('clipped sum of the bands', R(get(r, j)) == clip(TOTAL(j, n)))


# ---------------------------------------------------------------- the length of a document
BL = z3.Function('BANDLENGTH', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())


@suite.unit('haptics::synthesizer::Helper::getTimeLength', 'covers every band, and every channel with a given number of samples', label='length')
def _(c):
    from engine.loops import LoopView
    c.build()
    h = c.old['haptic']
    ts = get(h, 'timescale')
    c.pre(z3.And(B(get(ts, '?')), I(get(ts, '!')) > 0))
    ps = get(h, 'perceptions')
    p = c.forall(0, seq_len(ps), 'p')
    chs = get(ps, p, 'channels')
    q = c.forall(0, seq_len(chs), 'q')
    ch = get(chs, q)
    b = fresh_int('b')
    n, m = get(ch, 'sampleCount'), get(ch, 'frequencySampling')
    given = z3.And(B(get(n, '?')), B(get(m, '?')))
    c.pre(z3.Implies(given, I(get(m, '!')) > 0))
    c.pre(z3.And(b >= 0, z3.Implies(z3.Not(given), b < I(get(ch, 'bands', '#')))))
    want = z3.If(given, z3.ToReal(I(get(ts, '!'))) * (z3.ToReal(I(get(n, '!'))) / z3.ToReal(I(get(m, '!')))), BL(p, q, b))

    class Len:
        def apply(self, ip, st, d, this, args):
            L = LoopView(ip, None, st)
            L.st = st
            i, j, k = [I(L(x)) for x in ('perceptionIndex', 'channelIndex', 'bandIndex')]
            ip.oblige(st, goal_eq(ip.read(st, this), get(h, 'perceptions', i, 'channels', j, 'bands', k)), 'the band at these indices is asked')
            return BL(i, j, k)
    c.ip.contracts[TY + 'Band::getBandTimeLength'] = Len()
    top = lambda L: R(L('maxLength'))

    def l0(L):
        i = I(L('perceptionIndex'))
        return [('in range', z3.And(i >= 0, i <= I(seq_len(ps)), top(L) >= 0)), ('covered so far', z3.Implies(p < i, top(L) >= want))]

    def l1(L):
        i, j = I(L('perceptionIndex')), I(L('channelIndex'))
        return [('in range', z3.And(j >= 0, j <= I(get(ps, i, 'channels', '#')), top(L) >= 0)), ('covered so far', z3.Implies(z3.Or(p < i, z3.And(p == i, q < j)), top(L) >= want))]

    def l2(L):
        i, j, k = I(L('perceptionIndex')), I(L('channelIndex')), I(L('bandIndex'))
        return [('in range', z3.And(k >= 0, k <= I(get(ps, i, 'channels', j, 'bands', '#')), top(L) >= 0)),
                ('covered so far', z3.Implies(z3.Or(p < i, z3.And(p == i, q < j), z3.And(p == i, q == j, z3.Not(given), b < k)), top(L) >= want))]
    for k, f in enumerate((l0, l1, l2)):
        c.loop(k, f)
    r = R(c.call())
    c.no_throw()
    c.ensure('covers it', r >= want)


# ---------------------------------------------------------------- sampled curves
AMP = z3.Function('AMP', z3.IntSort(), z3.IntSort(), z3.RealSort())
ALEN = z3.Function('ALEN', z3.IntSort(), z3.IntSort())
STARTS = z3.Function('STARTS', z3.IntSort(), z3.IntSort())


@suite.unit(TY + 'Band::EvaluationBand', 'the keyframes of an effect are handed to the interpolation in samples, and its curve is added where the effect sounds', label='curve', timeout=240)
def _(c):
    from engine.loops import LoopView
    c.range('Keyframe.relativePosition', 0, 1 << 20)
    c.range('Effect.position', 0, 1 << 20)
    c.build()
    b = c.old['this']
    fs, ts, pad = I(c.arg('fs')), I(c.arg('timescale')), I(c.arg('pad'))
    m = I(c.arg('sampleCount'))
    c.pre(z3.And(ts > 0, fs > 0, fs <= 1 << 20, pad >= -(1 << 20), pad <= 1 << 20, m < 1 << 30, I(get(b, 'bandType')) == CURVE))
    effs = get(b, 'effects')
    n = I(seq_len(effs))
    a, x = z3.Ints('a! x!')
    j = c.forall(0, m, 'j')
    allk = lambda f: z3.ForAll([x, a], z3.Implies(z3.And(x >= 0, x < n, a >= 0, a < nkeys(get(effs, norm(x)))), f(get(effs, norm(x)), a)))
    c.pre(allk(lambda e, k: z3.And(khas(e, k), khas(e, k, 'amplitudeModulation'))))
    P = lambda e, q: norm((kpos(e, q) * fs) / ts)

    first = lambda e: (z3.ToReal(I(e.get('position'))) / z3.ToReal(ts) + z3.ToReal(pad) * z3.RealVal('0.001')) * z3.ToReal(fs)
    c.pre(allk(lambda e, k: z3.And(P(e, k) >= P(e, 0), P(e, k) < 1 << 29)))
    c.pre(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n), z3.And(first(get(effs, norm(x))) > -(1 << 29), first(get(effs, norm(x))) < 1 << 29))))

    trunc = lambda v: z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    S0 = lambda e: trunc(first(e)) + P(e, I(0))

    class Curve:
        def __init__(self, kinds):
            self.kinds = kinds

        def apply(self, ip, st, d, this, args):
            L = LoopView(ip, None, st)
            L.st = st
            i = I(L('#i'))
            e = get(effs, i)
            ks = ip.read(st, args[0]) if isinstance(args[0], LRef) else args[0]
            q = fresh_int('q', 0)
            ip.oblige(st, I(seq_len(ks)) == nkeys(e), 'every keyframe is handed over')
            s2 = st.clone().assume(q < nkeys(e))
            ip.oblige(s2, I(get(ks, q, '0')) == P(e, q) - P(e, I(0)), 'position in samples from the first keyframe')
            ip.oblige(s2, R(get(ks, q, '1')) == kamp(e, q), 'amplitude of the keyframe')
            ct = get(b, 'curveType')
            k = z3.If(B(get(ct, '?')), I(get(ct, '!')), 0)
            ip.oblige(st, z3.Or(z3.And(nkeys(e) <= 2, self.kinds[0] == 2), z3.And(nkeys(e) > 2, z3.Or(*[k == x for x in self.kinds]))), 'the interpolation of the band')
            st.assume(z3.And(ALEN(i) >= 0, ALEN(i) < 1 << 29))
            s = index_var('s')
            return Seq([Loop(s, 0, norm(ALEN(i)), [U(norm(AMP(i, s)))])], T('float', 'double'))
    for f, kinds in (('linearInterpolation2', (2,)), ('cubicInterpolation2', (1, 0)), ('akimaInterpolation', (3,)), ('bezierInterpolation', (4,)), ('bsplineInterpolation', (5,))):
        c.ip.contracts['haptics::tools::' + f] = Curve(kinds)

    def contribution(i):
        e = get(effs, norm(i))
        z = j - S0(e)
        return z3.If(z3.And(nkeys(e) > 0, z >= 0, z < ALEN(i)), AMP(i, z), 0)

    at = lambda L: I(L('#i'))
    c.pre(TOTAL(j, 0) == 0)
    c.loop(0, lambda L: [('in range', z3.And(at(L) >= 0, at(L) <= n, I(seq_len(L('bandAmp'))) == m)), ('sum so far', at_index(L('bandAmp'), j, lambda e: R(e) == TOTAL(j, at(L))))],
           hints=lambda L: [TOTAL(j, at(L)) == TOTAL(j, at(L) - 1) + contribution(at(L) - 1)])

    def points(L):
        e = get(effs, I(L('#i')))
        ks = L.old('keyframes')

        def done(k):
            u, v = index_var('u'), index_var('v')
            new = lambda q: get(ks, q).set('0', norm(P(e, q) - z3.If(I(q) > 0, P(e, I(0)), 0))).set('1', get(e, 'keyframes', q, 'amplitudeModulation', '!'))
            return Seq([Loop(u, 0, k, [U(Lazy(lambda: new(u), roots=(e, u)))]), Loop(v, k, seq_len(ks), [U(Lazy(lambda: get(ks, v), roots=(ks, v)))])], ks.et)
        return get(e, 'keyframes', '#'), [(L.ref('keyframes'), done)]
    c.form(1, points)
    r = c.call()
    c.no_throw()
    p07.frame(c, None)
    c.ensure('as many samples as asked', I(seq_len(r)) == m)
    c.ensure('sum of the curves', R(get(r, j)) == TOTAL(j, n))
