"""P08: keyframes stay time-ordered and merge without loss (Effect::addAmplitudeAt / addFrequencyAt)."""
from engine.spec import *
from contracts import p07
import z3

SRC = ['Types/src/Effect.cpp', 'Types/src/Keyframe.cpp']
HARNESS_SOURCES = p07.HARNESS_SOURCES
suite = Suite('P08', SRC, harness='keyframes', stand_in='random keyframe scripts on one effect against an ordered-map model')
NS = 'haptics::types::'


def kp(s, i):
    return I(get(seq_get(s, i), 'relativePosition', '!'))


def kh(s, i):
    return B(get(seq_get(s, i), 'relativePosition', '?'))


def unit(qual, label, pick, val, mine, other, override=True):
    @suite.unit(NS + qual, 'keeps keyframes in position order, places the value at its position, keeps everything else', label=label, pick=pick, weight=3)
    def _(c):
        c.build()
        s = c.old['this'].get('keyframes')
        n = I(seq_len(s))
        p = I(c.arg('position'))
        v = c.arg(val)
        a, b = z3.Ints('a! b!')
        c.pre(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n), kh(s, a))))
        if override is None:
            c.pre(z3.Not(B(c.arg('overrideIfAlreadyExists'))))
        elif override is True and len(c.d.params) == 3:
            c.pre(B(c.arg('overrideIfAlreadyExists')))
        strict = override is not None
        c.pre(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < n), kp(s, a) < kp(s, b) if strict else kp(s, a) <= kp(s, b))))
        r = c.call()
        c.no_throw()
        c.ensure('reports success', r)
        p07.frame(c, 'keyframes')
        t = c.new('this', 'keyframes')
        m = I(seq_len(t))
        i = c.forall(0, m, 'i')
        j = c.forall(0, m, 'j')
        c.ensure('every keyframe has a position', kh(t, i))
        c.ensure('keyframes stay in %s position order' % ('strictly increasing' if strict else 'non-decreasing'), kp(t, i) < kp(t, j) if strict else kp(t, i) <= kp(t, j), when=i < j)
        k = c.forall(0, n, 'k')
        e = seq_get(s, k)
        # k is an arbitrary old keyframe
        c.eq('keyframes before the position keep their place and value', seq_get(t, k), e, when=kp(s, k) < p)
        if strict:
            hit = z3.And(kp(s, k) == p)
            c.eq('a keyframe already at the position is merged: count unchanged', m, n, when=hit)
            c.eq('merged keyframe takes the value', get(seq_get(t, k), mine), v, when=hit)
            c.eq('merged keyframe keeps its other modulation', get(seq_get(t, k), other), get(e, other), when=hit)
            c.eq('merged keyframe keeps its position', kp(t, k), p, when=hit)
            l = c.forall(0, n, 'l')
            st = c.where(kp(s, k) == p, l != k)
            c.eq('merging leaves the other keyframes alone', seq_get(t, l), seq_get(s, l), st=st)
            # no keyframe at p
            nohit = z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n), kp(s, a) != p))
        else:
            nohit = z3.BoolVal(True)
            first = z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n), kp(s, a) != p))
        st = c.where(nohit)
        c.eq('otherwise one keyframe more', m, norm(n + 1), st=st)
        st = c.where(nohit, kp(s, k) > p)
        c.eq('keyframes after the position move up by one, unchanged', seq_get(t, norm(k + 1)), e, st=st)
        q = fresh_int('q', 0)
        st = c.where(nohit if strict else first, q <= n, z3.Implies(q < n, kp(s, q) > p), z3.Implies(q > 0, kp(s, norm(q - 1)) < p))
        c.eq('new keyframe is at its place', kp(t, q), p, st=st)
        c.eq('new keyframe carries the value', get(seq_get(t, q), mine), v, st=st)
        c.ensure('new keyframe carries nothing else', z3.Not(B(get(seq_get(t, q), other, '?'))), st=st)
        if not strict:
            st = c.where(kp(s, k) == p, z3.Implies(k > 0, kp(s, norm(k - 1)) < p))
            c.eq('an existing keyframe is kept as it is', seq_get(t, k), e, st=st)
            c.eq('the new keyframe follows it', kp(t, norm(k + 1)), p, st=st)
            c.eq('the new keyframe carries the value', get(seq_get(t, norm(k + 1)), mine), v, st=st)


A, Fq = 'amplitudeModulation', 'frequencyModulation'
unit('Effect::addAmplitudeAt', 'default', lambda d: len(d.params) == 2, 'amplitude', A, Fq)
unit('Effect::addAmplitudeAt', 'override', lambda d: len(d.params) == 3, 'amplitude', A, Fq)
unit('Effect::addAmplitudeAt', 'keep-existing', lambda d: len(d.params) == 3, 'amplitude', A, Fq, override=None)
unit('Effect::addFrequencyAt', 'frequency', None, 'frequency', Fq, A)


@suite.unit(NS + 'Effect::addKeyframe', 'appends a keyframe made of the given values', label='values', pick=lambda d: len(d.params) == 3)
def _(c):
    c.build()
    s = c.old['this'].get('keyframes')
    c.call()
    c.no_throw()
    p07.frame(c, 'keyframes')
    t = c.new('this', 'keyframes')
    n = I(seq_len(s))
    c.eq('one more', seq_len(t), norm(n + 1))
    k = c.forall(0, n)
    c.eq('existing kept', seq_get(t, k), seq_get(s, k))
    e = seq_get(t, n)
    c.eq('position', get(e, 'relativePosition'), c.arg(0))
    c.eq('amplitude', get(e, A), c.arg(1))
    c.eq('frequency', get(e, Fq), c.arg(2))


suite.include(p07.suite, only=lambda u: 'Keyframe' in u.qual)
