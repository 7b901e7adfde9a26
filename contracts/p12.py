"""P12: interpolation passes through its points and stays between them (tools::*Interpolation)."""
from engine.spec import *
import z3

SRC = ['Tools/src/Tools.cpp']
HARNESS_SOURCES = SRC
suite = Suite('P12', SRC, harness='interp', stand_in='random keyframe sets: end values, monotonicity, passing through every given point for all curve kinds')
NS = 'haptics::tools::'


@suite.unit(NS + 'linearInterpolation', 'exact at both ends, constant outside, monotone and between the end values inside')
def linear(c):
    c.build()
    x = R(c.arg('x'))
    t0, t1 = R(c.arg('a', '0')), R(c.arg('b', '0'))
    f0, f1 = R(c.arg('a', '1')), R(c.arg('b', '1'))
    c.pre(t0 < t1)
    r = c.call()
    c.no_throw()
    r = R(r)
    c.ensure('first value at the first position', r == f0, when=x == t0)
    c.ensure('second value at the second position', r == f1, when=x == t1)
    c.ensure('first value before', r == f0, when=x < t0)
    c.ensure('second value after', r == f1, when=x > t1)
    st = c.where(x >= t0, x <= t1)
    c.ensure('the straight line between the points', r * (t1 - t0) == f0 * (t1 - x) + f1 * (x - t0), st=st)
    # consequences of the line equation, for any second position y
    c.ensure('between the two values (rising)', z3.And(r >= f0, r <= f1), st=c.where(x >= t0, x <= t1, f0 <= f1))
    c.ensure('between the two values (falling)', z3.And(r <= f0, r >= f1), st=c.where(x >= t0, x <= t1, f0 >= f1))


@suite.unit(NS + 'linearInterpolation', 'lemma over the contract: the line is monotone in the position', label='monotone')
def monotone(c):
    c.build()
    c.called = True
    t0, t1, f0, f1, x, y, r, s = z3.Reals('t0 t1 f0 f1 x y r s')
    line = lambda x, r: r * (t1 - t0) == f0 * (t1 - x) + f1 * (x - t0)
    c.dead = False
    c.pre(z3.And(t0 < t1, t0 <= x, x <= y, y <= t1, line(x, r), line(y, s)))
    c.ensure('rising', r <= s, st=c.where(f0 <= f1))
    c.ensure('falling', r >= s, st=c.where(f0 >= f1))


@suite.unit(NS + 'genericNormalization', 'maps the input range onto the output range, ends to ends, affinely')
def norm_(c):
    c.build()
    a, b, p, q, x = [R(c.arg(n)) for n in ('start_in', 'end_in', 'start_out', 'end_out', 'x_in')]
    c.pre(a != b)
    r = R(c.call())
    c.no_throw()
    c.ensure('start maps to start', r == p, when=x == a)
    c.ensure('end maps to end', r == q, when=x == b)
    c.ensure('affine', (r - q) * (b - a) == (q - p) * (x - b))
    c.ensure('stays in range (increasing)', z3.And(r >= p, r <= q), st=c.where(a < b, a <= x, x <= b, p <= q))
    c.ensure('stays in range (decreasing)', z3.And(r <= p, r >= q), st=c.where(a < b, a <= x, x <= b, p >= q))


@suite.unit(NS + 'chirpInterpolation', 'mean frequency over [start, position] of a linear sweep: start frequency at the start, mean of both at the end')
def chirp(c):
    c.build()
    t0, t1, f0, f1, x = [R(c.arg(n)) for n in ('start_time', 'end_time', 'start_frequency', 'end_frequency', 'position')]
    r = R(c.call())
    c.no_throw()
    c.ensure('start frequency at the start', r == f0, st=c.where(t0 < t1, x == t0))
    c.ensure('mean of both at the end', 2 * r == f0 + f1, st=c.where(t0 < t1, x == t1))
    c.ensure('linear in the position', 2 * (r - f0) * (t1 - t0) == (f1 - f0) * (x - t0), st=c.where(t0 < t1))
    c.ensure('end frequency for an empty interval', r == f1, st=c.where(t0 == t1))
    c.ensure('order of the end points does not matter', 2 * (r - f1) * (t0 - t1) == (f0 - f1) * (x - t1), st=c.where(t0 > t1))


@suite.unit(NS + 'isPowerOfTwo', 'true exactly for powers of two (non-negative arguments)', label='pow2')
def pow2(c):
    n = z3.BitVec('n', 32)
    c.build(n=n)
    c.pre(n >= 0)
    r = c.call()
    c.no_throw()
    p = z3.Or(*[n == z3.BitVecVal(1 << k, 32) for k in range(31)])
    c.ensure('accepts exactly the powers of two', B(r) == p)


# ---------------------------------------------------------------- sampled interpolants
def increasing(c):
    """points: at least two, first at 0, strictly increasing positions; returns (n, position(i), value(i))"""
    c.range('[].0', 0, 1 << 24)
    c.build()
    n = c.arg('points', '#')
    pos = lambda i: I(c.arg('points', i if isinstance(i, int) else I(i), '0'))
    val = lambda i: R(c.arg('points', i if isinstance(i, int) else I(i), '1'))
    c.pre(I(n) >= 2)
    c.pre(pos(0) == 0)
    a, b = z3.Ints('a!q b!q')
    c.pre(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), pos(a) < pos(b))))
    return n, pos, val


def sampled(c, at, name):
    """loop invariants shared by the sampled interpolants: one value per sample position so far,
    and the value at an arbitrary sample j of an arbitrary segment s is at(s, j)"""
    n, pos, val = increasing(c)
    s = c.forall(0, n - 1, 's')
    j = c.forall(0, MAXLEN, 'j')
    c.pre(z3.And(pos(s) <= j, j <= pos(s + 1)))
    # instances of the ordering assumption
    c.pre(z3.And(pos(s) < pos(s + 1), z3.Implies(s >= 1, pos(s - 1) < pos(s))))

    def cases(L):
        i = I(L('i'))
        return [i == s, i + 1 == s, z3.And(i != s, i + 1 != s)]

    def common(L):
        y = L(name)
        ln = seq_len(y)
        return [('one value per sample', z3.ToReal(I(ln)) == R(L('t'))),
                ('value at sample j', at_index(y, j, lambda e: at(val, pos, s, j, R(e))), cases(L))]

    def outer(L):
        i = L('i')
        return [('segment index in range', z3.And(0 <= i, i <= n - 1)),
                ('samples start after the segment start', R(L('t')) == z3.If(I(i) == 0, z3.RealVal(0), R(pos(i)) + 1))] + common(L)

    def inner(L):
        i = L('i')
        return [('the points increase', pos(i) < pos(i + 1)), ('t inside the segment', z3.And(R(L('t')) >= z3.If(I(i) == 0, z3.RealVal(0), R(pos(i)) + 1), R(L('t')) <= R(pos(i + 1)) + 1))] + common(L)
    c.loop(0, outer, variant=lambda L: I(n) - I(L('i')))
    c.loop(1, inner)
    r = c.call()
    c.ensure('one value per sample up to the last point', I(seq_len(r)) == pos(n - 1) + 1)
    rj = R(get(r, j))
    c.ensure('value at every sample', at(val, pos, s, j, rj))
    return n, pos, val, s, j, rj


def on_line(val, pos, s, j, y):
    return y * R(pos(s + 1) - pos(s)) == val(s) * R(pos(s + 1) - j) + val(s + 1) * R(j - pos(s))


@suite.unit(NS + 'linearInterpolation2', 'one value per sample; every sample of every segment lies on the line between its points', label='line')
def lin2(c):
    n, pos, val, s, j, y = sampled(c, on_line, 'Ylinear')
    c.ensure('passes through the point', y == val(s), st=c.where(j == pos(s)))
    c.ensure('passes through the next point', y == val(s + 1), st=c.where(j == pos(s + 1)))


CUB, LIN = 1, 2     # haptics::types::CurveType


def smooth(val, pos, s, j, y):
    h, u = R(pos(s + 1) - pos(s)), R(j - pos(s))
    return (y - val(s)) * h * h * h == (val(s + 1) - val(s)) * (3 * h - 2 * u) * u * u


@suite.unit(NS + 'cubicInterpolation2', 'one value per sample; every sample of every segment lies on the smooth cubic between its points', label='cubic')
def cub2(c):
    n, pos, val, s, j, y = sampled(c, smooth, 'Ylinear')
    c.ensure('passes through the point', y == val(s), st=c.where(j == pos(s)))
    c.ensure('passes through the next point', y == val(s + 1), st=c.where(j == pos(s + 1)))


@suite.unit(NS + 'cubicInterpolation2', 'lemma over the contract: the smooth cubic moves monotonically from one value to the other', label='cubic monotone')
def cub2mono(c):
    c.build()
    c.called = True
    c.dead = False
    h, u, w, a, b, y, z = z3.Reals('h u w a b y z')
    on = lambda u, y: (y - a) * h * h * h == (b - a) * (3 * h - 2 * u) * u * u
    # in units of the segment length (u = h p, w = h q): y = a + (b - a) (3 - 2 p) p p
    p, q = z3.Reals('p q')
    c.pre(z3.And(h > 0, 0 <= p, p <= q, q <= 1))
    unit = lambda p, y: y == a + (b - a) * (3 - 2 * p) * p * p
    c.ensure('the cubic in units of the segment', on(h * p, a + (b - a) * (3 - 2 * p) * p * p))
    g = lambda p: (3 - 2 * p) * p * p
    c.ensure('the blend is monotone', g(p) <= g(q))
    c.ensure('the blend stays in [0,1]', z3.And(g(p) >= 0, g(q) <= 1))
    G, H = z3.Reals('G H')
    c.ensure('rising', z3.And(a <= a + (b - a) * G, a + (b - a) * G <= a + (b - a) * H, a + (b - a) * H <= b), st=c.where(a <= b, 0 <= G, G <= H, H <= 1))
    c.ensure('falling', z3.And(a >= a + (b - a) * G, a + (b - a) * G >= a + (b - a) * H, a + (b - a) * H >= b), st=c.where(a >= b, 0 <= G, G <= H, H <= 1))


@suite.unit(NS + 'interpolationCodec', 'the block codec interpolates like the line (Linear) and the smooth cubic (Cubic)', label='codec')
def codec(c):
    n, pos, val, s, j, y = sampled(c, lambda val, pos, s, j, y: z3.And(
        z3.Implies(I(c.arg('curveType')) == LIN, on_line(val, pos, s, j, y)),
        z3.Implies(I(c.arg('curveType')) == CUB, smooth(val, pos, s, j, y))), 'interpolation')
