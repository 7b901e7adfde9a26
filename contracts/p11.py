"""P11: the wavelet transform is inverted by the inverse transform."""
import re
from contracts.pairs import *
from engine.spec import Suite, at_index
from fractions import Fraction
from engine.vals import *

W = 'haptics::filterbank::Wavelet::'
REAL = T('float', 'double')
suite = Suite('P11', ['FilterBank/src/Wavelet.cpp'], harness='wavelet', stand_in='random blocks transformed and back')


def taps(mangled):
    m = re.search(r'ILm(\d+)EE', mangled or '')
    return int(m.group(1)) if m else None


@suite.generate
def convolutions(prog):
    for d in prog.by_qual.get(W + 'conv1D', []):
        H = taps(d.mangled)
        if H is None or d.body is None:
            continue

        def conv(c, H=H):
            hs = z3.Reals(' '.join('h%d' % k for k in range(H)))
            c.build(h=Seq([U(x) for x in hs], REAL))
            v, o = c.arg('in'), c.arg('out')
            n = I(seq_len(v))
            c.pre(z3.And(n >= 1, n <= 1 << 20, I(seq_len(o)) >= n + H - 1))
            m = c.forall(0, 1 << 21, 'm')

            def term(k):
                return z3.If(z3.And(m - k >= 0, m - k < n), R(get(v, m - k)) * hs[k], 0)

            def upto(k):
                return sum((term(x) for x in range(k)), z3.RealVal(0))

            def size(L):
                return ('length', I(seq_len(L('out'))) == I(seq_len(o)))
            c.loop(0, lambda L: [('first tap', z3.And(I(L('j')) >= 0, I(L('j')) <= n, z3.Implies(m < I(L('j')), R(get(L('out'), m)) == term(0)))), size(L)])
            c.loop(1, lambda L: [('rest cleared', z3.And(I(L('j')) >= n, I(L('j')) <= n + H - 1, z3.Implies(m < I(L('j')), R(get(L('out'), m)) == term(0)))), size(L)])

            def acc(L):
                i, j = L('i'), I(L('j'))
                return [('position', z3.And(j >= i, j <= n + i)), ('sum so far', z3.Implies(m < n + H - 1, R(get(L('out'), m)) == upto(i) + z3.If(m < j, term(i), 0))), size(L)]
            c.loop(3, acc)
            c.call()
            c.no_throw()
            c.ensure('length', I(seq_len(c.new('out'))) == I(seq_len(o)))
            c.ensure('sample m', z3.Implies(m < n + H - 1, R(get(c.new('out'), m)) == upto(H)))
        suite.unit(W + 'conv1D', 'sample m is the sum of the taps times the samples before m', label='%d taps' % H, pick=lambda x, d=d: x.mangled == d.mangled)(conv)


class Conv:
    """contract of conv1D: sample m of the result is the sum of the taps times the samples before m"""

    def apply(self, ip, st, d, this, args):
        v, h, o = (force(ip.read(st, a)) for a in args)
        H = seq_len(h)
        n, no = seq_len(v), seq_len(o)
        ip.oblige(st, z3.And(I(n) >= 1, I(n) <= 1 << 20, I(no) >= I(n) + H - 1), 'the result has room in ' + ip.where())
        k = index_var('m')
        body = sum((z3.If(z3.And(k - x >= 0, k - x < I(n)), R(get(v, k - x)) * R(get(h, x)), 0) for x in range(H)), z3.RealVal(0))
        full = norm(I(n) + H - 1)
        if not S.entails(st.pc, I(no) == I(full)):
            raise Unsupported('the result is longer than the convolution')
        ip.write(st, args[2], Seq([Loop(k, 0, full, [U(body)])], REAL))
        return None


def ext(v, n, x):
    """whole-sample symmetric extension"""
    x = I(x)
    return R(get(v, z3.If(x < 0, -x, z3.If(x >= n, 2 * n - 2 - x, x))))


@suite.generate
def symmetric(prog):
    for name, add in (('symconv1D', False), ('symconv1DAdd', True)):
        for d in prog.by_qual.get(W + name, []):
            H = taps(d.mangled)
            if H is None or d.body is None:
                continue

            def sym(c, H=H, add=add):
                hs = z3.Reals(' '.join('h%d' % k for k in range(H)))
                c.build(h=Seq([U(x) for x in hs], REAL))
                v, o = c.arg('in'), c.arg('out')
                n = I(seq_len(v))
                e = H // 2
                c.pre(z3.And(n >= e + 1, n <= 1 << 19, I(seq_len(o)) >= n))
                m = c.forall(0, 1 << 21, 'm')
                c.ip.contracts[W + 'conv1D'] = Conv()
                c.call()
                c.no_throw()
                w = c.new('out')
                c.ensure('length', I(seq_len(w)) == I(seq_len(o)))
                want = sum((hs[k] * ext(v, n, m + e - k) for k in range(H)), z3.RealVal(0))
                c.ensure('sample m', z3.Implies(m < n, R(get(w, m)) == (R(get(o, m)) + want if add else want)))
                c.ensure('samples past the block stay', z3.Implies(z3.And(m >= n, m < I(seq_len(o))), R(get(w, m)) == R(get(o, m))))
            suite.unit(W + name, 'sample m is %sthe filter applied to the symmetrically extended block around m' % ('increased by ' if add else ''), label='%d taps' % H, pick=lambda x, d=d: x.mangled == d.mangled)(sym)


LEN = z3.Function('len', z3.IntSort(), z3.IntSort())            # block length at a level
X = z3.Function('x', z3.IntSort(), z3.IntSort(), z3.RealSort())  # low-pass signal entering a level
LPX = z3.Function('lpx', z3.IntSort(), z3.IntSort(), z3.RealSort())
HPX = z3.Function('hpx', z3.IntSort(), z3.IntSort(), z3.RealSort())
Y = z3.Function('y', z3.IntSort(), z3.IntSort(), z3.RealSort())  # buffer after the inverse has come back to a level
LPY = z3.Function('lpy', z3.IntSort(), z3.IntSort(), z3.RealSort())
HPY = z3.Function('hpy', z3.IntSort(), z3.IntSort(), z3.RealSort())


class Filter:
    """contract of symconv1D(Add): the block is the ghost signal the caller's contract names, so the samples are the
    filtered ghost signal (what filtering is: the units of symconv1D and the lemmas)"""

    def __init__(self, c, claim, add=False):
        self.c, self.claim, self.add, self.level = c, claim, add, None

    def apply(self, ip, st, d, this, args):
        v, h, o = (force(ip.read(st, a)) for a in args)
        H = seq_len(h)
        n, no = seq_len(v), seq_len(o)
        ip.oblige(st, z3.And(I(n) >= H // 2 + 1, I(n) <= 1 << 19, I(no) >= I(n)), 'the block is longer than half the filter in ' + ip.where())
        i = next((b for b in reversed(self.c.levels) if S.entails(st.pc, I(n) == LEN(b))), None)
        if i is None:
            raise Unsupported('a block that is not the block of a level: %s' % (n,))
        signal, result = self.claim(h)
        j = index_var('s')
        ip.oblige(st, z3.Implies(z3.And(j >= 0, j < LEN(i)), at_index(v, j, lambda e: R(e) == signal(i, j))), 'the signal of the level in ' + ip.where())
        k = index_var('m')
        val = result(i, k) + (R(get(o, k)) if self.add else 0)
        rest = [Loop(k, I(n), no, [U(get(o, k))])] if not same(n, no) else []
        ip.write(st, args[2], Seq([Loop(k, 0, n, [U(val)])] + rest, REAL))
        return None


def filters(c):
    """a Wavelet as it is made: the filters are the default values of its members"""
    return c.ip.default(T('record', W[:-2]), c.st)


def blocks(c, v, levels):
    n = c.n0 = I(seq_len(v))
    q = z3.Int('q!l')
    F.bounds['len'] = (0, 1 << 19)
    F.add('len', lambda a: z3.And(a >= 0, a <= 1 << 19))
    c.pre(z3.And(n <= 1 << 19, levels >= 0, levels <= 30, LEN(0) == n))
    c.pre(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < levels), z3.And(LEN(q) >= 8, LEN(q) == 2 * LEN(q + 1), LEN(q) <= n)), patterns=[LEN(q)]))
    c.levels = [z3.IntVal(0)]       # the levels a block has been cut for

    def shift(a, b):
        if not same(a, n):
            raise Unsupported('shift of something else')
        if not any(same(b, x) for x in c.levels):
            c.levels.append(b)
        return LEN(b)
    c.ip.symshift = shift
    return n


def taps_of(h):
    return [get(h, k) for k in range(seq_len(h))]


@suite.unit(W + 'DWT', 'at every level the block is split into its low-pass and its high-pass half')
def forward(c):
    c.build(this=filters(c), out=Seq([], REAL))
    v, levels = c.arg('in'), I(c.arg('levels'))
    n = blocks(c, v, levels)
    this = c.arg('this')
    lp, hp = taps_of(get(this, 'lp')), taps_of(get(this, 'hp'))
    q, j = z3.Ints('q!a j!a')
    c.pre(z3.ForAll([j], X(0, j) == R(get(v, j)), patterns=[X(0, j)]))
    c.pre(z3.ForAll([q, j], z3.Implies(q >= 0, X(q + 1, j) == LPX(q, 2 * j))))

    def out(i, m):
        """sample m of the output once i levels are done (only levels < i have written it)"""
        return None
    m = c.forall(0, 1 << 19, 'm')
    l = c.forall(0, 30, 'l')

    def claim(h):
        hs = taps_of(h)
        if len(hs) == len(lp) and all(same(a, b) for a, b in zip(hs, lp)):
            return X, LPX
        if len(hs) == len(hp) and all(same(a, b) for a, b in zip(hs, hp)):
            return X, HPX
        raise Unsupported('an unknown filter')
    c.ip.contracts[W + 'symconv1D'] = Filter(c, claim)
    half = lambda i: LEN(i + 1)
    final = lambda o, i: z3.And(z3.Implies(z3.And(l < i, m >= half(l), m < LEN(l)), R(get(o, m)) == HPX(l, 2 * (m - half(l)) + 1)), z3.Implies(z3.And(i > 0, m < LEN(i)), R(get(o, m)) == X(i, m)))

    def inv(L):
        i, o, x = I(L('i')), L('out'), L('x')
        return [('level', z3.And(i >= 0, i <= levels)), ('lengths', z3.And(I(seq_len(o)) == n, I(seq_len(x)) == n)), ('low-pass half', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < LEN(i)), R(get(x, j)) == X(i, j)))),
                ('halves written', final(o, i))]
    c.loop(0, inv)

    def inner(L):
        i, k, o, x = I(L('i')), I(L('out_ind')), L('out'), L('x')
        return [('pair', z3.And(I(L('j')) == 2 * k, k >= 0, k <= half(i))), ('lengths', z3.And(I(seq_len(o)) == n, I(seq_len(x)) == n)),
                ('low-pass half so far', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), R(get(x, j)) == X(i + 1, j)))),
                ('output so far', z3.And(z3.Implies(m < k, R(get(o, m)) == X(i + 1, m)), z3.Implies(z3.And(m >= half(i), m < half(i) + k), R(get(o, m)) == HPX(i, 2 * (m - half(i)) + 1)),
                                         z3.Implies(z3.And(l < i, m >= half(l), m < LEN(l)), R(get(o, m)) == HPX(l, 2 * (m - half(l)) + 1))))]
    c.loop(1, inner)
    c.call()
    c.no_throw()
    o = c.new('out')
    c.ensure('length', I(seq_len(o)) == n)
    c.ensure('low-pass samples first, then the high-pass samples of every level', final(o, levels))


@suite.unit(W + 'inv_DWT', 'from the last level up, the buffer is rebuilt from its two halves by the reconstruction filters')
def inverse(c):
    c.build(this=filters(c))
    v, levels = c.arg('in'), I(c.arg('levels'))
    n = blocks(c, v, levels)
    c.pre(I(seq_len(c.arg('out'))) == n)
    this = c.arg('this')
    lpr, hpr = taps_of(get(this, 'lpr')), taps_of(get(this, 'hpr'))
    q, j = z3.Ints('q!a j!a')
    c.pre(z3.ForAll([j], Y(levels, j) == R(get(v, j)), patterns=[Y(levels, j)]))
    c.pre(z3.ForAll([q, j], z3.Implies(z3.And(q >= 0, q < levels), Y(q, j) == z3.If(j < LEN(q), HPY(q, j) + LPY(q, j), R(get(v, j)))), patterns=[Y(q, j)]))

    def low(i, t):
        return z3.If(t % 2 == 0, Y(i + 1, t / 2), 0)

    def high(i, t):
        return z3.If(t % 2 == 0, 0, Y(i + 1, (t - 1) / 2 + LEN(i + 1)))

    def claim(h):
        hs = taps_of(h)
        if len(hs) == len(lpr) and all(same(a, b) for a, b in zip(hs, lpr)):
            return low, LPY
        if len(hs) == len(hpr) and all(same(a, b) for a, b in zip(hs, hpr)):
            return high, HPY
        raise Unsupported('an unknown filter')
    c.ip.contracts[W + 'symconv1D'] = Filter(c, claim)
    c.ip.contracts[W + 'symconv1DAdd'] = Filter(c, claim, add=True)

    def inv(L):
        i, o = I(L('i')), L('out')
        return [('level', z3.And(i >= -1, i < levels)), ('length', I(seq_len(o)) == n), ('buffer', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), R(get(o, j)) == Y(i + 1, j))))]
    c.loop(0, inv, variant=lambda L: I(L('i')) + 1)

    def inner(L):
        i, k, l, h = I(L('i')), I(L('j')), L('l'), L('h')
        return [('pair', z3.And(k % 2 == 0, k >= 0, k <= LEN(i))), ('lengths', z3.And(I(seq_len(l)) == LEN(i), I(seq_len(h)) == LEN(i))),
                ('low half', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < LEN(i)), R(get(l, j)) == z3.If(j < k, low(i, j), 0)))),
                ('high half', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < LEN(i)), R(get(h, j)) == z3.If(j < k, high(i, j), 0))))]
    c.loop(1, inner)
    c.call()
    c.no_throw()
    o = c.new('out')
    m = c.forall(0, 1 << 19, 'm')
    c.ensure('length', I(seq_len(o)) == n)
    c.ensure('sample m', z3.Implies(m < n, R(get(o, m)) == Y(0, m)))


BOUND = 1000     # |sample|


@suite.unit(W + 'DWT', 'lemma over the contracts: one level taken apart and put together again gives the block, within 1e-12 of its largest sample', label='lemma: one level')
def perfect(c):
    c.build(this=filters(c))
    c.called = True
    c.dead = False
    this = c.arg('this')
    lp, hp, lpr, hpr = (taps_of(get(this, k)) for k in ('lp', 'hp', 'lpr', 'hpr'))
    c.ensure('filters are symmetric', all(same(f[k], f[len(f) - 1 - k]) for f in (lp, hp, lpr, hpr) for k in range(len(f))))
    xs = {k: z3.Real('x%d' % k) for k in range(-8, 9)}
    b = z3.Real('b')
    for x in xs.values():
        c.pre(z3.And(x <= b, x >= -b))

    def filt(f, s, t):
        e = len(f) // 2
        return sum((R(f[k]) * s(t + e - k) for k in range(len(f))), z3.RealVal(0))
    for parity in (0, 1):
        # the sample at an even / odd position of the (extended) block: position 0 here
        low = lambda t: filt(lp, lambda u: xs[u], t) if (t + parity) % 2 == 0 else z3.RealVal(0)
        high = lambda t: filt(hp, lambda u: xs[u], t) if (t + parity) % 2 == 1 else z3.RealVal(0)
        y = z3.simplify(filt(hpr, high, 0) + filt(lpr, low, 0), som=True)
        c.ensure('%s samples' % ('even', 'odd')[parity], z3.And(y - xs[0] <= b / 10 ** 12, xs[0] - y <= b / 10 ** 12))


@suite.unit(W + 'symconv1D', 'lemma over the contracts: filtering with a symmetric filter commutes with the symmetric extension, so the extension of a subband is the subband of the extension', label='lemma: extension')
def extension(c):
    n, t, d = z3.Ints('n t d')
    c.called = True
    c.dead = False
    refl = lambda x: z3.If(x < 0, -x, z3.If(x >= n, 2 * n - 2 - x, x))
    # analysis with up to e1 taps on a side, then synthesis with up to e2 on a side (9 and 7 taps, or 7 and 9)
    reach = lambda e1, e2: z3.And(t >= -e2, t <= n - 1 + e2, d >= -e1, d <= e1)
    pre = z3.And(n >= 8, n % 2 == 0, z3.Or(reach(4, 3), reach(3, 4)))
    # signal positions seen by tap d around the reflection of t, and by tap -d around t
    r = refl(t)
    c.ensure('taps', z3.Implies(z3.And(pre, z3.Not(z3.And(t >= 0, t < n))), refl(r + d) == refl(t - d)))
    c.ensure('parity', z3.Implies(pre, (r - t) % 2 == 0))


@suite.unit(W + 'inv_DWT', 'lemma over the contracts: if the buffer is back within E of the low-pass signal of a level, the halves that go into its reconstruction are within E of the two filtered signals, and the reconstruction filter at most doubles E', label='lemma: levels')
def levels(c):
    c.build(this=filters(c))
    c.called = True
    c.dead = False
    n = z3.Int('n')
    y, lpx, hpx = (z3.Function(f, z3.IntSort(), z3.RealSort()) for f in ('yy', 'll', 'hh'))
    E = z3.Real('E')
    j, t = z3.Ints('j t')
    near = lambda a, b: z3.And(a - b <= E, b - a <= E)
    half = n / 2
    c.pre(z3.And(n >= 8, n % 2 == 0, E >= 0, t >= 0, t < n))
    # what DWT leaves: X(i+1, j) = LPX(i, 2j) and, from the middle of the block on, HPX(i, 2(m - half) + 1); inv_DWT has only rewritten positions before half
    c.pre(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < half), near(y(j), lpx(2 * j))), patterns=[y(j)]))
    c.pre(z3.ForAll([j], z3.Implies(z3.And(j >= half, j < n), y(j) == hpx(2 * (j - half) + 1)), patterns=[y(j)]))
    low = z3.If(t % 2 == 0, y(t / 2), 0)
    high = z3.If(t % 2 == 0, 0, y((t - 1) / 2 + half))
    c.ensure('low half', near(low, z3.If(t % 2 == 0, lpx(t), 0)))
    c.ensure('high half', high == z3.If(t % 2 == 0, 0, hpx(t)))
    lp, lpr = (taps_of(get(c.old['this'], k)) for k in ('lp', 'lpr'))
    c.ensure('gain of the reconstruction', sum(abs(x) for x in lpr[::2]) <= 2 and sum(abs(x) for x in lpr[1::2]) <= 2)
    c.ensure('gain of the analysis', sum(abs(x) for x in lp) <= Fraction(21, 10))
