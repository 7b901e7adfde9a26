"""P10: entropy coding of wavelet blocks.

The decoder's state after i symbols, reading a bit stream S, is named by ghost functions; the step from i to i+1 is what
ArithDec::decode is proved to do.  For ArithEnc::encode it is proved that every stream consistent with the encoder's
state - it starts with the bits written, continues with the opposite of its next bit for every pending bit, and the ten
bit window lies in the current range - drives the decoder through the symbols coded so far.  The stream finally written,
followed by zeros, is consistent with the last state."""
from contracts.pairs import *
from engine.spec import Suite, at_index, MODEL
from engine.vals import *

E = 'haptics::spiht::ArithEnc::'
D = 'haptics::spiht::ArithDec::'
UCHAR = T('int', bits=8, signed=False)
suite = Suite('P10', ['Spiht/src/ArithEnc.cpp', 'Spiht/src/ArithDec.cpp', 'Spiht/src/Spiht_Enc.cpp', 'Spiht/src/Spiht_Dec.cpp'],
              harness='wavcode', stand_in='random symbol sequences and coefficient blocks coded and decoded')
ZI = z3.IntSort()
BIT = z3.Function('stream', ZI, ZI)     # an arbitrary stream of bits


def stream(c):
    k = z3.Int('k!s')
    c.pre(z3.ForAll([k], z3.And(BIT(k) >= 0, BIT(k) <= 1), patterns=[BIT(k)]))


def window(pos, b):
    """the ten bits the decoder looks at when the encoder has written pos bits and b bits are pending"""
    return 512 * BIT(pos) + sum((2 ** (9 - k) * BIT(pos + b + k) for k in range(1, 10)), z3.IntVal(0))


ZR = z3.RealSort()
MUL = z3.Function('times', ZR, ZR, ZR)      # product and quotient of reals, of which only the facts below are used
DIV = z3.Function('over', ZR, ZR, ZR)


def nonlinear(op, a, b, st):
    if op == '/':
        r = DIV(a, b)
        st.assume(z3.Implies(z3.And(a >= 0, a <= b, b > 0), z3.And(r >= 0, r <= 1)))
    else:
        r = MUL(a, b)
        st.assume(z3.Implies(z3.And(a >= 0, b >= 0, b <= 1024), z3.And(r >= 0, r <= 1024 * a)))
    return r


@suite.unit(D + 'decode', 'lemma: the facts used about products and quotients', label='lemma: products')
def products(c):
    c.called, c.dead = True, False
    a, b = z3.Reals('a b')
    c.ensure('quotient', z3.Implies(z3.And(a >= 0, a <= b, b > 0), z3.And(a / b >= 0, a / b <= 1)))
    c.ensure('product', z3.Implies(z3.And(a >= 0, b >= 0, b <= 1024), z3.And(a * b >= 0, a * b <= 1024 * a)))


def split(diff, cnt, tot, st=None):
    """size of the part of the range that stands for symbol 0"""
    p = z3.ToReal(z3.ToInt(DIV(z3.ToReal(I(cnt)), z3.ToReal(I(tot))) * 1024 + z3.Q(1, 2)))
    t = z3.ToInt(MUL(z3.ToReal(I(diff)), p)) / 1024
    return z3.If(t == 0, 1, z3.If(t == I(diff), I(diff) - 1, t))


NL, NU = (z3.Function(n, ZI, ZI, ZI) for n in ('lower', 'upper'))
NX = z3.Function('leading', ZI, ZI, ZI, ZI, ZI)     # lower, upper, ten bits, next bit
NI = z3.Function('next', ZI, ZI, ZI, ZI)


N = z3.Int('bits in the stream')       # zeros follow


def after(q):
    return z3.If(q < N, q + 1, q)


AT = z3.Function('unfold', ZI, ZI, ZI, ZI, z3.BoolSort())     # true; where it is said of a range and its bits, the definition of its adjustment is looked up


def renormalise(c):
    """definition of the decoder's range adjustment, as a recursion"""
    l, u, x, q = z3.Ints('l!n u!n x!n q!n')
    c.pre(N >= 0)
    c.pre(z3.ForAll([l, u, x, q], AT(l, u, x, q), patterns=[AT(l, u, x, q)]))
    for cond, off in ((u <= 512, 0), (z3.And(u > 512, l >= 512), 512), (z3.And(u > 512, l < 512, l >= 256, u <= 768), 256)):
        cond = z3.And(cond, l >= 0, l < u, u <= 1024)
        a, b = 2 * (l - off), 2 * (u - off)
        c.pre(z3.ForAll([l, u, x, q], z3.Implies(cond, z3.And(NL(l, u) == NL(a, b), NU(l, u) == NU(a, b), NX(l, u, x, q) == NX(a, b, 2 * (x - off) + BIT(q), after(q)), NI(l, u, q) == NI(a, b, after(q)))), patterns=[AT(l, u, x, q)]))
    stop = z3.And(u > 512, l < 512, z3.Or(l < 256, u > 768), l >= 0, u <= 1024)
    c.pre(z3.ForAll([l, u, x, q], z3.Implies(stop, z3.And(NL(l, u) == l, NU(l, u) == u, NX(l, u, x, q) == x, NI(l, u, q) == q)), patterns=[AT(l, u, x, q)]))


def settled(l, u):
    return z3.And(l >= 0, l < 512, u > 512, u <= 1024, z3.Or(l < 256, u > 768))


@suite.unit(D + 'initDecoding', 'the ten bits looked at are the first ten of the stream, zeros past its end')
def start(c):
    c.range('[]', 0, 1)
    c.build()
    stream(c)
    v = c.arg('instream')
    n = I(seq_len(v))
    k = z3.Int('k!v')
    c.pre(z3.ForAll([k], BIT(k) == z3.If(z3.And(k >= 0, k < n), I(get(v, k)), 0), patterns=[BIT(k)]))
    c.call()
    c.no_throw()
    c.ensure('ten bits', I(c.new('this', 'in_leading')) == window(0, 0))
    c.ensure('next bit', z3.And(I(c.new('this', 'in_index')) == z3.If(n < 10, n, 10), I(c.new('this', 'max_index')) == n))
    c.ensure('whole range', z3.And(I(c.new('this', 'range_lower')) == 0, I(c.new('this', 'range_upper')) == 1024, I(c.new('this', 'range_diff')) == 1024))
    j = c.forall(0, 1 << 30, 'j')
    w = c.new('this', 'instream')
    c.ensure('stream kept', z3.And(I(seq_len(w)) == n, z3.Implies(j < n, I(get(w, j)) == I(get(v, j)))))
    for x in range(7):
        c.ensure('statistics kept %d' % x, z3.And(I(get(c.new('this', 'counter'), x)) == I(get(get(c.old['this'], 'counter'), x)), I(get(c.new('this', 'counter_total'), x)) == I(get(get(c.old['this'], 'counter_total'), x))))


@suite.unit(D + 'decode', 'one symbol: chosen by the ten bits, the range and the statistics of its context, which are all updated')
def decode(c):
    c.range('[]', 0, 1)
    c.ground()
    c.build()
    stream(c)
    renormalise(c)
    old = c.old['this']
    f = lambda n: I(get(old, n))
    v = get(old, 'instream')
    n = I(seq_len(v))
    k = z3.Int('k!v')
    ctx = I(c.arg('context'))
    cnt, tot = get(old, 'counter'), get(old, 'counter_total')
    c.ip.nonlinear = nonlinear
    c.pre(z3.And(n == N, f('max_index') == n, f('in_index') >= 0, f('in_index') <= n))
    c.pre(z3.ForAll([k], BIT(k) == z3.If(z3.And(k >= 0, k < n), I(get(v, k)), 0), patterns=[BIT(k)]))
    l, u, x, q = f('range_lower'), f('range_upper'), f('in_leading'), f('in_index')
    c.pre(z3.And(settled(l, u), f('range_diff') == u - l, x >= l, x < u, ctx >= 0, ctx < 7))
    for j in range(7):
        c.pre(z3.And(I(get(cnt, j)) >= 0, I(get(cnt, j)) <= I(get(tot, j)), I(get(tot, j)) >= 1, I(get(tot, j)) <= 1 << 30))
    comp = split(u - l, get(cnt, ctx), get(tot, ctx))
    one = x - l >= comp
    l1, u1 = z3.If(one, l + comp, l), z3.If(one, u, l + comp)
    want = NX(l1, u1, x, q), NL(l1, u1), NU(l1, u1), NI(l1, u1, q)

    def inv(L):
        a, b, y, i = (I(get(L('this'), m)) for m in ('range_lower', 'range_upper', 'in_leading', 'in_index'))
        s = get(L('this'), 'instream')
        return [('range', z3.And(a >= 0, a < b, b <= 1024, y >= a, y < b, AT(a, b, y, i))), ('position', z3.And(i >= 0, i <= n)), ('stream', I(seq_len(s)) == n),
                ('adjusted as defined', z3.And(NX(a, b, y, i) == want[0], NL(a, b) == want[1], NU(a, b) == want[2], NI(a, b, i) == want[3]))]
    c.loop(0, inv)
    c.call()
    c.no_throw()
    c.ensure('symbol', I(c.ret) == z3.If(one, 1, 0))
    g = lambda m: I(c.new('this', m))
    c.ensure('range', z3.And(g('range_lower') == want[1], g('range_upper') == want[2], g('range_diff') == want[2] - want[1]))
    c.ensure('ten bits', z3.And(g('in_leading') == want[0], g('in_index') == want[3], g('max_index') == n))
    c.ensure('range adjusted', settled(g('range_lower'), g('range_upper')))
    c.ensure('ten bits in the range', z3.And(g('in_leading') >= g('range_lower'), g('in_leading') < g('range_upper')))
    for j in range(7):
        c.ensure('statistics %d' % j, z3.And(I(get(c.new('this', 'counter'), j)) == I(get(cnt, j)) + z3.If(z3.And(ctx == j, z3.Not(one)), 1, 0), I(get(c.new('this', 'counter_total'), j)) == I(get(tot, j)) + z3.If(ctx == j, 1, 0)))


def value(o, pos, m):
    """number of the m bits at pos, as the first bits of ten"""
    return sum((z3.If(k < m, 2 ** (9 - k) * I(get(o, pos + k)), 0) for k in range(10)), z3.IntVal(0))


@suite.unit(E + 'remainder', 'a pending bit is settled by a one; otherwise at most ten bits are added, and as the first bits of ten they are a number in the range')
def remainder(c):
    c.range('[]', 0, 1)
    c.build()
    o = c.arg('outstream')
    pos = I(seq_len(o))
    b, l, u = (I(c.arg(k)) for k in ('bits_to_follow', 'range_lower', 'range_upper'))
    c.pre(z3.And(b >= 0, settled(l, u)))
    j = c.forall(0, 1 << 40, 'j')

    def inv(L):
        v, a, d, w = I(L('val')), I(L('range_lower')), I(L('range_upper')), L('outstream')
        m = I(seq_len(w)) - pos
        acc = value(w, pos, m)
        return [('bits', z3.And(m >= 0, m <= 10, z3.Or([z3.And(m == k, v == (512 >> k)) for k in range(11)]))),
                ('room', z3.If(v > 0, d <= 2 * v, d <= 1)), ('not empty', a < d), ('number so far', z3.And(a == l - acc, d == u - acc)), ('each a bit', z3.And([z3.Implies(k < m, z3.And(I(get(w, pos + k)) >= 0, I(get(w, pos + k)) <= 1)) for k in range(10)])),
                ('written before', z3.Implies(j < pos, I(get(w, j)) == I(get(o, j)))), ('above zero', z3.Implies(m > 0, d > 0))]
    c.loop(0, inv, variant=lambda L: I(L('val')) + 1)
    c.call()
    c.no_throw()
    w = c.new('outstream')
    m = I(seq_len(w)) - pos
    c.ensure('written before', z3.Implies(j < pos, I(get(w, j)) == I(get(o, j))))
    c.ensure('length', z3.And(m >= 0, m <= 10))
    c.ensure('pending bit', z3.Implies(b > 0, z3.And(m == 1, I(get(w, pos)) == 1)))
    v = value(w, pos, m)
    c.ensure('in the range', z3.Implies(b == 0, z3.And(v >= l, v < u)))


def settings(name, cls, claim):
    @suite.unit(cls + name, claim)
    def check(c):
        c.build()
        old = c.old['this']
        cnt, tot = get(old, 'counter'), get(old, 'counter_total')
        c.ip.nonlinear = nonlinear
        for j in range(7):
            c.pre(z3.And(I(get(cnt, j)) >= 0, I(get(cnt, j)) <= I(get(tot, j)), I(get(tot, j)) >= 1, I(get(tot, j)) <= 1 << 30))
        c.call()
        c.no_throw()
        for j in range(7):
            a, b = I(get(c.new('this', 'counter'), j)), I(get(c.new('this', 'counter_total'), j))
            if name == 'resetCounter':
                c.ensure('context %d' % j, z3.And(a == 8, b == 16))
            else:
                v = z3.ToInt(DIV(z3.ToReal(I(get(cnt, j))), z3.ToReal(I(get(tot, j)))) * 32)
                c.ensure('context %d' % j, z3.And(b == 32, a == z3.If(v == 0, 1, z3.If(v == 32, 31, v))))
                c.ensure('usable %d' % j, z3.And(a >= 1, a < b))


for cls in (E, D):
    settings('resetCounter', cls, 'even statistics')
    settings('rescaleCounter', cls, 'the share of zeros is kept, out of 32, never none or all')


DL, DU, DX, DI, SYM = (z3.Function(n, ZI, ZI) for n in ('dec_lower', 'dec_upper', 'dec_leading', 'dec_index', 'dec_symbol'))
CNT, TOT = (z3.Function(n, ZI, ZI, ZI) for n in ('dec_counter', 'dec_total'))
STEP = z3.Function('step', ZI, z3.BoolSort())


def clip(q):
    return z3.If(q < N, q, N)


def consistent(o, b, l, u):
    """named by a boolean, one for each state it is said of"""
    pos = I(seq_len(o))
    k = z3.Int('k!c')
    f = z3.And(z3.ForAll([k], B(at_index(o, k, lambda e: BIT(k) == I(e))), patterns=[BIT(k)]),
                  z3.ForAll([k], z3.Implies(z3.And(k > pos, k <= pos + b), BIT(k) == 1 - BIT(pos)), patterns=[BIT(k)]),
                  window(pos, b) >= l, window(pos, b) < u)
    for name, g in NAMED:
        if g.eq(f):
            return name
    name = z3.Bool('consistent%d' % len(NAMED))
    NAMED.append((name, f))
    F.add(str(name), lambda a: name == f)
    return name


NAMED = []


class Remainder:
    """contract of ArithEnc::remainder, as its unit proves it"""

    def apply(self, ip, st, d, this, args):
        b, o, l, u = force(args[0]), force(ip.read(st, args[1])), I(force(args[2])), I(force(args[3]))
        ip.oblige(st, z3.And(I(b) >= 0, settled(l, u)), 'precondition of remainder in ' + ip.where())
        m = z3.Int('remainder')
        f = z3.Function('remainder bit', ZI, ZI)
        k = index_var('r')
        st.assume(z3.And(m >= 0, m <= 10, z3.Implies(I(b) > 0, z3.And(m == 1, f(0) == 1))))
        v = sum((z3.If(x < m, 2 ** (9 - x) * f(x), 0) for x in range(10)), z3.IntVal(0))
        st.assume(z3.Implies(I(b) == 0, z3.And(v >= l, v < u)))
        for x in range(10):
            st.assume(z3.And(f(x) >= 0, f(x) <= 1))
        ip.write(st, args[1], Seq(list(o.ps) + [Loop(k, 0, m, [U(f(k))])], UCHAR))
        self.o, self.b, self.l, self.u, self.m, self.bit = o, I(b), l, u, m, f
        return None


@suite.unit(E + 'encode', 'the decoder, reading the bits written and then zeros, returns the symbols given')
def encode(c):
    NAMED.clear()
    c.ground()
    c.build(outstream=Seq([], UCHAR))
    stream(c)
    renormalise(c)
    c.ip.nonlinear = nonlinear
    v, ctx = c.arg('instream'), c.arg('context')
    n = I(seq_len(v))
    old = c.old['this']
    cnt, tot = get(old, 'counter'), get(old, 'counter_total')
    k, i = z3.Ints('k!e i!e')
    c.pre(z3.And(n <= 1 << 27, I(seq_len(ctx)) == n))     # pending bits are counted in an int
    c.pre(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(I(get(ctx, k)) >= 0, I(get(ctx, k)) < 7))))
    c.pre(z3.ForAll([k], z3.Implies(k >= N, BIT(k) == 0), patterns=[BIT(k)]))
    for j in range(7):
        c.pre(z3.And(I(get(cnt, j)) >= 0, I(get(cnt, j)) <= I(get(tot, j)), I(get(tot, j)) >= 1, I(get(tot, j)) <= 1 << 29))
        c.pre(z3.And(CNT(0, j) == I(get(cnt, j)), TOT(0, j) == I(get(tot, j))))
    # the decoder, as initDecoding and decode are proved to be
    c.pre(z3.And(DL(0) == 0, DU(0) == 1024, DX(0) == window(0, 0), DI(0) == clip(10)))

    def one(i):
        return DX(i) - DL(i) >= split(DU(i) - DL(i), CNT(i, I(get(ctx, i))), TOT(i, I(get(ctx, i))))

    def parts(i):
        s = split(DU(i) - DL(i), CNT(i, I(get(ctx, i))), TOT(i, I(get(ctx, i))))
        return z3.If(one(i), DL(i) + s, DL(i)), z3.If(one(i), DU(i), DL(i) + s)

    def step(i):
        l, u = parts(i)
        x = I(get(ctx, i))
        return z3.And([SYM(i) == z3.If(one(i), 1, 0), DL(i + 1) == NL(l, u), DU(i + 1) == NU(l, u), DX(i + 1) == NX(l, u, DX(i), DI(i)), DI(i + 1) == NI(l, u, DI(i))] +
                      [z3.And(CNT(i + 1, j) == CNT(i, j) + z3.If(z3.And(x == j, z3.Not(one(i))), 1, 0), TOT(i + 1, j) == TOT(i, j) + z3.If(x == j, 1, 0)) for j in range(7)])
    c.pre(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(STEP(i), step(i))), patterns=[STEP(i)]))
    c.pre(z3.ForAll([k], z3.And(I(get(v, k)) >= 0, I(get(v, k)) <= 1), patterns=[I(get(v, k))]))
    m = c.forall(0, 1 << 28, 'm')

    def state(L):
        return L('outstream'), I(L('bits_to_follow')), I(L('range_lower')), I(L('range_upper'))

    def stats(L, i, extra=None):
        a, t = get(L('this'), 'counter'), get(L('this'), 'counter_total')
        return z3.And([z3.And(I(get(a, j)) >= 0, I(get(a, j)) <= I(get(t, j)), I(get(t, j)) >= 1, I(get(t, j)) <= (1 << 29) + i) for j in range(7)])

    def outer(L):
        i = I(L('i'))
        o, b, l, u = state(L)
        a, t = get(L('this'), 'counter'), get(L('this'), 'counter_total')
        cons = consistent(o, b, l, u)
        return [('position', z3.And(i >= 0, i <= n, z3.Or(i == n, STEP(i)))), ('range', settled(l, u)), ('pending', z3.And(b >= 0, I(seq_len(o)) + b <= 10 * i)), ('statistics', stats(L, i)),
                ('decoder range', z3.Implies(cons, z3.And(DL(i) == l, DU(i) == u))),
                ('decoder bits', z3.Implies(cons, z3.And(DX(i) == window(I(seq_len(o)), b), DI(i) == clip(I(seq_len(o)) + b + 10)))),
                ('decoder statistics', z3.Implies(cons, z3.And([z3.And(CNT(i, j) == I(get(a, j)), TOT(i, j) == I(get(t, j))) for j in range(7)]))),
                ('decoded so far', z3.Implies(z3.And(cons, m < i), SYM(m) == I(get(v, m))), [m == i - 1, m < i - 1, m >= i])]
    c.loop(0, outer)

    seen = []

    def inner(L):
        i = I(L('i'))
        o, b, l, u = state(L)
        a, t = get(L('this'), 'counter'), get(L('this'), 'counter_total')
        cons = consistent(o, b, l, u)
        l1, u1 = parts(i)
        pos = I(seq_len(o))
        cases = []
        for l0, u0, b0 in seen[-1:]:    # at the end of the body: by what the adjustment was
            cases = [z3.And(u0 <= 512, b0 == 0), z3.And(u0 <= 512, b0 > 0), z3.And(u0 > 512, l0 >= 512, b0 == 0), z3.And(u0 > 512, l0 >= 512, b0 > 0), z3.And(u0 > 512, l0 < 512)]
        seen.append((l, u, b))
        return [('range', z3.And(l >= 0, l < u, u <= 1024, AT(l, u, window(pos, b), clip(pos + b + 10)))), ('pending', z3.And(b >= 0, z3.Or([z3.And(u - l >= 2 ** g, pos + b <= 10 * i + g) for g in range(11)]))),
                ('decoder statistics', z3.Implies(cons, z3.And([z3.And(CNT(i, j) == I(get(a, j)), TOT(i, j) == I(get(t, j))) for j in range(7)]))),
                ('symbol', z3.Implies(cons, one(i) == (I(get(v, i)) != 0))),
                ('decoded so far', z3.Implies(z3.And(cons, m < i), SYM(m) == I(get(v, m)))),
                ('adjusted range', z3.Implies(cons, z3.And(NL(l1, u1) == NL(l, u), NU(l1, u1) == NU(l, u)))),
                ('adjusted bits', z3.Implies(cons, NX(l1, u1, DX(i), DI(i)) == NX(l, u, window(pos, b), clip(pos + b + 10))), cases),
                ('next bit', z3.Implies(cons, NI(l1, u1, DI(i)) == NI(l, u, clip(pos + b + 10))), cases)]
    c.loop(1, inner)
    j = c.forall(0, 1 << 40, 'j')

    def trim(L):
        e, o = I(L('index_end')), L('outstream')
        return [('index in range', z3.And(e >= -1, e < I(seq_len(o)))), ('only zeros after it', z3.ForAll([k], z3.Implies(k > e, B(at_index(o, k, lambda x: I(x) == 0)))))]
    c.loop(4, trim, variant=lambda L: I(L('index_end')) + 1)
    rem = c.ip.contracts[E + 'remainder'] = Remainder()
    c.call()
    c.no_throw()
    w = c.new('outstream')
    c.st.assume(z3.And(N == I(seq_len(w)), z3.ForAll([k], B(at_index(w, k, lambda e: BIT(k) == I(e))), patterns=[BIT(k)])))

    def then(name, goal):
        c.ensure(name, goal)
        c.st.assume(goal)
    pos = I(seq_len(rem.o))
    for x in range(11):
        then('bit %d after the coded ones' % x, BIT(pos + x) == z3.If(x < rem.m, rem.bit(x), 0))
    then('zeros behind', z3.Implies(rem.b > 0, z3.ForAll([k], z3.Implies(k > pos, BIT(k) == 0), patterns=[BIT(k)])))
    then('bits written', z3.ForAll([k], B(at_index(rem.o, k, lambda e: BIT(k) == I(e))), patterns=[BIT(k)]))
    then('ten bits in the range', z3.And(window(pos, rem.b) >= rem.l, window(pos, rem.b) < rem.u))
    then('consistent with the last state', consistent(rem.o, rem.b, rem.l, rem.u))
    c.ensure('decoded symbol m', z3.Implies(m < n, SYM(m) == I(get(v, m))))


# ---------------------------------------------------------------- the block coder
SE = 'haptics::spiht::Spiht_Enc::'
SD = 'haptics::spiht::Spiht_Dec::'


class Bits:
    """contract of ArithDec::decode for the fields at the start of a block: the next of the bits that were coded"""

    def __init__(self, bits):
        self.bits, self.pos = bits, 0

    def apply(self, ip, st, d, this, args):
        k = self.pos
        self.pos += 1
        return norm(self.bits(k))


@suite.unit(SE + 'de2bi', 'the depth and the scale are written as the bits of their numbers, the lowest first, and read back', label='fields')
def fields(c):
    c.build(outstream=Seq([], UCHAR), length=7)
    v = I(c.arg('val'))
    c.pre(z3.And(v >= 0, v < 128))
    c.call()
    c.no_throw()
    o = c.new('outstream')
    c.ensure('length', I(seq_len(o)) == 7)
    for k in range(7):
        c.ensure('bit %d' % k, I(get(o, k)) == (v / 2 ** k) % 2)
    # (MAXALLOCBITS_SIZE is 4, WAVMAXLENGTH - 1 is 7)
    for name, n in (('getMaxAllocBits', 4), ('bi2de', 7)):
        bits = z3.Function('bit', ZI, ZI)
        for k in range(n):
            c.st.assume(bits(k) == (v / 2 ** k) % 2)
        dec = c.cell(c.sym('decoder', T('record', SD[:-2])), T('record', SD[:-2]))
        if name == 'bi2de':
            s = c.cell(Seq([U(bits(k)) for k in range(n)], T('int', bits=32, signed=True)))
            r = c.run(SD + 'bi2de', [s, n], this=dec)
            c.ensure('scale read back', I(r) == v)
        else:
            c.ip.contracts[D + 'decode'] = Bits(bits)
            r = c.run(SD + name, [], this=dec)
            c.ensure('depth read back', z3.Implies(v < 16, I(r) == v))
