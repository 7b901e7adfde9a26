"""P02: fixed-width bit fields read back exactly, at any alignment (IOBinaryPrimitives)."""
import re
from engine.spec import *
from engine.ctypes_ import T
from engine.vals import U, Bits, Loop, Cond, Enc
import z3

SRC = ['IOHaptics/src/IOBinary.cpp', 'IOHaptics/src/IOBinaryBands.cpp', 'IOHaptics/src/IOStream.cpp', 'IOHaptics/src/IOBinaryPrimitives.cpp']
HARNESS_SOURCES = ['IOHaptics/src/IOBinaryPrimitives.cpp']
HARNESS_QUICK = 12
suite = Suite('P02', SRC, harness='bits', stand_in='random sequences of fields of every width and type written and read back at every alignment')
NS = 'haptics::io::IOBinaryPrimitives::'
CODES = {'h': (8, False), 't': (16, False), 'j': (32, False), 'a': (8, True), 'c': (8, True), 's': (16, True), 'i': (32, True), 'l': (64, True), 'm': (64, False)}
BOOL = T('bool')
CH = T('int', 'char', bits=8, signed=True)


def tobv(v, w):
    return v if is_bv(v) else bv_of(v, w)


def inst(prog, fn):
    """(type code, bits, mangled) for each instantiation <T, n>"""
    out = []
    for d in prog.by_qual.get(NS + fn, []):
        m = re.search(r'%d%sI([a-z])Lm(\d+)EE' % (len(fn), fn), d.mangled or '')
        if m and d.body is not None:
            out.append((m.group(1), int(m.group(2)), d.mangled))
    return sorted(set(out))


def only(m):
    return lambda d: d.mangled == m


@suite.generate
def writers(prog):
    for tc, n, mg in inst(prog, 'writeNBits'):
        def f(c, tc=tc, n=n):
            w, sg = CODES[tc]
            v = z3.BitVec('v', w)
            c.build(value=v)
            old = c.arg('output')
            c.call()
            c.no_throw()
            r = c.new('output')
            c.eq('appends exactly n bits', seq_len(r), norm(I(seq_len(old)) + n))
            k = c.forall(0, seq_len(old))
            c.eq('earlier bits unchanged', seq_get(r, k), seq_get(old, k))
            # bit i of the field is bit n-1-i of the value (sign extended when the field is wider)
            x = v if n <= w else (z3.SignExt(n - w, v) if sg else z3.ZeroExt(n - w, v))
            for i in range(n):
                c.eq('bit %d, most significant first' % i, seq_get(r, norm(I(seq_len(old)) + i)), z3.Extract(n - 1 - i, n - 1 - i, x) == 1)
        suite.unit(NS + 'writeNBits', 'appends the low n bits of the value, most significant first, after the bits already there', label='%s,%d' % (tc, n), pick=only(mg))(f)


@suite.generate
def readers(prog):
    for tc, n, mg in inst(prog, 'readNBits'):
        for u in range(8):
            def f(c, tc=tc, n=n, u=u):
                w, sg = CODES[tc]
                ub = [z3.Bool('u%d' % i) for i in range(u)]
                nb = max(0, -(-(n - u) // 8))
                by = [z3.BitVec('b%d' % i, 8) for i in range(nb)]
                rest = c.sym('rest', T('vector', args=(CH,)))
                c.build(unusedBits=Seq([U(b) for b in ub], BOOL), file=RecVal('istream', {'data': Seq([U(b) for b in by] + rest.ps, CH), 'ok': True}))
                r = c.call()
                c.no_throw()
                bits = [z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for b in ub] + [z3.Extract(7 - j, 7 - j, b) for b in by for j in range(8)]
                field, left = bits[:n], bits[n:]
                val = z3.Concat(*field) if n > 1 else field[0]
                val = z3.ZeroExt(w - n, val) if n < w else (z3.Extract(w - 1, 0, val) if n > w else val)
                c.eq('value of the next n bits', tobv(r, w), val)
                o = c.new('unusedBits')
                c.eq('bits left over for the next field', seq_len(o), len(left))
                for i, b in enumerate(left):
                    c.eq('left over bit %d' % i, seq_get(o, i), b == 1)
                f2 = c.new('file', 'data')
                c.eq('bytes not needed stay in the file', seq_len(f2), seq_len(rest))
                k = c.forall(0, seq_len(rest))
                c.eq('and are unchanged', seq_get(f2, k), seq_get(rest, k))
            suite.unit(NS + 'readNBits', 'returns the next n bits of (left-over bits, then file) as an unsigned field and keeps every later bit', label='%s,%d after %d left-over bits' % (tc, n, u), pick=only(mg))(f)


# ---------------------------------------------------------------- quantised decimals, over the field contracts
from engine import bits as BT


def clamp(v, lo, hi):
    return z3.If(v < lo, lo, z3.If(v > hi, hi, v))


@suite.generate
def quantised(prog):
    for tc, n, mg in inst(prog, 'writeFloatNBits'):
        def f(c, n=n):
            BT.use_in(c, ['writeNBits'])
            c.build()
            v, lo, hi = [R(c.arg(x)) for x in ('value', 'minValue', 'maxValue')]
            c.pre(lo < hi)
            old = c.arg('output')
            c.call()
            c.no_throw()
            r = c.new('output')
            p = r.ps[-1]
            if not isinstance(p, Bits) or not same_ps(r.ps[:-1], old.ps):
                raise Unsupported('output is not old bits followed by one field')
            c.eq('appends exactly n bits', p.n, n)
            q = z3.ToReal(I(p.v))
            M = (1 << n) - 1
            c.ensure('step number in range', z3.And(q >= 0, q <= M))
            x = z3.Real('x!norm')            # position of the clamped value in the range, in steps
            st = c.where(x * (hi - lo) == (clamp(v, lo, hi) - lo) * M)
            e = q - x
            c.ensure('nearest step', z3.And(2 * e <= 1, -2 * e <= 1), st=st)
            # the two ends meet (what readFloatNBits returns for this field, by its contract)
            back = z3.Real('x!back')
            st.assume((back - lo) * M == q * (hi - lo))
            st.assume(back - clamp(v, lo, hi) == z3.Real('x!err'))
            err = z3.Real('x!err')
            st.assume(err * M == e * (hi - lo))
            c.ensure('read back within one step', z3.And(err * M <= hi - lo, -err * M <= hi - lo), st=st)
            k = z3.Int('k!step')
            st = c.where(k >= 0, k <= M, x == z3.ToReal(k), e <= z3.RealVal('1/2'), -e <= z3.RealVal('1/2'), e == q - x)
            c.ensure('a decoded value is written as the same step', I(p.v) == k, st=st)
        suite.unit(NS + 'writeFloatNBits', 'writes the number of the quantisation step nearest to the clamped value, in n bits', label='%s,%d' % (tc, n), pick=only(mg))(f)
    for tc, n, mg in inst(prog, 'readFloatNBits'):
        def f(c, n=n):
            BT.use_in(c, ['readNBits'])
            q = z3.Int('q')
            c.pre(z3.And(q >= 0, q < 1 << n))
            F.bounds['q'] = (0, (1 << n) - 1)
            rest = Enc('rest', (), z3.Int('rest#'))
            F.bounds['rest#'] = (0, None)
            c.build(file=BT.stream([Bits(q, n), rest]), unusedBits=Seq([], BOOL))
            lo, hi = R(c.arg('minValue')), R(c.arg('maxValue'))
            c.pre(lo <= hi)
            r = c.call()
            c.no_throw()
            M = (1 << n) - 1
            c.eq('consumes exactly the field', c.new('file', 'data'), Seq([rest], BOOL))
            c.ensure('value of the step', (R(r) - lo) * M == z3.ToReal(q) * (hi - lo))
            c.ensure('never outside the range', z3.And(R(r) >= lo, R(r) <= hi))
        suite.unit(NS + 'readFloatNBits', 'reads n bits as a step number and returns that step of the range', label='%s,%d' % (tc, n), pick=only(mg))(f)


from engine.vals import PosVal


def cursor(name='startIdx'):
    """bit cursors stay below 2^30 (packets are far shorter)"""
    F.bounds[name] = (0, 1 << 30)
    F.add(name, lambda a: z3.And(a >= 0, a <= 1 << 30))


def window(c, n, cur='startIdx', bs='bitstream'):
    """n bits available at the cursor"""
    s = c.arg(bs)
    i = I(c.arg(cur))
    c.pre(z3.And(i >= 0, i + n <= I(seq_len(s))))
    return [B(seq_get(s, norm(i + k))) for k in range(n)]


def weigh(bs, flip=False):
    return z3.Sum([z3.If(z3.Not(b) if flip else b, z3.IntVal(1 << (len(bs) - 1 - k)), z3.IntVal(0)) for k, b in enumerate(bs)] + [z3.IntVal(0)])


@suite.generate
def integers(prog):
    for n in range(1, 33):
        def f(c, n=n):
            cursor()
            c.build(length=n)
            b = window(c, n)
            i = I(c.arg('startIdx'))
            r = c.call()
            c.no_throw()
            v = weigh(b)
            c.eq('value of the n bits', I(r), wrap(v, 32, True) if n == 32 else v)
            c.eq('the cursor moves past the field', c.new('startIdx'), norm(i + n))
        suite.unit(NS + 'readUInt', 'returns the n bits at the cursor as an unsigned number, most significant first, and moves the cursor past them', label='%d bits' % n)(f)
        def g(c, n=n):
            BT_UINT(c)
            cursor()
            c.build(length=n)
            b = window(c, n)
            i = I(c.arg('startIdx'))
            r = c.call()
            c.no_throw()
            c.eq('two\'s complement value', I(r), z3.If(b[0], weigh(b) - (1 << n), weigh(b)))
            c.eq('the cursor moves past the field', c.new('startIdx'), norm(i + n))
        suite.unit(NS + 'readInt', 'returns the n bits at the cursor as a two\'s complement number and moves the cursor past them', label='%d bits' % n)(g)


def BT_UINT(c):
    pass


@suite.generate
def stream_floats(prog):
    for d in prog.by_qual.get(NS + 'readFloatNBits', []):
        m = re.search(r'readFloatNBitsILm(\d+)EE', d.mangled or '')
        if not m or d.body is None:
            continue
        def f(c, n=int(m.group(1))):
            cursor()
            c.build()
            b = window(c, n)
            i = I(c.arg('startIdx'))
            lo, hi = R(c.arg('minValue')), R(c.arg('maxValue'))
            c.pre(lo <= hi)
            r = c.call()
            c.no_throw()
            M = (1 << n) - 1
            c.eq('the cursor moves past the field', c.new('startIdx'), norm(i + n))
            q = z3.Int('q!')
            st = c.where(q == weigh(b), q >= 0, q <= M)
            c.ensure('value of the step', (R(r) - lo) * M == z3.ToReal(q) * (hi - lo), st=st)
            c.ensure('never outside the range', z3.And(R(r) >= lo, R(r) <= hi), st=st)
        suite.unit(NS + 'readFloatNBits', 'reads n bits at the cursor as a step number and returns that step of the range', label='vector,%s' % m.group(1), pick=only(d.mangled))(f)


@suite.unit(NS + 'writeStrBits', 'appends one bit per character')
def strbits(c):
    c.build()
    s, old = c.arg('bits'), c.arg('bitstream')
    c.call()
    c.no_throw()
    r = c.new('bitstream')
    c.eq('one bit per character', seq_len(r), norm(I(seq_len(old)) + I(seq_len(s))))
    k = c.forall(0, seq_len(old))
    c.eq('earlier bits unchanged', seq_get(r, k), seq_get(old, k))
    j = c.forall(0, seq_len(s))
    c.eq('bit is set for 1', seq_get(r, norm(I(seq_len(old)) + j)), I(seq_get(s, j)) == 49)


@suite.unit(NS + 'fillBitset', 'pads with zero bits to a whole number of bytes, and no further')
def fill(c):
    c.build()
    old = c.arg('bitset')
    n = I(seq_len(old))
    c.call()
    c.no_throw()
    r = c.new('bitset')
    m = I(seq_len(r))
    c.ensure('whole bytes', m % 8 == 0)
    c.ensure('less than one byte added', z3.And(m >= n, m < n + 8))
    k = c.forall(0, n)
    c.eq('earlier bits unchanged', seq_get(r, k), seq_get(old, k))
    j = c.forall(n, m)
    c.eq('padding is zero', seq_get(r, j), False)


@suite.unit(NS + 'writeBitset', 'writes the bits eight to a byte, most significant first, the last byte padded with zeros')
def wbitset(c):
    c.build(file=RecVal('ostream', {'data': Seq([], CH), 'sink': False}))
    b = c.arg('bitset')
    n = I(seq_len(b))
    c.call()
    c.no_throw()
    d = c.new('file', 'data')
    c.eq('number of bytes', seq_len(d), norm((n + 7) / 8))
    k = c.forall(0, norm((n + 7) / 8))
    v = seq_get(d, k)
    for j in range(8):
        i = norm(8 * k + j)
        bit = z3.Extract(7 - j, 7 - j, tobv(v, 8)) == 1
        c.ensure('bit %d of a byte' % j, bit == z3.And(i < n, B(seq_get(b, i))))


@suite.unit(NS + 'readNBytes', 'appends the bits of the next n bytes, most significant first, and consumes exactly those bytes')
def nbytes(c):
    c.build()
    n = I(c.arg('nbBytes'))
    data, old = c.arg('file', 'data'), c.arg('bitstream')
    c.pre(z3.And(n >= 0, n <= I(seq_len(data))))
    r = c.call()
    c.no_throw()
    out = c.new('bitstream')
    c.eq('reports success', r, True)
    c.eq('eight bits per byte', seq_len(out), norm(I(seq_len(old)) + 8 * n))
    k = c.forall(0, seq_len(old))
    c.eq('earlier bits unchanged', seq_get(out, k), seq_get(old, k))
    k = c.forall(0, n)
    for j in range(8):
        c.ensure('bit %d of a byte' % j, B(seq_get(out, norm(I(seq_len(old)) + 8 * k + j))) == (z3.Extract(7 - j, 7 - j, tobv(seq_get(data, k), 8)) == 1))
    rest = c.new('file', 'data')
    c.eq('consumes exactly n bytes', seq_len(rest), norm(I(seq_len(data)) - n))
    k = c.forall(0, norm(I(seq_len(data)) - n))
    c.eq('later bytes unchanged', seq_get(rest, k), seq_get(data, norm(n + k)))


STRT = T('string')


@suite.unit(NS + 'writeString', 'writes the length (at most 255) and that many characters')
def wstring(c):
    BT.use_in(c, ['writeNBits'])
    c.build()
    s, old = c.arg('text'), c.arg('output')
    n = I(seq_len(s))
    c.call()
    c.no_throw()
    out = c.new('output')
    m = z3.If(n > 255, z3.IntVal(255), n)
    c.eq('length byte and eight bits per character', seq_len(out), norm(I(seq_len(old)) + 8 + 8 * m))
    k = c.forall(0, seq_len(old))
    c.eq('earlier bits unchanged', seq_get(out, k), seq_get(old, k))
    ln = tobv(norm(m), 8)
    base = I(seq_len(old))
    for j in range(8):
        c.ensure('bit %d of the length' % j, B(seq_get(out, norm(base + j))) == (z3.Extract(7 - j, 7 - j, ln) == 1))
    k = c.forall(0, m)
    for j in range(8):
        c.ensure('bit %d of a character' % j, B(seq_get(out, norm(base + 8 + 8 * k + j))) == (z3.Extract(7 - j, 7 - j, tobv(seq_get(s, k), 8)) == 1))


@suite.unit(NS + 'readString', 'reads the length and that many characters', pick=lambda d: len(d.params) == 2)
def rstring(c):
    BT.use_in(c, ['readNBits'])
    s = c.sym('text', STRT)
    n = seq_len(s)
    c.pre(I(n) <= 255)
    rest = Enc('rest', (), z3.Int('rest#'))
    F.bounds['rest#'] = (0, None)
    c.build(file=BT.stream([Bits(n, 8), BT.char_loop(n, lambda k: seq_get(s, k)), rest]), unusedBits=Seq([], BOOL))
    r = c.call()
    c.no_throw()
    c.eq('length', seq_len(r), n)
    k = c.forall(0, n)
    c.eq('every character', seq_get(r, k), seq_get(s, k))
    c.eq('consumes exactly the string', c.new('file', 'data'), Seq([rest], BOOL))


@suite.unit(NS + 'readString', 'reads the given number of characters at the cursor', label='vector', pick=lambda d: len(d.params) == 3)
def rstring2(c):
    c.build()
    b, i, n = c.arg('bitstream'), I(c.arg('startIdx')), I(c.arg('length'))
    c.pre(z3.And(i >= 0, n >= 0, i + 8 * n <= I(seq_len(b))))
    r = c.call()
    c.no_throw()
    c.eq('length', seq_len(r), norm(n))
    c.eq('the cursor moves past the string', c.new('startIdx'), norm(i + 8 * n))
    k = c.forall(0, n)
    v = tobv(seq_get(r, k), 8)
    for j in range(8):
        c.ensure('bit %d of a character' % j, (z3.Extract(7 - j, 7 - j, v) == 1) == B(seq_get(b, norm(i + 8 * k + j))))


@suite.unit(NS + 'writeVector', 'writes the three coordinates')
def wvec(c):
    BT.use_in(c, ['writeNBits'])
    c.build()
    v, old = c.arg('vector'), c.arg('output')
    c.call()
    c.no_throw()
    c.eq('three 8-bit fields', c.new('output'), Seq(old.ps + [BT.field(v.get(f), 8) for f in ('X', 'Y', 'Z')], BOOL))


@suite.unit(NS + 'readVector', 'reads back the three coordinates')
def rvec(c):
    BT.use_in(c, ['readNBits'])
    v = c.sym('v', T('record', 'haptics::types::Vector'))
    rest = Enc('rest', (), z3.Int('rest#'))
    c.build(file=BT.stream([BT.field(v.get(f), 8) for f in ('X', 'Y', 'Z')] + [rest]), unusedBits=Seq([], BOOL))
    r = c.call()
    c.no_throw()
    for f in ('X', 'Y', 'Z'):
        c.eq('coordinate ' + f, r.get(f), v.get(f))
    c.eq('consumes exactly the vector', c.new('file', 'data'), Seq([rest], BOOL))
