"""P17: Base64 text, byte strings and bit strings convert back and forth."""
from contracts.pairs import *
from engine.spec import Suite, at_index
from engine.vals import *

J = 'haptics::io::IOJson::'
suite = Suite('P17', ['IOHaptics/src/IOJson.cpp', 'Spiht/src/ArithEnc.cpp', 'Spiht/src/ArithDec.cpp', 'Spiht/src/Spiht_Enc.cpp', 'Spiht/src/Spiht_Dec.cpp'], harness='base64', stand_in='random bit strings and byte strings converted and back',
              link=['IOHaptics/src/*.cpp', 'Types/src/*.cpp', 'Tools/src/Tools.cpp', 'Tools/src/OHMData.cpp', 'WaveletDecoder/src/*.cpp', 'Spiht/src/*.cpp', 'FilterBank/src/Wavelet.cpp'])
UCHAR = T('int', 'uchar', bits=8, signed=False)
VEC = T('vector', args=(UCHAR,))


def bit(v, i):
    """bit i of a bit string (0 past the end)"""
    n = seq_len(v)
    return z3.If(z3.And(I(i) >= 0, I(i) < I(n)), I(get(v, i)), 0)


def group(v, g):
    """the six bits of group g as a number, most significant first"""
    return sum((1 << (5 - b)) * bit(v, 6 * g + b) for b in range(6))


def enc(t):
    return z3.If(t <= 25, t + 65, z3.If(t <= 51, t + 71, z3.If(t <= 61, t - 4, z3.If(t == 62, 43, 47))))


def partial(v, i):
    """value of the bits of the current, incomplete group after i bits"""
    r = I(i) % 6
    g = I(i) / 6
    return sum(z3.If(r > b, (1 << (5 - b)) * bit(v, 6 * g + b), 0) for b in range(6))


def comp(i):
    r = I(i) % 6
    e = z3.IntVal(1)
    for b in range(4, -1, -1):
        e = z3.If(r == b, 32 >> b, e)
    return e


def is_bits(c, v):
    j = z3.Int('j!q')
    c.pre(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(seq_len(v))), z3.And(I(get(v, j)) >= 0, I(get(v, j)) <= 1))))


@suite.unit(J + 'bits2base64', 'every character codes the six bits of its group', label='encode')
def encode(c):
    c.range('[]', 0, 1)
    c.build(out=Seq([], UCHAR))
    v = c.arg('in')
    n = seq_len(v)
    g = c.forall(0, 1 << 30, 'g')

    def inv(L):
        i = L('#i')
        o = L('out')
        return [('characters so far', I(seq_len(o)) == I(i) / 6), ('position in the group', I(L('compare')) == comp(i)),
                ('value of the group so far', I(L('temp')) == partial(v, i), [I(i) % 6 == r for r in range(6)]),
                ('character g', at_index(o, g, lambda e: I(e) == enc(group(v, g))), [I(i) % 6 == r for r in range(6)]),
                ('index in range', z3.And(I(i) >= 0, I(i) <= I(n)))]
    c.loop(0, inv)
    c.call()
    c.no_throw()
    o = c.new('out')
    no = I(seq_len(o))
    c.ensure('character g codes group g', at_index(o, g, lambda e: I(e) == enc(group(v, g))))
    c.ensure('one character per group, but for a last, incomplete, all-zero one', z3.And(6 * no <= I(n) + 5, z3.Or(6 * no >= I(n), group(v, no) == 0)))
    c.ensure('groups past the text are zero', z3.Implies(g >= no, group(v, g) == 0))


def dec(t):
    return z3.If(z3.And(t >= 65, t <= 90), t - 65, z3.If(z3.And(t >= 97, t <= 122), t - 71, z3.If(z3.And(t >= 48, t <= 57), t + 4, z3.If(t == 43, 62, 63))))


def code_bit(t, b):
    """bit b (0: most significant) of the six-bit value t"""
    e = t % 2
    for k in range(5):
        e = z3.If(b == k, (t / (1 << (5 - k))) % 2, e)
    return e


def trim_loop(c, qual, ordinal, j, want):
    """the loop that looks for the last non-zero bit"""
    def inv(L):
        e, o = I(L('index_end')), L('out')
        return [('index in range', z3.And(e >= -1, e < I(seq_len(o)))), ('only zeros after it', z3.Implies(z3.And(j > e, j < I(seq_len(o))), I(get(o, j)) == 0))]
    c.loop(ordinal, inv, variant=lambda L: I(L('index_end')) + 1, qual=qual)


def decode_loop(c, v, j):
    def inv(L):
        i, o = I(L('#i')), L('out')
        return [('six bits per character', z3.And(I(seq_len(o)) == 6 * i, i >= 0, i <= I(seq_len(v)))),
                ('bit j', at_index(o, j, lambda e: I(e) == code_bit(dec(I(get(v, j / 6))), j % 6)))]
    c.loop(0, inv, qual=J + 'base642bits')
    trim_loop(c, J + 'base642bits', 2, j, None)


@suite.unit(J + 'base642bits', 'the six bits of every character, without trailing zeros', label='decode')
def decode(c):
    c.build(out=Seq([], UCHAR))
    v = c.arg('in')
    j = c.forall(0, 1 << 30, 'j')
    decode_loop(c, v, j)
    c.call()
    c.no_throw()
    o = c.new('out')
    n = I(seq_len(o))
    want = code_bit(dec(I(get(v, j / 6))), j % 6)
    c.ensure('bit j', at_index(o, j, lambda e: I(e) == want))
    c.ensure('the last bit is one', z3.Implies(n > 0, I(get(o, n - 1)) != 0))
    c.ensure('only zeros are left out', z3.Implies(z3.And(j >= n, j < 6 * I(seq_len(v))), want == 0))


def is_set(v, i):
    n = seq_len(v)
    return z3.If(z3.And(I(i) >= 0, I(i) < I(n), I(get(v, i)) == 1), 1, 0)


def byte(v, g):
    """byte g of a bit string, the first bit the least significant"""
    return sum((1 << b) * is_set(v, 8 * g + b) for b in range(8))


def pack_unit(func, label):
    def check(c):
        c.range('[]', 0, 255)
        c.build(out=Seq([], UCHAR))
        v = c.arg('in')
        n = I(seq_len(v))
        g = c.forall(0, 1 << 27, 'g')

        def inv(L):
            i = I(L('#i'))
            o = L('out')
            return [('bits used', z3.And(I(L('index')) == z3.If(8 * i < n, 8 * i, n), i >= 0)), ('room', z3.And(8 * I(seq_len(o)) >= n, 8 * I(seq_len(o)) < n + 8)),
                    ('byte g', z3.Implies(g < i, at_index(o, g, lambda e: I(e) == byte(v, g))))]
        c.loop(0, inv)
        c.call()
        c.no_throw()
        o = c.new('out')
        c.ensure('one byte per eight bits', z3.And(8 * I(seq_len(o)) >= n, 8 * I(seq_len(o)) < n + 8))
        c.ensure('byte g packs bits 8g to 8g+7', at_index(o, g, lambda e: I(e) == byte(v, g)))
    suite.unit(func, 'eight bits per byte, the first the least significant, zero padding in the last', label=label)(check)


pack_unit(J + 'bits2bytes', 'pack')
pack_unit('haptics::spiht::ArithEnc::convert2bytes', 'pack')


def byte_bit(t, b):
    """bit b (0: least significant) of a byte"""
    e = I(t) % 2
    for k in range(1, 8):
        e = z3.If(b == k, (I(t) / (1 << k)) % 2, e)
    return e


def unpack_unit(func, trims):
    @suite.unit(func, 'bit j of the result is bit j%8 of byte j/8' + (', trailing zeros dropped' if trims else ''), label='unpack')
    def check(c):
        c.range('[]', 0, 255)
        c.build(out=Seq([], UCHAR))
        v = c.arg('in')
        n = I(seq_len(v))
        c.pre(n <= (1 << 28) - 1)           # the code counts bits in an int
        j = c.forall(0, 1 << 31, 'j')

        def want():
            return byte_bit(get(v, j / 8), j % 8)

        def inv(L):
            i, o = I(L('#i')), L('out')
            ln = I(seq_len(o))
            return [('bits done', z3.And(I(L('index')) == 8 * i, i >= 0, i <= n)), ('room', ln == 8 * n),
                    ('bit j', z3.Implies(j < ln, I(get(o, j)) == z3.If(j < 8 * i, want(), 0)), [j - 8 * i < -8, j >= 8 * i] + [j - 8 * i == k - 8 for k in range(8)])]
        c.loop(0, inv)
        if trims:
            trim_loop(c, func, 2, j, None)
        c.call()
        c.no_throw()
        o = c.new('out')
        ln = I(seq_len(o))
        c.ensure('bit j', at_index(o, j, lambda e: I(e) == want()))
        if trims:
            c.ensure('the last bit is one', z3.Implies(ln > 0, I(get(o, ln - 1)) != 0))
            c.ensure('only zeros are left out', z3.And(ln <= 8 * n, z3.Implies(z3.And(j >= ln, j < 8 * n), want() == 0)))
        else:
            c.ensure('all bits', ln == 8 * n)


unpack_unit(J + 'bytes2bits', True)
unpack_unit('haptics::spiht::ArithDec::convert2bits', False)


def lemma(func, label, claim, names):
    def deco(f):
        @suite.unit(func, 'lemma over the contracts: ' + claim, label=label)
        def check(c):
            c.build()
            c.called = True
            c.dead = False
            f(c, *z3.Ints(names))
        return f
    return deco


def sixbits(c):
    bs = z3.Ints('b0 b1 b2 b3 b4 b5')
    for b in bs:
        c.pre(z3.And(b >= 0, b <= 1))
    return bs


@lemma(J + 'bits2base64', 'lemma: text back to bits', 'decoding the character of a group gives the six bits of the group', 'k')
def lemma_text(c, k):
    bs = sixbits(c)
    val = sum((1 << (5 - b)) * bs[b] for b in range(6))
    for b in range(6):
        c.ensure('bit %d' % b, code_bit(dec(enc(val)), z3.IntVal(b)) == bs[b])
    c.ensure('an alphabet character', z3.Or([z3.And(enc(val) >= a, enc(val) <= b) for a, b in ((65, 90), (97, 122), (48, 57), (43, 43), (47, 47))]))


@lemma(J + 'base642bits', 'lemma: bits back to text', 'encoding the six bits of a character gives the character', 't')
def lemma_back(c, t):
    c.pre(z3.Or([z3.And(t >= a, t <= b) for a, b in ((65, 90), (97, 122), (48, 57), (43, 43), (47, 47))]))
    c.ensure('same character', enc(sum((1 << (5 - b)) * code_bit(dec(t), z3.IntVal(b)) for b in range(6))) == t)


@lemma(J + 'bits2bytes', 'lemma: bytes and bits', 'the eight bits of a byte make the byte, and the byte of eight bits has those bits', 't')
def lemma_byte(c, t):
    c.pre(z3.And(t >= 0, t <= 255))
    c.ensure('byte from its bits', sum((1 << b) * byte_bit(t, z3.IntVal(b)) for b in range(8)) == t)
    bs = z3.Ints('b0 b1 b2 b3 b4 b5 b6 b7')
    for b in bs:
        c.pre(z3.And(b >= 0, b <= 1))
    val = sum((1 << b) * bs[b] for b in range(8))
    for b in range(8):
        c.ensure('bit %d of the byte' % b, byte_bit(val, z3.IntVal(b)) == bs[b])


SP = 'haptics::spiht::'


@suite.unit(SP + 'Spiht_Enc::de2bi', 'appends the low bits of a number, least significant first')
def de2bi(c):
    c.build()
    val, n, o = I(c.arg('val')), I(c.arg('length')), c.arg('outstream')
    c.pre(z3.And(val >= 0, n >= 0, n <= 31))
    k0 = I(seq_len(o))
    j = c.forall(0, 31, 'j')

    def shifted(v, k):
        e = v
        for x in range(1, 32):
            e = z3.If(k == x, v / (1 << x), e)
        return e

    def inv(L):
        left, q = I(L('n')), L('outstream')
        return [('bits done', z3.And(left >= 0, left <= n, I(seq_len(q)) == k0 + n - left)), ('rest of the number', I(L('val')) == shifted(val, n - left), [n - left == x for x in range(32)]),
                ('bit j', z3.Implies(j < n - left, I(get(q, k0 + j)) == shifted(val, j) % 2), [z3.Or(j < n - left - 1, j >= n - left)] + [z3.And(j == x, n - left == x + 1) for x in range(31)]),
                ('earlier content stays', z3.Implies(j < k0, I(get(q, j)) == I(get(o, j))))]
    c.loop(0, inv, variant=lambda L: I(L('n')))
    c.call()
    c.no_throw()
    q = c.new('outstream')
    c.ensure('length bits', I(seq_len(q)) == k0 + n)
    c.ensure('bit j', z3.Implies(j < n, I(get(q, k0 + j)) == shifted(val, j) % 2))
    c.ensure('earlier content stays', z3.Implies(j < k0, I(get(q, j)) == I(get(o, j))))


def bi2de_unit(width):
    @suite.unit(SP + 'Spiht_Dec::bi2de', 'the number whose bits these are, at width %d' % width, label='%d bits' % width)
    def check(c):
        bs = z3.Ints(' '.join('b%d' % i for i in range(width)))
        c.build(data=Seq([U(b) for b in bs], T('int', bits=32, signed=True)), length=width)
        for b in bs:
            c.pre(z3.And(b >= 0, b <= 1))
        r = c.call()
        c.no_throw()
        c.ensure('the number', I(r) == sum((1 << i) * b for i, b in enumerate(bs)))


bi2de_unit(4)
bi2de_unit(7)


@lemma(SP + 'Spiht_Enc::de2bi', 'lemma: numbers back from bits', 'the low bits of a number that fits make the number', 'v')
def lemma_int(c, v):
    for w in (4, 7):
        c.ensure('%d bits' % w, z3.Implies(z3.And(v >= 0, v < (1 << w)), sum((1 << k) * ((v / (1 << k)) % 2) for k in range(w)) == v))
