"""P05: the packet checksum accepts intact packets and rejects altered ones."""
from contracts.pairs import *
from engine.spec import Suite, at_index
from engine.vals import *
from engine import spec

IOS = 'haptics::io::IOStream::'
BOOL = T('bool', bits=1)
suite = Suite('P05', ['IOHaptics/src/IOStream.cpp', 'IOHaptics/src/IOBinaryPrimitives.cpp'], harness='crc', stand_in='random packets protected, altered and checked',
              link=['IOHaptics/src/*.cpp'] + spec.MODEL)


def regs(n):
    return [z3.Function('reg%d.%d' % (n, j), z3.IntSort(), z3.BoolSort()) for j in range(n)]


def divide(n):
    @suite.unit(IOS + 'computeCRC', 'the remainder register after all bits and %d zeros' % n, label='%d bits' % n)
    def check(c):
        p = [z3.Bool('p%d' % j) for j in range(n)]
        c.build(polynomial=Seq([U(x) for x in p], BOOL))
        v = c.arg('bitstream')
        L = I(seq_len(v))
        reg = regs(n)

        def b(x):
            return z3.If(x < L, B(get(v, x)), False)
        k = z3.Int('k!q')
        for j in range(n):
            c.pre(reg[j](0) == b(z3.IntVal(j)))
        c.pre(z3.ForAll([k], z3.Implies(k >= 0, z3.And([reg[j](k + 1) == z3.Xor(reg[j + 1](k) if j + 1 < n else b(k + n), z3.And(reg[0](k), p[j])) for j in range(n)])), patterns=[reg[0](k)]))
        m = z3.Int('m!q')

        def inv(W):
            q = W('bitstream')
            ln = I(seq_len(q))
            k = L + n - ln
            return [('length', z3.And(ln >= n, ln <= L + n))] + [('register bit %d' % j, B(get(q, z3.IntVal(j))) == reg[j](k)) for j in range(n)] + [
                ('bits to come', z3.ForAll([m], z3.Implies(z3.And(m >= n, m < ln), B(get(q, m)) == b(m + k))))]
        c.loop(1, inv, variant=lambda W: I(seq_len(W('bitstream'))))
        c.call()
        c.no_throw()
        q = c.new('bitstream')
        c.ensure('%d bits remain' % n, I(seq_len(q)) == n)
        for j in range(n):
            c.ensure('bit %d' % j, B(get(q, z3.IntVal(j))) == reg[j](L))


divide(16)
divide(32)


def lemma(label, claim):
    def deco(f):
        @suite.unit(IOS + 'computeCRC', 'lemma over the contract: ' + claim, label='lemma: ' + label)
        def check(c):
            c.build()
            c.called = True
            c.dead = False
            for n in (16, 32):
                f(c, n)
    return deco


def step(n, r, x, p):
    """one bit through the register, as the contract of computeCRC has it"""
    return [z3.Xor(r[j + 1] if j + 1 < n else x, z3.And(r[0], p[j])) for j in range(n)]


def bools(name, n):
    return [z3.Bool('%s.%d.%d' % (name, n, j)) for j in range(n)]


@lemma('linear', 'the register of altered data is the register of the data xor the register of the alteration')
def linear(c, n):
    r, s, p = bools('r', n), bools('s', n), bools('p', n)
    x, y = z3.Bools('x y')
    a = step(n, [z3.Xor(u, w) for u, w in zip(r, s)], z3.Xor(x, y), p)
    b = [z3.Xor(u, w) for u, w in zip(step(n, r, x, p), step(n, s, y, p))]
    c.ensure('one step, %d bits' % n, z3.And([u == w for u, w in zip(a, b)]))


@lemma('before the burst', 'while only zeros have left the register it holds the next bits of the alteration: nothing for the bits before the burst, then the burst itself')
def before(c, n):
    r, p = bools('r', n), bools('p', n)
    x = z3.Bool('x')
    c.ensure('one step, %d bits' % n, z3.Implies(z3.Not(r[0]), z3.And([u == w for u, w in zip(step(n, r, x, p), r[1:] + [x])])))


@lemma('after the burst', 'a register that is not zero stays so while zeros enter, for a polynomial with a constant term')
def after(c, n):
    r, p = bools('r', n), bools('p', n)
    c.ensure('one step, %d bits' % n, z3.Implies(z3.And(z3.Or(r), p[-1]), z3.Or(step(n, r, False, p))))


class Remainder:
    """contract of computeCRC: the bits become the n register bits; which they are depends on the data and the polynomial only"""

    def __init__(self):
        self.log = []

    def apply(self, ip, st, d, this, args):
        data, poly = force(ip.read(st, args[0])), force(ip.read(st, args[1]))
        ps = [get(poly, k) for k in range(seq_len(poly))]
        n = len(ps)
        k = len(self.log)
        ip.oblige(st, n in (16, 32) and all(isinstance(x, bool) for x in ps), 'the polynomial is a constant of 16 or 32 bits in ' + ip.where())
        bits = [z3.Bool('crc%d.%d' % (k, j)) for j in range(n)]
        self.log.append((data, ps, bits))
        ip.write(st, args[0], Seq([U(x) for x in bits], BOOL))
        return True


@lemma('numbers', 'a bit string read as a number determines its bits (one more bit)')
def numbers(c, n):
    a, b = z3.Ints('a b')
    x, y = z3.Bools('x y')
    w = lambda v, t: 2 * v + z3.If(t, 1, 0)
    c.ensure('one step', (w(a, x) == w(b, y)) == z3.And(a == b, x == y))


class Number:
    """contract of readUInt, as P02 proves it at every width: the number of the bits at the cursor, and the cursor behind them"""

    def __init__(self, c):
        self.c, self.log = c, []

    def apply(self, ip, st, d, this, args):
        s = force(ip.read(st, args[0]) if isinstance(args[0], LRef) else args[0])
        i, n = force(ip.read(st, args[1])), force(args[2])
        if not isinstance(i, int) or not isinstance(n, int):
            raise Unsupported('a read at a symbolic position')
        ip.oblige(st, I(seq_len(s)) >= i + n, 'safety: the bits are there in ' + ip.where())
        ip.write(st, args[1], i + n)
        bits = [B(get(s, i + k)) for k in range(n)]
        if n <= 8:
            return norm(sum((z3.If(b, 1 << (n - 1 - k), 0) for k, b in enumerate(bits)), z3.IntVal(0)))
        x = z3.Int('number%d' % len(self.log))
        lo, hi = (0, (1 << n) - 1) if n < 32 else (-(1 << 31), (1 << 31) - 1)
        F.bounds[str(x)] = (lo, hi)
        st.assume(z3.And(x >= lo, x <= hi))
        for bits0, x0 in self.log:
            if len(bits0) == n:
                st.assume((x == x0) == z3.And([b == b0 for b, b0 in zip(bits, bits0)]))
        self.log.append((bits, x))
        return x


def kind(c, name):
    return c.prog.enums['haptics::io::MIHSPacketType'][name]


def protect(c, n, glob):
    """packets, their checksum payload and the contract object"""
    for path, hi in (('bitstream#', 255), ('bitstream[]#', 1 << 20)):
        F.bounds[path] = (1, hi)
        F.add(path, lambda a, hi=hi: z3.And(a >= 1, a <= hi))
    c.build(packetCRC=Seq([], BOOL), crcLevel=(n - 16) // 16)
    v = c.arg('bitstream')
    m = I(seq_len(v))
    c.pre(z3.And(m >= 2, m <= 255) if glob else m == 1)
    c.rem = Remainder()
    c.ip.contracts[IOS + 'computeCRC'] = c.rem
    c.ip.contracts['haptics::io::IOBinaryPrimitives::readUInt'] = Number(c)
    return v, m


def written(n, glob):
    @suite.unit(IOS + 'writeCRC', 'the payload is the packet count (several packets only) and the checksum of all packets in order; reading it back gives both; the check accepts exactly the data with the same checksum', label='%d bits, %s' % (n, 'several packets' if glob else 'one packet'))
    def check(c):
        v, m = protect(c, n, glob)
        r = c.call()
        c.no_throw()
        c.ensure('success', r)
        c.ensure('one checksum', len(c.rem.log) == 1)
        data, poly, bits = c.rem.log[0]
        constant = poly[-1]
        crc = c.cell(c.ip.default(T('record', 'haptics::io::IOStream::CRC'), c.st), T('record', 'haptics::io::IOStream::CRC'))
        r = c.run(IOS + 'readCRC', [c.cell(c.new('packetCRC')), crc, kind(c, ('GlobalCRC%d' if glob else 'CRC%d') % n)])
        c.ensure('payload read', r)
        o = c.read(crc)
        c.ensure('packet count', I(o.get('nbPackets')) == m)
        c.ip.write(c.st, crc, o.set('nbPackets', norm(m) if glob else 1))
        pk = c.cell(v, T('vector', args=(T('vector', args=(BOOL,)),)))
        r = c.run(IOS + 'checkCRC', [pk, crc])
        c.ensure('checked against one checksum', len(c.rem.log) == 2)
        data2, poly2, bits2 = c.rem.log[1]
        c.eq('the same packets in the same order are checked', data2, data)
        c.ensure('with the same polynomial', poly == poly2)
        c.ensure('accepted exactly when the checksums agree', B(r) == z3.And([x == y for x, y in zip(bits, bits2)]))
        c.ensure('the check is over', I(c.read(crc).get('nbPackets')) == 0)
        c.ensure('the polynomial has a constant term (bursts are detected)', constant)


for n in (16, 32):
    for g in (False, True):
        written(n, g)
