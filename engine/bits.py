"""Call-level contracts of the bit-field primitives (IOBinaryPrimitives).  They are what contracts/p02.py
proves about the real bodies, restated over the abstract bit stream
        S = left-over bits ++ bits of the bytes not yet read
which is kept in file.data as pieces over bits (element type bool) with no left-over bits."""
import re
import z3
from fractions import Fraction
from . import vals as V, solver as S, interp as IP
from .vals import *
from .ctypes_ import T, strip_ref
NS = 'haptics::io::IOBinaryPrimitives::'
CODES = {'h': (8, False), 't': (16, False), 'j': (32, False), 'a': (8, True), 'c': (8, True), 's': (16, True), 'i': (32, True), 'l': (64, True), 'm': (64, False)}
BOOL = T('bool')


def template_args(d, fn):
    """(type code or None, bits) of an instantiation, from its mangled name"""
    m = re.search(r'%d%sI([a-z]?)Lm(\d+)EE' % (len(fn), fn), d.mangled or '')
    if not m:
        raise Unsupported('instantiation of ' + fn)
    return m.group(1) or None, int(m.group(2))


def stream(ps):
    """an input stream that has these bits left"""
    return RecVal('istream', {'data': Seq(list(ps), BOOL), 'ok': True})


def field(v, n):
    """pieces of an n-bit field holding v (reduced to n bits)"""
    return Bits(wrap(v if not isinstance(v, bool) else int(v), n, False), n)


def head(ip, st, ps):
    """first piece made concrete: (piece, rest)"""
    ps = list(ps)
    while True:
        if not ps:
            raise Unsupported('read past the end of the stream')
        p = ps[0]
        if isinstance(p, Cond):
            c = p.c
            if c is True or c is False:
                ps = list(p.a if c else p.b) + ps[1:]
            elif S.entails(st.pc, c):
                ps = list(p.a) + ps[1:]
            elif S.entails(st.pc, bnot(c)):
                ps = list(p.b) + ps[1:]
            else:
                raise NeedSplit(c)
            continue
        if isinstance(p, Loop):
            ne = norm(I(p.lo) < I(p.hi))
            if z3.is_true(B(ne)) or S.entails(st.pc, ne):
                ps = p.at(p.lo) + [Loop(p.var, norm(I(p.lo) + 1), p.hi, p.body)] + ps[1:]
            elif S.entails(st.pc, bnot(ne)):
                ps = ps[1:]
            else:
                raise NeedSplit(ne)
            continue
        if isinstance(p, Seq):
            ps = p.ps + ps[1:]
            continue
        return p, ps[1:]


def take(ip, st, ps, n):
    """value of the next n bits and the bits after them"""
    acc = 0
    need = n
    while need > 0:
        p, rest = head(ip, st, ps)
        if isinstance(p, U):
            b = p.v
            acc = norm(I(acc) * 2 + I(b)) if not (isinstance(b, bool) and acc == 0) else int(b)
            need -= 1
            ps = rest
        elif isinstance(p, Bits):
            if p.n <= need:
                acc = p.v if isinstance(acc, int) and acc == 0 else norm(I(acc) * (1 << p.n) + I(p.v))
                need -= p.n
                ps = rest
            else:
                k = p.n - need
                acc = norm(I(acc) * (1 << need) + I(p.v) / (1 << k)) if not (isinstance(acc, int) and acc == 0) else norm(I(p.v) / (1 << k))
                ps = [Bits(norm(I(p.v) % (1 << k)), k)] + rest
                need = 0
        else:
            raise Unsupported('field read where the stream holds %r' % (p,))
    return acc, ps


def peek_bits(ip, st, file, unused):
    f = ip.read(st, file)
    u = ip.read(st, unused)
    if seq_len(u) != 0:
        raise Unsupported('left-over bits in the abstract stream')
    d = f.get('data')
    if not isinstance(d, Seq) or d.et is None or d.et.k != 'bool':
        raise Unsupported('byte-level stream')
    return d.ps


def quant(n, lo, hi):
    """number of quantisation steps nearest to a value, and back; facts proved as P02 lemmas"""
    lo, hi = limit(lo, hi)
    key = '%d_%s_%s' % (n, str(lo).replace('/', 'd').replace('-', 'm').replace('.', 'p'), str(hi).replace('/', 'd').replace('-', 'm').replace('.', 'p'))
    q = z3.Function('Q!' + key, z3.RealSort(), z3.IntSort())
    dq = z3.Function('DQ!' + key, z3.IntSort(), z3.RealSort())
    lo_, hi_ = R(lo), R(hi)
    M = (1 << n) - 1
    if 'Q!' + key not in F.by_decl:
        F.bounds['Q!' + key] = (0, M)
        step = R((Fraction(hi) - Fraction(lo)) / M)

        def qf(a):
            v = a.arg(0)
            cl = z3.If(v < lo_, lo_, z3.If(v > hi_, hi_, v))
            e = dq(a) - cl
            return z3.And(a >= 0, a <= M, e <= step, -e <= step)

        def df(a):
            return z3.And(a >= lo_, a <= hi_, z3.Implies(z3.And(a.arg(0) >= 0, a.arg(0) <= M), q(a) == a.arg(0)))
        F.add('Q!' + key, qf)
        F.add('DQ!' + key, df)
    return q, dq


def lit(ip, x):
    x = force(x)
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    x = norm(x)
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    raise Unsupported('symbolic quantisation range')


def limit(lo, hi):
    """ranges as written in the source (a decimal literal, not its binary expansion)"""
    return Fraction(lo).limit_denominator(10 ** 7), Fraction(hi).limit_denominator(10 ** 7)


def bv_bits(v, n):
    """the low n bits of a bit vector, most significant first"""
    return [U(norm(z3.Extract(i, i, v) == 1) if i < v.size() else False) for i in reversed(range(n))]


def take_bits(ip, st, ps, n):
    """a field written bit by bit comes back as a bit vector (None if the stream holds something else)"""
    p, r = head(ip, st, ps)
    ps = [p] + r
    if len(ps) < n or not all(isinstance(p, U) for p in ps[:n]) or not any(isz(p.v) for p in ps[:n]):
        return None
    return [B(p.v) for p in ps[:n]], ps[n:]


class WriteNBits:
    """appends the low n bits of the value"""
    def apply(self, ip, st, d, this, args):
        tc, n = template_args(d, 'writeNBits')
        v, out = args
        v = force(v)
        if is_bv(v):
            o = ip.read(st, out)
            ip.write(st, out, Seq(o.ps + bv_bits(v, n), o.et or BOOL))
            return None
        o = ip.read(st, out)
        ip.write(st, out, Seq(o.ps + [field(v, n)], o.et or BOOL))
        return None


class ReadNBits:
    """takes the next n bits as an unsigned field"""
    def apply(self, ip, st, d, this, args):
        tc, n = template_args(d, 'readNBits')
        w, sg = CODES[tc]
        file, unused = args
        ps = peek_bits(ip, st, file, unused)
        bb = take_bits(ip, st, ps, n)
        if bb is not None and n > 1 and not (sg and n == w):
            bs, rest = bb
            ip.write(st, file.field('data'), Seq(rest, BOOL))
            one, zero = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)
            v = z3.Concat(*[z3.If(b, one, zero) for b in bs])
            return z3.ZeroExt(w - n, v) if w > n else v
        v, rest = take(ip, st, ps, n)
        ip.write(st, file.field('data'), Seq(rest, BOOL))
        return wrap(v, w, sg)


class WriteFloat:
    """appends the quantised value"""
    def apply(self, ip, st, d, this, args):
        tc, n = template_args(d, 'writeFloatNBits')
        v, out, lo, hi = args
        q, dq = quant(n, lit(ip, lo), lit(ip, hi))
        o = ip.read(st, out)
        ip.write(st, out, Seq(o.ps + [Bits(q(R(force(v))), n)], o.et or BOOL))
        return None


class ReadFloat:
    """takes n bits and rescales them into the range"""
    def apply(self, ip, st, d, this, args):
        tc, n = template_args(d, 'readFloatNBits')
        if tc is None:
            bs, idx, lo, hi = args
            checked(ip, st, bs, idx)
            v, rest = take_at(ip, st, idx, n)
            ip.write(st, idx, rest)
        else:
            file, lo, hi, unused = args
            v, rest = take(ip, st, peek_bits(ip, st, file, unused), n)
            ip.write(st, file.field('data'), Seq(rest, BOOL))
        q, dq = quant(n, lit(ip, lo), lit(ip, hi))
        return dq(I(v))


def take_at(ip, st, idx, n):
    """take n bits at a cursor"""
    p = ip.read(st, idx)
    if not isinstance(p, PosVal):
        raise Unsupported('bit cursor is not tracked')
    v, rest = take(ip, st, p.rest, n)
    return v, PosVal(p.total, rest)


def checked(ip, st, bs, idx):
    p = ip.read(st, idx)
    b = force(ip.read(st, bs) if isinstance(bs, LRef) else bs)
    if isinstance(p, int) and not isinstance(p, bool) and p >= 0 and isinstance(b, Seq):
        p = PosVal(b.ps, cut(ip, st, b.ps, p)[1] if p else list(b.ps))
        ip.write(st, idx, p)
    if not isinstance(p, PosVal) or not isinstance(b, Seq) or not same_ps(p.total, b.ps):
        raise Unsupported('bit cursor is not on this bit stream')


def cut(ip, st, ps, n):
    """the pieces of the first n bits, and those after them"""
    out = []
    while n > 0:
        p, ps = head(ip, st, ps)
        k = 1 if isinstance(p, U) else p.n if isinstance(p, Bits) else None
        if k is None:
            raise Unsupported('%d bits skipped where the stream holds %r' % (n, p))
        if k > n:
            m = k - n
            out.append(Bits(norm(I(p.v) / (1 << m)), n))
            ps = [Bits(norm(I(p.v) % (1 << m)), m)] + list(ps)
            n = 0
        else:
            out.append(p)
            n -= k
    return out, list(ps)


def pos_add(ip, st, a, b):
    """cursor plus number of bits, or plus a cursor into the bits after it"""
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(b, PosVal) and not isinstance(a, PosVal):
        a, b = b, a
    if not isinstance(a, PosVal):
        return None
    if isinstance(b, PosVal):
        if same_ps(b.total, a.rest):
            return PosVal(a.total, b.rest)
        return None
    if isinstance(b, int) and b > 0:
        return PosVal(a.total, cut(ip, st, a.rest, b)[1])
    return None


def between(ip, st, src, a, b):
    """bits of a stream from one cursor to another (cursors are 0, a number, or tracked)"""
    def at(x, base):
        if isinstance(x, PosVal):
            if not same_ps(x.total, src.ps):
                raise Unsupported('bit cursor is not on this bit stream')
            return x.rest
        if isinstance(x, int):
            return cut(ip, st, src.ps, x)[1]
        return None
    ra = at(a, None)
    if ra is None:
        return None
    if same(b, seq_len(src)):
        return Seq(list(ra), src.et)
    rb = at(b, None)
    if rb is None:
        return None
    out, ps = [], list(ra)
    while not same_ps(ps, rb):
        if plen(ps) == 0:
            return None
        p, ps = head(ip, st, ps)
        out.append(p)
    return Seq(out, src.et)


def num(ip, x):
    x = force(x)
    x = x if isinstance(x, int) else conc(simp(I(x)))
    if not isinstance(x, int):
        raise Unsupported('symbolic field width')
    return x


class ReadUInt:
    def apply(self, ip, st, d, this, args):
        bs, idx, ln = args
        checked(ip, st, bs, idx)
        n = num(ip, ln)
        v, p = take_at(ip, st, idx, n)
        ip.write(st, idx, p)
        return wrap(v, 32, True) if n >= 32 else v


class ReadInt:
    """two's complement field"""
    def apply(self, ip, st, d, this, args):
        bs, idx, ln = args
        checked(ip, st, bs, idx)
        n = num(ip, ln)
        v, p = take_at(ip, st, idx, n)
        ip.write(st, idx, p)
        return wrap(v, n, True)


def char_loop(n, at):
    k = index_var('k')
    return Loop(k, 0, n, [Bits(wrap(at(k), 8, False), 8)])


class WriteString:
    """length byte and that many characters"""
    def apply(self, ip, st, d, this, args):
        s, out = args
        s = force(ip.read(st, s) if isinstance(s, LRef) else s)
        n = seq_len(s)
        m = min(n, 255) if isinstance(n, int) else norm(z3.If(I(n) > 255, z3.IntVal(255), I(n)))
        o = ip.read(st, out)
        if isinstance(m, int):
            ps = [field(seq_get(s, i), 8) for i in range(m)]
        else:
            ps = [char_loop(m, lambda k: seq_get(s, k))]
        ip.write(st, out, Seq(o.ps + [field(m, 8)] + ps, o.et or BOOL))
        return None


def take_chars(ip, st, ps, n, ct):
    """n characters of 8 bits"""
    if isinstance(n, int):
        out = []
        for _ in range(n):
            v, ps = take(ip, st, ps, 8)
            out.append(U(wrap(v, 8, True)))
        return Seq(out, ct), ps
    i = 0
    ps = list(ps)
    while i < len(ps):
        p = ps[i]
        if isinstance(p, Cond):
            h, rest = head_cond(ip, st, p, ps[i + 1:])
            ps = ps[:i] + h + rest
            continue
        break
    p = ps[0] if ps else None
    if not isinstance(p, Loop) or len(p.body) != 1 or not isinstance(p.body[0], Bits) or p.body[0].n != 8:
        raise Unsupported('characters read where the stream holds %r' % (p,))
    ln = norm(I(p.hi) - I(p.lo))
    if not S.entails(st.pc, I(ln) == I(n)):
        raise Unsupported('number of characters differs from what the stream holds')
    k = index_var('k')
    return Seq([Loop(k, 0, n, [U(wrap(p.at(norm(I(p.lo) + k))[0].v, 8, True))])], ct), ps[1:]


def head_cond(ip, st, p, rest):
    c = p.c
    if S.entails(st.pc, c):
        return list(p.a), rest
    if S.entails(st.pc, bnot(c)):
        return list(p.b), rest
    raise NeedSplit(c)


class ReadString:
    def applies(self, ip, d):
        return True

    def apply(self, ip, st, d, this, args):
        ct = T('int', 'char', bits=8, signed=True)
        if len(args) == 2:
            file, unused = args
            n, rest = take(ip, st, peek_bits(ip, st, file, unused), 8)
            n = n if isinstance(n, int) else norm(n)
            s, rest = take_chars(ip, st, rest, n, ct)
            ip.write(st, file.field('data'), Seq(rest, BOOL))
            return s
        bs, idx, ln = args
        checked(ip, st, bs, idx)
        p = ip.read(st, idx)
        s, rest = take_chars(ip, st, p.rest, force(ln), ct)
        ip.write(st, idx, PosVal(p.total, rest))
        return s


class WriteStrBits:
    """appends one bit per '0'/'1' character"""
    def apply(self, ip, st, d, this, args):
        s, out = args
        s = force(ip.read(st, s) if isinstance(s, LRef) else s)
        o = ip.read(st, out)
        ip.write(st, out, Seq(o.ps + bits_of_text(ip, s), o.et or BOOL))
        return None


def bits_of_text(ip, s):
    ps = []
    for p in s.ps:
        if isinstance(p, U):
            ps.append(U(norm(I(p.v) == 49) if not isinstance(p.v, int) else p.v == 49))
        elif isinstance(p, Loop) and p.unit():
            k = index_var('k')
            ps.append(Loop(k, p.lo, p.hi, [U(norm(I(p.at(k)[0].v) == 49))]))
        elif isinstance(p, Bits):
            ps.append(p)      # a bit string rendered as characters keeps its field
        else:
            raise Unsupported('text of bits')
    return ps


PRIMITIVES = {'writeNBits': WriteNBits, 'readNBits': ReadNBits, 'writeFloatNBits': WriteFloat, 'readFloatNBits': ReadFloat, 'writeString': WriteString, 'readString': ReadString, 'readUInt': ReadUInt, 'readInt': ReadInt, 'writeStrBits': WriteStrBits}


def use(suite, names=None):
    for k, c in PRIMITIVES.items():
        if names is None or k in names:
            suite.contracts[NS + k] = c()


def use_in(c, names=None):
    """callees of the function under contract are replaced by these contracts"""
    for k, con in PRIMITIVES.items():
        if names is None or k in names:
            c.ip.contracts[NS + k] = con()
