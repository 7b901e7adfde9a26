"""Writer/reader pairs: a writer's contract is that it appends the encoding of its object, a reader's that it
takes one encoding off the stream and yields `decoded` of the object; a pair unit runs both real bodies in turn
and proves that the reader consumes exactly what the writer appended and that the result is `decoded`."""
import z3
from fractions import Fraction
from engine.vals import *
from engine import vals as V, solver as S, bits as BT
from engine.bits import BOOL
from engine.ctypes_ import T
from engine.spec import get

H = 'haptics::'
TY = 'haptics::types::'


class Decoded:
    """what reading a written object back gives, field by field"""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __call__(self, ip, *args):
        tag = 'dec:' + self.name
        V.ORIGIN_MAKERS[tag] = lambda *a: self(ip, *a)
        r = self.fn(ip, *args)
        return RecVal(r.cls, dict(r.f), origin=(tag, tuple(args)))


def decoded(name):
    return lambda f: Decoded(name, f)


def make(ip, cls, **fields):
    """default-constructed object with these fields"""
    r = ip.default(T('record', TY + cls))
    f = dict(r.f)
    for k, v in fields.items():
        if k not in f:
            raise Unsupported('no field %s in %s' % (k, cls))
        f[k] = v
    return RecVal(r.cls, f)


def mapped(o, path, fn, et=None):
    """element-wise image of a sequence (lazy)"""
    def go():
        s = get(o, *path)
        n = seq_len(s)
        if isinstance(n, int):
            return Seq([U(fn(seq_get(s, i))) for i in range(n)], et or s.et)
        k = index_var('m')
        return Seq([Loop(k, 0, n, [U(Lazy(lambda: fn(seq_get(s, k)), roots=(o, k)))])], et or s.et)
    return Lazy(go, roots=(o,))


# what each encoding may be made of besides an input object: writing a decoded object again appends the same bits
# (the induction hypothesis of the "written again" obligations, whose units prove it for one level)
AGAIN = {}


def ident(v, enc=None):
    """the value is one of the symbolic inputs (so that field-range assumptions hold for it)"""
    v = force(v)
    if not isinstance(v, RecVal) or v.origin is None:
        raise Unsupported('object handed to a writer is not one of the input objects')
    tag, a = v.origin
    if tag.startswith('dec:'):
        if tag[4:] not in AGAIN.get(enc, ()):
            raise Unsupported('%s of a decoded %s' % (enc, tag[4:]))
        return ident(a[0], enc)
    return v


def again(c, qual, args, first, pick=None):
    """writing what was read back appends the same bits"""
    out = c.cell(Seq([], BOOL), T('vector', args=(T('bool'),)))
    c.run(qual, [a if a is not OUT else out for a in args], pick=pick)
    c.no_throw('writing it again never throws')
    c.eq('written again, it gives the same bits', c.read(out), first)


OUT = object()


def enc_len(name, o):
    tag, a = o.origin
    f = 'len!%s!%s' % (name, tag)
    F.bounds[f] = (0, None)
    if f not in F.by_decl:
        F.add(f, lambda t: t >= 0)
    if a:
        return z3.Function(f, *([z3.IntSort()] * (len(a) + 1)))(*[I(x) for x in a]) if all(not isinstance(force(x), (RecVal, OptVal, Seq)) for x in a) else fresh_int(f)
    return z3.Int(f)


class Write:
    """appends the encoding of the object"""

    def __init__(self, name, obj=0, out=1, more=lambda ip, st, args: ()):
        self.name, self.obj, self.out, self.more = name, obj, out, more

    def apply(self, ip, st, d, this, args):
        a = args[self.obj]
        o = ident(ip.read(st, a) if isinstance(a, LRef) else a, self.name)
        out = args[self.out]
        cur = ip.read(st, out)
        ip.write(st, out, Seq(cur.ps + [Enc(self.name, (o,) + tuple(self.more(ip, st, args)), enc_len(self.name, o))], BOOL))
        return True


def take_enc(ip, st, file, unused, name):
    ps = BT.peek_bits(ip, st, file, unused)
    p, rest = BT.head(ip, st, ps)
    if not isinstance(p, Enc) or p.name != name:
        raise Unsupported('%s read where the stream holds %r' % (name, p))
    ip.write(st, file.field('data'), Seq(rest, BOOL))
    return p.args


class Read:
    """takes the encoding of one object off the stream; result(ip, st, args, encoded...) says what it yields"""

    def __init__(self, name, result, file, unused):
        self.name, self.result, self.file, self.unused = name, result, file, unused

    def applies(self, ip, d):
        return len(d.params) > max(self.file, self.unused) and 'istream' in str(d.params[self.file].get('type', {}).get('qualType', ''))

    def apply(self, ip, st, d, this, args):
        enc = take_enc(ip, st, args[self.file], args[self.unused], self.name)
        return self.result(ip, st, args, *enc)


REST = 'rest'


def rest():
    F.bounds['rest#'] = (0, None)
    if 'rest#' not in F.by_decl:
        F.add('rest#', lambda a: a >= 0)
    return Enc('rest', (), z3.Int('rest#'))


def feed(c, ps):
    """input stream and left-over bits for a reader: what was written, then anything"""
    r = rest()
    f = c.cell(BT.stream(list(ps) + [r]))
    return f, c.cell(Seq([], BOOL), T('vector', args=(T('bool'),))), r


def consumed(c, f, u, r):
    c.eq('the reader consumes exactly what was written', get(c.read(f), 'data'), Seq([r], BOOL))
    c.eq('no left-over bits', seq_len(c.read(u)), 0)
