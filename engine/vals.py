"""Values of the symbolic semantics: scalars (python / z3), records, optionals, sequences."""
import z3, itertools
from fractions import Fraction

_cnt = itertools.count()
Str = z3.DeclareSort('Str')
ZTRUE, ZFALSE = z3.BoolVal(True), z3.BoolVal(False)


class Unsupported(Exception):
    """The construct is outside the verifier's fragment: the obligation is out of reach (never a violation)."""


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


# ---------------------------------------------------------------- facts
class Facts:
    def __init__(self):
        self.by_decl = {}     # decl name -> list of fn(app)
        self.bounds = {}      # decl name -> (lo,hi)
        self.pre = {}         # 'Class.field' -> (lo,hi) | callable(term)->Bool
        self.quant = []       # closed formulas always included
        self.memo = {}
        self.strlits = {}
        self.sums = {}
        self.sumdef = {}
        self.guarded = []     # list of (set of decl names that trigger, formula)

    def add(self, name, fn):
        self.by_decl.setdefault(name, []).append(fn)
        self.memo.clear()


F = Facts()


def reset():
    global F
    F.__init__()
    LOOPVARS.clear()


LOOPVARS = []   # current enclosing loop index constants (skolem arguments for fresh symbols)


def isz(x):
    return isinstance(x, z3.ExprRef)


def uid():
    return next(_cnt)


def fresh_int(name, lo=None, hi=None):
    n = '%s!%d' % (name, uid())
    if LOOPVARS:
        f = z3.Function(n, *([z3.IntSort()] * len(LOOPVARS) + [z3.IntSort()]))
        t = f(*LOOPVARS)
    else:
        t = z3.Int(n)
    if lo is not None or hi is not None:
        F.bounds[n] = (lo, hi)
        F.add(n, lambda a: z3.And(*([a >= lo] if lo is not None else []) + ([a <= hi] if hi is not None else []), True))
    return t


def fresh_bool(name):
    n = '%s!%d' % (name, uid())
    if LOOPVARS:
        return z3.Function(n, *([z3.IntSort()] * len(LOOPVARS) + [z3.BoolSort()]))(*LOOPVARS)
    return z3.Bool(n)


def fresh_real(name):
    n = '%s!%d' % (name, uid())
    if LOOPVARS:
        return z3.Function(n, *([z3.IntSort()] * len(LOOPVARS) + [z3.RealSort()]))(*LOOPVARS)
    return z3.Real(n)


def index_var(name):
    return z3.Int('%s!%d' % (name, uid()))


# ---------------------------------------------------------------- scalars
def is_bv(x):
    return isinstance(x, z3.BitVecRef)


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or isinstance(x, z3.ArithRef) and x.is_int()


def is_real(x):
    return isinstance(x, (Fraction, float)) or isinstance(x, z3.ArithRef) and x.is_real()


def is_bool(x):
    return isinstance(x, (bool, z3.BoolRef))


_simp = {}


def simp(t):
    if not isz(t):
        return t
    k = t.get_id()
    r = _simp.get(k)
    if r is not None:
        return r[1]
    s = z3.simplify(t, som=False)
    _simp[k] = (t, s)
    if len(_simp) > 400000:
        _simp.clear()
    return s


def conc(t):
    """Python value of a concrete term, else the term."""
    if isz(t):
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        if z3.is_bv_value(t):
            return t
    return t


def norm(t):
    return conc(simp(t)) if isz(t) else t


def I(x):
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if is_bv(x):
        return z3.BV2Int(x)
    if isinstance(x, Fraction):
        if x.denominator == 1:
            return z3.IntVal(int(x))
        raise Unsupported('real as int')
    if isinstance(x, PosVal):
        return x.term()
    if isinstance(x, z3.ArithRef):
        return x
    raise Unsupported('not an int: %r' % (x,))


def R(x):
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, (int, Fraction)):
        return z3.RealVal(str(x) if isinstance(x, int) else '%d/%d' % (x.numerator, x.denominator))
    if isinstance(x, float):
        return R(Fraction(repr(x)))
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, z3.ArithRef):
        return z3.ToReal(x) if x.is_int() else x
    if is_bv(x):
        return z3.ToReal(z3.BV2Int(x))
    if isinstance(x, PosVal):
        return z3.ToReal(x.term())
    raise Unsupported('not a real: %r' % (x,))


def B(x):
    if isinstance(x, bool):
        return ZTRUE if x else ZFALSE
    if isinstance(x, int):
        return B(x != 0)
    if isinstance(x, z3.BoolRef):
        return x
    if is_bv(x):
        return x != 0
    if isinstance(x, z3.ArithRef):
        return x != 0
    raise Unsupported('not a bool: %r' % (x,))


def bnot(x):
    return (not x) if isinstance(x, bool) else norm(z3.Not(x))


def band(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else norm(z3.And(*r))


def bor(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else norm(z3.Or(*r))


def implies(a, b):
    return bor(bnot(a), b)


_bmemo = None


def bounds(t, depth=0):
    """Interval (lo,hi) known syntactically for an Int term; None = unbounded."""
    global _bmemo
    if isinstance(t, bool):
        return (int(t), int(t))
    if isinstance(t, int):
        return (t, t)
    if isinstance(t, PosVal):
        return (0, None)
    if not isz(t) or not z3.is_expr(t) or not (isinstance(t, z3.ArithRef) and t.is_int()):
        return (None, None)
    if _bmemo is None:
        _bmemo = {}
        try:
            return bounds(t, depth)
        finally:
            _bmemo = None
    k = t.get_id()
    m = _bmemo.get(k)
    if m is not None:
        return m[1]
    r = _bounds(t, depth)
    _bmemo[k] = (t, r)
    return r


def _bounds(t, depth):
    if z3.is_int_value(t):
        v = t.as_long()
        return (v, v)
    if depth > 40:
        return (None, None)
    d = t.decl()
    kd = d.kind()
    if kd == z3.Z3_OP_UNINTERPRETED:
        return F.bounds.get(d.name(), (None, None))
    c = t.children()
    if kd == z3.Z3_OP_ITE:
        a, b = bounds(c[1], depth + 1), bounds(c[2], depth + 1)
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if kd == z3.Z3_OP_ADD:
        lo = hi = 0
        for x in c:
            a = bounds(x, depth + 1)
            lo = None if lo is None or a[0] is None else lo + a[0]
            hi = None if hi is None or a[1] is None else hi + a[1]
        return (lo, hi)
    if kd == z3.Z3_OP_SUB and len(c) == 2:
        a, b = bounds(c[0], depth + 1), bounds(c[1], depth + 1)
        return (None if a[0] is None or b[1] is None else a[0] - b[1], None if a[1] is None or b[0] is None else a[1] - b[0])
    if kd == z3.Z3_OP_MUL and len(c) == 2:
        a, b = bounds(c[0], depth + 1), bounds(c[1], depth + 1)
        if None not in a and None not in b:
            ps = [x * y for x in a for y in b]
            return (min(ps), max(ps))
        if a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
            return (a[0] * b[0], None)
        return (None, None)
    if kd == z3.Z3_OP_MOD and z3.is_int_value(c[1]) and c[1].as_long() > 0:
        return (0, c[1].as_long() - 1)
    if kd == z3.Z3_OP_IDIV and z3.is_int_value(c[1]) and c[1].as_long() > 0:
        a = bounds(c[0], depth + 1)
        m = c[1].as_long()
        return (None if a[0] is None else a[0] // m, None if a[1] is None else a[1] // m)
    if kd == z3.Z3_OP_UMINUS:
        a = bounds(c[0], depth + 1)
        return (None if a[1] is None else -a[1], None if a[0] is None else -a[0])
    if kd == z3.Z3_OP_BV2INT:
        return (0, 2 ** c[0].size() - 1)
    return (None, None)


def unmod(v, m):
    """drop reductions mod m inside a sum that is itself to be reduced mod m"""
    k = v.decl().kind()
    if k == z3.Z3_OP_MOD and z3.is_int_value(v.arg(1)) and v.arg(1).as_long() == m:
        return v.arg(0)
    if k == z3.Z3_OP_ADD and any(a.decl().kind() == z3.Z3_OP_MOD for a in v.children()):
        return norm(sum((unmod(a, m) for a in v.children()), z3.IntVal(0)))
    return v


def wrap(v, bits, signed):
    if isinstance(v, PosVal):
        return v if bits >= 32 else wrap(v.term(), bits, signed)
    if isinstance(v, bool):
        v = int(v)
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if isinstance(v, int):
        v &= (1 << bits) - 1
        if signed and v >= 1 << (bits - 1):
            v -= 1 << bits
        return v
    if isinstance(v, z3.BoolRef):
        return I(v)
    if is_bv(v):
        raise Unsupported('wrap bv')
    b = bounds(v)
    if b[0] is not None and b[1] is not None and b[0] >= lo and b[1] <= hi:
        return v
    if not signed:
        v = unmod(v, 1 << bits)
        b = bounds(v)
        if b[0] is not None and b[1] is not None and b[0] // (1 << bits) == b[1] // (1 << bits):
            return norm(v - (b[0] // (1 << bits)) * (1 << bits))
        return v % (1 << bits)
    h = 1 << (bits - 1)
    return (v + h) % (1 << bits) - h


def bv_of(v, w):
    """Int-valued scalar -> bit-vector of width w (two's complement)."""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if is_bv(v):
        raise Unsupported('bv_of bv: use resize')
    if isinstance(v, PosVal):
        v = v.term()
    k = v.decl().kind()
    if z3.is_int_value(v):
        return z3.BitVecVal(v.as_long(), w)
    if k == z3.Z3_OP_ITE:
        a, b, c = v.children()
        return z3.If(a, bv_of(b, w), bv_of(c, w))
    if k == z3.Z3_OP_BV2INT:
        x = v.children()[0]
        return resize(x, w, False)
    if k == z3.Z3_OP_MOD and z3.is_int_value(v.children()[1]) and v.children()[1].as_long() == 1 << w:
        return bv_of(v.children()[0], w)
    return z3.Int2BV(v, w)


def resize(x, w, signed):
    s = x.size()
    if s == w:
        return x
    if s > w:
        return z3.Extract(w - 1, 0, x)
    return z3.SignExt(w - s, x) if signed else z3.ZeroExt(w - s, x)


# ---------------------------------------------------------------- structured values
class Lazy:
    __slots__ = ('fn', 'roots', 'val', 'done', 'smap')

    def __init__(self, fn, roots=None, smap=None):
        self.fn = fn; self.roots = roots; self.done = False; self.val = None; self.smap = smap

    def force(self):
        if not self.done:
            self.val = force(self.fn())
            self.done = True
            self.fn = None
        return self.val


def force(v):
    while isinstance(v, Lazy):
        v = v.force()
    return v


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Opaque:
    def __init__(self, tag, args=()):
        self.tag = tag; self.args = args

    def __repr__(self):
        return 'Opaque(%s)' % self.tag


class RecVal:
    __slots__ = ('cls', 'f', 'origin', 'ite')

    def __init__(self, cls, f, origin=None, ite=None):
        self.cls = cls; self.f = f; self.origin = origin; self.ite = ite

    def get(self, n):
        if n not in self.f:
            raise Unsupported('no field %s in %s' % (n, self.cls))
        v = self.f[n]
        if isinstance(v, Lazy):
            v = v.force()
            self.f[n] = v
        return v

    def set(self, n, v):
        d = dict(self.f)
        d[n] = v
        return RecVal(self.cls, d)

    def __repr__(self):
        if self.origin:
            return '%s<%s%r>' % (self.cls.split('::')[-1], self.origin[0], list(self.origin[1]))
        return '%s{%s}' % (self.cls.split('::')[-1], ', '.join('%s=%r' % (k, '..' if isinstance(v, Lazy) and not v.done else force(v)) for k, v in self.f.items()))


class OptVal:
    __slots__ = ('has', '_val')

    def __init__(self, has, val):
        self.has = has; self._val = val

    @property
    def val(self):
        if isinstance(self._val, Lazy):
            self._val = self._val.force()
        return self._val

    def __repr__(self):
        if self.has is False:
            return 'nullopt'
        return 'Opt(%s,%r)' % (self.has, '..' if isinstance(self._val, Lazy) and not self._val.done else self.val)


NULLOPT = OptVal(False, UNDEF)


class PtrVal:
    """alternatives: list of (cond, LRef|None); conditions are disjoint and exhaustive"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Ptr%r' % (self.alts,)


class IterVal:
    __slots__ = ('ref', 'pos', 'rev')

    def __init__(self, ref, pos, rev=False):
        self.ref = ref; self.pos = pos; self.rev = rev

    def __repr__(self):
        return 'Iter(%r@%r%s)' % (self.ref, self.pos, 'r' if self.rev else '')


class Closure:
    __slots__ = ('node', 'caps', 'this', 'tu')

    def __init__(self, node, caps, this, tu):
        self.node = node; self.caps = caps; self.this = this; self.tu = tu


class MapVal:
    """constant associative container"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items


class LRef:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell = cell; self.path = path

    def field(self, n):
        return LRef(self.cell, self.path + (('f', n),))

    def idx(self, i):
        return LRef(self.cell, self.path + (('i', i),))

    def opt(self):
        return LRef(self.cell, self.path + (('o',),))

    def __repr__(self):
        return '&%d%s' % (self.cell, ''.join('.' + str(p[1]) if p[0] == 'f' else '[%s]' % (p[1],) if p[0] == 'i' else '?' for p in self.path))


# ---------------------------------------------------------------- sequences
class U:
    __slots__ = ('_v',)

    def __init__(self, v):
        self._v = v

    @property
    def v(self):
        if isinstance(self._v, Lazy):
            self._v = self._v.force()
        return self._v

    def __repr__(self):
        return 'U(%r)' % ('..' if isinstance(self._v, Lazy) and not self._v.done else self.v,)


class Bits:
    """n bits, most significant first, of the unsigned value v in [0,2^n)"""
    __slots__ = ('v', 'n')

    def __init__(self, v, n):
        self.v = v; self.n = n

    def __repr__(self):
        return 'Bits(%s:%d)' % (self.v, self.n)


class Loop:
    """concatenation of body[var:=k] for k = lo..hi-1"""
    __slots__ = ('var', 'lo', 'hi', 'body')

    def __init__(self, var, lo, hi, body):
        self.var = var; self.lo = lo; self.hi = hi; self.body = body

    def unit(self):
        return len(self.body) == 1 and isinstance(self.body[0], U)

    def at(self, k):
        return [subst_piece(p, [(self.var, I(k))]) for p in self.body]

    def __repr__(self):
        return 'Loop(%s in %s..%s: %r)' % (self.var, self.lo, self.hi, self.body)


class Cond:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c; self.a = a; self.b = b

    def __repr__(self):
        return 'Cond(%s ? %r : %r)' % (self.c, self.a, self.b)


class Enc:
    """opaque image of a value under a writer contract"""
    __slots__ = ('name', 'args', 'len')

    def __init__(self, name, args, ln):
        self.name = name; self.args = args; self.len = ln

    def __repr__(self):
        return 'Enc:%s%r' % (self.name, list(self.args))


class Seq:
    __slots__ = ('ps', 'et', 'strterm', 'lenmemo', 'upd')

    def __init__(self, ps, et=None, strterm=None):
        self.ps = ps; self.et = et; self.strterm = strterm; self.lenmemo = None; self.upd = None

    def __repr__(self):
        s = self.pystr()
        if s is not None and self.et is not None and self.et.k == 'int':
            return 'S%r' % s
        return 'Seq[%s]' % ', '.join(map(repr, self.ps))

    def pystr(self):
        if all(isinstance(p, U) and not isinstance(p._v, Lazy) and isinstance(p._v, int) and not isinstance(p._v, bool) for p in self.ps):
            return ''.join(chr(p._v & 255) for p in self.ps)
        return None


class PosVal:
    """int-like cursor into a bit vector: everything before `rest` has been consumed"""
    __slots__ = ('total', 'rest')

    def __init__(self, total, rest):
        self.total = total; self.rest = rest

    def term(self):
        return I(norm(I(plen(self.total)) - I(plen(self.rest))))

    def __repr__(self):
        return 'Pos(rest=%r)' % (self.rest,)


# ---------------------------------------------------------------- lengths
def consts_of(t, acc=None):
    """uninterpreted 0-ary Int constants occurring in t"""
    acc = {} if acc is None else acc
    seen = set(); st = [t]
    while st:
        x = st.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc[k] = x
        st.extend(x.children())
    return acc


def sum_term(var, lo, hi, d):
    """sum of d over var in [lo,hi) as an interned uninterpreted function of its free constants"""
    d = norm(d)
    if not isz(d) or var.get_id() not in consts_of(d):
        return norm(I(d) * (I(hi) - I(lo)))
    cs = [c for k, c in sorted(consts_of(d).items(), key=lambda kc: kc[1].decl().name()) if k != var.get_id() and c.sort() == z3.IntSort() and '!' in c.decl().name()]
    canon = [(var, z3.Int('_v'))] + [(c, z3.Int('_a%d' % i)) for i, c in enumerate(cs)]
    body = z3.substitute(d, *canon)
    key = body.sexpr()
    if key not in F.sums:
        nm = 'Sum!%d' % uid()
        f = z3.Function(nm, *([z3.IntSort()] * (len(cs) + 2) + [z3.IntSort()]))
        F.sums[key] = (f, body)
        F.bounds[nm] = (0, None)
        pv = [z3.Int('_a%d' % i) for i in range(len(cs))]

        def fact(app, f=f, body=body, pv=pv):
            a = app.children()
            lo_, hi_ = a[-2], a[-1]
            def dd(ix):
                return z3.substitute(body, (z3.Int('_v'), ix), *zip(pv, a[:-2]))
            return z3.And(app >= 0, z3.Implies(lo_ >= hi_, app == 0),
                          z3.Implies(lo_ < hi_, app == f(*a[:-1], hi_ - 1) + dd(hi_ - 1)),
                          z3.Implies(lo_ < hi_, app == f(*a[:-2], lo_ + 1, hi_) + dd(lo_)))
        F.add(nm, fact)
    f, body = F.sums[key]
    return f(*cs, I(lo), I(hi))


def piece_len(p):
    if isinstance(p, U):
        return 1
    if isinstance(p, Bits):
        return p.n
    if isinstance(p, Loop):
        return sum_term(p.var, p.lo, p.hi, plen(p.body))
    if isinstance(p, Cond):
        a, b = plen(p.a), plen(p.b)
        if isinstance(a, int) and a == b:
            return a
        return norm(z3.If(B(p.c), I(a), I(b)))
    if isinstance(p, Enc):
        return p.len
    raise Unsupported('len of %r' % p)


def plen(ps):
    n = 0
    t = []
    for p in ps:
        l = piece_len(p)
        if isinstance(l, int):
            n += l
        else:
            t.append(I(l))
    if not t:
        return n
    if n:
        t.append(z3.IntVal(n))
    return norm(z3.Sum(t) if len(t) > 1 else t[0])


def seq_len(s):
    if s.lenmemo is None:
        s.lenmemo = plen(s.ps)
    return s.lenmemo


# ---------------------------------------------------------------- substitution / occurrence
def t_mentions(t, ids):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        k = x.get_id()
        if k in ids:
            return True
        if k in seen:
            continue
        seen.add(k)
        st.extend(x.children())
    return False


def mentions(v, ids, seen=None):
    """does value v possibly depend on one of the constants (by ast id)?"""
    if seen is None:
        seen = set()
    if v is None or isinstance(v, (int, Fraction, str, Undef, float)):
        return False
    if isz(v):
        return t_mentions(v, ids)
    if id(v) in seen:
        return False
    seen.add(id(v))
    if isinstance(v, Lazy):
        if v.done:
            return mentions(v.val, ids, seen)
        if v.smap is not None:
            base, m = v.smap
            dom = {c.get_id() for c, _ in m}
            rest = ids - dom
            if rest and mentions(base, rest, set()):
                return True
            return any(mentions(base, {c.get_id()}, set()) and t_mentions(t, ids) for c, t in m)
        if v.roots is None:
            return mentions(v.force(), ids, seen)
        return any(mentions(r, ids, seen) for r in v.roots)
    if isinstance(v, RecVal):
        if v.origin is not None:
            return any(mentions(a, ids, seen) for a in v.origin[1])
        return any(mentions(x, ids, seen) for x in v.f.values())
    if isinstance(v, OptVal):
        return mentions(v.has, ids, seen) or (v.has is not False and mentions(v._val, ids, seen))
    if isinstance(v, Seq):
        return any(mentions(p, ids, seen) for p in v.ps) or (v.strterm is not None and mentions(v.strterm, ids, seen))
    if isinstance(v, (list, tuple)):
        return any(mentions(p, ids, seen) for p in v)
    if isinstance(v, U):
        return mentions(v._v, ids, seen)
    if isinstance(v, Bits):
        return mentions(v.v, ids, seen)
    if isinstance(v, Loop):
        return mentions(v.lo, ids, seen) or mentions(v.hi, ids, seen) or any(mentions(p, ids, seen) for p in v.body)
    if isinstance(v, Cond):
        return mentions(v.c, ids, seen) or mentions(v.a, ids, seen) or mentions(v.b, ids, seen)
    if isinstance(v, Enc):
        return any(mentions(a, ids, seen) for a in v.args) or mentions(v.len, ids, seen)
    if isinstance(v, PosVal):
        return mentions(v.rest, ids, seen) or mentions(v.total, ids, seen)
    if isinstance(v, IterVal):
        return mentions(v.pos, ids, seen) or mentions(v.ref, ids, seen)
    if isinstance(v, LRef):
        return any(p[0] == 'i' and mentions(p[1], ids, seen) for p in v.path)
    if isinstance(v, PtrVal):
        return any(mentions(c, ids, seen) or (r is not None and mentions(r, ids, seen)) for c, r in v.alts)
    if isinstance(v, Closure):
        return any(mentions(x, ids, seen) for x in v.caps.values())
    if isinstance(v, (Opaque,)):
        return any(mentions(x, ids, seen) for x in v.args)
    if isinstance(v, MapVal):
        return any(mentions(a, ids, seen) or mentions(b, ids, seen) for a, b in v.items)
    return True


def tsub(t, m):
    r = z3.substitute(t, *m)
    return conc(simp(r)) if r.get_id() != t.get_id() else t


ORIGIN_MAKERS = {}   # tag -> fn(args) -> RecVal, to rebuild origin'd records under substitution


def subst(v, m):
    if v is None or isinstance(v, (int, Fraction, str, Undef, float)):
        return v
    if isz(v):
        return tsub(v, m)
    if isinstance(v, Lazy):
        if v.done:
            return subst(v.val, m)
        return Lazy(lambda: subst(v.force(), m), smap=(v, m))
    if isinstance(v, RecVal):
        if v.origin is not None and v.origin[0] in ORIGIN_MAKERS:
            if not mentions(v, {c.get_id() for c, _ in m}):
                return v
            return ORIGIN_MAKERS[v.origin[0]](*[subst(a, m) for a in v.origin[1]])
        if v.ite is not None:
            c, a, b = v.ite
            if mentions(v, {c_.get_id() for c_, _ in m}):
                return vite(subst(c, m), subst(a, m), subst(b, m))
            return v
        return RecVal(v.cls, {n: _lz(x, m) for n, x in v.f.items()})
    if isinstance(v, OptVal):
        return OptVal(subst(v.has, m), _lz(v._val, m))
    if isinstance(v, Seq):
        st = subst(v.strterm, m) if v.strterm is not None else None
        return Seq([subst_piece(p, m) for p in v.ps], v.et, st)
    if isinstance(v, list):
        return [subst_piece(p, m) if isinstance(p, (U, Bits, Loop, Cond, Enc)) else subst(p, m) for p in v]
    if isinstance(v, tuple):
        return tuple(subst(p, m) for p in v)
    if isinstance(v, PosVal):
        return PosVal(subst(v.total, m), subst(v.rest, m))
    if isinstance(v, IterVal):
        return IterVal(subst(v.ref, m), subst(v.pos, m), v.rev)
    if isinstance(v, LRef):
        return LRef(v.cell, tuple(('i', subst(p[1], m)) if p[0] == 'i' else p for p in v.path))
    if isinstance(v, PtrVal):
        return PtrVal([(subst(c, m), subst(r, m)) for c, r in v.alts])
    if isinstance(v, Opaque):
        return Opaque(v.tag, tuple(subst(a, m) for a in v.args))
    if isinstance(v, MapVal):
        return MapVal([(subst(a, m), subst(b, m)) for a, b in v.items])
    if isinstance(v, (U, Bits, Loop, Cond, Enc)):
        return subst_piece(v, m)
    if isinstance(v, Closure):
        return Closure(v.node, {k: subst(x, m) if not isinstance(x, LRef) else x for k, x in v.caps.items()}, v.this, v.tu)
    raise Unsupported('subst %r' % type(v))


def _lz(x, m):
    if isinstance(x, (int, Fraction, Undef, str)):
        return x
    if isinstance(x, Lazy) and x.done:
        x = x.val
    if isz(x):
        return tsub(x, m)
    return Lazy(lambda: subst(force(x), m), smap=(x, m))


def subst_piece(p, m):
    if isinstance(p, U):
        return U(_lz(p._v, m))
    if isinstance(p, Bits):
        return Bits(subst(p.v, m), p.n)
    if isinstance(p, Loop):
        lo, hi = subst(p.lo, m), subst(p.hi, m)
        var, body = p.var, p.body
        m2 = [(c, t) for c, t in m if c.get_id() != var.get_id()]
        if not m2 or not any(mentions(q, {c.get_id() for c, _ in m2}) for q in body):
            return Loop(var, lo, hi, body)
        if any(t_mentions(t, {var.get_id()}) for _, t in m2):
            nv = index_var('r')
            body = [subst_piece(q, [(var, nv)]) for q in body]
            var = nv
        return Loop(var, lo, hi, [subst_piece(q, m2) for q in body])
    if isinstance(p, Cond):
        c = subst(p.c, m)
        return Cond(c, [subst_piece(q, m) for q in p.a], [subst_piece(q, m) for q in p.b])
    if isinstance(p, Enc):
        return Enc(p.name, tuple(subst(a, m) for a in p.args), subst(p.len, m))
    raise Unsupported('subst piece %r' % p)


# ---------------------------------------------------------------- structural sameness
def same(a, b, d=0):
    if a is b:
        return True
    if isinstance(a, Lazy):
        if isinstance(b, Lazy) and a.smap is not None and b.smap is not None and not (a.done and b.done):
            if a.smap[0] is b.smap[0] and len(a.smap[1]) == len(b.smap[1]) and all(x[0].eq(y[0]) and x[1].eq(y[1]) for x, y in zip(a.smap[1], b.smap[1])):
                return True
        if d > 6:
            return False
        a = a.force()
    if isinstance(b, Lazy):
        if d > 6:
            return False
        b = b.force()
    if a is b:
        return True
    if isz(a) or isz(b):
        return isz(a) and isz(b) and a.sort() == b.sort() and (a.eq(b) or same_term(simp(a), simp(b)))
    if type(a) is not type(b):
        return False
    if isinstance(a, (bool, int, Fraction, str)):
        return a == b
    if d > 8:
        return False
    if isinstance(a, RecVal):
        if a.origin is not None and b.origin is not None and a.origin[0] == b.origin[0]:
            return all(same(x, y, d + 1) for x, y in zip(a.origin[1], b.origin[1]))
        return a.cls == b.cls and a.f.keys() == b.f.keys() and all(same(a.f[n], b.f[n], d + 1) for n in a.f)
    if isinstance(a, OptVal):
        return same(a.has, b.has) and (a.has is False or same(a._val, b._val, d + 1))
    if isinstance(a, Seq):
        if a.strterm is not None and b.strterm is not None:
            return same(a.strterm, b.strterm)
        return same_ps(a.ps, b.ps, d)
    if isinstance(a, (U, Bits, Loop, Cond, Enc)):
        return same_piece(a, b, d)
    if isinstance(a, PosVal):
        return same_ps(a.rest, b.rest, d) and same_ps(a.total, b.total, d)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, d + 1) for x, y in zip(a, b))
    if isinstance(a, LRef):
        return a.cell == b.cell and len(a.path) == len(b.path) and all(x[0] == y[0] and (len(x) < 2 or same(x[1], y[1])) for x, y in zip(a.path, b.path))
    if isinstance(a, IterVal):
        return a.rev == b.rev and same(a.ref, b.ref) and same(a.pos, b.pos)
    if isinstance(a, PtrVal):
        return len(a.alts) == len(b.alts) and all(same(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.alts, b.alts))
    if isinstance(a, Opaque):
        return a.tag == b.tag and same(a.args, b.args)
    if isinstance(a, MapVal):
        return len(a.items) == len(b.items) and all(same(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.items, b.items))
    if a is None:
        return True
    return False


COMMUTE = {z3.Z3_OP_OR, z3.Z3_OP_AND, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_XOR, z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR}


def same_term(a, b):
    """equal up to the order of commutative arguments (the simplifier orders them by term age)"""
    if a.eq(b):
        return True
    if not z3.is_app(a) or not z3.is_app(b):
        return False
    n = a.num_args()
    if n == 0 or b.num_args() != n or not a.decl().eq(b.decl()):
        return False
    k = (a.get_id(), b.get_id())
    r = _sameterm.get(k)
    if r is None:
        if a.decl().kind() in COMMUTE:
            left = list(b.children())
            ok = True
            for x in a.children():
                i = next((i for i, y in enumerate(left) if same_term(x, y)), None)
                if i is None:
                    ok = False
                    break
                left.pop(i)
        else:
            ok = all(same_term(x, y) for x, y in zip(a.children(), b.children()))
        _sameterm[k] = r = (ok, a, b)
    return r[0]


_sameterm = {}


def same_ps(a, b, d=0):
    return a is b or len(a) == len(b) and all(same_piece(x, y, d) for x, y in zip(a, b))


def same_piece(x, y, d=0):
    if x is y:
        return True
    if type(x) is not type(y):
        return False
    if isinstance(x, U):
        return same(x._v, y._v, d + 1)
    if isinstance(x, Bits):
        return x.n == y.n and same(x.v, y.v)
    if isinstance(x, Loop):
        if not (same(x.lo, y.lo) and same(x.hi, y.hi)):
            return False
        if x.body is y.body and x.var.eq(y.var):
            return True
        if d > 6:
            return False
        nb = y.body if x.var.eq(y.var) else [subst_piece(q, [(y.var, x.var)]) for q in y.body]
        return same_ps(x.body, nb, d + 1)
    if isinstance(x, Cond):
        return same(x.c, y.c) and same_ps(x.a, y.a, d) and same_ps(x.b, y.b, d)
    if isinstance(x, Enc):
        return x.name == y.name and same(x.args, y.args, d + 1)
    return False


# ---------------------------------------------------------------- merging
def vite(c, a, b):
    """value 'c ? a : b'"""
    if c is True:
        return force(a)
    if c is False:
        return force(b)
    a, b = force(a), force(b)
    if a is b:
        return a
    if isinstance(a, Undef):
        return b
    if isinstance(b, Undef):
        return a
    if a is None:
        return b
    if b is None:
        return a
    if isinstance(a, PosVal) and isinstance(b, PosVal):
        if same_ps(a.rest, b.rest) and same_ps(a.total, b.total):
            return a
        if same_ps(a.total, b.total):
            return PosVal(a.total, merge_rest(c, a.rest, b.rest))
        a, b = a.term(), b.term()
    if isinstance(a, PosVal):
        a = a.term()
    if isinstance(b, PosVal):
        b = b.term()
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        if isinstance(a, bool) and isinstance(b, bool):
            return a if a == b else (c if a else bnot(c))
        return norm(z3.If(c, B(a), B(b)))
    if is_bv(a) or is_bv(b):
        w = a.size() if is_bv(a) else b.size()
        x = a if is_bv(a) else bv_of(a, w)
        y = b if is_bv(b) else bv_of(b, w)
        if x.size() != y.size():
            raise Unsupported('bv widths')
        return simp(z3.If(c, x, y))
    if isinstance(a, (int, bool, z3.ArithRef, z3.BoolRef, Fraction)) and isinstance(b, (int, bool, z3.ArithRef, z3.BoolRef, Fraction)):
        if not isz(a) and not isz(b) and a == b:
            return a
        if is_real(a) or is_real(b):
            return norm(z3.If(c, R(a), R(b)))
        return norm(z3.If(c, I(a), I(b)))
    if same(a, b, 5):
        return a
    if type(a) is not type(b):
        raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))
    if isz(a):
        return norm(z3.If(c, a, b))
    if isinstance(a, RecVal):
        if a.cls != b.cls:
            raise Unsupported('merge of records %s/%s' % (a.cls, b.cls))
        if a.origin is not None and b.origin is not None and a.origin[0] == b.origin[0] and a.origin[0] in ORIGIN_MAKERS \
                and all(is_int(x) and is_int(y) for x, y in zip(a.origin[1], b.origin[1])):
            return ORIGIN_MAKERS[a.origin[0]](*[vite(c, x, y) for x, y in zip(a.origin[1], b.origin[1])])
        d = {}
        for n in a.f:
            x, y = a.f[n], b.f.get(n, UNDEF)
            if x is y:
                d[n] = x
            else:
                d[n] = Lazy((lambda x=x, y=y: vite(c, x, y)), roots=(c, x, y))
        return RecVal(a.cls, d, ite=(c, a, b) if isz(c) else None)
    if isinstance(a, OptVal):
        if a.has is False and b.has is False:
            return NULLOPT
        if a.has is False:
            return OptVal(band(bnot(c), b.has), b._val)
        if b.has is False:
            return OptVal(band(c, a.has), a._val)
        h = vite(c, a.has, b.has)
        x, y = a._val, b._val
        return OptVal(h, Lazy((lambda: vite(c, x, y)), roots=(c, x, y)))
    if isinstance(a, Seq):
        return merge_seq(c, a, b)
    if isinstance(a, IterVal):
        if a.rev != b.rev or not same(a.ref, b.ref):
            raise Unsupported('merge iterators over different containers')
        return IterVal(a.ref, vite(c, a.pos, b.pos), a.rev)
    if isinstance(a, PtrVal):
        return PtrVal([(band(c, k), r) for k, r in a.alts] + [(band(bnot(c), k), r) for k, r in b.alts])
    if isinstance(a, Opaque):
        return Opaque('ite', (c, a, b))
    if isinstance(a, Closure):
        if a.node is b.node:
            return a
    if isinstance(a, LRef):
        if same(a, b):
            return a
    raise Unsupported('merge %s' % type(a).__name__)


def merge_rest(c, a, b):
    """merge of two remaining-stream piece lists: factor the common suffix"""
    i = 0
    while i < len(a) and i < len(b) and same_piece(a[len(a) - 1 - i], b[len(b) - 1 - i]):
        i += 1
    sa, sb = a[:len(a) - i], b[:len(b) - i]
    suf = a[len(a) - i:] if i else []
    if not sa and not sb:
        return suf
    return [Cond(c, sa, sb)] + suf


def simple_unit(ps):
    return all(isinstance(p, U) or (isinstance(p, Loop) and p.unit()) for p in ps)


def merge_seq(c, a, b):
    et = a.et or b.et
    # common prefix
    i = 0
    while i < len(a.ps) and i < len(b.ps) and same_piece(a.ps[i], b.ps[i]):
        i += 1
    pa, pb = a.ps[i:], b.ps[i:]
    pre = a.ps[:i]
    st = None
    if a.strterm is not None and b.strterm is not None:
        st = norm(z3.If(c, a.strterm, b.strterm))
    elif et is not None and et.k == 'int' and et.bits == 8:
        ta, tb = str_term(a), str_term(b)
        if ta is not None and tb is not None:
            st = norm(z3.If(c, ta, tb))
    if not pa and not pb:
        return Seq(pre, et, st)
    la, lb = plen(pa), plen(pb)
    if same(la, lb):
        if all(isinstance(p, U) for p in pa + pb):
            return Seq(pre + [U(Lazy((lambda x=x, y=y: vite(c, x.v, y.v)), roots=(c, x._v, y._v))) for x, y in zip(pa, pb)], et, st)
        if simple_unit(pa) and simple_unit(pb) and st is None:
            v = index_var('m')
            return Seq(pre + [Loop(v, 0, la, [U(Lazy((lambda: vite(c, ps_get(pa, v), ps_get(pb, v))), roots=(c, pa, pb, v)))])], et, st)
    # common suffix
    k = 0
    while k < len(pa) and k < len(pb) and same_piece(pa[-1 - k], pb[-1 - k]):
        k += 1
    suf = pa[len(pa) - k:] if k else []
    pa, pb = pa[:len(pa) - k], pb[:len(pb) - k]
    return Seq(pre + [Cond(c, pa, pb)] + suf, et, st)


# ---------------------------------------------------------------- indexing
def ps_get(ps, i):
    """element at index i of a unit-structured piece list (as a merged value)"""
    off = 0
    if len(ps) == 1 and isinstance(ps[0], Loop) and ps[0].unit():
        p = ps[0]
        k = norm(I(i) + I(p.lo))
        return subst(p.body[0].v, [(p.var, I(k))])
    alts = []   # (upper bound exclusive, thunk)
    for p in ps:
        l = piece_len(p)
        end = norm(I(off) + I(l)) if (isz(off) or isz(l)) else off + l
        if isinstance(i, int) and isinstance(off, int) and isinstance(end, int):
            if i >= end:
                off = end
                continue
            return piece_get(p, i - off)
        alts.append((end, p, off))
        off = end
    if not alts:
        raise Unsupported('index out of a concrete sequence')
    r = None
    for end, p, o in reversed(alts):
        def th(p=p, o=o):
            return piece_get(p, norm(I(i) - I(o)))
        if r is None:
            r = th()
        else:
            cnd = norm(I(i) < I(end))
            if cnd is True:
                r = th()
            elif cnd is False:
                pass
            else:
                if isinstance(p, Cond) and plen(p.a) == 0 and plen(p.b) == 0:
                    continue
                r = vite(cnd, th(), r)
    return r


def piece_get(p, j):
    if isinstance(p, U):
        return p.v
    if isinstance(p, Loop) and p.unit():
        return subst(p.body[0].v, [(p.var, I(norm(I(j) + I(p.lo))))])
    if isinstance(p, Loop):
        n = plen(p.body)
        if isinstance(n, int) and n > 0:
            q, r = norm(I(j) / n), norm(I(j) % n)
            return ps_get(p.at(q), r)
    if isinstance(p, Cond):
        if not p.b:
            return ps_get(p.a, j)
        if not p.a:
            return ps_get(p.b, j)
        return vite(p.c, ps_get(p.a, j), ps_get(p.b, j))
    if isinstance(p, Bits):
        v = p.v
        if isinstance(j, int):
            if isinstance(v, int):
                return bool((v >> (p.n - 1 - j)) & 1)
            if is_bv(v):
                return norm(z3.Extract(p.n - 1 - j, p.n - 1 - j, v) == 1)
            return norm((v / (1 << (p.n - 1 - j))) % 2 == 1)
        if p.n == 1:
            return norm(B(I(v) == 1)) if not is_bv(v) else norm(v == 1)
        if p.n <= 64:
            r = None
            for k in reversed(range(p.n)):
                b = piece_get(p, k)
                r = b if r is None else vite(norm(I(j) <= k), b, r)
            return r
    raise Unsupported('index into %s' % type(p).__name__)


def seq_get(s, i):
    if isinstance(i, PosVal):
        i = norm(i.term())
    if s.upd is not None and same(s.upd[1], i):
        return force(s.upd[2])
    r = ps_get(s.ps, i)
    if s.et is not None and s.et.k == 'int' and isinstance(r, (bool, z3.BoolRef)):
        return vite(r, 49, 48)      # bits rendered as text
    return r


def set_boundary(s, i, v, entails):
    """element written at the start of the last piece: keep the pieces apart"""
    if not isz(i) or len(s.ps) < 2 or s.strterm is not None:
        return None
    p = s.ps[-1]
    if not isinstance(p, Loop) or not p.unit():
        return None
    off = plen(s.ps[:-1])
    if not same(off, i) or not entails(I(i) < I(seq_len(s))):
        return None
    return Seq(s.ps[:-1] + [U(v), Loop(p.var, norm(I(p.lo) + 1), p.hi, p.body)], s.et)


def seq_set(s, i, v):
    if isinstance(i, int):
        off = 0
        for k, p in enumerate(s.ps):
            if isinstance(p, U):
                if off == i:
                    return Seq(s.ps[:k] + [U(v)] + s.ps[k + 1:], s.et)
                off += 1
            else:
                break
    # single-bit boolean vectors given as Bits: expand
    if all(isinstance(p, U) for p in s.ps):
        return Seq([U(Lazy((lambda p=p, k=k: vite(norm(I(i) == k), v, p._v)), roots=(i, v, p._v))) for k, p in enumerate(s.ps)], s.et)
    n = seq_len(s)
    w = index_var('w')
    ps = s.ps
    if len(ps) == 1 and isinstance(ps[0], Loop) and ps[0].unit() and norm(ps[0].lo) == 0:
        w0 = ps[0]
        return Seq([Loop(w, 0, w0.hi, [U(Lazy((lambda: vite(norm(w == I(i)), v, ps_get(ps, w))), roots=(i, v, ps, w)))])], s.et)
    return Seq([Loop(w, 0, n, [U(Lazy((lambda: vite(norm(w == I(i)), v, ps_get(ps, w))), roots=(i, v, ps, w)))])], s.et)


def ps_slice(ps, a, b):
    """pieces for indices [a,b)"""
    off = 0
    out = []
    if isinstance(a, int) and isinstance(b, int) and all(isinstance(piece_len(p), int) for p in ps):
        for p in ps:
            l = piece_len(p)
            lo, hi = max(a, off), min(b, off + l)
            if lo < hi:
                if lo == off and hi == off + l:
                    out.append(p)
                elif isinstance(p, Loop) and p.unit():
                    out.append(Loop(p.var, norm(I(p.lo) + (lo - off)), norm(I(p.lo) + (hi - off)), p.body))
                else:
                    out.extend(U(piece_get(p, k - off)) for k in range(lo, hi))
            off += l
        return out
    if same(a, 0) and same(b, plen(ps)):
        return list(ps)
    if same(a, b):
        return []
    # prefix/suffix on piece boundaries
    off = 0
    st = None
    for k in range(len(ps) + 1):
        if st is None and same(off, a):
            st = k
        if st is not None and same(off, b):
            return list(ps[st:k])
        if k < len(ps):
            l = piece_len(ps[k])
            off = norm(I(off) + I(l)) if isz(off) or isz(l) else off + l
    if len(ps) == 1 and isinstance(ps[0], Loop) and ps[0].unit():
        p = ps[0]
        return [Loop(p.var, norm(I(p.lo) + I(a)), norm(I(p.lo) + I(b)), p.body)]
    v = index_var('sl')
    return [Loop(v, 0, norm(I(b) - I(a)), [U(Lazy((lambda: ps_get(ps, norm(v + I(a)))), roots=(ps, a, v)))])]


# ---------------------------------------------------------------- strings
def str_lit(s):
    if s not in F.strlits:
        c = z3.Const('lit!%s' % s, Str)
        for o, oc in F.strlits.items():
            F.quant.append(c != oc)
        F.strlits[s] = c
    return F.strlits[s]


def mkstr(s, et):
    return Seq([U(b if b < 128 else b - 256) for b in s.encode('utf-8')], et)


def str_term(s):
    if s.strterm is not None:
        return s.strterm
    p = s.pystr()
    if p is not None:
        return str_lit(p)
    return None


def seq_eq_str(a, b):
    """boolean equality of two strings (usable in branch conditions)"""
    pa, pb = a.pystr(), b.pystr()
    if pa is not None and pb is not None:
        return pa == pb
    if same(a, b):
        return True
    ta, tb = str_term(a), str_term(b)
    if ta is not None and tb is not None:
        e = ta == tb
        return norm(e)
    la, lb = seq_len(a), seq_len(b)
    if isinstance(la, int) and isinstance(lb, int):
        if la != lb:
            return False
        return band(*[norm(I(seq_get(a, i)) == I(seq_get(b, i))) for i in range(la)])
    raise Unsupported('string comparison')


def cat(a, b):
    """concatenate sequences"""
    if not a.ps:
        return Seq(b.ps, a.et or b.et, b.strterm)
    if not b.ps:
        return a
    return Seq(a.ps + b.ps, a.et)


# ---------------------------------------------------------------- positive equality goals
def goal_eq(a, b, d=0):
    """A formula implying (for proving) a == b; fresh skolem indices stand for 'every index'."""
    if a is b:
        return ZTRUE
    a, b = force(a), force(b)
    if a is b:
        return ZTRUE
    if isinstance(a, PosVal):
        a = a.term()
    if isinstance(b, PosVal):
        b = b.term()
    if is_bool(a) and is_bool(b):
        return B(norm(B(a) == B(b)))
    if (is_real(a) or is_real(b)) and isinstance(a, (int, Fraction, z3.ArithRef)) and isinstance(b, (int, Fraction, z3.ArithRef)):
        return B(norm(R(a) == R(b)))
    if is_bv(a) or is_bv(b):
        w = a.size() if is_bv(a) else b.size()
        return B(norm((a if is_bv(a) else bv_of(a, w)) == (b if is_bv(b) else bv_of(b, w))))
    if isinstance(a, (int, bool, z3.ArithRef, z3.BoolRef)) and isinstance(b, (int, bool, z3.ArithRef, z3.BoolRef)):
        return B(norm(I(a) == I(b)))
    if isz(a) and isz(b):
        return a == b
    if type(a) is not type(b):
        return weak(a, b)
    if isinstance(a, Undef):
        return ZTRUE
    if isinstance(a, RecVal):
        if a.origin is not None and b.origin is not None and a.origin[0] == b.origin[0]:
            g = z3.And(*[goal_eq(x, y, d + 1) for x, y in zip(a.origin[1], b.origin[1])], True)
            g = simp(g)
            return g if z3.is_true(g) else z3.Or(g, weak(a, b))
        if a.ite is not None:
            c = B(a.ite[0])
            return z3.And(z3.Implies(c, goal_eq(a.ite[1], b, d)), z3.Implies(z3.Not(c), goal_eq(a.ite[2], b, d)))
        if b.ite is not None:
            c = B(b.ite[0])
            return z3.And(z3.Implies(c, goal_eq(a, b.ite[1], d)), z3.Implies(z3.Not(c), goal_eq(a, b.ite[2], d)))
        if a.cls != b.cls:
            return weak(a, b)
        if d > 10 or (d > 4 and a.origin is not None and b.origin is not None):
            return ZTRUE if same(a, b) else weak(a, b)
        return z3.And(*[goal_eq(a.f[n], b.f[n], d + 1) for n in a.f], True)
    if isinstance(a, OptVal):
        h = goal_eq(a.has, b.has)
        if a.has is False or b.has is False:
            return h
        return z3.And(h, z3.Implies(B(a.has), goal_eq(a._val, b._val, d + 1)))
    if isinstance(a, Seq):
        ta, tb = a.strterm, b.strterm
        if ta is not None and tb is not None:
            return ta == tb
        if a.et is not None and a.et.k == 'int' and (ta is not None or tb is not None):
            ta, tb = str_term(a), str_term(b)
            if ta is not None and tb is not None:
                return ta == tb
        return goal_ps(a.ps, b.ps, d)
    if isinstance(a, list):
        return goal_ps(a, b, d)
    if isinstance(a, tuple):
        return z3.And(*[goal_eq(x, y, d + 1) for x, y in zip(a, b)], True) if len(a) == len(b) else weak(a, b)
    return ZTRUE if same(a, b) else weak(a, b)


WEAKS = {}


def weak(a, b):
    """the equality could not be expressed: a fresh atom, false when proving; when refuting it is
    replaced by a consequence of the equality (so a refutation is never due to this incompleteness)"""
    t = z3.Bool('weak!%d' % uid())
    WEAKS[t.decl().name()] = (t, a, b)
    return t


def necessary(a, b, d=0):
    """a formula implied by a == b"""
    a, b = force(a), force(b)
    if a is b or d > 3:
        return ZTRUE
    if isinstance(a, PosVal) or isinstance(b, PosVal):
        return ZTRUE
    num = (int, bool, Fraction, z3.ArithRef, z3.BoolRef)
    if isinstance(a, num) and isinstance(b, num) or is_bv(a) and is_bv(b):
        return goal_eq(a, b)
    if isinstance(a, RecVal) and isinstance(b, RecVal) and a.cls == b.cls:
        for x, y, o in ((a, b, 0), (b, a, 1)):
            if x.ite is not None and x.origin is None:
                c = B(x.ite[0])
                return z3.And(z3.Implies(c, necessary(x.ite[1], y, d + 1)), z3.Implies(z3.Not(c), necessary(x.ite[2], y, d + 1)))
        return z3.And(*[necessary(a.f[n], b.f[n], d + 1) for n in a.f if n in b.f], True)
    if isinstance(a, OptVal) and isinstance(b, OptVal):
        h = goal_eq(a.has, b.has)
        if a.has is False or b.has is False:
            return h
        return z3.And(h, z3.Implies(B(a.has), necessary(a._val, b._val, d + 1)))
    if isinstance(a, Seq) and isinstance(b, Seq):
        try:
            la, lb = seq_len(a), seq_len(b)
        except Unsupported:
            return ZTRUE
        return B(norm(I(la) == I(lb)))
    return ZTRUE


def resolve_weak(g, mode):
    """mode 'strong': weak atoms are false; 'necessary': replaced by consequences of the equality"""
    m = []
    seen = set()
    st = [g]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().name() in WEAKS:
            m.append(x)
        elif z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    if not m:
        return g, False
    return z3.substitute(g, *[(x, ZFALSE if mode == 'strong' else B(necessary(*WEAKS[x.decl().name()][1:]))) for x in m]), True


def absorb(ps):
    """canonical form: pieces adjacent to a Loop that are the loop's next/previous iteration join it"""
    ps = list(ps)
    i = 0
    changed = False
    while i < len(ps):
        p = ps[i]
        if isinstance(p, Loop) and p.body:
            m = len(p.body)
            while i + m < len(ps) + 0 and i + 1 + m <= len(ps):
                nxt = ps[i + 1:i + 1 + m]
                if all(type(x) is type(y) for x, y in zip(nxt, p.body)) and \
                        same_ps([subst_piece(q, [(p.var, I(p.hi))]) for q in p.body], nxt):
                    p = Loop(p.var, p.lo, norm(I(p.hi) + 1), p.body)
                    ps[i:i + 1 + m] = [p]
                    changed = True
                else:
                    break
            while i - m >= 0:
                prv = ps[i - m:i]
                if all(type(x) is type(y) for x, y in zip(prv, p.body)) and \
                        same_ps([subst_piece(q, [(p.var, I(norm(I(p.lo) - 1)))]) for q in p.body], prv):
                    p = Loop(p.var, norm(I(p.lo) - 1), p.hi, p.body)
                    ps[i - m:i + 1] = [p]
                    i -= m
                    changed = True
                else:
                    break
        i += 1
    return ps if changed else None


def goal_ps(a, b, d=0):
    if same_ps(a, b):
        return ZTRUE
    na, nb = absorb(a), absorb(b)
    if na is not None or nb is not None:
        a = na if na is not None else a
        b = nb if nb is not None else b
        if same_ps(a, b):
            return ZTRUE
    out = []
    if len(a) == len(b) and all(type(x) is type(y) for x, y in zip(a, b)):
        for x, y in zip(a, b):
            g = goal_piece(x, y, d)
            if g is None:
                break
            out.append(g)
        else:
            return z3.And(*out, True)
    # strip common prefix/suffix
    i = 0
    while i < len(a) and i < len(b) and same_piece(a[i], b[i]):
        i += 1
    a, b = a[i:], b[i:]
    while a and b and same_piece(a[-1], b[-1]):
        a, b = a[:-1], b[:-1]
    if not a and not b:
        return ZTRUE
    la, lb = plen(a), plen(b)
    if isinstance(la, int) and isinstance(lb, int):
        if la != lb:
            return ZFALSE
        return z3.And(*[goal_eq(ps_get(a, k), ps_get(b, k), d + 1) for k in range(la)], True)
    if not a:
        return I(lb) == 0
    if not b:
        return I(la) == 0
    j = index_var('j')
    try:
        body = goal_eq(ps_get(a, j), ps_get(b, j), d + 1)
    except Unsupported:
        return goal_stream(a, b, d)
    return z3.And(I(la) == I(lb), z3.Implies(z3.And(j >= 0, j < I(la)), body))


def goal_stream(a, b, d):
    """piecewise comparison of encoded streams"""
    if len(a) != len(b):
        return weak(a, b)
    gs = [goal_piece(x, y, d) for x, y in zip(a, b)]
    if any(g is None for g in gs):
        return weak(a, b)
    return z3.And(*gs, True)


def goal_piece(x, y, d):
    if isinstance(x, U) and isinstance(y, U):
        return goal_eq(x._v, y._v, d + 1)
    if isinstance(x, Bits) and isinstance(y, Bits) and x.n == y.n:
        return goal_eq(x.v, y.v)
    if isinstance(x, Loop) and isinstance(y, Loop):
        n1, n2 = norm(I(x.hi) - I(x.lo)), norm(I(y.hi) - I(y.lo))
        j = index_var('j')
        bx = [subst_piece(p, [(x.var, I(norm(I(x.lo) + j)))]) for p in x.body]
        by = [subst_piece(p, [(y.var, I(norm(I(y.lo) + j)))]) for p in y.body]
        return z3.And(I(n1) == I(n2), z3.Implies(z3.And(j >= 0, j < I(n1)), goal_ps(bx, by, d + 1)))
    if isinstance(x, Cond) and isinstance(y, Cond):
        return z3.And(B(x.c) == B(y.c), z3.Implies(B(x.c), goal_ps(x.a, y.a, d + 1)), z3.Implies(z3.Not(B(x.c)), goal_ps(x.b, y.b, d + 1)))
    if isinstance(x, Enc) and isinstance(y, Enc) and x.name == y.name and len(x.args) == len(y.args):
        return z3.And(*[goal_eq(p, q, d + 1) for p, q in zip(x.args, y.args)], True)
    return None
