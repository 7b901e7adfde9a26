"""Contracts of the C++ standard library used by the verified code (trusted specifications)."""
import z3
from fractions import Fraction
from . import vals as V
from .vals import *
from . import solver as S
from .ctypes_ import T, strip_ref

CH = T('int', bits=8, signed=True)
U64 = T('int', bits=64, signed=False)
BOOL = T('bool', bits=1)

ENUMS = {}
for i, nm in enumerate(['in', 'out', 'binary', 'ate', 'app', 'trunc']):
    ENUMS['_S_' + nm] = 1 << i


def _iosflag(i):
    return lambda interp: i


GLOBALS = {
    'cerr': lambda ip: RecVal('ostream', {'sink': True}),
    'cout': lambda ip: RecVal('ostream', {'sink': True}),
    'clog': lambda ip: RecVal('ostream', {'sink': True}),
    'nullopt': lambda ip: NULLOPT,
    'in': _iosflag(1), 'out': _iosflag(2), 'binary': _iosflag(4), 'ate': _iosflag(8),
    'beg': _iosflag(0), 'cur': _iosflag(1), 'end': _iosflag(2),
    'npos': lambda ip: (1 << 64) - 1,
}
# extra models registered by contract modules: name -> fn(interp, st, node, member, base ref, base value, argn)
METHODS = {}
FUNCTIONS = {}
OVERRIDE = set()


def reset():
    METHODS.clear(); FUNCTIONS.clear(); OVERRIDE.clear()


def override(d):
    return d.qual in OVERRIDE


def new_stream(t):
    if t.k == 'istream':
        return RecVal('istream', {'data': Seq([], CH), 'ok': True})
    return RecVal('ostream', {'data': Seq([], CH), 'sink': False})


def open_stream(ip, st, t, args):
    """a stream on a file of the ghost disk: one file, whose content and openability the contract gives"""
    if t.name not in ('ifstream', 'ofstream') or getattr(ip, 'disk', None) is None:
        if t.name in ('ifstream', 'ofstream'):
            raise Unsupported('file opened (no ghost disk in this contract)')
        return new_stream(t)
    if t.k == 'istream':
        data = ip.read(st, ip.disk.field('content'))
        return RecVal('istream', {'data': data, 'all': data, 'ok': ip.read(st, ip.disk.field('readable'))})
    ip.write(st, ip.disk.field('content'), vite(ip.read(st, ip.disk.field('writable')), Seq([], CH), ip.read(st, ip.disk.field('content'))))
    return RecVal('ostream', {'data': Seq([], CH), 'sink': False, 'file': True, 'ok': ip.read(st, ip.disk.field('writable'))})


def json_default(t):
    raise Unsupported('json value')


def json_sym(ip, path, args, t):
    raise Unsupported('json value')


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return norm(I(a) + I(b))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return norm(I(a) - I(b))


def lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return norm(I(a) < I(b))


def le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return norm(I(a) <= I(b))


def eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return norm(I(a) == I(b))


# ---------------------------------------------------------------- maps
def map_get(ip, st, m, key):
    r = None
    for k, v in reversed(m.items):
        c = ip.compare('==', key, k) if not (isinstance(key, int) and isinstance(k, int)) else key == k
        if c is True:
            return v
        if c is False:
            continue
        r = v if r is None else vite(c, v, r)
    if r is None:
        raise Unsupported('map lookup of an absent key')
    return r


def map_has(ip, m, key):
    return bor(*[ip.compare('==', key, k) for k, _ in m.items])


# ---------------------------------------------------------------- sequences
def seq_update(s, i, v):
    if s.upd is not None and same(s.upd[1], i):
        s = s.upd[0]
    r = seq_set(s, i, v)
    r.upd = (s, i, v)
    return r


def iterable(ip, st, ref, val):
    if isinstance(val, RecVal) and val.cls == 'span':
        return ref.field('items'), val.get('items')
    raise Unsupported('range over %s' % type(val).__name__)


def check_index(ip, st, v, i):
    if isinstance(v, MapVal):
        return
    if not isinstance(v, Seq):
        raise Unsupported('subscript of %s' % type(v).__name__)
    n = seq_len(v)
    ip.oblige(st, band(le(0, i), lt(i, n)), 'safety: index in range in ' + ip.where())


def clampidx(n, i):
    return i


def seq_insert(s, pos, ps):
    n = seq_len(s)
    if same(pos, n):
        r = cat(s, Seq(ps, s.et))
        return Seq(r.ps, s.et)
    if same(pos, 0):
        return Seq(list(ps) + s.ps, s.et)
    return Seq(ps_slice(s.ps, 0, pos) + list(ps) + ps_slice(s.ps, pos, n), s.et)


def seq_erase(s, a, b):
    n = seq_len(s)
    l = [] if same(a, 0) else ps_slice(s.ps, 0, a)
    r = [] if same(b, n) else ps_slice(s.ps, b, n)
    return Seq(l + r, s.et)


def seq_slice(s, a, b):
    return Seq(ps_slice(s.ps, a, b), s.et)


def seq_reverse(s):
    if all(isinstance(p, U) for p in s.ps):
        return Seq(list(reversed(s.ps)), s.et)
    n = seq_len(s)
    w = index_var('rv')
    return Seq([Loop(w, 0, n, [U(Lazy(lambda: ps_get(s.ps, norm(I(n) - 1 - w)), roots=(s.ps, w, n)))])], s.et)


def seq_eq(ip, a, b):
    if (a.et is not None and a.et.k == 'int' and a.et.bits == 8) or a.strterm is not None or b.strterm is not None:
        return seq_eq_str(a, b)
    la, lb = seq_len(a), seq_len(b)
    if isinstance(la, int) and isinstance(lb, int):
        if la != lb:
            return False
        return band(*[ip.compare('==', seq_get(a, i), seq_get(b, i)) for i in range(la)])
    if same(a, b):
        return True
    raise Unsupported('sequence comparison')


def fill(n, v, et):
    if isinstance(n, int) and n <= 4096:
        return Seq([U(v) for _ in range(n)], et)
    return Seq([Loop(index_var('f'), 0, n, [U(v)])], et)


# ---------------------------------------------------------------- iterators
def iter_index(ip, st, it, k=0):
    pos = add(it.pos, k) if k else it.pos
    if it.rev:
        n = seq_len(ip.read(st, it.ref))
        return sub(sub(n, 1), pos)
    return pos


def iter_ref(ip, st, it):
    v = ip.read(st, it.ref)
    if not isinstance(v, Seq):
        raise Unsupported('iterator over %s' % type(v).__name__)
    i = iter_index(ip, st, it)
    check_index(ip, st, v, i)
    return it.ref.idx(i)


def iter_add(ip, st, x, d):
    if isinstance(x, IterVal):
        if isinstance(d, PosVal) or isinstance(x.pos, PosVal):
            from . import bits as BT
            r = BT.pos_add(ip, st, x.pos, d)
            if r is not None:
                return IterVal(x.ref, r, x.rev)
        return IterVal(x.ref, add(x.pos, d), x.rev)
    if isinstance(x, PtrVal) and len(x.alts) == 1 and x.alts[0][1] is not None:
        r = x.alts[0][1]
        if r.path and r.path[-1][0] == 'i':
            return PtrVal([(True, LRef(r.cell, r.path[:-1] + (('i', add(r.path[-1][1], d)),)))])
        v = ip.read(st, r)
        if isinstance(v, Seq):
            return PtrVal([(True, r.idx(d))])
    raise Unsupported('pointer arithmetic')


def base_index(it):
    """base position of an iterator (reverse iterators denote base-1)"""
    return it.pos


def pos_op(ip, op, a, b, st):
    """operations on bit cursors: advancing by a number of bits or by what a nested reader consumed"""
    if op == '+':
        from . import bits as BT
        return BT.pos_add(ip, st, a, b)
    return None


def cmp_other(ip, op, a, b):
    if isinstance(a, RecVal) and isinstance(b, RecVal) and a.cls == b.cls == 'tuple':
        e = band(*[ip.compare('==', a.get(k), b.get(k)) for k in a.f])
        if op == '==':
            return e
        if op == '!=':
            return bnot(e)
    if isinstance(a, RecVal) and a.cls == 'bitset' and isinstance(b, RecVal):
        e = eq(a.get('v'), b.get('v'))
        return e if op == '==' else bnot(e)
    raise Unsupported('comparison of %s' % (a,))


def reinterpret(ip, st, n):
    v = ip.eval(n['inner'][0], st)
    return v


def member_ref(ip, st, ref, name):
    return ref.field(name)


# ---------------------------------------------------------------- helpers
def is_default(a):
    return a.get('kind') == 'CXXDefaultArgExpr'


def args_of(argn):
    return [a for a in argn if not is_default(a)]


def pure_call(ip, st, cl, refs):
    """evaluate a predicate without side effects: returns its value (a merged term)"""
    before = st.clone()
    s2 = st.clone()
    nth = [len(t) for t in ip.throws]
    r = ip.call_closure(cl, refs(s2), s2)
    for k, v in before.cells.items():
        w = s2.cells.get(k, v)
        if w is not v and not same(w, v):
            raise Unsupported('predicate with side effects')
    return r


def find_core(ip, st, ref, seq, b, e, pred):
    """first index in [b,e) satisfying pred (pred: index -> bool term)"""
    if isinstance(b, int) and isinstance(e, int) and e - b <= 40:
        r = e
        for j in range(e - 1, b - 1, -1):
            c = pred(j)
            r = j if c is True else (r if c is False else norm(z3.If(B(c), I(j), I(r))))
        return r
    j = index_var('q')
    r = fresh_int('found')
    body = pred(j)
    P = lambda ix: B(norm(z3.substitute(B(body), (j, I(ix))))) if isz(body) else B(body)
    st.assume(z3.And(r >= I(b), z3.Implies(I(b) <= I(e), r <= I(e)), z3.Implies(I(b) >= I(e), r == I(b))))
    st.assume(z3.Implies(z3.And(r < I(e), r >= I(b)), P(r)))
    if isz(body):
        st.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= I(b), j < r), z3.Not(B(body)))))
    return r


def find_if(ip, st, its, cl):
    b, e = its
    seq = ip.read(st, b.ref)
    if b.rev:
        n = seq_len(seq)
    def pred(j):
        ix = sub(sub(n, 1), j) if b.rev else j
        s0 = st.clone()
        if isz(j):
            s0.assume(z3.And(I(b.pos) <= j, j < I(e.pos)))
        else:
            pass
        V.LOOPVARS.append(j) if isz(j) else None
        try:
            r = ip.call_closure_pure(cl, b.ref.idx(ix), s0)
        finally:
            if isz(j):
                V.LOOPVARS.pop()
        return r
    r = find_core(ip, st, b.ref, seq, b.pos, e.pos, pred)
    return IterVal(b.ref, r, b.rev)


def real_un(name, facts=None):
    f = z3.Function(name, z3.RealSort(), z3.RealSort())
    def app(x):
        t = f(R(x))
        return t
    if facts is not None and name not in F.by_decl:
        F.add(name, facts)
    return app


def floor_(x):
    if isinstance(x, (int, Fraction)):
        import math
        return Fraction(math.floor(x))
    x = R(x)
    if x.decl().kind() == z3.Z3_OP_TO_REAL:
        return x
    return norm(z3.ToReal(z3.ToInt(x)))


def ceil_(x):
    if isinstance(x, (int, Fraction)):
        import math
        return Fraction(math.ceil(x))
    x = R(x)
    if x.decl().kind() == z3.Z3_OP_TO_REAL:
        return x
    return norm(-z3.ToReal(z3.ToInt(-x)))


def round_(x):
    """std::round: half away from zero"""
    if isinstance(x, (int, Fraction)):
        import math
        x = Fraction(x)
        return Fraction(math.floor(x + Fraction(1, 2))) if x >= 0 else -Fraction(math.floor(-x + Fraction(1, 2)))
    x = R(x)
    if x.decl().kind() == z3.Z3_OP_TO_REAL:
        return x
    h = z3.RealVal('1/2')
    return norm(z3.If(x >= 0, z3.ToReal(z3.ToInt(x + h)), -z3.ToReal(z3.ToInt(-x + h))))


def pow2_fn():
    f = z3.Function('pow2', z3.IntSort(), z3.RealSort())
    if 'pow2' not in F.by_decl:
        def fact(a):
            k = a.children()[0]
            return z3.And(a > 0, z3.Implies(k >= 0, a >= 1), z3.Implies(k >= 1, z3.And(a >= 2, a == 2 * f(k - 1))), z3.Implies(k == 0, a == 1),
                          z3.Implies(k >= 0, z3.IsInt(a)), *[z3.Implies(k == j, a == (1 << j)) for j in range(1, 31)])
        F.add('pow2', fact)
    return f


def pow_(ip, st, a, b):
    if isinstance(b, (int, Fraction)) and Fraction(b).denominator == 1:
        n = int(b)
        if isinstance(a, (int, Fraction)):
            if n < 0:
                return Fraction(1) / (Fraction(a) ** (-n))
            return Fraction(a) ** n
        if 0 <= n <= 4:
            r = Fraction(1)
            for _ in range(n):
                r = norm(R(r) * R(a))
            return r
    if isinstance(a, (int, Fraction)) and a == 2:
        k = ip.trunc(b) if not is_int(b) else b
        return pow2_fn()(I(k))
    f = z3.Function('powr', z3.RealSort(), z3.RealSort(), z3.RealSort())
    return f(R(a), R(b))


def abs_(x):
    if isinstance(x, (int, Fraction)):
        return abs(x)
    if is_real(x):
        return norm(z3.If(x >= 0, x, -x))
    x = I(x)
    return norm(z3.If(x >= 0, x, -x))


def minmax(ip, a, b, mx):
    c = ip.compare('<', a, b)
    return vite(c, b, a) if mx else vite(ip.compare('<', b, a), b, a)


# ---------------------------------------------------------------- member functions
def method(ip, st, n, x, base, argn, d):
    name = x['name']
    if x.get('isArrow'):
        pv = ip.eval(base, st)
        ref = ip.deref(pv, st)
    else:
        ref = ip.lv_or_temp(base, st)
    v = ip.read(st, ref)
    argn = args_of(argn)
    h = METHODS.get((getattr(v, 'cls', None) or type(v).__name__, name)) or METHODS.get(name)
    if h is not None:
        r = h(ip, st, n, x, ref, v, argn)
        if r is not NotImplemented:
            return r
    bt = strip_ref(ip.types.of(base))
    if name.startswith('operator ') and not isinstance(v, RecVal):
        return ip.convert(v, None, ip.types.of(n))
    if isinstance(v, OptVal):
        return opt_method(ip, st, n, name, ref, v, argn)
    if isinstance(v, Seq):
        return seq_method(ip, st, n, name, ref, v, argn, bt)
    if isinstance(v, MapVal):
        if name == 'at' or name == 'operator[]':
            k = ip.eval(argn[0], st)
            has = map_has(ip, v, k)
            ip.may_throw(st, has, 'map::at')
            val = map_get(ip, st, v, k)
            return ip.new_cell(st, val, None)
        if name in ('count', 'contains'):
            c = map_has(ip, v, ip.eval(argn[0], st))
            return ip.convert(c, None, T('int', bits=64, signed=False)) if name == 'count' else c
        if name == 'size':
            return len(v.items)
        if name == 'find':
            raise Unsupported('map find')
    if name == 'operator bool' and isinstance(v, (bool, z3.BoolRef)):
        return v
    if isinstance(v, RecVal) and v.cls == 'bitset':
        if name in ('to_ulong', 'to_ullong'):
            return v.get('v')
        if name == 'to_string':
            k = v.get('n')
            val = v.get('v')
            us = []
            if isinstance(val, z3.ArithRef) and k > 1:
                return Seq([Bits(val, k)], CH)     # elements are the characters '0' and '1' of the field
            for i in range(k):
                us.append(U(bit_char(val, k - 1 - i)))
            return Seq(us, CH)
        if name == 'size':
            return v.get('n')
    if isinstance(v, RecVal) and v.cls in ('istream', 'ostream'):
        return stream_method(ip, st, n, name, ref, v, argn)
    if isinstance(v, RecVal) and d is not None:
        # implicitly defined member (copy / move assignment)
        if name == 'operator=':
            val = ip.eval(argn[0], st)
            ip.write(st, ref, val)
            return ref
        if d.body is None and d.mangled not in ip.p.funcs:
            raise Unsupported('call of %s (definition not extracted)' % d.qual)
    raise Unsupported('member %s of %s' % (name, v if isinstance(v, (Opaque,)) else type(v).__name__ + ' ' + str(getattr(v, 'cls', ''))))


def bit_char(val, k):
    if isinstance(val, int):
        return 48 + ((val >> k) & 1)
    if is_bv(val):
        return norm(z3.If(z3.Extract(k, k, val) == 1, z3.IntVal(49), z3.IntVal(48)))
    return norm(48 + (I(val) / (1 << k)) % 2)


def opt_method(ip, st, n, name, ref, v, argn):
    if name in ('has_value', 'operator bool'):
        return v.has
    if name == 'value':
        ip.may_throw(st, v.has, 'bad_optional_access')
        return ref.opt()
    if name == 'value_or':
        a = ip.eval(argn[0], st)
        t = ip.types.of(n)
        if v.has is False:
            return ip.convert(a, None, t)
        return vite(v.has, ip.convert(v.val, None, t), ip.convert(a, None, t)) if v.has is not True else v.val
    if name == 'reset':
        ip.write(st, ref, NULLOPT)
        return None
    if name in ('operator=',):
        t = ip.ltype(ref) or ip.types.of(n)
        val = ip.eval(argn[0], st)
        ip.write(st, ref, ip.convert(val, ip.types.of(argn[0]), strip_ref(t)))
        return ref
    if name == 'emplace':
        t = strip_ref(ip.ltype(ref)).args[0]
        ip.write(st, ref, OptVal(True, ip.convert(ip.eval(argn[0], st), None, t) if argn else ip.default(t, st)))
        return ref.opt()
    if name == 'operator->':
        return PtrVal([(True, ref.opt())])
    raise Unsupported('optional::' + name)


def seq_method(ip, st, n, name, ref, v, argn, bt):
    et = v.et or (bt.args[0] if bt.k in ('vector', 'array') else CH if bt.k == 'string' else None)
    ln = None
    if name in ('size', 'length'):
        return seq_len(v)
    if name == 'empty':
        return eq(seq_len(v), 0)
    if name in ('begin', 'cbegin'):
        return IterVal(ref, 0)
    if name in ('end', 'cend'):
        return IterVal(ref, seq_len(v))
    if name in ('rbegin', 'crbegin'):
        return IterVal(ref, 0, True)
    if name in ('rend', 'crend'):
        return IterVal(ref, seq_len(v), True)
    if name in ('data', 'c_str'):
        return PtrVal([(True, ref)])
    if name == 'at':
        i = ip.eval(argn[0], st)
        if isinstance(i, PosVal):
            i = i.term()
        nn = seq_len(v)
        ip.may_throw(st, band(le(0, i), lt(i, nn)), 'vector::at out of range')
        return ref.idx(i)
    if name == 'front':
        ip.oblige(st, lt(0, seq_len(v)), 'safety: front() of a non-empty sequence in ' + ip.where())
        return ref.idx(0)
    if name == 'back':
        nn = seq_len(v)
        ip.oblige(st, lt(0, nn), 'safety: back() of a non-empty sequence in ' + ip.where())
        return ref.idx(sub(nn, 1))
    if name == 'push_back':
        x = ip.convert(ip.eval(argn[0], st), ip.types.of(argn[0]), et)
        v = ip.read(st, ref)
        ip.write(st, ref, Seq(v.ps + [U(x)], v.et or et))
        return None
    if name == 'emplace_back':
        if len(argn) == 1:
            x = ip.eval(argn[0], st)
            if et is not None and et.k == 'record' and not (isinstance(x, RecVal) and x.cls == et.name):
                x = construct_from(ip, st, et, argn)
            else:
                x = ip.convert(x, ip.types.of(argn[0]), et)
        elif et is not None and et.k == 'tuple':
            x = RecVal('tuple', {str(i): ip.convert(ip.eval(a, st), ip.types.of(a), et.args[i]) for i, a in enumerate(argn)})
        elif not argn:
            x = ip.default(et, st)
        else:
            x = construct_from(ip, st, et, argn)
        v = ip.read(st, ref)
        ip.write(st, ref, Seq(v.ps + [U(x)], v.et or et))
        return ref.idx(seq_len(v))
    if name == 'pop_back':
        nn = seq_len(v)
        ip.oblige(st, lt(0, nn), 'safety: pop_back() of a non-empty sequence in ' + ip.where())
        ip.write(st, ref, seq_slice(v, 0, sub(nn, 1)))
        return None
    if name == 'clear':
        ip.write(st, ref, Seq([], v.et))
        return None
    if name in ('reserve', 'shrink_to_fit'):
        for a in argn:
            ip.eval(a, st)
        return None
    if name == 'resize':
        k = ip.eval(argn[0], st)
        nn = seq_len(v)
        dv = ip.convert(ip.eval(argn[1], st), None, et) if len(argn) > 1 else ip.default(et, st)
        if same(k, nn):
            return None
        if nn == 0:
            ip.write(st, ref, fill(k, dv, et))
            return None
        if S.entails(st.pc, le(nn, k)):
            ip.write(st, ref, Seq(v.ps + fill(sub(k, nn), dv, et).ps, v.et))
            return None
        if S.entails(st.pc, le(k, nn)):
            ip.write(st, ref, seq_slice(v, 0, k))
            return None
        raise NeedSplit(le(nn, k))
    if name == 'insert':
        it = ip.eval(argn[0], st)
        if isinstance(it, IterVal):
            pos = it.pos
            if len(argn) == 2:
                x = ip.eval(argn[1], st)
                if isinstance(x, Seq) and et is not None and et.k not in ('vector', 'string', 'array'):
                    ps = x.ps   # initializer list
                else:
                    ps = [U(ip.convert(x, ip.types.of(argn[1]), et))]
                v = ip.read(st, ref)
                ip.write(st, ref, seq_insert(v, pos, ps))
                return IterVal(ref, pos)
            a, b = ip.eval(argn[1], st), ip.eval(argn[2], st)
            if isinstance(a, IterVal) and isinstance(b, IterVal):
                src = ip.read(st, a.ref)
                s = iter_slice(ip, st, src, a, b)
                s = conv_elems(ip, s, et)
                v = ip.read(st, ref)
                ip.write(st, ref, seq_insert(v, pos, s.ps))
                return IterVal(ref, pos)
            if isinstance(a, (int, z3.ArithRef)):
                ip.write(st, ref, seq_insert(v, pos, fill(a, ip.convert(b, None, et), et).ps))
                return IterVal(ref, pos)
        raise Unsupported('insert form')
    if name == 'erase':
        it = ip.eval(argn[0], st)
        if isinstance(it, IterVal):
            nn = seq_len(v)
            if len(argn) == 1:
                ip.oblige(st, band(le(0, it.pos), lt(it.pos, nn)), 'safety: erase position in range in ' + ip.where())
                ip.write(st, ref, seq_erase(v, it.pos, add(it.pos, 1)))
                return IterVal(ref, it.pos)
            e = ip.eval(argn[1], st)
            ip.oblige(st, band(le(0, it.pos), le(it.pos, e.pos), le(e.pos, nn)), 'safety: erase range valid in ' + ip.where())
            ip.write(st, ref, seq_erase(v, it.pos, e.pos))
            return IterVal(ref, it.pos)
        if bt.k == 'string':
            nn = seq_len(v)
            if len(argn) == 1:
                ip.may_throw(st, le(it, nn), 'string::erase')
                if isz(it) or isz(nn):
                    ip.write(st, ref, Seq(ps_slice(v.ps, 0, it), v.et))
                else:
                    ip.write(st, ref, seq_slice(v, 0, it))
                return ref
        raise Unsupported('erase form')
    if name == 'operator=':
        x = ip.eval(argn[0], st)
        ip.write(st, ref, x)
        return ref
    if name == 'flip':
        if all(isinstance(p, U) for p in v.ps):
            ip.write(st, ref, Seq([U(Lazy(lambda p=p: bnot(p.v), roots=(p._v,))) for p in v.ps], v.et))
            return None
        nn = seq_len(v)
        w = index_var('fl')
        ip.write(st, ref, Seq([Loop(w, 0, nn, [U(Lazy(lambda: bnot(ps_get(v.ps, w)), roots=(v.ps, w)))])], v.et))
        return None
    if name == 'swap':
        r2 = ip.lv_or_temp(argn[0], st)
        o = ip.read(st, r2)
        ip.write(st, ref, o)
        ip.write(st, r2, v)
        return None
    if name == 'assign':
        a, b = ip.eval(argn[0], st), ip.eval(argn[1], st)
        if isinstance(a, IterVal):
            ip.write(st, ref, conv_elems(ip, iter_slice(ip, st, ip.read(st, a.ref), a, b), et))
        else:
            ip.write(st, ref, fill(a, ip.convert(b, None, et), et))
        return None
    if name == 'fill':
        x = ip.convert(ip.eval(argn[0], st), None, et)
        ip.write(st, ref, fill(seq_len(v), x, et))
        return None
    # strings
    if name == 'append' or name == 'push_back':
        x = ip.eval(argn[0], st)
        if len(argn) == 2 and isinstance(x, int) or isz(x):
            c = ip.eval(argn[1], st)
            ip.write(st, ref, Seq(v.ps + fill(x, c, CH).ps, v.et or CH))
            return ref
        if len(argn) == 1:
            ip.write(st, ref, cat(v, as_str(ip, st, x)))
            return ref
        raise Unsupported('append form')
    if name == 'substr':
        a = ip.eval(argn[0], st)
        nn = seq_len(v)
        ip.may_throw(st, le(a, nn), 'string::substr')
        if len(argn) == 1:
            return seq_slice(v, a, nn) if not same(a, 0) else v
        k = ip.eval(argn[1], st)
        end = add(a, k)
        c = le(end, nn)
        if c is not True:
            end = nn if c is False else norm(z3.If(B(c), I(end), I(nn)))
        if same(a, 0) and same(end, nn):
            return v
        return seq_slice(v, a, end)
    if name == 'find_last_not_of':
        ch = ip.eval(argn[0], st)
        if isinstance(ch, Seq):
            if len(ch.ps) != 1:
                raise Unsupported('find_last_not_of set')
            ch = seq_get(ch, 0)
        nn = seq_len(v)
        NP = (1 << 64) - 1
        # a text followed by padding
        ps = list(v.ps)
        while ps and (isinstance(ps[-1], U) and same(ps[-1].v, ch) or isinstance(ps[-1], Loop) and ps[-1].unit() and same(ps[-1].body[0].v, ch)):
            ps.pop()
        m = plen(ps)
        if len(ps) < len(v.ps) and isz(m):
            if S.entails(st.pc, z3.Or(I(m) == 0, B(bnot(eq(ps_get(ps, norm(I(m) - 1)), ch))))):
                return norm((I(m) - 1) % (NP + 1))
        if isinstance(nn, int):
            r = NP
            for j in range(nn):
                c = bnot(eq(seq_get(v, j), ch))
                r = j if c is True else r if c is False else norm(z3.If(B(c), I(j), I(r)))
            return r
        r = fresh_int('flno', 0, NP)
        j = index_var('q')
        P = lambda ix: B(bnot(eq(seq_get(v, ix), ch)))
        st.assume(z3.Or(r == NP, z3.And(r >= 0, r < I(nn), P(r))))
        st.pc.append(z3.ForAll([j], z3.Implies(z3.And(j < I(nn), j >= 0, z3.Or(r == NP, j > r)), z3.Not(P(j)))))
        return r
    if name in ('compare',):
        o = as_str(ip, st, ip.eval(argn[0], st))
        e = seq_eq_str(v, o)
        return 0 if e is True else 1 if e is False else norm(z3.If(B(e), z3.IntVal(0), z3.IntVal(1)))
    if name in ('rfind', 'find', 'find_first_of', 'find_last_of'):
        p = v.pystr()
        o = ip.eval(argn[0], st)
        if p is not None and len(argn) == 1:
            q = chr(o) if isinstance(o, int) else as_str(ip, st, o).pystr()
            if q is not None:
                r = getattr(p, 'rfind' if name in ('rfind', 'find_last_of') else 'find')(q)
                return r if r >= 0 else (1 << 64) - 1
        if name in ('rfind', 'find_last_of') and isinstance(o, int) and (len(argn) == 1 or S.entails(st.pc, B(le(seq_len(v), add(ip.eval(argn[1], st), 1))))):
            # last occurrence of a character
            NP = (1 << 64) - 1
            nn = seq_len(v)
            r = fresh_int('rfind', 0, NP)
            j = index_var('q')
            P = lambda ix: B(eq(seq_get(v, ix), o))
            st.assume(z3.Or(r == NP, z3.And(r >= 0, r < I(nn), P(r))))
            st.pc.append(z3.ForAll([j], z3.Implies(z3.And(j < I(nn), j >= 0, z3.Or(r == NP, j > r)), z3.Not(P(j)))))
            return r
        raise Unsupported('string search')
    raise Unsupported('sequence member ' + name)


def as_str(ip, st, x):
    if isinstance(x, Seq):
        return x
    if isinstance(x, int):
        return Seq([U(x)], CH)
    if isinstance(x, PtrVal):
        r = ip.deref(x, st)
        v = ip.read(st, r)
        if isinstance(v, Seq):
            return v
    if isinstance(x, z3.ArithRef):
        return Seq([U(x)], CH)
    raise Unsupported('string from %s' % type(x).__name__)


def conv_elems(ip, s, et):
    """element conversion on range copies (same representation kinds only)"""
    if s.et is not None and et is not None and s.et.key() != et.key() and et.k in ('int', 'bool', 'float') and s.et.k in ('int', 'bool', 'float'):
        if s.et.k == et.k == 'int' and s.et.bits == et.bits and s.et.signed == et.signed:
            return s
        out = []
        for p in s.ps:
            if isinstance(p, U):
                out.append(U(Lazy(lambda p=p: ip.convert(p.v, s.et, et), roots=(p._v,))))
            elif isinstance(p, Loop) and p.unit():
                out.append(Loop(p.var, p.lo, p.hi, [U(Lazy(lambda p=p: ip.convert(p.body[0].v, s.et, et), roots=(p.body[0]._v,)))]))
            else:
                raise Unsupported('element conversion')
        return Seq(out, et)
    return Seq(s.ps, s.et or et, s.strterm)


def iter_slice(ip, st, src, a, b):
    if not same(a.ref, b.ref):
        raise Unsupported('range over two containers')
    if a.rev:
        n = seq_len(src)
        return seq_reverse(seq_slice(src, sub(n, b.pos), sub(n, a.pos)))
    if isinstance(a.pos, PosVal) or isinstance(b.pos, PosVal) or (isinstance(a.pos, int) and isinstance(b.pos, int) and any(isinstance(p, Bits) for p in src.ps)):
        from . import bits as BT
        s = BT.between(ip, st, src, a.pos, b.pos)
        if s is not None:
            return s
    if not isz(a.pos) and not isz(b.pos):
        pass
    else:
        ip.oblige(st, band(le(0, a.pos), le(a.pos, b.pos), le(b.pos, seq_len(src))), 'safety: valid iterator range in ' + ip.where())
    if same(a.pos, 0) and same(b.pos, seq_len(src)):
        return src
    return seq_slice(src, a.pos, b.pos)


def construct_from(ip, st, et, argn):
    if et.k != 'record':
        raise Unsupported('emplace of %r' % et)
    rec = ip.p.records.get(et.name)
    cands = []
    for mg, d in rec['ctors']:
        dd = ip.p.funcs.get(mg, d)
        if dd.node.get('isImplicit'):
            continue
        req = [p for p in dd.params if not any(c.get('kind') and not c['kind'].endswith(('Attr', 'Comment')) for c in p.get('inner', []))]
        if len(req) <= len(argn) <= len(dd.params):
            cands.append(dd)
    ats = [strip_ref(ip.types.of(a)) for a in argn]
    def okp(p, a):
        t = strip_ref(ip.types.of(p))
        if t.k == a.k:
            return True
        num = ('int', 'bool', 'float', 'enum')
        return (t.k in num and a.k in num) or (t.k == 'string' and a.k in ('ptr', 'array')) or t.k == 'optional'
    cands = [d for d in cands if all(okp(p, a) for p, a in zip(d.params, ats))]
    if len(cands) != 1 or cands[0].body is None:
        raise Unsupported('constructor choice for %s' % et.name)
    vals = ip.bind_args(cands[0].params, argn, st, cands[0].tu)
    this = ip.new_cell(st, UNDEF, et)
    ip.call_decl(cands[0], this, vals, st)
    return ip.read(st, this)


# ---------------------------------------------------------------- streams (byte level)
def stream_take(ip, st, ps, k):
    """the next k bytes of a structured stream, and what follows"""
    from .bits import head
    got, need = [], k
    while not same(need, 0):
        ps = list(ps)
        if ps and isinstance(ps[0], Loop) and ps[0].unit():
            p, rest = ps[0], ps[1:]
        elif ps and isinstance(ps[0], Loop):
            p = ps[0]
            ne = norm(I(p.lo) < I(p.hi))
            if z3.is_true(B(ne)) or S.entails(st.pc, ne):
                ps = p.at(p.lo) + [Loop(p.var, norm(I(p.lo) + 1), p.hi, p.body)] + ps[1:]
            elif S.entails(st.pc, bnot(ne)):
                ps = ps[1:]
            else:
                raise NeedSplit(ne)
            continue
        else:
            p, rest = head(ip, st, ps)
        if isinstance(p, U):
            got.append(p)
            need = norm(I(need) - 1) if isz(need) else need - 1
        elif isinstance(p, Loop) and p.unit():
            l = norm(I(p.hi) - I(p.lo))
            if not (S.entails(st.pc, B(le(l, need))) if isz(l) or isz(need) else l <= need):
                l = need
                v = norm(I(p.lo) + I(need))
                rest = [Loop(p.var, v, p.hi, p.body)] + list(rest)
                p = Loop(p.var, p.lo, v, p.body)
            got.append(p)
            need = norm(I(need) - I(l)) if isz(need) or isz(l) else need - l
        else:
            raise Unsupported('bytes read where the stream holds %r' % (p,))
        ps = rest
    return got, ps


def stream_method(ip, st, n, name, ref, v, argn):
    if name == 'close':
        return None
    if v.cls == 'istream' and name in ('seekg', 'tellg') and 'all' in v.f:
        if name == 'tellg':
            return norm(I(seq_len(v.get('all'))) - I(seq_len(v.get('data'))))
        off = ip.eval(argn[0], st)
        way = ip.eval(argn[1], st) if len(argn) > 1 else Opaque('ios', 0)
        way = way.args[0] if isinstance(way, Opaque) else way
        if off != 0 or way not in (0, 2):
            raise Unsupported('seek to a position inside the file')
        ip.write(st, ref.field('data'), v.get('all') if way == 0 else Seq([], v.get('all').et))
        return ref
    if name in ('is_open', 'good'):
        return v.get('ok') if 'ok' in v.f else True
    if name in ('fail', 'bad'):
        return bnot(v.get('ok')) if 'ok' in v.f else False
    if v.cls == 'istream' and name == 'read':
        p = ip.eval(argn[0], st)
        k = ip.eval(argn[1], st)
        r = ip.deref(p, st)
        dst = ip.read(st, r)
        if not isinstance(dst, Seq):
            # scalar destination, read byte-wise (little endian host)
            raise Unsupported('read into a scalar')
        data = v.get('data')
        if not isinstance(k, int):
            k = conc(simp(I(k)))
        if all(isinstance(p_, (U, Bits)) or isinstance(p_, Loop) and p_.unit() for p_ in data.ps) and (le(k, seq_len(data)) is True or S.entails(st.pc, le(k, seq_len(data)))):
            ln = seq_len(data)
            got = ps_slice(data.ps, 0, k)
            rest = ps_slice(data.ps, k, ln)
        else:
            got, rest = stream_take(ip, st, data.ps, k)
        dl = seq_len(dst)
        ip.oblige(st, le(k, dl), 'safety: read fits the buffer in ' + ip.where())
        got = conv_elems(ip, Seq(got, CH), dst.et or CH).ps
        st_term = data.strterm if False else None
        ip.write(st, r, Seq(got + (ps_slice(dst.ps, k, dl) if not same(k, dl) else []), dst.et))
        ip.write(st, ref.field('data'), Seq(rest, data.et))
        return ref
    if v.cls == 'ostream' and name == 'write':
        p = ip.eval(argn[0], st)
        k = ip.eval(argn[1], st)
        r = ip.deref(p, st)
        src = ip.read(st, r)
        dref = ip.disk.field('content') if 'file' in v.f else ref.field('data')     # one stream per file
        data = ip.read(st, dref)
        if isinstance(src, Seq):
            sl = seq_len(src)
            if r.path and r.path[-1][0] == 'i':
                raise Unsupported('write from the middle of a buffer')
            ip.oblige(st, le(k, sl), 'safety: write stays inside the buffer in ' + ip.where())
            ps = src.ps if same(k, sl) else ps_slice(src.ps, 0, k)
            ps = conv_elems(ip, Seq(ps, src.et), CH).ps
        elif isinstance(src, (int, z3.ArithRef)) or is_bv(src):
            if k != 1:
                t = ip.ltype(r)
                raise Unsupported('write of a scalar object')
            ps = [U(ip.convert(src, None, CH))]
        else:
            raise Unsupported('write source')
        new = Seq(data.ps + ps, data.et or CH)
        if 'file' in v.f and v.get('ok') is not True and not S.entails(st.pc, v.get('ok')):
            new = vite(v.get('ok'), new, data)
        ip.write(st, dref, new)
        return ref
    raise Unsupported('stream member ' + name)


# ---------------------------------------------------------------- operators
def operator(ip, st, n, x, argn):
    name = x['referencedDecl'].get('name') if x.get('kind') == 'DeclRefExpr' else None
    if name is None:
        raise Unsupported('operator callee')
    op = name[len('operator'):]
    h = FUNCTIONS.get(name)
    if h is not None:
        r = h(ip, st, n, argn)
        if r is not NotImplemented:
            return r
    if op == '<<' or op == '>>':
        lt_ = strip_ref(ip.types.of(argn[0]))
        if lt_.k == 'ostream' and op == '<<':
            r = ip.lv_or_temp(argn[0], st)
            v = ip.read(st, r)
            if isinstance(v, RecVal) and v.get('sink') is True if isinstance(v, RecVal) and 'sink' in v.f else False:
                return r
            raise Unsupported('formatted output')
        if isinstance(ip.types.of(argn[0]), T) and lt_.k == 'bitset':
            v = ip.eval(argn[0], st)
            k = ip.eval(argn[1], st)
            w = v.get('n')
            val = v.get('v')
            if isinstance(k, int):
                r = norm(I(val) * (1 << k) % (1 << w)) if op == '<<' else norm(I(val) / (1 << k))
                return RecVal('bitset', {'v': r, 'n': w})
        raise Unsupported('shift operator')
    if op == '[]':
        ref = ip.lv_or_temp(argn[0], st)
        v = ip.read(st, ref)
        i = ip.eval(argn[1], st)
        if isinstance(v, Seq):
            if isinstance(i, PosVal):
                i = i.term()
            check_index(ip, st, v, i)
            return ref.idx(i)
        if isinstance(v, MapVal):
            return ip.new_cell(st, map_get(ip, st, v, i), None)
        if isinstance(v, RecVal) and v.cls == 'bitset' and isinstance(i, int):
            if not 0 <= i < v.get('n'):
                ip.oblige(st, False, 'safety: bit position in range in ' + ip.where())
            return ref.idx(i)
        raise Unsupported('operator[] on %s' % type(v).__name__)
    if op == '=':
        t0 = ip.types.of(argn[0])
        tgt = argn[0]
        ref = ip.lv(tgt, st) if tgt.get('valueCategory') in ('lvalue', 'xvalue') or tgt.get('kind') == 'MaterializeTemporaryExpr' else ip.lv(tgt, st)
        val = ip.eval(argn[1], st)
        t = ip.ltype(ref) or strip_ref(t0)
        if strip_ref(t0).k == 'string':
            val = as_str(ip, st, val)
        ip.write(st, ref, ip.convert(val, ip.types.of(argn[1]), strip_ref(t)))
        return ref
    if op == '->':
        ref = ip.lv_or_temp(argn[0], st)
        v = ip.read(st, ref)
        if isinstance(v, IterVal):
            return PtrVal([(True, iter_ref(ip, st, v))])
        if isinstance(v, OptVal):
            return PtrVal([(True, ref.opt())])
        if isinstance(v, PtrVal):
            return v
        raise Unsupported('operator->')
    if op == '*' and len(argn) == 1:
        ref = ip.lv_or_temp(argn[0], st)
        v = ip.read(st, ref)
        if isinstance(v, IterVal):
            return iter_ref(ip, st, v)
        if isinstance(v, OptVal):
            ip.oblige(st, v.has, 'safety: optional has a value in ' + ip.where())
            return ref.opt()
        if isinstance(v, PtrVal):
            return ip.deref(v, st)
        raise Unsupported('operator*')
    if op in ('++', '--') :
        ref = ip.lv_or_temp(argn[0], st)
        v = ip.read(st, ref)
        d = 1 if op == '++' else -1
        ip.write(st, ref, iter_add(ip, st, v, d))
        return v if len(argn) > 1 else ref
    if op == '!':
        v = ip.eval(argn[0], st)
        if isinstance(v, RecVal) and v.cls in ('istream', 'ostream'):
            return bnot(v.get('ok')) if 'ok' in v.f else False
        return bnot(ip.convert(v, None, BOOL))
    if op == '()':
        cl = ip.eval(argn[0], st)
        if isinstance(cl, Closure):
            refs = [ip.lv_or_temp(a, st) for a in argn[1:]]
            return ip.call_closure(cl, refs, st)
        raise Unsupported('call of %s' % type(cl).__name__)
    if op in ('+=', '-=', '|=', '&=', '^='):
        ref = ip.lv_or_temp(argn[0], st)
        v = ip.read(st, ref)
        y = ip.eval(argn[1], st)
        v = ip.read(st, ref)
        if isinstance(v, Seq) and op == '+=':
            y = as_str(ip, st, y)
            ip.write(st, ref, cat(v, y))
            return ref
        if isinstance(v, IterVal):
            ip.write(st, ref, iter_add(ip, st, v, y if op == '+=' else sub(0, y)))
            return ref
        if isinstance(v, RecVal) and v.cls == 'bitset' and isinstance(y, RecVal):
            w = v.get('n')
            a, b = bv_of_any(v.get('v'), w), bv_of_any(y.get('v'), w)
            r = simp({'|=': a | b, '&=': a & b, '^=': a ^ b}[op])
            ip.write(st, ref, RecVal('bitset', {'v': r.as_long() if z3.is_bv_value(r) else norm(z3.BV2Int(r)), 'n': w}))
            return ref
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            r = ip.binop(op[0], v, y, BOOL, st)
            ip.write(st, ref, ip.convert(r, None, BOOL))
            return ref
        raise Unsupported('operator' + op)
    a = ip.eval(argn[0], st)
    b = ip.eval(argn[1], st) if len(argn) > 1 else None
    if op in ('==', '!=', '<', '>', '<=', '>='):
        if isinstance(a, PtrVal) and isinstance(b, Seq):
            a = as_str(ip, st, a)
        if isinstance(b, PtrVal) and isinstance(a, Seq):
            b = as_str(ip, st, b)
        if isinstance(a, (IterVal,)) and isinstance(b, IterVal):
            # reverse iterators compare by distance from rbegin as well
            return ip.compare(op, a.pos, b.pos)
        return ip.compare(op, a, b, ip.types.of(argn[0]))
    if op == '+':
        if isinstance(a, IterVal):
            return iter_add(ip, st, a, b)
        if isinstance(a, Seq) or isinstance(b, Seq):
            return cat(as_str(ip, st, a), as_str(ip, st, b))
        return add(a, b)
    if op == '-':
        if isinstance(a, IterVal) and isinstance(b, IterVal):
            return sub(a.pos, b.pos)
        if isinstance(a, IterVal):
            return iter_add(ip, st, a, sub(0, b))
        if isinstance(a, (int, z3.ArithRef)):
            return sub(a, b)
    if op == '|' and isinstance(a, int) and isinstance(b, int):
        return a | b
    raise Unsupported('operator' + op)


def bv_of_any(v, w):
    return resize(v, w, False) if is_bv(v) else bv_of(v, w)


def bit_of(val, i):
    if isinstance(val, int):
        return bool((val >> i) & 1)
    if is_bv(val):
        return norm(z3.Extract(i, i, val) == 1)
    return norm((I(val) / (1 << i)) % 2 == 1)


def object_size(t):
    if t.k == 'float':
        return 4 if t.name == 'float' else 8
    if t.k in ('int', 'enum') and t.bits:
        return t.bits // 8
    raise Unsupported('object representation of %r' % t)


def object_bytes(ip, v, t):
    """the bytes of a scalar object, as char values, little endian"""
    t = strip_ref(t)
    w = object_size(t)
    if t.k == 'float':
        f = z3.Function('fbyte%d' % w, z3.RealSort(), z3.IntSort(), z3.IntSort())
        F.bounds['fbyte%d' % w] = (-128, 127)
        return [f(R(v), z3.IntVal(k)) for k in range(w)]
    return [ip.convert(norm((I(v) / (1 << 8 * k)) % 256) if not isinstance(v, int) else (v >> 8 * k) & 255, T('int', bits=32, signed=True), CH) for k in range(w)]


def object_from(ip, bs, t):
    if t.k == 'float':
        x = None
        for k, b in enumerate(bs):
            if isz(b) and b.decl().name() == 'fbyte%d' % len(bs) and z3.is_int_value(b.arg(1)) and b.arg(1).as_long() == k and (x is None or x.eq(b.arg(0))):
                x = b.arg(0)
            else:
                break
        else:
            return x
        return z3.Function('float_of_bytes%d' % len(bs), *([z3.IntSort()] * len(bs) + [z3.RealSort()]))(*[I(b) for b in bs])
    us = [I(norm(I(b) % 256)) for b in bs]
    r = norm(sum(u * (1 << 8 * k) for k, u in enumerate(us)))
    if us[0].decl().kind() == z3.Z3_OP_MOD:
        x = us[0].arg(0)            # the bytes of one number, in order, make the number (modulo its width)
        if all(same(u, norm((x / (1 << 8 * k)) % 256)) for k, u in enumerate(us)):
            r = x
    return ip.convert(r, T('int', bits=64, signed=False), t)


def set_bit(val, i, b):
    on, off = (val | (1 << i), val & ~(1 << i)) if isinstance(val, int) else (None, None)
    if on is None and is_bv(val):
        m = z3.BitVecVal(1 << i, val.size())
        on, off = simp(val | m), simp(val & ~m)
    elif on is None:
        off = norm(I(val) - z3.If(bit_of(val, i), 1 << i, 0) if not isinstance(bit_of(val, i), bool) else I(val) - ((1 << i) if bit_of(val, i) else 0))
        on = norm(I(off) + (1 << i))
    if isinstance(b, bool):
        return on if b else off
    return vite(b, on, off)


def binary_text(ip, st, s, what):
    """value of a text of '0'/'1' characters, most significant first"""
    ps = []
    for p in s.ps:
        if isinstance(p, Loop):
            n = norm(I(p.hi) - I(p.lo))
            if not isinstance(n, int):
                n = S.fixed(st.pc, n)
            if n is None or n > 64:
                raise Unsupported(what + ' of a text of symbolic length')
            for k in range(n):
                ps.extend(p.at(norm(I(p.lo) + k)))
        else:
            ps.append(p)
    n = plen(ps)
    if not isinstance(n, int):
        raise Unsupported(what + ' of a text of symbolic length')
    terms = []
    bits = []
    at = n
    for p in ps:
        if isinstance(p, Bits):
            at -= p.n
            terms.append(I(p.v) * (1 << at))
            continue
        if not isinstance(p, U):
            raise Unsupported(what + ' of an opaque text')
        at -= 1
        b = bit_char(p.v, None) if False else p.v
        if isinstance(b, int):
            if b not in (48, 49):
                raise Unsupported(what + ' of a text that is not binary')
            if b == 49:
                terms.append(z3.IntVal(1 << at))
            continue
        x = char_bit(ip, st, b)
        if x is None:
            raise Unsupported(what + ' of a text that may not be binary')
        terms.append(z3.If(x, z3.IntVal(1 << at), z3.IntVal(0)))
        bits.append((len(terms) - 1, at, x))
    terms = rejoin(terms, bits)
    return n, (z3.Sum(terms) if len(terms) > 1 else terms[0] if terms else 0)


def bit_parts(x):
    """(value, bit number) of a condition that says that a bit of an integer is set"""
    if not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EQ):
        return None
    a, b = x.children()
    if z3.is_int_value(a):
        a, b = b, a
    if not (z3.is_int_value(b) and b.as_long() == 1 and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(a.arg(1)) and a.arg(1).as_long() == 2):
        return None
    v = a.arg(0)
    if z3.is_app(v) and v.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_DIV) and z3.is_int_value(v.arg(1)):
        d = v.arg(1).as_long()
        if d > 0 and d & (d - 1) == 0:
            return v.arg(0), d.bit_length() - 1
        return None
    return v, 0


def rejoin(terms, bits):
    """weighted sum of consecutive bits of one integer = that slice of it"""
    out = list(terms)
    i = 0
    while i < len(bits):
        k, at, x = bits[i]
        b = bit_parts(x)
        j = i + 1
        if b is not None:
            v, hi = b
            lo = hi
            while j < len(bits) and bits[j][1] == bits[j - 1][1] - 1:
                c = bit_parts(bits[j][2])
                if c is None or c[1] != lo - 1 or not c[0].eq(v):
                    break
                lo -= 1
                j += 1
            if j - i > 1:
                w = bits[j - 1][1]
                part = norm(I(v) / (1 << lo) if lo else v)
                out[k] = I(norm(I(part) % (1 << (hi - lo + 1)))) * (1 << w)
                for m in range(i + 1, j):
                    out[bits[m][0]] = None
        i = j
    return [t for t in out if t is not None]


def char_bit(ip, st, b):
    b = bv2i(b)
    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = b.children()
        if z3.is_int_value(x) and z3.is_int_value(y):
            x, y = x.as_long(), y.as_long()
            if (x, y) == (49, 48):
                return c
            if (x, y) == (48, 49):
                return z3.Not(c)
    if S.entails(st.pc, z3.Or(b == 48, b == 49)):
        return b == 49
    return None


def bv2i(b):
    return norm(z3.BV2Int(b)) if is_bv(b) else b


# ---------------------------------------------------------------- free functions
def function(ip, st, n, x, argn):
    if x.get('kind') != 'DeclRefExpr':
        raise Unsupported('call through ' + str(x.get('kind')))
    name = x['referencedDecl'].get('name')
    argn = args_of(argn)
    h = FUNCTIONS.get(name)
    if h is not None:
        r = h(ip, st, n, argn)
        if r is not NotImplemented:
            return r
    t = ip.types.of(n)
    if name in ('move', 'forward', 'as_const', 'ref', 'cref'):
        if argn[0].get('valueCategory') in ('lvalue', 'xvalue'):
            return ip.lv_or_temp(argn[0], st)
        return ip.eval(argn[0], st)
    if name == 'get':
        import re as _re
        ref = ip.lv_or_temp(argn[0], st)
        idx = tuple_index(ip, n, x, argn)
        v = ip.read(st, ref)
        if not (isinstance(v, RecVal) and v.cls == 'tuple'):
            raise Unsupported('std::get on %s' % type(v).__name__)
        return ref.field(str(idx))
    if name in ('stoul', 'stoull', 'stoi', 'stol', 'stoll'):
        s = as_str(ip, st, ip.eval(argn[0], st))
        base = ip.eval(argn[2], st) if len(argn) > 2 else 10
        if base == 2:
            n_, v_ = binary_text(ip, st, s, name)
            ip.may_throw(st, n_ > 0, 'std::%s of an empty text' % name)
            lim = {'stoi': 31, 'stol': 63, 'stoll': 63}.get(name, 64)
            if n_ > lim:
                raise Unsupported(name + ' beyond the range')
            return norm(v_) if isz(v_) else v_
        raise Unsupported('library function ' + name)
    if name == 'make_reverse_iterator':
        it = ip.eval(argn[0], st)
        nn = seq_len(ip.read(st, it.ref))
        return IterVal(it.ref, sub(nn, it.pos), True)
    if name in ('next', 'prev'):
        it = ip.eval(argn[0], st)
        k = ip.eval(argn[1], st) if len(argn) > 1 else 1
        return iter_add(ip, st, it, k if name == 'next' else sub(0, k))
    if name == 'distance':
        a, b = ip.eval(argn[0], st), ip.eval(argn[1], st)
        return sub(b.pos, a.pos)
    if name in ('begin', 'end', 'size', 'cbegin', 'cend', 'rbegin', 'rend') and len(argn) == 1:
        ref = ip.lv_or_temp(argn[0], st)
        return seq_method(ip, st, n, name, ref, ip.read(st, ref), [], strip_ref(ip.types.of(argn[0])))
    if name in ('find_if', 'find', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count_if'):
        a, b = ip.eval(argn[0], st), ip.eval(argn[1], st)
        if not isinstance(a, IterVal):
            raise Unsupported('find over %s' % type(a).__name__)
        p = ip.eval(argn[2], st)
        if name == 'find':
            seq = ip.read(st, a.ref)
            nn = seq_len(seq)
            pr = lambda j: ip.compare('==', seq_get(seq, sub(sub(nn, 1), j) if a.rev else j), p)
        else:
            if not isinstance(p, Closure):
                raise Unsupported('predicate')
            def pr(j, p=p):
                r = eval_pred(ip, st, p, a, b, j)
                return bnot(r) if name in ('find_if_not', 'all_of') else r
            if name == 'count_if':
                raise Unsupported('count_if')
        r = find_core(ip, st, a.ref, None, a.pos, b.pos, pr)
        if name in ('find', 'find_if', 'find_if_not'):
            return IterVal(a.ref, r, a.rev)
        found = lt(r, b.pos)
        return found if name == 'any_of' else bnot(found)
    if name in ('lower_bound', 'upper_bound'):
        a, b = ip.eval(argn[0], st), ip.eval(argn[1], st)
        vr = ip.lv_or_temp(argn[2], st)
        seq = ip.read(st, a.ref)
        if len(argn) > 3:
            cl = ip.eval(argn[3], st)
            def pr(j):
                s0 = st.clone()
                if isz(j):
                    s0.assume(z3.And(I(a.pos) <= j, j < I(b.pos)))
                er = a.ref.idx(j)
                rr = [er, vr] if name == 'lower_bound' else [vr, er]
                r = closure_pure(ip, s0, cl, rr, j)
                return bnot(r) if name == 'lower_bound' else r
        else:
            def pr(j):
                e = seq_get(seq, j)
                v = ip.read(st, vr)
                return bnot(ip.compare('<', e, v)) if name == 'lower_bound' else ip.compare('<', v, e)
        # specified for partitioned ranges; the first index whose element fails the "less" test
        r = find_core(ip, st, a.ref, None, a.pos, b.pos, pr)
        return IterVal(a.ref, r, a.rev)
    if name == 'max_element' or name == 'min_element':
        a, b = ip.eval(argn[0], st), ip.eval(argn[1], st)
        seq = ip.read(st, a.ref)
        nn = seq_len(seq)
        if isinstance(nn, int) and nn <= 64:
            if nn == 0:
                return b
            bi, bvv = 0, seq_get(seq, 0)
            for j in range(1, nn):
                e = seq_get(seq, j)
                c = ip.compare('<', bvv, e) if name == 'max_element' else ip.compare('<', e, bvv)
                bi, bvv = vite(c, j, bi), vite(c, e, bvv)
            return IterVal(a.ref, bi)
        if len(argn) > 2:
            raise Unsupported('max_element with comparator')
        r = fresh_int('maxel', 0)
        j = index_var('q')
        st.assume(z3.And(r >= I(a.pos), r <= I(b.pos), z3.Implies(I(a.pos) < I(b.pos), r < I(b.pos))))
        c = ip.compare('<', seq_get(seq, r), seq_get(seq, j)) if name == 'max_element' else ip.compare('<', seq_get(seq, j), seq_get(seq, r))
        st.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= I(a.pos), j < I(b.pos)), z3.Not(B(c)))))
        return IterVal(a.ref, r)
    if name == 'clamp':
        v, lo, hi = [ip.eval(a, st) for a in argn[:3]]
        v, lo, hi = [ip.convert(q, None, strip_ref(t)) for q in (v, lo, hi)]
        return vite(ip.compare('<', v, lo), lo, vite(ip.compare('<', hi, v), hi, v))
    if name in ('max', 'min') and len(argn) == 2:
        a, b = ip.eval(argn[0], st), ip.eval(argn[1], st)
        return minmax(ip, a, b, name == 'max')
    if name in ('max', 'min') and not argn:
        tt = strip_ref(t)
        if tt.k == 'int':
            lo, hi = (-(1 << (tt.bits - 1)), (1 << (tt.bits - 1)) - 1) if tt.signed else (0, (1 << tt.bits) - 1)
            return hi if name == 'max' else lo
        if tt.k == 'float':
            import struct
            if name == 'max':
                return Fraction((2 ** 53 - 1) * 2 ** 971) if tt.name == 'double' else Fraction((2 ** 24 - 1) * 2 ** 104)
            return Fraction(1, 2 ** 1022) if tt.name == 'double' else Fraction(1, 2 ** 126)
    if name == 'lowest' and not argn:
        tt = strip_ref(t)
        return -Fraction((2 ** 24 - 1) * 2 ** 104) if tt.name == 'float' else -Fraction((2 ** 53 - 1) * 2 ** 971)
    if name == 'epsilon':
        return Fraction(1, 2 ** 52) if strip_ref(t).name == 'double' else Fraction(1, 2 ** 23)
    if name in ('abs', 'fabs', 'labs'):
        v = ip.eval(argn[0], st)
        return abs_(v)
    if name in ('floor', 'ceil', 'round', 'trunc'):
        v = ip.convert(ip.eval(argn[0], st), ip.types.of(argn[0]), T('float', 'double'))
        if name == 'trunc':
            return norm(R(ip.trunc(v)))
        return {'floor': floor_, 'ceil': ceil_, 'round': round_}[name](v)
    if name in ('lround', 'llround'):
        v = ip.convert(ip.eval(argn[0], st), None, T('float', 'double'))
        return ip.trunc(round_(v))
    if name == 'pow':
        a, b = ip.eval(argn[0], st), ip.eval(argn[1], st)
        return pow_(ip, st, a, b)
    if name in ('sqrt', 'sin', 'cos', 'tan', 'log', 'log2', 'log10', 'exp', 'asin', 'acos', 'atan'):
        v = ip.convert(ip.eval(argn[0], st), None, T('float', 'double'))
        if isinstance(v, Fraction):
            import math
            if name == 'log2' and v > 0 and v.denominator == 1 and (int(v) & (int(v) - 1)) == 0:
                return Fraction(int(v).bit_length() - 1)
            if name == 'sqrt' and v >= 0:
                r = math.isqrt(v.numerator)
                if r * r == v.numerator and v.denominator == 1:
                    return Fraction(r)
        facts = None
        if name == 'sqrt':
            facts = lambda a: z3.Implies(a.children()[0] >= 0, z3.And(a >= 0, a * a == a.children()[0]))
        if name == 'log2':
            facts = lambda a: z3.And([z3.Implies(a.children()[0] == (1 << j), a == j) for j in range(32)])
        if name in ('sin', 'cos'):
            facts = lambda a: z3.And(a >= -1, a <= 1)
        return real_un('fn.' + name, facts)(v)
    if name == 'swap':
        r1, r2 = ip.lv(argn[0], st), ip.lv(argn[1], st)
        a, b = ip.read(st, r1), ip.read(st, r2)
        ip.write(st, r1, b)
        ip.write(st, r2, a)
        return None
    if name == 'memcpy':
        d, s_, k = [ip.eval(a, st) for a in argn]
        rd, rs = ip.deref(d, st), ip.deref(s_, st)
        vd, vs = ip.read(st, rd), ip.read(st, rs)
        k = k if isinstance(k, int) else conc(simp(I(k)))
        bs = vs.ps if isinstance(vs, Seq) else [U(b) for b in object_bytes(ip, vs, ip.ltype(rs))]
        if not isinstance(k, int) or not all(isinstance(b, U) for b in bs) or isinstance(vs, Seq) and isinstance(vd, Seq):
            raise Unsupported('memcpy of this shape')
        ip.oblige(st, k <= len(bs), 'safety: memcpy stays inside the source in ' + ip.where())
        if k > len(bs):
            raise Dead()
        if isinstance(vd, Seq):
            nn = seq_len(vd)
            ip.oblige(st, le(k, nn), 'safety: memcpy stays inside the destination in ' + ip.where())
            ip.write(st, rd, Seq(conv_elems(ip, Seq(bs[:k], CH), vd.et or CH).ps + ps_slice(vd.ps, k, nn), vd.et))
        else:
            t = strip_ref(ip.ltype(rd))
            w = object_size(t)
            ip.oblige(st, k == w, 'safety: memcpy fills the object in ' + ip.where())
            ip.write(st, rd, object_from(ip, [b.v for b in bs[:k]], t))
        return d
    if name == 'reverse':
        a, b = ip.eval(argn[0], st), ip.eval(argn[1], st)
        if isinstance(a, PtrVal):
            ra = ip.deref(a, st)
            a = IterVal(ra, 0)
            rb = b.alts[0][1]
            if rb.path and rb.path[-1][0] == 'i' and LRef(rb.cell, rb.path[:-1]).__repr__() == ra.__repr__():
                b = IterVal(ra, rb.path[-1][1])
            else:
                raise Unsupported('reverse of pointer range')
        seq = ip.read(st, a.ref)
        nn = seq_len(seq)
        if same(a.pos, 0) and same(b.pos, nn):
            ip.write(st, a.ref, seq_reverse(seq))
            return None
        ip.write(st, a.ref, Seq(ps_slice(seq.ps, 0, a.pos) + seq_reverse(seq_slice(seq, a.pos, b.pos)).ps + ps_slice(seq.ps, b.pos, nn), seq.et))
        return None
    if name == 'copy':
        a, b = ip.eval(argn[0], st), ip.eval(argn[1], st)
        d = ip.eval(argn[2], st)
        if isinstance(a, IterVal) and isinstance(d, IterVal):
            src = ip.read(st, a.ref)
            s = iter_slice(ip, st, src, a, b)
            dst = ip.read(st, d.ref)
            k = sub(b.pos, a.pos)
            nn = seq_len(dst)
            ip.oblige(st, le(add(d.pos, k), nn), 'safety: copy fits the destination in ' + ip.where())
            s = conv_elems(ip, s, dst.et)
            ip.write(st, d.ref, Seq(ps_slice(dst.ps, 0, d.pos) + s.ps + ps_slice(dst.ps, add(d.pos, k), nn), dst.et))
            return IterVal(d.ref, add(d.pos, k))
        if isinstance(a, IterVal) and isinstance(d, Opaque) and d.tag == 'back_inserter':
            src = ip.read(st, a.ref)
            s = iter_slice(ip, st, src, a, b)
            dst = ip.read(st, d.args[0])
            ip.write(st, d.args[0], cat(dst, conv_elems(ip, s, dst.et)))
            return d
        raise Unsupported('copy form')
    if name == 'fill':
        a, b = ip.eval(argn[0], st), ip.eval(argn[1], st)
        v = ip.eval(argn[2], st)
        dst = ip.read(st, a.ref)
        if same(a.pos, 0) and same(b.pos, seq_len(dst)):
            ip.write(st, a.ref, fill(seq_len(dst), ip.convert(v, None, dst.et), dst.et))
            return None
        raise Unsupported('fill range')
    if name == 'memcpy':
        p, q = ip.eval(argn[0], st), ip.eval(argn[1], st)
        k = ip.eval(argn[2], st)
        return memcpy(ip, st, p, q, k)
    if name == 'back_inserter':
        return Opaque('back_inserter', (ip.lv(argn[0], st),))
    if name in ('make_pair', 'make_tuple'):
        return RecVal('tuple', {str(i): ip.eval(a, st) for i, a in enumerate(argn)})
    if name == 'make_optional':
        return OptVal(True, ip.eval(argn[0], st))
    if name == 'to_string':
        v = ip.eval(argn[0], st)
        if isinstance(v, int):
            return mkstr(str(v), CH)
        f = z3.Function('to_string', z3.IntSort(), Str)
        if is_real(v):
            raise Unsupported('to_string of a real')
        term = f(I(v))
        g = z3.Function('to_string#', z3.IntSort(), z3.IntSort())
        if 'to_string#' not in F.bounds:
            F.bounds['to_string#'] = (1, 20)
            F.add('to_string#', lambda a: z3.And(a >= 1, a <= 20))
            F.add('to_string', lambda a: z3.Function('to_string!inv', Str, z3.IntSort())(a) == a.children()[0])
        w = index_var('c')
        cf = z3.Function('to_string.c', z3.IntSort(), z3.IntSort(), z3.IntSort())
        return Seq([Loop(w, 0, g(I(v)), [U(cf(I(v), w))])], CH, term)
    if name == 'all_equal':
        pass
    if name in ('isdigit', 'isspace', 'isalpha'):
        v = ip.eval(argn[0], st)
        if name == 'isdigit':
            c = band(le(48, v), le(v, 57))
            return int(c) if isinstance(c, bool) else I(c)
    if name == 'accumulate':
        raise Unsupported('accumulate')
    raise Unsupported('library function %s' % name)


def eval_pred(ip, st, cl, a, b, j):
    seqlen = seq_len(ip.read(st, a.ref)) if a.rev else None
    ix = sub(sub(seqlen, 1), j) if a.rev else j
    s0 = st.clone()
    if isz(j):
        s0.assume(z3.And(I(a.pos) <= j, j < I(b.pos)))
    return closure_pure(ip, s0, cl, [a.ref.idx(ix)], j)


def closure_pure(ip, s0, cl, refs, j):
    before = dict(s0.cells)
    if isz(j):
        V.LOOPVARS.append(j)
    nth = [len(t) for t in ip.throws]
    ip.probing += 1      # obligations inside predicates are assumed only while probing; re-raised below
    try:
        r = ip.call_closure(cl, refs, s0)
    finally:
        ip.probing -= 1
        if isz(j):
            V.LOOPVARS.pop()
    for k, v in before.items():
        if k == 'ret':
            continue
        w = s0.cells.get(k, v)
        if w is not v and not same(w, v):
            raise Unsupported('predicate with side effects')
    if isinstance(r, LRef):
        r = ip.read(s0, r)
    return r if isinstance(r, bool) else norm(B(r))


def tuple_index(ip, n, x, argn):
    """which element std::get<...> selects: from the AST's template arguments or the result type"""
    rd = x.get('referencedDecl', {})
    tup = strip_ref(ip.types.of(argn[0]))
    rt = strip_ref(ip.types.of(n))
    # clang's JSON omits the index; element addressed by type when unambiguous, else by the function's mangled name
    c = [i for i, a in enumerate(tup.args) if a.key() == rt.key()]
    fr = rd.get('foundReferencedDecl', {})
    m = None
    for key in ('mangledName',):
        mn = rd.get(key) or ''
        import re as _re
        g = _re.match(r'_ZSt3getILm(\d+)E', mn)
        if g:
            m = int(g.group(1))
    if m is not None:
        return m
    k = ip.p.get_index.get((ip.fr.tu, x.get('id'))) if hasattr(ip.p, 'get_index') else None
    if k is not None:
        return k
    if len(c) == 1:
        return c[0]
    raise Unsupported('std::get index')


def memcpy(ip, st, p, q, k):
    raise Unsupported('memcpy')


# ---------------------------------------------------------------- constructors
def construct(ip, st, n, t, args):
    args = args_of(args)
    if t.k == 'nullopt':
        return NULLOPT
    if t.k == 'iter':
        v = ip.eval(args[0], st) if args else UNDEF
        return v
    if not args:
        return ip.default(t, st)
    if t.k == 'string':
        v = ip.eval(args[0], st)
        if len(args) == 1:
            if isinstance(v, PtrVal):
                return as_str(ip, st, v)
            return v
        w = ip.eval(args[1], st)
        if isinstance(v, IterVal) and isinstance(w, IterVal):
            src = ip.read(st, v.ref)
            s = iter_slice(ip, st, src, v, w)
            return Seq(conv_elems(ip, s, CH).ps, CH, s.strterm)
        if isinstance(v, (PtrVal, Seq)) and isinstance(w, (int, z3.ArithRef)):
            s = as_str(ip, st, v)
            if same(w, seq_len(s)):
                return s
            return seq_slice(s, 0, w)
        if isinstance(v, (int, z3.ArithRef)) and isinstance(w, (int, z3.ArithRef)):
            return fill(v, w, CH)
        raise Unsupported('string constructor')
    if t.k == 'vector':
        et = t.args[0]
        at = strip_ref(ip.types.of(args[0]))
        v = ip.eval(args[0], st)
        if len(args) == 1:
            if isinstance(v, Seq):
                return conv_elems(ip, v, et) if v.ps else Seq([], et)
            if isinstance(v, (int, z3.ArithRef)):
                return fill(v, ip.default(et, st), et)
            raise Unsupported('vector constructor')
        w = ip.eval(args[1], st)
        if isinstance(v, IterVal) and isinstance(w, IterVal):
            src = ip.read(st, v.ref)
            return conv_elems(ip, iter_slice(ip, st, src, v, w), et)
        if isinstance(v, (int, z3.ArithRef)):
            return fill(v, ip.convert(w, ip.types.of(args[1]), et), et)
        if isinstance(v, Seq):
            return v
        raise Unsupported('vector constructor')
    if t.k == 'optional':
        v = ip.eval(args[0], st)
        return ip.convert(v, ip.types.of(args[0]), t)
    if t.k == 'tuple':
        v0 = ip.eval(args[0], st)
        if len(args) == 1 and isinstance(v0, RecVal) and v0.cls == 'tuple' and len(t.args) != 1:
            return RecVal('tuple', {k: ip.convert(force(x), None, t.args[int(k)]) for k, x in v0.f.items()})
        return RecVal('tuple', {str(i): ip.convert(v0 if i == 0 else ip.eval(a, st), ip.types.of(a), t.args[i]) for i, a in enumerate(args)})
    if t.k == 'bitset':
        v = ip.eval(args[0], st)
        w = t.bits
        if isinstance(v, RecVal):
            return v
        if isinstance(v, Seq) or isinstance(v, PtrVal):
            s = as_str(ip, st, v)
            n_, v_ = binary_text(ip, st, s, 'bitset')
            if n_ > w:
                raise Unsupported('bitset from a longer text')
            return RecVal('bitset', {'v': norm(v_), 'n': w})
        if isinstance(v, int):
            return RecVal('bitset', {'v': v & ((1 << w) - 1), 'n': w})
        return RecVal('bitset', {'v': norm(wrap(v, w, False)), 'n': w})
    if t.k == 'map':
        v = ip.eval(args[0], st)
        if isinstance(v, MapVal):
            return v
        if isinstance(v, Seq):
            return MapVal([(p.v.get('0'), p.v.get('1')) for p in v.ps])
    if t.k == 'other' and 'function' in t.name:
        return ip.eval(args[0], st)
    if t.k in ('istream', 'ostream'):
        h = METHODS.get('stream_ctor')
        if h is not None:
            return h(ip, st, n, t, args)
        return open_stream(ip, st, t, args)
    if len(args) == 1:
        v = ip.eval(args[0], st)
        if t.k in ('int', 'bool', 'float', 'enum', 'ptr', 'json'):
            return ip.convert(v, ip.types.of(args[0]), t)
        if t.k == 'other':
            return v
    raise Unsupported('construction of %r' % t)
