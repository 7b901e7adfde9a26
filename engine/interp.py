"""Symbolic semantics of the extracted C++ AST, generating verification conditions.

State merging keeps one state per outcome; loops over symbolic ranges are summarised by
closed-form invariants whose base and step are proved (see loops.py); calls to functions
under contract use the contract, everything else is inlined.
"""
import z3, time, re
from fractions import Fraction
from . import vals as V
from .vals import *
from . import solver as S
from .ctypes_ import T, Types, strip_ref


MAXLEN = (1 << 31) - 1   # assumption: containers and strings have fewer than 2^31 elements


class Dead(Exception):
    """the current path is infeasible / has left normal control flow"""


class State:
    __slots__ = ('cells', 'pc')

    def __init__(self, cells=None, pc=None):
        self.cells = cells if cells is not None else {}
        self.pc = pc if pc is not None else []

    def clone(self):
        return State(dict(self.cells), list(self.pc))

    def become(self, o):
        self.cells = o.cells
        self.pc = o.pc

    def assume(self, c):
        c = norm(c)
        if c is True:
            return self
        if c is False:
            self.pc.append(ZFALSE)
            return self
        self.pc.append(B(c))
        return self


def pow2_factor(t, d=0):
    """a power of two that divides t"""
    if z3.is_int_value(t):
        v = t.as_long()
        return v & -v if v else 1 << 64
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD and d < 8:
        return min(pow2_factor(c, d + 1) for c in t.children())
    if k == z3.Z3_OP_MUL and d < 8:
        r = 1
        for c in t.children():
            r *= pow2_factor(c, d + 1)
        return r
    return 1


def has_choice(t, d=0):
    k = t.decl().kind()
    return k == z3.Z3_OP_ITE or (d < 6 and k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) and any(has_choice(c, d + 1) for c in t.children()))


def merge_states(sts):
    sts = [s for s in sts if s is not None]
    if not sts:
        return None
    r = sts[0]
    for s in sts[1:]:
        r = merge2(r, s)
    return r


def merge2(a, b):
    i = 0
    while i < len(a.pc) and i < len(b.pc) and (a.pc[i] is b.pc[i] or a.pc[i].eq(b.pc[i])):
        i += 1
    ra, rb = a.pc[i:], b.pc[i:]
    ca = band(*ra) if ra else True
    cb = band(*rb) if rb else True
    pc = a.pc[:i]
    c = ca
    if ca is True or cb is True:
        if ca is True and cb is True:
            pass
        elif ca is True:
            c = bnot(cb)
    # prefer the first differing atom when it splits the two
    if ra and rb:
        n0 = norm(z3.Not(ra[0]))
        if isz(n0) and (n0.eq(simp(rb[0])) or simp(rb[0]).eq(n0)):
            c = ra[0]
        elif len(ra) > 1 or len(rb) > 1:
            # look for complementary atoms
            for x in ra:
                nx = norm(z3.Not(x))
                if isz(nx) and any(nx.eq(simp(y)) for y in rb):
                    c = x
                    break
    d = bor(ca, cb)
    if d is not True:
        pc = pc + [B(d)]
    cells = {}
    for k, v in a.cells.items():
        if k in b.cells:
            w = b.cells[k]
            cells[k] = v if v is w else vite(c, v, w)
    return State(cells, pc)


class Frame:
    __slots__ = ('env', 'this', 'rets', 'tu', 'decl', 'retref', 'name', 'caps', 'depth')

    def __init__(self, tu, name):
        self.env = {}; self.this = None; self.rets = []; self.tu = tu; self.decl = None; self.retref = False
        self.name = name; self.caps = None; self.depth = 0


class LoopCtx:
    def __init__(self):
        self.breaks = []; self.conts = []


class Obl:
    __slots__ = ('name', 'status', 'info', 'fn')

    def __init__(self, name, status, info, fn):
        self.name = name; self.status = status; self.info = info; self.fn = fn


def has_ref(n):
    return isinstance(n, dict) and (n.get('kind') == 'DeclRefExpr' or any(has_ref(x) for x in n.get('inner', ())))


def const_leaves(v):
    """the values of an if-then-else tree over constants; None for any other term"""
    if isinstance(v, (int, bool)):
        return [int(v)]
    if not isinstance(v, z3.ArithRef) or not v.is_int():
        return None
    if z3.is_int_value(v):
        return [v.as_long()]
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        l, r = const_leaves(v.arg(1)), const_leaves(v.arg(2))
        return l + r if l and r and len(l) + len(r) <= 16 else None
    return None


def map_leaves(v, f):
    if isinstance(v, (int, bool)):
        return f(int(v))
    if z3.is_int_value(v):
        return f(v.as_long())
    l, r = map_leaves(v.arg(1), f), map_leaves(v.arg(2), f)
    return l if same(l, r) else norm(z3.If(v.arg(0), I(l), I(r)))


class Interp:
    symshift = None
    nonlinear = None
    MAXUNROLL = 700
    MAXDEPTH = 60

    def __init__(self, prog):
        self.p = prog
        self.types = Types(prog)
        self.loopspecs = {}        # qualified name -> {ordinal: LoopSpec}
        self.contracts = {}        # qualified name -> contract object
        self.obls = []
        self.frames = []
        self.loops = []
        self.throws = [[]]
        self.probing = 0
        self.discovering = 0
        self.celltype = {}
        self.ncell = 0
        self.used = {}             # functions whose bodies were executed -> count
        self.skip_once = None      # the function under contract: its body is run, not its contract
        self.called_contracts = {}
        self.assumptions = set()
        self.globalcache = {}
        self.prove_timeout = 20
        self.context = ''
        self.calldepth = 0
        self.on_unproved = None
        self.hooks = {}
        from . import lib, loops
        self.lib = lib
        self.loopmod = loops

    # ------------------------------------------------------------ cells
    def new_cell(self, st, val, t=None):
        self.ncell += 1
        st.cells[self.ncell] = val
        self.celltype[self.ncell] = t
        return LRef(self.ncell)

    def read(self, st, r):
        v = force(st.cells.get(r.cell, UNDEF))
        for p in r.path:
            v = force(self.step(v, p, st))
        return v

    def step(self, v, p, st):
        if isinstance(v, Undef):
            raise Unsupported('read through undefined value')
        if p[0] == 'f':
            if isinstance(v, RecVal):
                return v.get(p[1])
            raise Unsupported('field %s of %s' % (p[1], type(v).__name__))
        if p[0] == 'o':
            if isinstance(v, OptVal):
                return v.val
            raise Unsupported('optional content of %s' % type(v).__name__)
        if p[0] == 'i':
            if isinstance(v, Seq):
                return seq_get(v, p[1])
            if isinstance(v, MapVal):
                return self.lib.map_get(self, st, v, p[1])
            if isinstance(v, RecVal) and v.cls == 'bitset' and isinstance(p[1], int):
                return self.lib.bit_of(v.get('v'), p[1])
            raise Unsupported('index of %s' % type(v).__name__)
        raise Unsupported('path')

    def write(self, st, r, val):
        if not r.path:
            st.cells[r.cell] = val
            return
        st.cells[r.cell] = self._upd(force(st.cells[r.cell]), r.path, val, st)

    def _upd(self, v, path, val, st):
        p = path[0]
        rest = path[1:]
        if p[0] == 'f':
            if not isinstance(v, RecVal):
                raise Unsupported('field write on %s' % type(v).__name__)
            nv = val if not rest else self._upd(force(v.get(p[1])), rest, val, st)
            return v.set(p[1], nv)
        if p[0] == 'o':
            if not isinstance(v, OptVal):
                raise Unsupported('optional write')
            nv = val if not rest else self._upd(force(v.val), rest, val, st)
            return OptVal(v.has, nv)
        if p[0] == 'i' and isinstance(v, RecVal) and v.cls == 'bitset' and isinstance(p[1], int) and not rest:
            return v.set('v', self.lib.set_bit(v.get('v'), p[1], val))
        if p[0] == 'i':
            if not isinstance(v, Seq):
                raise Unsupported('index write on %s' % type(v).__name__)
            i = p[1]
            if isinstance(i, PosVal):
                i = i.term()
            i = norm(i)
            nv = val if not rest else self._upd(force(seq_get(v, i)), rest, val, st)
            ps = V.set_boundary(v, i, nv, lambda f: S.entails(st.pc, f))
            return ps if ps is not None else self.lib.seq_update(v, i, nv)
        raise Unsupported('path')

    def ltype(self, r):
        """static type of a location"""
        t = self.celltype.get(r.cell)
        for p in r.path:
            if t is None:
                return None
            t = strip_ref(t)
            if p[0] == 'f':
                if t.k == 'record':
                    ft = None
                    for n, ty, _ in self.rec_fields(t.name):
                        if n == p[1]:
                            ft = self.types.parse(ty)
                    t = ft
                elif t.k == 'tuple':
                    t = t.args[int(p[1])]
                else:
                    return None
            elif p[0] == 'o':
                t = t.args[0] if t.k == 'optional' else None
            else:
                t = t.args[0] if t.k in ('vector', 'array') else T('int', bits=8, signed=True) if t.k == 'string' else T('bool') if t.k == 'bitset' else None
        return t

    # ------------------------------------------------------------ records
    def rec_fields(self, q):
        r = self.p.records.get(q)
        if r is None:
            raise Unsupported('unknown record ' + q)
        out = []
        for b in r['bases']:
            bt = self.types.parse(b)
            if bt.k == 'record':
                out += self.rec_fields(bt.name)
        return out + r['fields']

    def default(self, t, st=None):
        """value-initialised / default member value"""
        t = strip_ref(t)
        if t.k in ('int', 'enum'):
            return 0
        if t.k == 'bool':
            return False
        if t.k == 'float':
            return Fraction(0)
        if t.k == 'string':
            return Seq([], T('int', bits=8, signed=True))
        if t.k == 'vector':
            return Seq([], t.args[0])
        if t.k == 'optional':
            return NULLOPT
        if t.k == 'array':
            return Seq([U(self.default(t.args[0], st)) for _ in range(t.args[1])], t.args[0])
        if t.k == 'tuple':
            return RecVal('tuple', {str(i): self.default(a, st) for i, a in enumerate(t.args)})
        if t.k == 'record':
            return self.default_record(t.name, st)
        if t.k == 'bitset':
            return RecVal('bitset', {'v': 0, 'n': t.bits})
        if t.k == 'ptr':
            return PtrVal([(True, None)])
        if t.k == 'map':
            return MapVal([])
        if t.k in ('istream', 'ostream'):
            return self.lib.new_stream(t)
        if t.k == 'json':
            return self.lib.json_default(t)
        return UNDEF

    def default_record(self, q, st, skip=()):
        f = {}
        rec = self.p.records.get(q)
        for n, ty, init in self.rec_fields(q):
            if n in skip:
                f[n] = UNDEF
                continue
            if init is not None:
                f[n] = self.eval_init(init, st, self.types.parse(ty), tu=rec['tu'])
            else:
                t = self.types.parse(ty)
                f[n] = UNDEF if t.k in ('int', 'bool', 'float', 'enum', 'ptr') else self.default(t, st)
        return RecVal(q, f)

    def eval_init(self, node, st, t, tu=None):
        fr = Frame(tu if tu is not None else self.fr.tu, '(init)')
        self.frames.append(fr)
        try:
            v = self.eval(node, st if st is not None else State())
            return self.convert(v, self.types.of(node), t)
        finally:
            self.frames.pop()

    def symval(self, path, args, t, ctx=''):
        """an arbitrary value of type t, named by path(args)"""
        t = strip_ref(t)
        def app(sort, suffix=''):
            if args:
                return z3.Function(path + suffix, *([z3.IntSort()] * len(args) + [sort]))(*args)
            return z3.Const(path + suffix, sort)
        def reg(name, lo, hi):
            if name in F.bounds:
                return
            pre = F.pre.get(ctx)
            extra = None
            if pre is not None:
                if callable(pre):
                    extra = pre
                else:
                    lo = pre[0] if lo is None else max(lo, pre[0]) if pre[0] is not None else lo
                    hi = pre[1] if hi is None else min(hi, pre[1]) if pre[1] is not None else hi
            F.bounds[name] = (lo, hi)
            F.add(name, lambda a, lo=lo, hi=hi: z3.And(a >= lo, a <= hi) if lo is not None and hi is not None else a >= lo if lo is not None else a <= hi if hi is not None else None)
            if extra is not None:
                F.add(name, extra)
        if t.k == 'int':
            if t.signed:
                reg(path, -(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1)
            else:
                reg(path, 0, (1 << t.bits) - 1)
            return app(z3.IntSort())
        if t.k == 'enum':
            vs = list(self.p.enums.get(t.name, {'': 0}).values())
            reg(path, min(vs), max(vs))
            return app(z3.IntSort())
        if t.k == 'bool':
            return app(z3.BoolSort())
        if t.k == 'float':
            pre = F.pre.get(ctx)
            if pre is not None and path not in F.bounds:
                F.bounds[path] = (None, None)
                if callable(pre):
                    F.add(path, pre)
                else:
                    F.add(path, lambda a, lo=pre[0], hi=pre[1]: z3.And(a >= R(lo), a <= R(hi)))
            return app(z3.RealSort())
        if t.k == 'istream':
            return RecVal('istream', {'data': self.symval(path + '.data', args, T('vector', args=(T('int', 'char', bits=8, signed=True),)), ctx), 'ok': True})
        if t.k == 'string':
            term = app(Str, '$')
            n = app(z3.IntSort(), '#')
            pre = F.pre.get(ctx + '#', (0, MAXLEN))
            nm = path + '#'
            if nm not in F.bounds:
                F.bounds[nm] = (0, pre[1])
                F.add(nm, lambda a, hi=pre[1]: z3.And(a >= 0, a <= hi) if hi is not None else a >= 0)
            v = index_var('c')
            ch = T('int', bits=8, signed=True)
            if path + '.c' not in F.bounds:
                F.bounds[path + '.c'] = (-128, 127)
                F.add(path + '.c', lambda a: z3.And(a >= -128, a <= 127))
            cf = z3.Function(path + '.c', *([z3.IntSort()] * (len(args) + 1) + [z3.IntSort()]))
            return Seq([Loop(v, 0, n, [U(cf(*(list(args) + [v])))])], ch, term)
        if t.k == 'vector':
            n = app(z3.IntSort(), '#')
            nm = path + '#'
            if nm not in F.bounds:
                pre = F.pre.get(ctx + '#', (0, MAXLEN))
                F.bounds[nm] = (pre[0], pre[1])
                F.add(nm, lambda a, pre=pre: z3.And(a >= pre[0], a <= pre[1]) if pre[1] is not None else a >= pre[0])
            v = index_var('v')
            et = t.args[0]
            return Seq([Loop(v, 0, n, [U(self.symval_lazy(path + '[]', list(args) + [v], et, ctx + '[]'))])], et)
        if t.k == 'optional':
            h = F.pre.get(ctx + '?')
            if h is None:
                h = app(z3.BoolSort(), '?')
            return OptVal(h, self.symval_lazy(path + '!', args, t.args[0], ctx))
        if t.k == 'array':
            return Seq([U(self.symval(path + '[%d]' % i, args, t.args[0], ctx + '[]')) for i in range(t.args[1])], t.args[0])
        if t.k == 'tuple':
            return RecVal('tuple', {str(i): self.symval_lazy(path + '.%d' % i, args, a, ctx + '.%d' % i) for i, a in enumerate(t.args)})
        if t.k == 'record':
            short = t.name.split('::')[-1]
            f = {}
            for n, ty, _ in self.rec_fields(t.name):
                f[n] = self.symval_lazy(path + '.' + n, args, self.types.parse(ty), short + '.' + n)
            ORIGIN_MAKERS.setdefault('sym:' + path, lambda *a, path=path, t=t, ctx=ctx: self.symval(path, list(a), t, ctx))
            return RecVal(t.name, f, origin=('sym:' + path, tuple(args)))
        if t.k == 'json':
            return self.lib.json_sym(self, path, args, t)
        if t.k == 'ptr' and t.args and t.args[0].k == 'int' and t.args[0].bits == 8:
            self.assumptions.add('char pointers handed to the code are valid NUL-terminated strings')
            return self.symval(path, args, T('string'), ctx)
        raise Unsupported('symbolic value of type %r' % t)

    def symval_lazy(self, path, args, t, ctx):
        k = strip_ref(t).k
        if k in ('record', 'vector', 'string', 'optional', 'tuple', 'array'):
            return Lazy(lambda: self.symval(path, args, t, ctx), roots=tuple(args))
        return self.symval(path, args, t, ctx)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, cond, name, cases=None, settle=False):
        cond = norm(cond)
        if cases and not self.probing and cond is not True:
            # proof by cases: each case, and their completeness
            n0 = len(self.obls)
            ok = True
            for c in list(cases) + [None]:
                s2 = st.clone()
                g = cond if c is not None else z3.Or(*cases)
                if c is not None:
                    s2.assume(c)
                if not self.oblige(s2, g, name, settle=c is not None and S.GROUND):
                    ok = False
                    break
            sub = self.obls[n0:]
            del self.obls[n0:]
            if ok:
                self.obls.append(Obl(name, 'proved', '%s (%d cases)' % (sub[-1].info if sub else '', len(cases)), self.context))
                return True
            self.obls.append(sub[-1])
            st.assume(cond)
            return False
        if cond is True:
            if not self.probing:
                self.obls.append(Obl(name, 'proved', 'simplifier', self.context))
            return True
        if self.probing:
            st.assume(cond)
            return True
        status, info = S.prove(st.pc, cond, self.prove_timeout, settle=S.decided(st.pc, cond) if settle else None)
        if status == 'refuted':
            status, info = S.confirm(st.pc, cond, info, self.prove_timeout)
        self.obls.append(Obl(name, status, info, self.context))
        if status != 'proved':
            self.obls[-1].info = (str(info)[:1500], st.pc, cond) if status == 'refuted' else info
            st.assume(cond)
            return False
        return True

    def may_throw(self, st, ok, what):
        """operation throws unless ok; continue under ok"""
        ok = norm(ok)
        if ok is True:
            return
        if ok is False:
            self.throws[-1].append((st.clone(), what))
            raise Dead()
        if S.entails(st.pc, ok):
            return
        if S.feasible(st.pc, bnot(ok)):
            t = st.clone()
            t.assume(bnot(ok))
            self.throws[-1].append((t, what))
        st.assume(ok)
        if not S.feasible(st.pc, True):
            raise Dead()

    def where(self):
        return self.frames[-1].name if self.frames else ''

    @property
    def fr(self):
        return self.frames[-1]

    # ------------------------------------------------------------ statements
    def exec(self, n, st):
        """execute; returns the normal-exit state or None"""
        mark = self.mark()
        save = st.clone()
        try:
            return self._exec(n, st)
        except Dead:
            return None
        except NeedSplit as e:
            if any(c is e.cond or (isz(c) and c.eq(e.cond)) for c in save.pc):
                raise Unsupported('split did not help')
            self.rollback(mark)
            r = []
            ids = [x['id'] for x in n.get('inner', ()) if x.get('kind') == 'VarDecl'] if n.get('kind') == 'DeclStmt' else []
            first = None
            c0 = self.ncell
            for c in (e.cond, bnot(e.cond)):
                if not S.feasible(save.pc, c):
                    continue
                s = save.clone().assume(c)
                s = self.exec(n, s)
                if ids and s is not None:
                    # both branches must name the declared variables alike
                    if first is None:
                        first = [self.fr.env.get(i) for i in ids]
                    else:
                        for i, old in zip(ids, first):
                            new = self.fr.env.get(i)
                            if new is not old:
                                if not (isinstance(new, LRef) and isinstance(old, LRef)):
                                    raise Unsupported('declaration differs between cases')
                                if new.cell > c0 and old.cell > c0 and not new.path and not old.path:
                                    s.cells[old.cell] = s.cells.pop(new.cell)
                                elif not same(new, old):
                                    raise Unsupported('reference differs between cases')
                            self.fr.env[i] = old
                r.append(s)
            return merge_states(r)

    def mark(self):
        return (len(self.obls), [len(f.rets) for f in self.frames], [(len(l.breaks), len(l.conts)) for l in self.loops], [len(t) for t in self.throws])

    def rollback(self, m):
        del self.obls[m[0]:]
        for f, k in zip(self.frames, m[1]):
            del f.rets[k:]
        for l, (a, b) in zip(self.loops, m[2]):
            del l.breaks[a:]
            del l.conts[b:]
        for t, k in zip(self.throws, m[3]):
            del t[k:]

    def _exec(self, n, st):
        k = n.get('kind')
        m = getattr(self, 's_' + k, None) if k else None
        if m:
            return m(n, st)
        if k is None or k == 'NullStmt':
            return st
        # expression statement
        self.eval(n, st)
        return st

    def s_CompoundStmt(self, n, st):
        for c in n.get('inner', []):
            st = self.exec(c, st)
            if st is None:
                return None
        return st

    def s_DeclStmt(self, n, st):
        for d in n.get('inner', []):
            self.decl(d, st)
        return st

    def decl(self, d, st):
        k = d['kind']
        if k in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'UsingDirectiveDecl', 'EmptyDecl', 'StaticAssertDecl', 'CXXRecordDecl', 'UsingEnumDecl', 'NamespaceAliasDecl'):
            return
        if k == 'EnumDecl':
            return
        if k == 'DecompositionDecl':
            inner = d['inner']
            init = [x for x in inner if x['kind'] not in ('BindingDecl',)]
            t = self.types.of(d)
            if t.k == 'ref':
                ref = self.lv(init[0], st)
            else:
                ref = self.new_cell(st, self.eval(init[0], st), t)
            i = 0
            for b in inner:
                if b['kind'] == 'BindingDecl':
                    self.fr.env[b['id']] = ref.field(str(i))
                    i += 1
            return
        if k != 'VarDecl':
            raise Unsupported('declaration ' + k)
        t = self.types.of(d)
        init = None
        for x in d.get('inner', []):
            if not x.get('kind', '').endswith(('Attr', 'Comment')):
                init = x
        if d.get('storageClass') == 'static' and not ('const' in d['type']['qualType']):
            raise Unsupported('function-local static')
        if t.k == 'ref':
            if init is None:
                raise Unsupported('uninitialised reference')
            self.fr.env[d['id']] = self.lv_or_temp(init, st)
            return
        if init is None:
            v = UNDEF if t.k in ('int', 'bool', 'float', 'enum', 'ptr') else self.default(t, st)
        else:
            v = self.convert(self.eval(init, st), self.types.of(init), t)
        self.fr.env[d['id']] = self.new_cell(st, v, t)

    def s_ReturnStmt(self, n, st):
        inner = n.get('inner', [])
        if inner:
            if self.fr.retref:
                v = self.lv_or_temp(inner[0], st)
            else:
                v = self.eval(inner[0], st)
        else:
            v = None
        st.cells['ret'] = v
        self.fr.rets.append(st)
        return None

    def s_IfStmt(self, n, st):
        inner = list(n['inner'])
        if n.get('hasInit'):
            st = self.exec(inner.pop(0), st)
        if n.get('hasVar'):
            st = self.exec(inner.pop(0), st)
        if n.get('isConstexpr') and False:
            pass
        c = self.cond(inner[0], st)
        then, els = inner[1], inner[2] if len(inner) > 2 else None
        if c is True:
            return self.exec(then, st)
        if c is False:
            return self.exec(els, st) if els is not None else st
        fa, fb = S.feasible(st.pc, c), S.feasible(st.pc, bnot(c))
        if not fa and not fb:
            return None
        if not fb:
            return self.exec(then, st)
        if not fa:
            return self.exec(els, st) if els is not None else st
        a = st.clone().assume(c)
        b = st.clone().assume(bnot(c))
        ra = self.exec(then, a)
        rb = self.exec(els, b) if els is not None else b
        return merge_states([ra, rb])

    def s_SwitchStmt(self, n, st):
        inner = list(n['inner'])
        if n.get('hasInit'):
            st = self.exec(inner.pop(0), st)
        if n.get('hasVar'):
            st = self.exec(inner.pop(0), st)
        v = self.eval(inner[0], st)
        items = []   # list of (labels or None, stmt)
        for s in inner[1].get('inner', []):
            labels = []
            while s.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'DefaultStmt':
                    labels.append(None)
                    s = s['inner'][0]
                else:
                    labels.append(self.eval(s['inner'][0], st))
                    s = s['inner'][-1]
            items.append((labels, s))
        allc = [norm(I(v) == I(l)) if isz(v) else v == l for ls, _ in items for l in ls if l is not None]
        ctx = LoopCtx()
        self.loops.append(ctx)
        cur = None
        entered = False
        anydef = any(None in ls for ls, _ in items)
        try:
            for ls, s in items:
                if ls:
                    cs = []
                    for l in ls:
                        if l is None:
                            cs.append(band(*[bnot(c) for c in allc]))
                        else:
                            cs.append(norm(I(v) == I(l)) if isz(v) else v == l)
                    c = bor(*cs)
                    if c is not False and S.feasible(st.pc, c):
                        e = st.clone().assume(c)
                        cur = merge_states([cur, e])
                if cur is not None:
                    cur = self.exec(s, cur)
        finally:
            self.loops.pop()
        outs = [cur] + ctx.breaks
        if not anydef:
            c = band(*[bnot(c) for c in allc])
            if c is not False and S.feasible(st.pc, c):
                outs.append(st.clone().assume(c))
        # 'continue' inside a switch belongs to the enclosing loop
        if ctx.conts:
            self.loops[-1].conts.extend(ctx.conts)
        return merge_states(outs)

    def s_BreakStmt(self, n, st):
        self.loops[-1].breaks.append(st)
        return None

    def s_ContinueStmt(self, n, st):
        self.loops[-1].conts.append(st)
        return None

    def s_ForStmt(self, n, st):
        init, cv, cond, inc, body = n['inner']
        if init.get('kind'):
            st = self.exec(init, st)
            if st is None:
                return None
        return self.loopmod.run_loop(self, st,
                                     (lambda s: self.cond(cond, s)) if cond.get('kind') else (lambda s: True),
                                     lambda s: self.exec(body, s),
                                     (lambda s: self.exec(inc, s)) if inc.get('kind') else (lambda s: s), n)

    def s_WhileStmt(self, n, st):
        inner = n['inner']
        return self.loopmod.run_loop(self, st, lambda s: self.cond(inner[0], s), lambda s: self.exec(inner[1], s), lambda s: s, n)

    def s_DoStmt(self, n, st):
        body, cond = n['inner']
        ctx = LoopCtx()
        self.loops.append(ctx)
        try:
            s = self.exec(body, st)
        finally:
            self.loops.pop()
        s = merge_states([s] + ctx.conts)
        r = None
        if s is not None:
            r = self.loopmod.run_loop(self, s, lambda x: self.cond(cond, x), lambda x: self.exec(body, x), lambda x: x, n)
        return merge_states([r] + ctx.breaks)

    def s_CXXForRangeStmt(self, n, st):
        inner = n['inner']
        rng, lvd, body = inner[1], inner[6], inner[7]
        vd = rng['inner'][0]
        self.decl(vd, st)
        cref = self.fr.env[vd['id']]
        lv = lvd['inner'][0]
        lt = self.types.of(lv)
        seq = self.read(st, cref)
        if isinstance(seq, MapVal):
            cref = self.new_cell(st, Seq([U(RecVal('tuple', {'0': a, '1': b})) for a, b in seq.items]), None)
            seq = self.read(st, cref)
        if not isinstance(seq, Seq):
            seq2 = self.lib.iterable(self, st, cref, seq)
            cref, seq = seq2
        ln = seq_len(seq)
        ix = self.new_cell(st, 0, T('int', bits=64, signed=False))
        self.fr.env['#i'] = ix      # ghost: elements visited so far

        def cond(s):
            i = self.read(s, ix)
            if isz(i) or isz(ln):
                return norm(I(i) < I(ln))
            return i < ln

        def bod(s):
            i = self.read(s, ix)
            er = cref.idx(i)
            if lv['kind'] == 'DecompositionDecl':
                ref = er if lt.k == 'ref' else self.new_cell(s, self.read(s, er), lt)
                j = 0
                for b in lv['inner']:
                    if b['kind'] == 'BindingDecl':
                        self.fr.env[b['id']] = ref.field(str(j))
                        j += 1
            elif lt.k == 'ref':
                self.fr.env[lv['id']] = er
            else:
                v = self.read(s, er)
                self.fr.env[lv['id']] = self.new_cell(s, self.convert(v, None, lt), lt)
            return self.exec(body, s)

        def inc(s):
            i = self.read(s, ix)
            self.write(s, ix, norm(I(i) + 1) if isz(i) else i + 1)
            return s
        return self.loopmod.run_loop(self, st, cond, bod, inc, n)

    def s_CXXTryStmt(self, n, st):
        inner = n['inner']
        self.throws.append([])
        try:
            r = self.exec(inner[0], st)
        finally:
            th = self.throws.pop()
        outs = [r]
        if th:
            hs = merge_states([t for t, _ in th])
            c = inner[1]
            body = c['inner'][-1]
            # a single catch-all / std::exception handler is modelled; exception value is opaque
            if len(inner) != 2:
                raise Unsupported('several catch handlers')
            for x in c['inner'][:-1]:
                if x.get('kind') == 'VarDecl':
                    self.fr.env[x['id']] = self.new_cell(hs, Opaque('exception'), None)
            outs.append(self.exec(body, hs))
        return merge_states(outs)

    def s_AttributedStmt(self, n, st):
        return self.exec(n['inner'][-1], st)

    # ------------------------------------------------------------ expressions
    def cond(self, n, st):
        v = self.eval(n, st)
        if isinstance(v, bool):
            return v
        if isinstance(v, z3.BoolRef):
            return norm(v)
        if isinstance(v, int):
            return v != 0
        if isinstance(v, PtrVal):
            return self.ptr_nonnull(v)
        if isz(v):
            return norm(B(v))
        if isinstance(v, OptVal):
            return v.has
        raise Unsupported('condition of %s' % type(v).__name__)

    def ptr_nonnull(self, v):
        return bor(*[c for c, r in v.alts if r is not None])

    def eval(self, n, st):
        k = n.get('kind')
        m = getattr(self, 'e_' + k, None)
        if m:
            return m(n, st)
        if n.get('valueCategory') in ('lvalue', 'xvalue'):
            return self.read(st, self.lv(n, st))
        raise Unsupported('expression ' + str(k))

    def lv(self, n, st):
        k = n.get('kind')
        m = getattr(self, 'l_' + k, None)
        if m:
            return m(n, st)
        raise Unsupported('lvalue ' + str(k))

    def lv_or_temp(self, n, st):
        if n.get('valueCategory') in ('lvalue', 'xvalue') or n.get('kind') == 'MaterializeTemporaryExpr':
            r = self.lv(n, st)
            if isinstance(r, LRef):
                return r
            return self.new_cell(st, r, self.types.of(n))
        return self.new_cell(st, self.eval(n, st), self.types.of(n))

    # ---- trivial wrappers
    def _pass(self, n, st):
        return self.eval(n['inner'][0], st)

    def _lpass(self, n, st):
        return self.lv(n['inner'][0], st)
    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = _pass
    l_ParenExpr = l_ExprWithCleanups = l_CXXBindTemporaryExpr = _lpass

    def e_SubstNonTypeTemplateParmExpr(self, n, st):
        return self.eval(n['inner'][-1], st)

    def l_SubstNonTypeTemplateParmExpr(self, n, st):
        return self.lv(n['inner'][-1], st)

    def e_ConstantExpr(self, n, st):
        return self.eval(n['inner'][0], st)
    l_ConstantExpr = _lpass

    def e_MaterializeTemporaryExpr(self, n, st):
        return self.eval(n['inner'][0], st)

    def l_MaterializeTemporaryExpr(self, n, st):
        sub = n['inner'][0]
        while sub.get('kind') == 'CXXBindTemporaryExpr':
            sub = sub['inner'][0]
        if sub.get('kind') == 'CXXOperatorCallExpr' and 'eference' in (sub['type'].get('desugaredQualType') or '') + sub['type'].get('qualType', ''):
            return self.lv(sub, st)
        return self.new_cell(st, self.eval(n['inner'][0], st), self.types.of(n))

    def e_IntegerLiteral(self, n, st):
        return int(n['value'])

    def e_CharacterLiteral(self, n, st):
        v = int(n['value'])
        return v

    def e_CXXBoolLiteralExpr(self, n, st):
        return bool(n['value'])

    def e_FloatingLiteral(self, n, st):
        return Fraction(n['value'])

    def e_StringLiteral(self, n, st):
        s = n['value']
        import ast as pyast
        try:
            s = pyast.literal_eval(s)
        except Exception:
            s = s.strip('"')
        return mkstr(s, T('int', bits=8, signed=True))

    def l_StringLiteral(self, n, st):
        return self.new_cell(st, self.e_StringLiteral(n, st), T('string'))

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return PtrVal([(True, None)])
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXThisExpr(self, n, st):
        return PtrVal([(True, self.fr.this)])

    def e_ImplicitValueInitExpr(self, n, st):
        return self.default(self.types.of(n), st)

    def e_CXXScalarValueInitExpr(self, n, st):
        return self.default(self.types.of(n), st)

    def e_CXXDefaultInitExpr(self, n, st):
        raise Unsupported('default init expr')

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        at = n.get('argType')
        if n.get('name') == 'sizeof':
            t = self.types.parse(at.get('desugaredQualType') or at['qualType']) if at else self.types.of(n['inner'][0])
            if t.k in ('int', 'enum'):
                return t.bits // 8
            if t.k == 'float':
                return 8 if t.name == 'double' else 4
            if t.k == 'bool':
                return 1
        raise Unsupported('sizeof')

    def e_PredefinedExpr(self, n, st):
        return mkstr('', T('int', bits=8, signed=True))

    # ---- names
    def lookup(self, n, st):
        rd = n['referencedDecl']
        i = rd['id']
        for f in (self.fr,):
            if i in f.env:
                return f.env[i]
        return None

    def l_DeclRefExpr(self, n, st):
        r = self.lookup(n, st)
        if r is not None:
            if isinstance(r, LRef):
                return r
            return self.new_cell(st, r, self.types.of(n))
        rd = n['referencedDecl']
        if rd['kind'] == 'EnumConstantDecl':
            return self.new_cell(st, self.e_DeclRefExpr(n, st), self.types.of(n))
        g = self.global_var(rd, st)
        return g

    def global_var(self, rd, st):
        key = (self.fr.tu, rd['id'])
        nm = rd.get('name')
        node = self.p.idnode.get(key)
        if node is None:
            # extern library object
            h = self.lib.GLOBALS.get(nm)
            if h is not None:
                return self.new_cell(st, h(self), None)
            from .ast import global_constant
            nd = global_constant(self.p.files[self.fr.tu][0], nm) if nm else None
            if nd is None or has_ref(nd):
                raise Unsupported('unknown global %s' % nm)
            self.p.idnode[key] = node = (nd, [])
        nd, scope = node
        gk = '::'.join(scope + [nm])
        if gk in self.globalcache:
            return self.new_cell(st, self.globalcache[gk], self.types.of(nd))
        q = nd
        tu = self.fr.tu
        if not nd.get('inner'):
            if gk in self.p.globals:
                q, tu = self.p.globals[gk]
        t = self.types.of(q)
        if 'const' not in q['type'].get('qualType', '') and not q.get('constexpr'):
            raise Unsupported('mutable global %s' % gk)
        init = [x for x in q.get('inner', []) if not x.get('kind', '').endswith(('Attr', 'Comment'))]
        if not init:
            raise Unsupported('global %s without initialiser' % gk)
        fr = Frame(tu, '(global %s)' % nm)
        self.frames.append(fr)
        try:
            v = self.convert(self.eval(init[-1], State()), self.types.of(init[-1]), t)
        finally:
            self.frames.pop()
        self.globalcache[gk] = v
        return self.new_cell(st, v, t)

    def e_DeclRefExpr(self, n, st):
        rd = n['referencedDecl']
        if rd['kind'] == 'EnumConstantDecl':
            c = self.p.enumconst.get((self.fr.tu, rd['id']))
            if c is None:
                h = self.lib.ENUMS.get(rd.get('name'))
                if h is not None:
                    return h
                raise Unsupported('enum constant %s' % rd.get('name'))
            return c[1]
        if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return Opaque('function', (rd.get('name'),))
        return self.read(st, self.l_DeclRefExpr(n, st))

    def l_CXXThisExpr(self, n, st):
        return self.fr.this

    def l_MemberExpr(self, n, st):
        base = n['inner'][0]
        mid = n.get('referencedMemberDecl')
        nd = self.p.idnode.get((self.fr.tu, mid))
        if nd is not None and nd[0].get('kind') == 'VarDecl':
            return self.global_var({'id': mid, 'name': nd[0].get('name')}, st)
        if n.get('isArrow'):
            r = self.deref(self.eval(base, st), st)
        else:
            r = self.lv_or_temp(base, st)
        nm = n['name']
        if nm in ('first', 'second'):
            bv = self.read(st, r)
            if isinstance(bv, RecVal) and bv.cls == 'tuple':
                return r.field('0' if nm == 'first' else '1')
        return self.lib.member_ref(self, st, r, nm)

    def e_MemberExpr(self, n, st):
        mid = n.get('referencedMemberDecl')
        if (self.fr.tu, mid) in self.p.enumconst:
            return self.p.enumconst[(self.fr.tu, mid)][1]
        return self.read(st, self.l_MemberExpr(n, st))

    def deref(self, p, st):
        """pointer-like value -> location"""
        if isinstance(p, PtrVal):
            live = [(c, r) for c, r in p.alts if r is not None and S.feasible(st.pc, c)]
            nn = self.ptr_nonnull(p)
            if nn is not True:
                self.oblige(st, nn, 'safety: non-null pointer in ' + self.where())
            if len(live) == 1:
                return live[0][1]
            if not live:
                raise Dead()
            raise NeedSplit(live[0][0])
        if isinstance(p, IterVal):
            return self.lib.iter_ref(self, st, p)
        if isinstance(p, LRef):
            return p
        raise Unsupported('dereference of %s' % type(p).__name__)

    def l_ArraySubscriptExpr(self, n, st):
        b = self.lv_or_temp(n['inner'][0], st)
        i = self.eval(n['inner'][1], st)
        v = self.read(st, b)
        if isinstance(v, PtrVal):
            b = self.deref(v, st)
            v = self.read(st, b)
        self.lib.check_index(self, st, v, i)
        return b.idx(i)

    # ---- casts
    def e_ImplicitCastExpr(self, n, st):
        return self.cast(n, st)
    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_ImplicitCastExpr

    def e_CXXReinterpretCastExpr(self, n, st):
        return self.lib.reinterpret(self, st, n)

    def e_CXXConstCastExpr(self, n, st):
        return self.eval(n['inner'][0], st)

    def l_ImplicitCastExpr(self, n, st):
        ck = n.get('castKind')
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'LValueToRValue', 'BaseToDerived'):
            return self.lv_or_temp(n['inner'][0], st)
        if ck == 'ArrayToPointerDecay':
            return self.lv_or_temp(n['inner'][0], st)
        return self.new_cell(st, self.cast(n, st), self.types.of(n))
    l_CXXStaticCastExpr = l_CStyleCastExpr = l_CXXFunctionalCastExpr = l_CXXConstCastExpr = l_ImplicitCastExpr

    def cast(self, n, st):
        ck = n.get('castKind')
        sub = n['inner'][0]
        if ck in ('LValueToRValue', 'NoOp', 'ConstructorConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'UserDefinedConversion', 'BitCast', 'Dependent'):
            return self.eval(sub, st)
        if ck == 'ToVoid':
            self.eval(sub, st)
            return None
        v = self.eval(sub, st)
        if ck == 'NullToPointer':
            return PtrVal([(True, None)])
        tt = self.types.of(n)
        if ck == 'IntegralCast' and isinstance(v, z3.ArithRef) and tt.k == 'int':
            lo, hi = (-(1 << (tt.bits - 1)), (1 << (tt.bits - 1)) - 1) if tt.signed else (0, (1 << tt.bits) - 1)
            b = bounds(v)
            if b[0] is None or b[1] is None or b[0] < lo or b[1] > hi:
                if S.entails(st.pc, z3.And(v >= lo, v <= hi)):
                    return v
        return self.convert(v, self.types.of(sub), tt)

    def convert(self, v, ft, tt):
        """value conversion to type tt"""
        if tt is None:
            return v
        tt = strip_ref(tt)
        v = force(v)
        if isinstance(v, Undef):
            return v
        if tt.k in ('int', 'enum'):
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, int):
                return wrap(v, tt.bits, tt.signed)
            if isinstance(v, z3.BoolRef):
                return I(v)
            if isinstance(v, Fraction):
                return wrap(int(v), tt.bits, tt.signed)
            if is_bv(v):
                ft2 = strip_ref(ft) if ft is not None else None
                sg = ft2.signed if ft2 is not None and ft2.k in ('int', 'enum') else False
                return simp(resize(v, tt.bits, sg))
            if isinstance(v, PosVal):
                return v if tt.bits >= 32 else wrap(v, tt.bits, tt.signed)
            if isinstance(v, z3.ArithRef):
                if v.is_real():
                    return wrap(self.trunc(v), tt.bits, tt.signed)
                return norm(wrap(v, tt.bits, tt.signed))
            if isinstance(v, RecVal) and v.cls == 'bitset':
                return v
            return v
        if tt.k == 'bool':
            if isinstance(v, (bool, z3.BoolRef)):
                return v
            if isinstance(v, int):
                return v != 0
            if isinstance(v, Fraction):
                return v != 0
            if isinstance(v, PtrVal):
                return self.ptr_nonnull(v)
            if isz(v):
                return norm(v != 0)
            if isinstance(v, OptVal):
                return v.has
            return v
        if tt.k == 'float':
            if isinstance(v, bool):
                return Fraction(int(v))
            if isinstance(v, int):
                return Fraction(v)
            if isinstance(v, (z3.ArithRef, z3.BoolRef)) or is_bv(v) or isinstance(v, PosVal):
                if is_bv(v) and ft is not None and strip_ref(ft).signed:
                    return z3.ToReal(z3.BV2Int(v, True))
                return norm(R(v))
            return v
        if tt.k == 'optional':
            if isinstance(v, OptVal):
                inner = tt.args[0]
                if v.has is False:
                    return v
                if inner.k in ('int', 'float', 'bool', 'enum'):
                    return OptVal(v.has, self.convert(v.val, None, inner))
                return v
            if isinstance(v, Opaque) and v.tag == 'nullopt':
                return NULLOPT
            return OptVal(True, self.convert(v, ft, tt.args[0]))
        return v

    def trunc(self, r):
        r = R(r)
        key = norm(r)
        if isinstance(key, Fraction):
            return int(key)
        # value that is an integer lifted to a real
        if isz(key) and key.decl().kind() == z3.Z3_OP_TO_REAL:
            return key.children()[0]
        return norm(z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))

    # ---- operators
    def num(self, v):
        if isinstance(v, Undef):
            raise Unsupported('use of uninitialised value')
        if isinstance(v, Opaque):
            raise Unsupported('arithmetic on opaque %s' % v.tag)
        return v

    def binop(self, op, a, b, t, st, ta=None, tb=None):
        a, b = force(a), force(b)
        self.num(a), self.num(b)
        if isinstance(a, (PtrVal,)) or isinstance(b, PtrVal):
            return self.ptr_cmp(op, a, b)
        if isinstance(a, PosVal) or isinstance(b, PosVal):
            r = self.lib.pos_op(self, op, a, b, st)
            if r is not None:
                return r
            a = a.term() if isinstance(a, PosVal) else a
            b = b.term() if isinstance(b, PosVal) else b
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b, ta)
        if op in ('&&', '||'):
            a, b = norm(B(a)), norm(B(b))
            return band(a, b) if op == '&&' else bor(a, b)
        isf = t.k == 'float'
        if isf:
            if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and not isinstance(a, bool):
                a, b = Fraction(a), Fraction(b)
                if op == '+': return a + b
                if op == '-': return a - b
                if op == '*': return a * b
                if op == '/':
                    if b == 0:
                        raise Unsupported('floating division by constant zero')
                    return a / b
            x, y = R(a), R(b)
            if op == '+': return norm(x + y)
            if op == '-': return norm(x - y)
            if self.nonlinear is not None and op in '*/' and not z3.is_rational_value(z3.simplify(y)) and not (op == '*' and z3.is_rational_value(z3.simplify(x))):
                if op == '/':
                    self.hook_fdiv(st, y)
                return self.nonlinear(op, x, y, st)     # the contract's uninterpreted product / quotient, with the facts it states about it
            if op == '*': return norm(x * y)
            if op == '/':
                self.hook_fdiv(st, y)
                return norm(x / y)
            raise Unsupported('float op ' + op)
        bits, sg = (t.bits or 32), t.signed
        if t.k == 'bool':
            bits, sg = 32, True
        # bitwise on booleans (vector<bool> etc.)
        if op in ('&', '|', '^') and is_bool(a) and is_bool(b):
            if op == '&': return I(band(a, b)) if isz(band(a, b)) else int(band(a, b))
            if op == '|': return I(bor(a, b)) if isz(bor(a, b)) else int(bor(a, b))
            r = norm(z3.Xor(B(a), B(b)))
            return I(r) if isz(r) else int(r)
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            a, b = int(a), int(b)
            if op == '+': r = a + b
            elif op == '-': r = a - b
            elif op == '*': r = a * b
            elif op in ('/', '%'):
                if b == 0:
                    self.oblige(st, False, 'safety: division by zero in ' + self.where())
                    raise Dead()
                q = abs(a) // abs(b)
                q = q if (a >= 0) == (b >= 0) else -q
                r = q if op == '/' else a - q * b
            elif op == '&': r = a & b
            elif op == '|': r = a | b
            elif op == '^': r = a ^ b
            elif op == '<<': r = a << b
            elif op == '>>': r = a >> b
            else:
                raise Unsupported('int op ' + op)
            return wrap(r, bits, sg)
        if op == '>>' and self.symshift is not None and not is_bv(a) and not is_bv(b) and not isinstance(b, int):
            return self.symshift(I(a), I(b))        # the contract says what the shifted number is
        if is_bv(a) or is_bv(b) or op in ('&', '|', '^') or (op in ('<<', '>>') and not isinstance(b, int)):
            return self.bvop(op, a, b, bits, sg, st, ta, tb)
        a = I(a) if not isinstance(a, int) else a
        b = I(b) if not isinstance(b, int) else b
        if op == '+': r = a + b
        elif op == '-': r = a - b
        elif op == '*':
            r = a * b
        elif op in ('/', '%'):
            if isinstance(b, int):
                if b == 0:
                    self.oblige(st, False, 'safety: division by zero in ' + self.where())
                    raise Dead()
            else:
                self.oblige(st, b != 0, 'safety: division by zero in ' + self.where())
            la, lb = bounds(a), bounds(b)
            if la[0] is not None and la[0] >= 0 and lb[0] is not None and lb[0] >= 0:
                r = I(a) / I(b) if op == '/' else I(a) % I(b)
            else:
                a_, b_ = I(a), I(b)
                q = z3.If(z3.And(a_ >= 0, b_ > 0), a_ / b_, z3.If(z3.And(a_ < 0, b_ > 0), -((-a_) / b_), z3.If(a_ >= 0, -(a_ / (-b_)), (-a_) / (-b_))))
                r = q if op == '/' else a_ - q * b_
        elif op == '<<':
            r = a * (1 << b)
        elif op == '>>':
            r = I(a) / (1 << b)
        else:
            raise Unsupported('int op ' + op)
        r = norm(r)
        if isz(r) and (not sg) and bits:
            r = norm(wrap(r, bits, sg))
        elif isinstance(r, int):
            r = wrap(r, bits, sg)
        return r

    def hook_fdiv(self, st, y):
        if self.hooks.get('fdiv'):
            self.hooks['fdiv'](self, st, y)

    def bvop(self, op, a, b, bits, sg, st, ta=None, tb=None):
        if op in ('&', '|', '^') and not is_bv(a) and not is_bv(b):
            # a mask chosen among a few constants stays a choice among constants
            la, lb = const_leaves(a), const_leaves(b)
            if la and lb and len(la) * len(lb) <= 16:
                f = {'&': int.__and__, '|': int.__or__, '^': int.__xor__}[op]
                return map_leaves(a, lambda x: map_leaves(b, lambda y: wrap(f(x, y), bits, sg)))
        if op in ('|', '^') and not is_bv(a) and not is_bv(b) and not any(isz(x) and has_choice(x) for x in (a, b)):
            # numbers without common one-bits: or is addition
            for x, y in ((a, b), (b, a)):
                ly, lx = bounds(I(y)), bounds(I(x))
                if ly[0] is not None and ly[0] >= 0 and ly[1] is not None and lx[0] is not None and lx[0] >= 0 and ly[1] < pow2_factor(I(x)):
                    r = norm(I(x) + I(y))
                    return r if isinstance(r, int) else norm(wrap(r, bits, sg))
        def conv(x, t):
            if is_bv(x):
                return resize(x, bits, t.signed if t is not None and t.k == 'int' else sg)
            return bv_of(x, bits)
        x, y = conv(a, ta), conv(b, tb)
        if op == '&': r = x & y
        elif op == '|': r = x | y
        elif op == '^': r = x ^ y
        elif op == '+': r = x + y
        elif op == '-': r = x - y
        elif op == '*': r = x * y
        elif op == '<<': r = x << y
        elif op == '>>': r = (x >> y) if sg else z3.LShR(x, y)
        elif op == '/': r = (x / y) if sg else z3.UDiv(x, y)
        elif op == '%': r = z3.SRem(x, y) if sg else z3.URem(x, y)
        else:
            raise Unsupported('bv op ' + op)
        r = simp(r)
        if z3.is_bv_value(r):
            return r.as_signed_long() if sg else r.as_long()
        return r

    def compare(self, op, a, b, t=None):
        if isinstance(a, OptVal) or isinstance(b, OptVal):
            return self.opt_cmp(op, a, b)
        if isinstance(a, Seq) and isinstance(b, Seq):
            e = self.lib.seq_eq(self, a, b)
            if op == '==': return e
            if op == '!=': return bnot(e)
            raise Unsupported('sequence ordering')
        if isinstance(a, IterVal) and isinstance(b, IterVal):
            if a.rev:
                pass
            a, b = a.pos, b.pos
        if isinstance(a, Opaque) or isinstance(b, Opaque) or isinstance(a, RecVal):
            r = self.lib.cmp_other(self, op, a, b)
            return r
        if is_bool(a) and is_bool(b):
            if isinstance(a, bool) and isinstance(b, bool):
                e = a == b
            else:
                e = norm(B(a) == B(b))
            if op == '==': return e
            if op == '!=': return bnot(e)
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
        if is_bv(a) or is_bv(b):
            w = a.size() if is_bv(a) else b.size()
            x = a if is_bv(a) else bv_of(a, w)
            y = b if is_bv(b) else bv_of(b, w)
            if x.size() != y.size():
                w = max(x.size(), y.size())
                x, y = resize(x, w, t.signed if t else False), resize(y, w, t.signed if t else False)
            sg = t.signed if t is not None else False
            r = {'==': lambda: x == y, '!=': lambda: x != y,
                 '<': lambda: (x < y) if sg else z3.ULT(x, y), '>': lambda: (x > y) if sg else z3.UGT(x, y),
                 '<=': lambda: (x <= y) if sg else z3.ULE(x, y), '>=': lambda: (x >= y) if sg else z3.UGE(x, y)}[op]()
            return norm(r)
        if is_real(a) or is_real(b):
            x, y = R(a), R(b)
        else:
            x, y = I(a), I(b)
        r = {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y}[op]()
        return norm(r)

    def opt_cmp(self, op, a, b):
        def parts(x):
            if isinstance(x, OptVal):
                return x.has, x._val
            if isinstance(x, Opaque) and x.tag == 'nullopt':
                return False, UNDEF
            return True, x
        ha, va = parts(a)
        hb, vb = parts(b)
        def inner(o):
            if ha is False or hb is False:
                return False
            return self.compare(o, force(va), force(vb))
        if op == '==':
            return bor(band(bnot(ha), bnot(hb)), band(ha, hb, inner('==')))
        if op == '!=':
            return bnot(self.opt_cmp('==', a, b))
        # C++17: nullopt < any value
        if op == '<':
            return band(hb, bor(bnot(ha), inner('<')))
        if op == '>':
            return band(ha, bor(bnot(hb), inner('>')))
        if op == '<=':
            return bor(bnot(ha), band(hb, inner('<=')))
        if op == '>=':
            return bor(bnot(hb), band(ha, inner('>=')))
        raise Unsupported('optional comparison')

    def ptr_cmp(self, op, a, b):
        if isinstance(a, PtrVal) and isinstance(b, PtrVal):
            if len(b.alts) == 1 and b.alts[0][1] is None:
                nn = self.ptr_nonnull(a)
                return bnot(nn) if op == '==' else nn
            if len(a.alts) == 1 and a.alts[0][1] is None:
                nn = self.ptr_nonnull(b)
                return bnot(nn) if op == '==' else nn
            if len(a.alts) == 1 and len(b.alts) == 1:
                r = same(a.alts[0][1], b.alts[0][1])
                return r if op == '==' else not r
        raise Unsupported('pointer comparison')

    def e_BinaryOperator(self, n, st):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            return self.read(st, self.l_BinaryOperator(n, st))
        if op == ',':
            self.eval(a, st)
            return self.eval(b, st)
        if op in ('&&', '||'):
            x = self.cond(a, st)
            if x is (op == '||'):
                return x
            if x is (op == '&&'):
                return self.cond(b, st)
            g = x if op == '&&' else bnot(x)
            if not S.feasible(st.pc, g):
                return op == '||'
            s2 = st.clone().assume(g)
            s1 = st.clone().assume(bnot(g))
            try:
                y = self.cond(b, s2)
            except Dead:
                st.become(s1)
                return op == '||'
            if S.feasible(s1.pc, True):
                m = merge2(s2, s1)
                st.become(m)
            else:
                st.become(s2)
            return band(x, y) if op == '&&' else bor(x, y)
        x = self.eval(a, st)
        y = self.eval(b, st)
        ta, tb = self.types.of(a), self.types.of(b)
        return self.binop(op, x, y, self.types.of(n), st, ta, tb)

    def l_BinaryOperator(self, n, st):
        a, b = n['inner']
        op = n['opcode']
        if op == ',':
            self.eval(a, st)
            return self.lv(b, st)
        if op != '=':
            raise Unsupported('lvalue binary ' + op)
        v = self.eval(b, st)
        r = self.lv(a, st)
        self.write(st, r, v)
        return r

    def l_CompoundAssignOperator(self, n, st):
        a, b = n['inner']
        y = self.eval(b, st)
        r = self.lv(a, st)
        x = self.read(st, r)
        ct = n.get('computeResultType', {})
        t = self.types.parse(ct.get('desugaredQualType') or ct.get('qualType'))
        lt = self.types.of(a)
        if isinstance(x, (IterVal, PtrVal)):
            v = self.lib.iter_add(self, st, x, y if n['opcode'] == '+=' else -y if isinstance(y, int) else norm(-I(y)))
            self.write(st, r, v)
            return r
        clt = n.get('computeLHSType', {})
        t0 = self.types.parse(clt.get('desugaredQualType') or clt.get('qualType'))
        x2 = self.convert(x, lt, t0)
        v = self.binop(n['opcode'][:-1], x2, y, t, st, t0, self.types.of(b))
        self.write(st, r, self.convert(v, t, lt))
        return r

    def e_CompoundAssignOperator(self, n, st):
        return self.read(st, self.l_CompoundAssignOperator(n, st))

    def e_UnaryOperator(self, n, st):
        op = n['opcode']
        sub = n['inner'][0]
        if op == '!':
            return bnot(self.cond(sub, st))
        if op == '-':
            v = self.num(self.eval(sub, st))
            t = self.types.of(n)
            if isinstance(v, Fraction):
                return -v
            if isinstance(v, (int, bool)):
                return wrap(-int(v), t.bits, t.signed) if t.k == 'int' else -int(v)
            if is_bv(v):
                return simp(-v)
            return norm(-(R(v) if t.k == 'float' else I(v)))
        if op == '+':
            return self.eval(sub, st)
        if op == '~':
            v = self.eval(sub, st)
            t = self.types.of(n)
            if isinstance(v, int):
                return wrap(~v, t.bits, t.signed)
            return simp(~(resize(v, t.bits, t.signed) if is_bv(v) else bv_of(v, t.bits)))
        if op == '&':
            return PtrVal([(True, self.lv(sub, st))])
        if op == '*':
            return self.read(st, self.l_UnaryOperator(n, st))
        if op in ('++', '--'):
            r = self.lv(sub, st)
            x = self.read(st, r)
            old = x
            self.incdec(op, r, x, sub, st)
            return old if n.get('isPostfix') else self.read(st, r)
        raise Unsupported('unary ' + op)

    def incdec(self, op, r, x, sub, st):
        d = 1 if op == '++' else -1
        if isinstance(x, (IterVal, PtrVal)):
            self.write(st, r, self.lib.iter_add(self, st, x, d))
            return
        t = self.types.of(sub)
        tt = T('int', bits=max(t.bits, 32), signed=t.signed or t.bits < 32) if t.k == 'int' else t
        v = self.binop('+', x, d if d > 0 else -1, tt, st) if (d > 0 or tt.signed or t.k != 'int') else self.binop('-', x, 1, tt, st)
        nv = self.convert(v, tt, t)
        if t.k == 'int' and isz(x) and z3.is_int(x) and isz(nv) and not is_bv(nv):
            v = norm(x + d)
        if t.k == 'int' and isz(v) and not is_bv(v) and isz(nv) and not nv.eq(v):
            lo, hi = (-(1 << t.bits - 1), (1 << t.bits - 1) - 1) if t.signed else (0, (1 << t.bits) - 1)
            if S.entails(st.pc, z3.And(v >= lo, v <= hi)):
                nv = v          # no wrap-around on this path
        self.write(st, r, nv)

    def l_UnaryOperator(self, n, st):
        op = n['opcode']
        sub = n['inner'][0]
        if op == '*':
            return self.deref(self.eval(sub, st), st)
        if op in ('++', '--'):
            r = self.lv(sub, st)
            self.incdec(op, r, self.read(st, r), sub, st)
            return r
        raise Unsupported('lvalue unary ' + op)

    def e_ConditionalOperator(self, n, st):
        c = self.cond(n['inner'][0], st)
        a, b = n['inner'][1], n['inner'][2]
        if c is True:
            return self.eval(a, st)
        if c is False:
            return self.eval(b, st)
        fa, fb = S.feasible(st.pc, c), S.feasible(st.pc, bnot(c))
        if not fb:
            return self.eval(a, st)
        if not fa:
            return self.eval(b, st)
        s1, s2 = st.clone().assume(c), st.clone().assume(bnot(c))
        try:
            x = self.eval(a, s1)
        except Dead:
            st.become(s2)
            return self.eval(b, st)
        try:
            y = self.eval(b, s2)
        except Dead:
            st.become(s1)
            return x
        st.become(merge2(s1, s2))
        t = self.types.of(n)
        return vite(c, self.convert(x, None, t) if t.k in ('int', 'float', 'bool') else x, self.convert(y, None, t) if t.k in ('int', 'float', 'bool') else y)

    def l_ConditionalOperator(self, n, st):
        c = self.cond(n['inner'][0], st)
        if c is True or (c is not False and not S.feasible(st.pc, bnot(c))):
            return self.lv(n['inner'][1], st)
        if c is False or not S.feasible(st.pc, c):
            return self.lv(n['inner'][2], st)
        raise NeedSplit(c)

    def e_CXXThrowExpr(self, n, st):
        self.throws[-1].append((st.clone(), 'throw'))
        raise Dead()

    def e_LambdaExpr(self, n, st):
        rec = n['inner'][0]
        call = None
        for c in rec.get('inner', []):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                call = c
            if c.get('kind') == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                raise Unsupported('generic lambda')
        # captures: environment snapshot; by-copy captures are copied
        caps = {}
        bycopy = set()
        fields = [c for c in rec.get('inner', []) if c.get('kind') == 'FieldDecl']
        nref = [('&' in (f['type'].get('qualType', ''))) for f in fields]
        capexprs = n['inner'][1:-1]
        for e, isref in zip(capexprs, nref):
            x = e
            while x.get('kind') in ('ImplicitCastExpr', 'CXXConstructExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'ParenListExpr') and x.get('inner'):
                x = x['inner'][0]
            if x.get('kind') == 'DeclRefExpr':
                i = x['referencedDecl']['id']
                r = self.fr.env.get(i)
                if r is None:
                    continue
                if isref:
                    caps[i] = r
                else:
                    t = self.types.of(x)
                    caps[i] = self.new_cell(st, self.read(st, r) if isinstance(r, LRef) else r, t)
        return Closure((n, call), caps, self.fr.this, self.fr.tu)

    def call_closure(self, cl, argrefs, st):
        """argrefs: list of LRef (locations of the arguments)"""
        n, call = cl.node
        fr = Frame(cl.tu, 'lambda in ' + (self.fr.name if self.frames else ''))
        fr.env = dict(cl.caps)
        fr.this = cl.this
        params = [c for c in call.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        body = next((c for c in call['inner'] if c.get('kind') == 'CompoundStmt'), n['inner'][-1])
        for p, a in zip(params, argrefs):
            t = self.types.of(p)
            if t.k == 'ref':
                fr.env[p['id']] = a
            else:
                fr.env[p['id']] = self.new_cell(st, self.convert(self.read(st, a), None, t), t)
        rt = call['type']['qualType'].split('->')[-1] if '->' in call['type']['qualType'] else call['type']['qualType'].split('(')[0]
        return self.run_body(fr, body, st)

    # ------------------------------------------------------------ calls
    def run_body(self, fr, body, st):
        if self.calldepth > self.MAXDEPTH:
            raise Unsupported('call depth (recursion without a contract) at ' + fr.name)
        self.calldepth += 1
        self.frames.append(fr)
        outer_loops = self.loops
        self.loops = []
        st.cells['ret'] = None
        entry = set(st.cells.keys())
        mark = self.ncell
        try:
            r = self.exec(body, st.clone())
        finally:
            self.frames.pop()
            self.loops = outer_loops
            self.calldepth -= 1
        outs = fr.rets + ([r] if r is not None else [])
        if fr.retref and len(outs) > 1 and fr.decl is not None and 'const' in str(fr.decl.node['type']['qualType']).split('->')[-1]:
            rr = [o.cells.get('ret') for o in outs]
            if any(isinstance(x, LRef) for x in rr) and not all(isinstance(x, LRef) and same(x, rr[0]) for x in rr):
                # a const reference to one of several objects: its value is what the caller can observe
                for o, x in zip(outs, rr):
                    if isinstance(x, LRef):
                        o.cells['ret'] = self.read(o, x)
        m = merge_states(outs)
        if m is None:
            raise Dead()
        ret = m.cells.pop('ret', None)
        # drop the callee's locals unless the result refers to them
        keep = set()
        _refs(ret, keep)
        for k in [k for k in m.cells if k != 'ret' and k not in entry and k not in keep]:
            del m.cells[k]
        st.become(m)
        return ret

    def call_decl(self, d, this, args, st, argnodes=None):
        """args: list of values or LRefs according to parameter kinds (already bound)"""
        c = self.contracts.get(d.qual) or self.contracts.get(d.mangled)
        if self.skip_once is d:
            self.skip_once = c = None
        if c is not None and c is not self.hooks.get('verifying') and (not hasattr(c, 'applies') or c.applies(self, d)):
            self.called_contracts[d.qual] = self.called_contracts.get(d.qual, 0) + 1
            return c.apply(self, st, d, this, args)
        fr = Frame(d.tu, d.qual)
        fr.decl = d
        fr.this = this
        rt = d.node['type']['qualType']
        ret = rt.split('->')[-1].strip() if '->' in rt else rt.split('(')[0].strip()
        fr.retref = ret.endswith('&')
        for p, a in zip(d.params, args):
            t = self.types.of(p)
            if t.k == 'ref':
                fr.env[p['id']] = a if isinstance(a, LRef) else self.new_cell(st, a, t.args[0])
            else:
                fr.env[p['id']] = self.new_cell(st, a, t)
        self.used[d.qual] = self.used.get(d.qual, 0) + 1
        if d.node['kind'] == 'CXXConstructorDecl':
            return self.run_ctor(d, fr, this, st)
        r = self.run_body(fr, d.body, st)
        if r is not None and not fr.retref and not isinstance(r, LRef):
            r = self.convert(r, None, self.types.parse(ret)) if ret not in ('void', 'auto') else r
        return r

    def bind_args(self, params, argnodes, st, tu=None):
        args = []
        for i, p in enumerate(params):
            t = self.types.of(p)
            a = argnodes[i] if i < len(argnodes) else None
            if a is None or a.get('kind') == 'CXXDefaultArgExpr':
                init = [x for x in p.get('inner', []) if x.get('kind') and not x['kind'].endswith(('Attr', 'Comment'))]
                if not init:
                    raise Unsupported('default argument')
                fr = Frame(tu if tu is not None else self.fr.tu, '(default arg)')
                self.frames.append(fr)
                try:
                    v = self.convert(self.eval(init[0], st), None, t)
                finally:
                    self.frames.pop()
                args.append(self.new_cell(st, v, strip_ref(t)) if t.k == 'ref' else v)
                continue
            if t.k == 'ref':
                args.append(self.lv_or_temp(a, st))
            else:
                args.append(self.convert(self.eval(a, st), self.types.of(a), t))
        return args

    def callee_decl(self, n):
        x = n
        while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            x = x['inner'][0]
        if x.get('kind') == 'DeclRefExpr':
            return self.find_decl(x['referencedDecl']['id']), x
        if x.get('kind') == 'MemberExpr':
            return self.find_decl(x.get('referencedMemberDecl')), x
        return None, x

    def find_decl(self, i):
        d = self.p.decls.get((self.fr.tu, i))
        if d is None:
            return None
        if d.body is None or d.mangled in self.p.funcs:
            full = self.p.funcs.get(d.mangled)
            if full is not None:
                return full
        return d

    def e_CallExpr(self, n, st):
        r = self.call(n, st)
        if isinstance(r, LRef):
            return self.read(st, r)
        return r

    def l_CallExpr(self, n, st):
        r = self.call(n, st)
        return r if isinstance(r, LRef) else self.new_cell(st, r, self.types.of(n))
    e_CXXMemberCallExpr = e_CXXOperatorCallExpr = e_CallExpr
    l_CXXMemberCallExpr = l_CXXOperatorCallExpr = l_CallExpr

    def call(self, n, st):
        k = n['kind']
        callee = n['inner'][0]
        argn = n['inner'][1:]
        d, x = self.callee_decl(callee)
        if k == 'CXXMemberCallExpr' and x.get('kind') == 'MemberExpr':
            base = x['inner'][0]
            if d is not None and d.body is not None and not self.lib.override(d):
                if x.get('isArrow'):
                    this = self.deref(self.eval(base, st), st)
                else:
                    this = self.lv_or_temp(base, st)
                args = self.bind_args(d.params, argn, st, d.tu)
                return self.call_decl(d, this, args, st)
            if d is not None and d.body is None and (d.qual in self.contracts):
                this = self.lv_or_temp(base, st)
                return self.call_decl(d, this, self.bind_args(d.params, argn, st, d.tu), st)
            return self.lib.method(self, st, n, x, base, argn, d)
        if k == 'CXXOperatorCallExpr':
            if d is not None and d.cls is not None and d.body is not None and not d.node.get('isImplicit') and d.node.get('explicitlyDefaulted') is None:
                if d.name == 'operator()' and '(lambda)' in d.qual:
                    pass
                else:
                    this = self.lv_or_temp(argn[0], st)
                    args = self.bind_args(d.params, argn[1:], st, d.tu)
                    return self.call_decl(d, this, args, st)
            return self.lib.operator(self, st, n, x, argn)
        if d is not None and d.body is not None and not self.lib.override(d):
            args = self.bind_args(d.params, argn, st, d.tu)
            return self.call_decl(d, None, args, st)
        if d is not None and d.qual in self.contracts:
            return self.call_decl(d, None, self.bind_args(d.params, argn, st, d.tu), st)
        return self.lib.function(self, st, n, x, argn)

    # ------------------------------------------------------------ construction
    def run_ctor(self, d, fr, this, st):
        q = d.cls
        inits = [c for c in d.node.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
        named = {}
        for c in inits:
            ai = c.get('anyInit')
            if ai:
                named[ai['name']] = c['inner'][0] if c.get('inner') else None
            elif c.get('baseInit') is None:
                # delegating constructor
                v = self._in_frame(fr, lambda: self.eval(c['inner'][0], st))
                self.write(st, this, v)
                named = None
                break
        if named is not None:
            f = {}
            rec = self.p.records[q]
            self.write(st, this, RecVal(q, {n: UNDEF for n, _, _ in self.rec_fields(q)}))
            for n, ty, init in self.rec_fields(q):
                t = self.types.parse(ty)
                if n in named and named[n] is not None and named[n].get('kind') != 'CXXDefaultInitExpr':
                    v = self._in_frame(fr, lambda: self.convert(self.eval(named[n], st), None, t))
                elif init is not None:
                    v = self.eval_init(init, st, t, tu=rec['tu'])
                else:
                    v = UNDEF if t.k in ('int', 'bool', 'float', 'enum', 'ptr') else self.default(t, st)
                self.write(st, this.field(n), v)
        if d.body is not None:
            self.run_body(fr, d.body, st)
        return None

    def _in_frame(self, fr, fn):
        self.frames.append(fr)
        try:
            return fn()
        finally:
            self.frames.pop()

    def e_CXXConstructExpr(self, n, st):
        t = self.types.of(n)
        args = [a for a in n.get('inner', [])]
        if t.k == 'array':
            return self.default(t, st)
        if t.k == 'record':
            return self.construct_record(t, n, args, st)
        return self.lib.construct(self, st, n, t, args)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct_record(self, t, n, args, st):
        q = t.name
        ct = n.get('ctorType', {}).get('qualType', '')
        from .ctypes_ import split_args
        m = re.sub(r'\)\s*noexcept(\(\w+\))?\s*$', ')', ct)
        m = m[m.index('(') + 1:m.rindex(')')] if '(' in m else ''
        ps = [x for x in split_args(m) if x and x != 'void']
        if len(ps) == 1:
            pt = self.types.parse(ps[0])
            if pt.k == 'ref' and pt.args[0].k == 'record' and pt.args[0].name == q:
                return self.eval(args[0], st)
        rec = self.p.records.get(q)
        if rec is None:
            return self.lib.construct(self, st, n, t, args)
        want = [self.types.parse(x) for x in ps]
        cand = None
        for mg, d in rec['ctors']:
            dd = self.p.funcs.get(mg, d)
            got = [self.types.of(p) for p in dd.params]
            if len(got) == len(want) and all(a.key() == b.key() for a, b in zip(got, want)):
                cand = dd
                break
        if cand is None:
            c2 = [self.p.funcs.get(mg, d) for mg, d in rec['ctors'] if len(d.params) == len(want)]
            c2 = [d for d in c2 if not d.node.get('isImplicit')]
            if len(c2) == 1:
                cand = c2[0]
        if cand is None or cand.body is None:
            if not ps:
                return self.default_record(q, st)
            raise Unsupported('constructor of %s (%s)' % (q, ct))
        if not ps and (cand.node.get('isImplicit') or cand.node.get('explicitlyDefaulted')):
            return self.default_record(q, st)
        vals = self.bind_args(cand.params, args, st, cand.tu)
        this = self.new_cell(st, UNDEF, t)
        self.call_decl(cand, this, vals, st)
        return self.read(st, this)

    def e_InitListExpr(self, n, st):
        t = self.types.of(n)
        inner = n.get('inner', n.get('array_filler', []))
        if t.k == 'record':
            fs = self.rec_fields(t.name)
            f = {}
            for i, (nm, ty, init) in enumerate(fs):
                ft = self.types.parse(ty)
                if i < len(inner) and inner[i].get('kind') != 'CXXDefaultInitExpr':
                    f[nm] = self.convert(self.eval(inner[i], st), None, ft)
                elif init is not None:
                    f[nm] = self.eval_init(init, st, ft, tu=self.p.records[t.name]['tu'])
                else:
                    f[nm] = self.default(ft, st)
            return RecVal(t.name, f)
        if t.k in ('array', 'vector'):
            et = t.args[0]
            if t.k == 'array' and len(inner) == 1 and inner[0].get('kind') == 'InitListExpr' and self.types.of(inner[0]).k == 'array' and et.k != 'array':
                return self.eval(inner[0], st)
            us = [U(self.convert(self.eval(x, st), None, et)) for x in inner if x.get('kind') != 'ImplicitValueInitExpr' or True]
            if t.k == 'array':
                while len(us) < t.args[1]:
                    us.append(U(self.default(et, st)))
            return Seq(us, et)
        if t.k == 'tuple':
            return RecVal('tuple', {str(i): self.convert(self.eval(x, st), None, t.args[i]) for i, x in enumerate(inner)})
        if t.k == 'string' and not inner:
            return self.default(t, st)
        if len(inner) == 1:
            return self.convert(self.eval(inner[0], st), None, t)
        if not inner:
            return self.default(t, st)
        raise Unsupported('init list for %r' % t)

    def e_CXXStdInitializerListExpr(self, n, st):
        return self.eval(n['inner'][0], st)

    def l_CXXStdInitializerListExpr(self, n, st):
        return self.new_cell(st, self.eval(n, st), None)

    def l_CXXConstructExpr(self, n, st):
        return self.new_cell(st, self.eval(n, st), self.types.of(n))
    l_CXXTemporaryObjectExpr = l_LambdaExpr = l_InitListExpr = l_CXXConstructExpr

    def e_CXXNewExpr(self, n, st):
        raise Unsupported('new')

    def e_ArrayInitLoopExpr(self, n, st):
        raise Unsupported('array init loop')

    def e_OpaqueValueExpr(self, n, st):
        return self.eval(n['inner'][0], st)

    def l_OpaqueValueExpr(self, n, st):
        return self.lv(n['inner'][0], st)


def _refs(v, acc):
    if isinstance(v, LRef):
        acc.add(v.cell)
    elif isinstance(v, PtrVal):
        for c, r in v.alts:
            if r is not None:
                acc.add(r.cell)
    elif isinstance(v, IterVal):
        acc.add(v.ref.cell)
    elif isinstance(v, Closure):
        for x in v.caps.values():
            _refs(x, acc)
    elif isinstance(v, RecVal):
        for x in v.f.values():
            if not isinstance(x, Lazy):
                _refs(x, acc)
    elif isinstance(v, OptVal):
        if not isinstance(v._val, Lazy):
            _refs(v._val, acc)
