"""Specification layer: verification units (one function against its contract) grouped in suites
(one per property)."""
import z3, time, sys, traceback
from fractions import Fraction
from . import vals as V, interp as IP, solver as S, loops
from .vals import *
from .interp import MAXLEN
from .ctypes_ import T, strip_ref


# everything the data model evaluates with
MODEL = ['Types/src/*.cpp', 'Tools/src/Tools.cpp', 'Tools/src/OHMData.cpp', 'WaveletDecoder/src/*.cpp', 'Spiht/src/*Dec.cpp', 'FilterBank/src/Wavelet.cpp']


class Suite:
    def __init__(self, prop, sources, harness=None, harness_args=None, stand_in='', assumptions=(), timeout=240, link=(), nolink=()):
        self.nolink = nolink
        self.link = list(link)     # sources the harness needs besides the verified ones
        self.prop = prop
        self.sources = list(sources)
        self.units = []
        self.harness = harness
        self.harness_args = harness_args or []
        self.stand_in = stand_in
        self.assumptions = list(assumptions)
        self.timeout = timeout
        self.contracts = {}
        self.loopspecs = {}
        self.bounded_fns = []      # (function, reason): not under proof, bounded stand-in only
        self.generators = []       # prog -> more units (one per template instantiation)

    def unit(self, qual, claim, label=None, tier='quick', timeout=None, pick=None, uses=(), weight=1, maxsym=None, loops=None):
        def deco(f):
            self.units.append(Unit(self, qual, claim, label or f.__name__, f, tier, timeout or self.timeout, pick, uses, weight, maxsym, loops))
            return f
        return deco

    def loop(self, qual, ordinal, variant=None, hints=None):
        """written invariant for the ordinal-th loop of a function: fn(L) -> [(name, formula)]"""
        def deco(f):
            self.loopspecs.setdefault(qual, {})[ordinal] = loops.LoopSpec(f, variant, hints=hints)
            return f
        return deco

    def generate(self, f):
        """f(prog): declares units for what the extracted program instantiates"""
        self.generators.append(f)
        return f

    def expand(self, prog):
        gs, self.generators = self.generators, []
        for g in gs:
            g(prog)

    def include(self, other, only=None):
        """re-verify the units of another suite (contracts this property depends on)"""
        for s in other.sources:
            if s not in self.sources:
                self.sources.append(s)
        for u in other.units:
            if only is None or only(u):
                self.units.append(u)
        if only is None:
            self.generators.extend(other.generators)
        for k, v in other.loopspecs.items():
            self.loopspecs.setdefault(k, v)
        for k, v in other.contracts.items():
            self.contracts.setdefault(k, v)


class Unit:
    def __init__(self, suite, qual, claim, label, fn, tier, timeout, pick, uses, weight, maxsym, loopspecs=None):
        self.loopspecs = loopspecs
        self.suite = suite; self.qual = qual; self.claim = claim; self.label = label; self.fn = fn
        self.tier = tier; self.timeout = timeout; self.pick = pick; self.uses = uses; self.weight = weight
        self.maxsym = maxsym

    @property
    def name(self):
        return '%s/%s' % (self.qual.replace('haptics::', ''), self.label)

    def run(self, prog, suite=None):
        """-> dict with the obligations of this unit"""
        t0 = time.time()
        res = {'unit': self.name, 'fn': self.qual, 'claim': self.claim, 'obls': [], 'error': None, 'inlined': [], 'contracts': [], 'assumptions': []}
        V.reset()
        S._satcache.clear()
        S.GROUND = False
        S.SETTLE = 1.0
        sys.setrecursionlimit(200000)
        c = None
        try:
            c = Ctx(prog, self)
            self.fn(c)
            if not c.called:
                raise Unsupported('unit did not execute the function')
            if not c.nclaims:
                raise Unsupported('unit states no postcondition')
        except IP.Dead:
            res['error'] = 'function never returns normally'
        except NeedSplit as e:
            res['error'] = 'unsupported: unresolved case split'
        except Unsupported as e:
            res['error'] = 'unsupported: %s' % (str(e)[:600],)
        except MissingFn as e:
            res['error'] = 'missing: %s' % e
        except RecursionError:
            res['error'] = 'unsupported: recursion too deep'
        except Exception as e:
            res['error'] = 'internal: %s: %s %s' % (type(e).__name__, str(e)[:300], traceback.format_exc()[-500:])
        if c is not None:
            for o in c.ip.obls:
                info = o.info
                if o.status == 'refuted' and isinstance(info, tuple):
                    info = info[0]
                res['obls'].append((o.name, o.status, str(info)[:1500], o.fn))
            res['inlined'] = sorted(q for q in c.ip.used if q != self.qual)
            res['contracts'] = sorted(c.ip.called_contracts)
            res['assumptions'] = sorted(c.ip.assumptions)
        res['time'] = time.time() - t0
        res['stats'] = dict(S.STATS)
        for k in S.STATS:
            S.STATS[k] = 0
        return res


class MissingFn(Exception):
    pass


def get(v, *path):
    """navigate a value: field name, '?' has_value, '!' contained value, '#' length, index term"""
    v = force(v)
    for p in path:
        if isinstance(p, str):
            v = v.has if p == '?' else v.val if p == '!' else seq_len(v) if p == '#' else v.get(p)
        else:
            v = seq_get(v, p)
        v = force(v)
    return v


def at_index(seq, j, claim):
    """j < length implies claim(element j)"""
    n = seq_len(seq)
    if isinstance(n, int) and n == 0:
        return True
    return z3.Implies(z3.And(I(j) >= 0, I(n) > I(j)), B(claim(get(seq, j))))


class Ctx:
    """one verification unit: symbolic pre-state, the real body, obligations on the post-state"""

    def __init__(self, prog, unit):
        self.prog = prog
        self.u = unit
        self.ip = IP.Interp(prog)
        self.ip.context = unit.name
        if unit.maxsym:
            self.ip.maxsym = unit.maxsym
        ds = [d for d in prog.by_qual.get(unit.qual, []) if d.body is not None]
        if unit.pick:
            ds = [d for d in ds if unit.pick(d)]
        if not ds:
            raise MissingFn('%s is not defined any more' % unit.qual)
        self.d = ds[0]
        self.st = IP.State()
        self.args = {}
        self.this = None
        self.old = {}
        self.called = False
        self.nclaims = 0
        self.ip.frames.append(IP.Frame(self.d.tu, '(spec)'))
        self.ip.loopspecs = unit.loopspecs if unit.loopspecs is not None else unit.suite.loopspecs
        self.ip.ctx = self
        self.ret = None
        self.throws = []
        for q, con in unit.suite.contracts.items():
            if q != unit.qual and (not unit.uses or q in unit.uses):
                self.ip.contracts[q] = con

    # -------- pre-state
    def range(self, ctx, lo, hi):
        """assume a range for every symbolic value of field context 'Class.field' (set before building values)"""
        F.pre[ctx] = (lo, hi)

    def build(self, **given):
        """symbolic this and arguments"""
        ip = self.ip
        d = self.d
        if d.cls and d.node.get('storageClass') != 'static':
            t = T('record', d.cls)
            v = given.pop('this', None)
            self.this = ip.new_cell(self.st, v if v is not None else ip.symval('this', [], t, ''), t)
        for p in d.params:
            t = ip.types.of(p)
            n = p.get('name', 'arg%d' % len(self.args))
            tt = strip_ref(t)
            v = given.pop(n, None)
            if v is None:
                v = ip.symval(n, [], tt, '')
            self.args[n] = v if isinstance(v, LRef) else ip.new_cell(self.st, v, tt) if t.k == 'ref' else v
        if given:
            raise MissingFn('parameters %s of %s' % (list(given), self.u.qual))
        self.byref = [strip_ref(ip.types.of(p)) for p in d.params]
        self.old = {'this': self.read(self.this)} if self.this else {}
        for n, a in self.args.items():
            self.old[n] = self.read(a) if isinstance(a, LRef) else a
        return self

    def ground(self, deep=False):
        S.GROUND = True
        if deep:
            S.SETTLE = 2.0

    def sym(self, name, t, ctx=''):
        return self.ip.symval(name, [], t if isinstance(t, T) else self.ip.types.parse(t), ctx)

    def read(self, r, st=None):
        return self.ip.read(st or self.st, r)

    def arg(self, n, *path):
        """pre-state value of parameter (by name or index)"""
        if isinstance(n, int):
            n = list(self.args)[n]
        return get(self.old[n], *path)

    def pre(self, cond):
        self.st.assume(cond)
        return self

    def loop(self, ordinal, inv, variant=None, qual=None, hints=None):
        """written invariant of a loop of the function under contract (or of an inlined callee)"""
        q = qual or self.u.qual
        self.ip.loopspecs = dict(self.ip.loopspecs)
        d = dict(self.ip.loopspecs.get(q, {}))
        d[ordinal] = loops.LoopSpec(inv, variant, hints=hints)
        self.ip.loopspecs[q] = d

    def form(self, ordinal, forms, qual=None, hints=None):
        """written closed form of a loop of the function under contract (or of an inlined callee)"""
        q = qual or self.u.qual
        self.ip.loopspecs = dict(self.ip.loopspecs)
        d = dict(self.ip.loopspecs.get(q, {}))
        d[ordinal] = loops.LoopForm(forms, hints)
        self.ip.loopspecs[q] = d

    # -------- run
    def call(self):
        ip = self.ip
        self.called = True
        self.pre_pc = list(self.st.pc)
        if not S.feasible(self.st.pc, True, 2):
            raise Unsupported('vacuous: precondition unsatisfiable')
        ip.throws = [[]]
        self.dead = False
        ip.skip_once = self.d
        try:
            r = ip.call_decl(self.d, self.this, list(self.args.values()), self.st)
        except IP.Dead:
            self.dead = True
            r = None
        self.throws = ip.throws[0]
        ip.throws = [[]]
        self.ret = force(self.read(r) if isinstance(r, LRef) else r)
        self.retref = r if isinstance(r, LRef) else None
        if not self.dead and not S.feasible(self.st.pc, True, 5):
            raise Unsupported('vacuous: no normal return is reachable')
        return self.ret

    def cell(self, v, t=None):
        """a variable holding v"""
        t = t if t is None or isinstance(t, T) else self.ip.types.parse(t)
        return self.ip.new_cell(self.st, v, t)

    def disk(self, content=None, readable=True, writable=True):
        """ghost: the one file the code may open"""
        CH = T('int', bits=8, signed=True)
        self.ip.disk = self.cell(RecVal('disk', {'content': content if content is not None else Seq([], CH), 'readable': readable, 'writable': writable}))

    def file(self):
        return self.read(self.ip.disk.field('content'))

    def run(self, qual, args, this=None, pick=None):
        """another function's body, on the current state"""
        ds = [d for d in self.prog.by_qual.get(qual, []) if d.body is not None and (pick is None or pick(d))]
        if not ds:
            raise MissingFn('%s is not defined any more' % qual)
        ip = self.ip
        ip.throws = [[]]
        ip.skip_once = ds[0]
        r = ip.call_decl(ds[0], this, list(args), self.st)
        self.throws = self.throws + ip.throws[0]
        ip.throws = [[]]
        if not S.feasible(self.st.pc, True, 5):
            raise Unsupported('vacuous: no normal return of %s is reachable' % qual)
        return force(self.read(r) if isinstance(r, LRef) else r)

    def new(self, n='this', *path):
        if isinstance(n, int):
            n = list(self.args)[n]
        r = self.this if n == 'this' else self.args[n]
        return get(self.read(r) if isinstance(r, LRef) else r, *path)

    # -------- claims
    def ensure(self, name, goal, when=None, st=None, settle=False):
        st = st or self.st
        self.nclaims += 1
        if self.dead:
            raise Unsupported('no normal return')
        if when is not None:
            st = st.clone().assume(when)
            if not S.feasible(st.pc, True, 5):
                raise Unsupported('vacuous: %s' % name)
        ok = self.ip.oblige(st, goal, name, settle=settle)
        return ok

    def eq(self, name, a, b, when=None, st=None):
        return self.ensure(name, goal_eq(a, b), when, st)

    def no_throw(self, name='never throws', when=None):
        self.nclaims += 1
        for s, what in self.throws:
            self.ip.oblige(s, bnot(when) if when is not None else False, '%s (%s)' % (name, what))
        if not self.throws:
            self.ip.obls.append(IP.Obl(name, 'proved', 'no throwing path', self.u.name))

    def throws_only_when(self, cond, name='throws only outside the contract'):
        self.nclaims += 1
        for s, what in self.throws:
            self.ip.oblige(s, cond, '%s (%s)' % (name, what))

    def forall(self, lo, hi, name='q'):
        """fresh index in [lo,hi): a claim proved about it holds for every index"""
        i = fresh_int(name)
        self.st.assume(z3.And(i >= I(lo), i < I(hi)))
        return i

    def where(self, *conds):
        """context for claims under extra assumptions"""
        s = self.st.clone()
        for c in conds:
            s.assume(c)
        if not S.feasible(s.pc, True, 5):
            raise Unsupported('vacuous case')
        return s
