"""Discharging verification conditions: z3 (primary), cvc5 (cross-check / fallback)."""
import re
import z3, time, os
from . import vals as V
from .vals import F, B, simp, norm

STATS = {'queries': 0, 'z3_s': 0.0, 'cvc5_s': 0.0, 'sat_checks': 0}
_factmemo = {}


def term_apps(t, memo={}):
    """all uninterpreted applications in t having facts or bounds (cached by ast id)"""
    k = t.get_id()
    m = memo.get(k)
    if m is not None:
        return m[1]
    seen = set(); st = [t]; out = {}
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not has_var(x):
            out[i] = x
        st.extend(x.children())
    if len(memo) > 100000:
        memo.clear()
    memo[k] = (t, out)
    return out


_hv = {}


def has_var(t):
    """does t contain a bound variable of an enclosing quantifier?"""
    k = t.get_id()
    m = _hv.get(k)
    if m is not None:
        return m[1]
    if z3.is_var(t):
        r = True
    elif z3.is_quantifier(t):
        r = False
    else:
        r = any(has_var(c) for c in t.children())
    if len(_hv) > 200000:
        _hv.clear()
    _hv[k] = (t, r)
    return r


def facts_for(terms, depth=2):
    """ground instances of the registered facts for every application occurring in the terms"""
    done = set(); out = []
    todo = list(terms)
    for rnd in range(depth):
        apps = {}
        for t in todo:
            apps.update(term_apps(t))
        todo = []
        for i, a in apps.items():
            if i in done:
                continue
            done.add(i)
            nm = a.decl().name()
            for fn in F.by_decl.get(nm, ()):
                f = fn(a)
                if f is not None and f is not V.ZTRUE:
                    out.append(f)
                    todo.append(f)
        if not todo:
            break
    return out


RATE = 5000000     # z3 resource units per second, roughly


def _mk(pc, extra, timeout):
    s = z3.Solver()
    # a resource limit decides (the same on a loaded machine); the wall clock is a backstop
    s.set('rlimit', int(timeout * RATE))
    s.set('timeout', int(timeout * 4000))
    base = [B(c) for c in pc] + list(extra)
    for f in facts_for(base):
        s.add(f)
    for f in base:
        s.add(f)
    for q in F.quant:
        s.add(q)
    return s


_satcache = {}
SETTLE = 1.0
GROUND = False      # decide which paths are possible without the quantified hypotheses (a unit with many of them asks for it)


def feasible(pc, cond, timeout=0.4):
    """may pc /\\ cond hold? (unknown counts as yes)"""
    c = norm(cond)
    if c is False:
        return False
    key = (tuple(x.get_id() for x in pc if V.isz(x)), c.get_id() if V.isz(c) else c)
    h = _satcache.get(key)
    if h is not None:
        return h[1]
    for p in pc:
        if V.isz(c) and V.isz(p) and p.eq(c):
            return True
    t = time.time()
    use = [p for p in pc if not (V.isz(p) and has_quant(p))] if GROUND and timeout < 2 else pc      # fewer hypotheses: more counts as possible
    s = _mk(use, [B(c)] if V.isz(c) else [], timeout)
    r = s.check()
    STATS['sat_checks'] += 1
    STATS['z3_s'] += time.time() - t
    res = r != z3.unsat
    _satcache[key] = ((list(pc), c), res)
    return res


def fixed(pc, t, lo=0, hi=64):
    """the constant an Int term is bound to equal, or None"""
    t = simp(t)
    if z3.is_int_value(t):
        return t.as_long()
    s = _mk(pc, [], 5)
    if s.check() != z3.sat:
        return None
    v = s.model().eval(t, model_completion=True)
    if not z3.is_int_value(v) or not lo <= v.as_long() <= hi:
        return None
    return v.as_long() if entails(pc, t == v) else None


def entails(pc, goal, timeout=1.0):
    g = norm(goal)
    if g is True:
        return True
    if g is False:
        return not feasible(pc, True, timeout)
    for p in pc:
        if V.isz(p) and p.eq(g):
            return True
    return not feasible(pc, z3.Not(g), timeout)


def arbitrary(ts):
    """mentions a value that a loop summary over-approximates"""
    seen = set()
    stk = [t for t in ts if V.isz(t)]
    while stk:
        t = stk.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stk.append(t.body())
        elif z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith('any!'):
                return True
            stk.extend(t.children())
    return False


def confirm(pc, goal, info, timeout):
    """a refutation counts only if it does not rest on an incomplete encoding of equality"""
    if arbitrary([goal] + list(pc)):
        return 'unknown', 'depends on a value the loop summary leaves arbitrary'
    g, had = V.resolve_weak(B(goal), 'necessary')
    if not had:
        return 'refuted', info
    st, inf = prove(pc, g, timeout)
    if st == 'refuted':
        return 'refuted', inf
    return 'unknown', 'equality not expressible exactly'


def if_conditions(ts):
    """conditions of the choices inside the terms"""
    out, seen, todo = {}, set(), list(ts)
    while todo:
        t = todo.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not has_var(t.arg(0)):
            out[t.arg(0).get_id()] = t.arg(0)
        todo.extend(t.children())
    return list(out.values())


def has_var(t):
    return z3.is_var(t) or any(has_var(c) for c in t.children())


def decided(pc, goal):
    """choices in the goal (and in the definitions it needs) that the case settles"""
    g = B(goal)
    out = []
    pc = [p for p in pc if not V.isz(p) or not nonlinear(p)]
    for c in if_conditions([g] + facts_for([g])):
        atoms = [c] + (list(c.children()) if z3.is_or(c) or z3.is_and(c) or z3.is_not(c) else [])
        for a in atoms:
            if entails(pc, a, SETTLE):
                out.append((a, z3.BoolVal(True)))
            elif entails(pc, z3.Not(a), SETTLE):
                out.append((a, z3.BoolVal(False)))
    # search results that the case identifies with a named index
    g = simp(z3.substitute(g, *out)) if out else g
    cs = constants([g])
    found = [x for x in cs if x.sort() == z3.IntSort() and x.decl().name().startswith(('found!', 'it!'))]
    if found:
        names = [x for x in constants([g] + list(pc)) if x.sort() == z3.IntSort() and not x.decl().name().startswith(('found!', 'it!'))]
        lens = [x for x in names if x.decl().name().endswith('#')]
        lens = [x for x in names if x.decl().name().endswith('#')]
        names = [x for x in names if re.fullmatch(r'[a-z]+!\d+', x.decl().name())]      # indices named by the contract
        names += int_apps([g] + [p for p in pc if V.isz(p)])
        cand = [c for y in names for c in [y] + [n - 1 - y for n in lens]]
        s = _mk(pc, [], 2)
        m = s.model() if s.check() == z3.sat else None
        for x in found:
            for y in cand:
                if m is not None and not z3.is_true(m.eval(x == y, model_completion=True)):
                    continue
                if entails(pc, x == y, 2):
                    out.append((x, y))
                    break
    return out


def int_apps(ts):
    """whole-number values of ghost functions in the terms"""
    out, seen, todo = [], set(), list(ts)
    while todo:
        t = todo.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.num_args() == 1 and t.sort() == z3.IntSort() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in GHOST:
            out.append(t)
        todo.extend(t.children())
    return out


GHOST = set()


def constants(ts):
    out, seen, todo = [], set(), [t for t in ts if V.isz(t)]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_const(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t)
        todo.extend(t.children())
    return out


def prove(pc, goal, timeout=20, settle=None):
    """-> ('proved'|'refuted'|'unknown', info)"""
    if settle:
        s = _mk(pc, [z3.Not(simp(B(V.resolve_weak(B(goal), 'strong')[0])))], timeout)
        fs = list(s.assertions())
        s = z3.Solver()
        s.set('rlimit', int(timeout * RATE))
        s.set('timeout', int(timeout * 4000))
        for f in fs:
            s.add(simp(z3.substitute(f, *settle)))
        for a, v in settle:
            s.add(a == v)
        t = time.time()
        r = s.check()
        STATS['queries'] += 1
        STATS['z3_s'] += time.time() - t
        if r == z3.unsat:
            return 'proved', 'z3 %.2fs' % (time.time() - t)
    g = simp(B(V.resolve_weak(B(goal), 'strong')[0]))
    if z3.is_true(g):
        return 'proved', 'simplifier'
    t = time.time()
    STATS['queries'] += 1
    s = _mk(pc, [z3.Not(g)], timeout)
    nl = nonlinear(g) or any(nonlinear(p) for p in s.assertions())
    if nl:
        s.set('timeout', 2000)
    r = s.check()
    if nl and r == z3.unknown:
        t2 = time.time()
        try:
            ok = nra(list(s.assertions()), timeout / 2)
        except z3.Z3Exception:
            ok = False
        if ok:
            STATS['z3_s'] += time.time() - t
            return 'proved', 'z3-nlsat %.2fs' % (time.time() - t2)
        s.set('timeout', int(timeout * 1000))
        r = s.check()
    dt = time.time() - t
    STATS['z3_s'] += dt
    if r == z3.unsat:
        return 'proved', 'z3 %.2fs' % dt
    if r == z3.sat:
        return 'refuted', s.model()
    # second opinion: cvc5 on the same SMT-LIB text
    try:
        txt = s.to_smt2()
        r2, dt2 = cvc5_check(txt, timeout)
        STATS['cvc5_s'] += dt2
        if r2 == 'unsat':
            return 'proved', 'cvc5 %.2fs' % dt2
    except Exception:
        pass
    return 'unknown', 'z3: %s after %.1fs' % (s.reason_unknown(), dt)


def cvc5_check(txt, timeout):
    import subprocess, tempfile
    t = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + '\n'.join(l for l in txt.split('\n') if not l.startswith('(set-info') and 'set-logic' not in l))
        p = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), p], capture_output=True, text=True, timeout=timeout + 5)
        out = r.stdout.strip().split('\n')[0] if r.stdout else 'unknown'
    except subprocess.TimeoutExpired:
        out = 'unknown'
    finally:
        os.unlink(p)
    return out, time.time() - t


# ---------------------------------------------------------------- real closed field fallback
_nl = {}


def nonlinear(t):
    k = t.get_id()
    m = _nl.get(k)
    if m is not None:
        return m[1]
    r = False
    if z3.is_app(t):
        kd = t.decl().kind()
        if kd == z3.Z3_OP_MUL:
            r = sum(1 for c in t.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1
        elif kd == z3.Z3_OP_DIV:
            r = not z3.is_rational_value(t.arg(1))
    r = r or any(nonlinear(c) for c in t.children())
    if len(_nl) > 400000:
        _nl.clear()
    _nl[k] = (t, r)
    return r


def nra(asserts, timeout):
    """unsatisfiability of the ground part, with foreign terms abstracted and integers relaxed to reals"""
    g = z3.Goal()
    for a in asserts:
        if not has_quant(a):
            g.add(a)
    pre = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'propagate-values', 'solve-eqs', 'simplify')
    res = pre(g)
    if len(res) != 1:
        return False
    ab = Abstract()
    fs = [ab.boolean(f) for f in res[0]]
    s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'elim-term-ite', 'solve-eqs', 'tseitin-cnf', 'simplify', 'qfnra-nlsat').solver()
    s.set('timeout', int(timeout * 1000))
    s.add(fs)
    return s.check() == z3.unsat


def has_quant(t, memo={}):
    k = t.get_id()
    m = memo.get(k)
    if m is not None:
        return m[1]
    r = z3.is_quantifier(t) or any(has_quant(c) for c in t.children())
    if len(memo) > 200000:
        memo.clear()
    memo[k] = (t, r)
    return r


class Abstract:
    def __init__(self):
        self.memo = {}
        self.keep = []
        self.n = 0

    def fresh(self, t, sort):
        k = ('f', t.get_id())
        if k not in self.memo:
            self.n += 1
            self.memo[k] = z3.Const('abs!%d' % self.n, sort)
            self.keep.append(t)
        return self.memo[k]

    def boolean(self, t, neg=False):
        """the (negated) formula over the reals; integer strictness is kept by pushing negations to the atoms"""
        k = ('b', t.get_id(), neg)
        if k in self.memo:
            return self.memo[k]
        self.keep.append(t)
        r = None
        if z3.is_app(t):
            kd = t.decl().kind()
            ch = t.children()
            if kd in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
                r = z3.BoolVal(z3.is_true(t) != neg)
            elif kd in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                sub = [self.boolean(c, neg) for c in ch]
                r = z3.And(sub) if (kd == z3.Z3_OP_AND) != neg else z3.Or(sub)
            elif kd == z3.Z3_OP_NOT:
                r = self.boolean(ch[0], not neg)
            elif kd == z3.Z3_OP_IMPLIES:
                r = z3.And(self.boolean(ch[0]), self.boolean(ch[1], True)) if neg else z3.Or(self.boolean(ch[0], True), self.boolean(ch[1]))
            elif kd == z3.Z3_OP_ITE:
                r = z3.And(z3.Or(self.boolean(ch[0], True), self.boolean(ch[1], neg)), z3.Or(self.boolean(ch[0]), self.boolean(ch[2], neg)))
            elif kd in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and isinstance(ch[0], z3.BoolRef):
                r = z3.Or(z3.And(self.boolean(ch[0]), self.boolean(ch[1], neg)), z3.And(self.boolean(ch[0], True), self.boolean(ch[1], not neg)))
            elif kd in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and isinstance(ch[0], z3.ArithRef) and len(ch) == 2:
                a, b = self.arith(ch[0]), self.arith(ch[1])
                it = ch[0].is_int() and ch[1].is_int()
                if neg:
                    kd = {z3.Z3_OP_EQ: z3.Z3_OP_DISTINCT, z3.Z3_OP_DISTINCT: z3.Z3_OP_EQ, z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LE, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_LT: z3.Z3_OP_GE}[kd]
                r = {z3.Z3_OP_EQ: lambda: a == b, z3.Z3_OP_DISTINCT: lambda: z3.Or(a + 1 <= b, b + 1 <= a) if it else a != b, z3.Z3_OP_LE: lambda: a <= b, z3.Z3_OP_GE: lambda: a >= b,
                     z3.Z3_OP_LT: lambda: (a + 1 <= b) if it else a < b, z3.Z3_OP_GT: lambda: (a >= b + 1) if it else a > b}[kd]()
        if r is None:
            r = self.fresh(t, z3.BoolSort())
            if neg:
                r = z3.Not(r)
        self.memo[k] = r
        return r

    def arith(self, t):
        k = ('a', t.get_id())
        if k in self.memo:
            return self.memo[k]
        self.keep.append(t)
        r = None
        kd = t.decl().kind()
        ch = t.children()
        if z3.is_int_value(t):
            r = z3.RealVal(t.as_long())
        elif z3.is_rational_value(t):
            r = t
        elif kd == z3.Z3_OP_TO_REAL:
            r = self.arith(ch[0])
        elif kd == z3.Z3_OP_ADD:
            r = z3.Sum([self.arith(c) for c in ch])
        elif kd == z3.Z3_OP_SUB:
            r = self.arith(ch[0])
            for c in ch[1:]:
                r = r - self.arith(c)
        elif kd == z3.Z3_OP_UMINUS:
            r = -self.arith(ch[0])
        elif kd == z3.Z3_OP_MUL:
            r = z3.Product([self.arith(c) for c in ch])
        elif kd == z3.Z3_OP_DIV:
            r = self.arith(ch[0]) / self.arith(ch[1])
        elif kd == z3.Z3_OP_ITE:
            r = z3.If(self.boolean(ch[0]), self.arith(ch[1]), self.arith(ch[2]))
        if r is None:
            r = self.fresh(t, z3.RealSort())
        self.memo[k] = r
        return r
