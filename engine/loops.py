"""Loops: concrete unrolling, or a closed-form loop invariant whose base case and step are proved.

The closed form is guessed (by probing one symbolic iteration) and then *verified*: the state
at the head of iteration k is replaced by the guess, the body is executed symbolically, and the
result must equal the guess at k+1.  A guess that does not verify is never used.
"""
import os
import z3
from fractions import Fraction
from . import vals as V
from .vals import *
from . import solver as S
from .ctypes_ import T, strip_ref
from . import interp as IP
from .interp import LoopCtx, Dead, merge_states, State

MAXSYM = 8
DEBUG = []
_LOOPS = {}
HOLES = []


def loop_nodes(d):
    """loop statements of a function body in source order"""
    c = _LOOPS.get(id(d))
    if c is None:
        c = _LOOPS[id(d)] = []
        def walk(n):
            if isinstance(n, dict):
                if n.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
                    c.append(n)
                for x in n.get('inner', ()):
                    walk(x)
        walk(d.body)
    return c


def _target(n):
    while isinstance(n, dict) and n.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and n.get('inner'):
        n = n['inner'][0]
    return n['referencedDecl']['id'] if isinstance(n, dict) and n.get('kind') == 'DeclRefExpr' else None


def _mentions_var(n, i):
    if not isinstance(n, dict):
        return False
    if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('id') == i:
        return True
    return any(_mentions_var(x, i) for x in n.get('inner', ()))


def first_use(n, i):
    """how the statement first touches variable i: 'use' (may read it before writing it), 'def', or 'none'"""
    if not isinstance(n, dict):
        return 'none'
    k = n.get('kind')
    inner = n.get('inner', ())
    def seq(xs):
        for x in xs:
            r = first_use(x, i)
            if r != 'none':
                return r
        return 'none'
    if k == 'DeclRefExpr':
        return 'use' if n.get('referencedDecl', {}).get('id') == i else 'none'
    if k == 'CXXOperatorCallExpr' and len(inner) == 3 and _target(inner[1]) == i and _target_name(inner[0]) == 'operator=':
        return 'use' if first_use(inner[2], i) != 'none' else 'def'
    if k == 'BinaryOperator' and n.get('opcode') == '=' and _target(inner[0]) == i:
        return 'use' if first_use(inner[1], i) != 'none' else 'def'
    if k == 'BinaryOperator' and n.get('opcode') in ('&&', '||'):
        a = first_use(inner[0], i)
        return a if a != 'none' else 'use' if first_use(inner[1], i) == 'use' else 'none'
    if k in ('IfStmt', 'ConditionalOperator'):
        br = list(inner)
        els = br.pop() if (k == 'ConditionalOperator' or n.get('hasElse')) else None
        then = br.pop()
        c = seq(br)
        if c != 'none':
            return c
        a, b = first_use(then, i), first_use(els, i)
        return 'use' if 'use' in (a, b) else 'def' if a == b == 'def' else 'none'
    if k == 'ForStmt':
        c = seq([inner[0], inner[2]] if len(inner) == 5 else inner[:-1])
        if c != 'none':
            return c
        return 'use' if seq([inner[-1], inner[-2]]) == 'use' else 'none'
    if k == 'WhileStmt':
        c = seq(inner[:-1])
        return c if c != 'none' else 'use' if first_use(inner[-1], i) == 'use' else 'none'
    if k in ('CXXForRangeStmt', 'SwitchStmt', 'LambdaExpr', 'CXXTryStmt', 'DoStmt', 'GotoStmt', 'LabelStmt'):
        return 'use' if _mentions_var(n, i) else 'none'
    return seq(inner)


def _target_name(n):
    while isinstance(n, dict) and n.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and n.get('inner'):
        n = n['inner'][0]
    return n.get('referencedDecl', {}).get('name') if isinstance(n, dict) else None


def dead_at(body, loop, i):
    """variable i is overwritten before it is read in every iteration of the loop and after it"""
    path = []
    def find(n):
        if not isinstance(n, dict):
            return False
        path.append(n)
        if n is loop or any(find(x) for x in n.get('inner', ())):
            return True
        path.pop()
        return False
    if not find(body):
        return False
    if first_use(loop, i) == 'use':
        return False
    for par, ch in zip(reversed(path[:-1]), reversed(path)):
        k = par.get('kind')
        if k == 'CompoundStmt':
            ix = [j for j, x in enumerate(par['inner']) if x is ch][0]
            r = 'none'
            for x in par['inner'][ix + 1:]:
                r = first_use(x, i)
                if r != 'none':
                    break
            if r == 'use':
                return False
            if r == 'def':
                return True
        elif k in ('ForStmt', 'WhileStmt'):
            if first_use(par, i) == 'use':
                return False
        elif k not in ('IfStmt', 'CaseStmt', 'DefaultStmt', 'SwitchStmt'):
            return False
        elif k in ('CaseStmt', 'DefaultStmt', 'SwitchStmt') and _mentions_var(par, i) and not _mentions_var(ch, i):
            return False
    return True


class LoopView:
    """what an annotated loop invariant may speak about"""

    def __init__(self, ip, node, entry):
        self.ip = ip; self.node = node; self.entry = entry; self.st = None
        self.ids = {}
        def walk(n):
            if isinstance(n, dict):
                if n.get('kind') in ('VarDecl', 'ParmVarDecl') and n.get('name'):
                    self.ids.setdefault(n['name'], []).append(n['id'])
                for x in n.get('inner', ()):
                    walk(x)
        d = ip.fr.decl
        for q in d.params:
            walk(q)
        walk(d.body)
        self.head = None
        self.ix = ip.fr.env.get('#i')

    def ref(self, name):
        if name == '#i':
            return self.ix
        if name == 'this':
            return self.ip.fr.this
        c = [self.ip.fr.env[i] for i in self.ids.get(name, ()) if i in self.ip.fr.env]
        c = [r for r in c if isinstance(r, LRef) and r.cell in self.entry.cells]
        if not c:
            raise Unsupported('loop annotation: no variable %s in %s' % (name, self.ip.where()))
        return c[-1]

    def _get(self, st, name, path):
        from .spec import get
        return get(self.ip.read(st, self.ref(name)), *path)

    def __call__(self, name, *path):
        return self._get(self.st, name, path)

    def old(self, name, *path):
        """value when the loop was entered"""
        return self._get(self.entry, name, path)

    def before(self, name, *path):
        """value at the head of the current iteration"""
        return self._get(self.head, name, path)


class LoopSpec:
    def __init__(self, inv, variant=None, label='', modifies=(), ghost=None, hints=None):
        self.inv = inv; self.variant = variant; self.label = label; self.modifies = modifies; self.hints = hints


class LoopForm:
    """written closed form: forms(L) -> (trip count, [(location, k -> value before iteration k)])"""

    def __init__(self, forms, hints=None):
        self.forms = forms; self.hints = hints


def formed(ip, st, cond, body, inc, node, spec):
    """deductive rule for a loop with a written closed form; counters with a constant step are found"""
    L = LoopView(ip, node, st.clone())
    L.st = st
    nm = ip.where().replace('haptics::', '')
    N, forms = spec.forms(L)
    forms = list(forms)
    base_cells = [k for k in st.cells if k != 'ret']
    kv = z3.Int('k!%d' % uid())
    F.bounds[kv.decl().name()] = (0, IP.MAXLEN - 1)

    def at(k):
        s = st.clone()
        for ref, f in forms:
            ip.write(s, ref, f(k))
        return s

    def covered(kk):
        return any(kk[0] == ref.cell and len(kk[1]) >= len(key(ref)[1]) and kk[1][:len(key(ref)[1])] == key(ref)[1] for ref, _ in forms)

    def within(kk):
        return covered(kk) or any(kk[0] == ref.cell and key(ref)[1][:len(kk[1])] == kk[1] for ref, _ in forms)

    def start():
        s = at(kv)
        s.assume(z3.And(kv >= 0, kv < I(N)))
        return s
    V.LOOPVARS.append(kv)
    try:
        ip.probing += 1
        try:
            for rnd in range(4):
                m = ip.mark()
                s = start()
                if not S.feasible(s.pc, True):
                    break
                before = dict(s.cells)
                cond(s)
                br = []
                post = one(ip, s, body, inc, br)
                new = {}
                if post is not None:
                    for k in base_cells:
                        if k in post.cells:
                            diff(ip, LRef(k), before[k], post.cells[k], new)
                ip.rollback(m)
                add = False
                for kk, ref in new.items():
                    if within(kk):
                        continue
                    v0, v1 = force(ip.read(st, ref)), force(ip.read(post, ref))
                    d = norm(I(v1) - I(v0)) if isinstance(v0, (int, z3.ArithRef)) and isinstance(v1, (int, z3.ArithRef)) else None
                    if not isinstance(d, int):
                        raise Unsupported('loop with a closed form modifies %r' % (ref,))
                    forms.append((ref, lambda k, v0=v0, d=d: norm(I(v0) + I(k) * d)))
                    add = True
                if not add:
                    break
            else:
                raise Unsupported('modified set of the loop does not stabilise')
        finally:
            ip.probing -= 1
        for ref, f in forms:
            ip.oblige(st, goal_eq(ip.read(st, ref), f(0)), 'loop form of %s on entry: %r' % (nm, ref))
        s = start()
        if S.feasible(s.pc, True):
            c = cond(s)
            if c is not True:
                ip.oblige(s, c, 'loop of %s runs to its trip count' % nm)
            br = []
            rets0, thr0 = len(ip.fr.rets), len(ip.throws[-1])
            post = one(ip, s, body, inc, br)
            if br or len(ip.fr.rets) > rets0:
                raise Unsupported('loop with a closed form is left early')
            if post is None:
                raise Unsupported('loop body does not complete')
            ip.throws[-1][thr0:] = [t for t in ip.throws[-1][thr0:] if S.feasible(t[0].pc, True)]
            if spec.hints:
                L.st = post
                for h in spec.hints(L, kv):
                    post.assume(h)
            for ref, f in forms:
                if os.environ.get('VERIF_DEBUG') and not same(ip.read(post, ref), f(norm(kv + 1)), 0):
                    print('FORM', ref, chr(10), 'got ', ip.read(post, ref), chr(10), 'want', f(norm(kv + 1)))
                ip.oblige(post, goal_eq(ip.read(post, ref), f(norm(kv + 1))), 'loop form of %s is preserved: %r' % (nm, ref))
            extra = {}
            b = start()
            for k in base_cells:
                if k in post.cells:
                    diff(ip, LRef(k), b.cells[k], post.cells[k], extra)
            want = at(norm(kv + 1))
            for kk, ref in extra.items():
                if not covered(kk):
                    if not within(kk):
                        raise Unsupported('loop with a closed form modifies an unexpected location')
                    ip.oblige(post, goal_eq(ip.read(post, ref), ip.read(want, ref)), 'loop form of %s: the rest of %r is kept' % (nm, ref))
    finally:
        V.LOOPVARS.remove(kv)
    fin = at(N)
    fin.assume(I(N) >= 0)
    c = cond(fin)
    if c is True:
        raise Unsupported('loop with a closed form does not end')
    if c is not False:
        ip.oblige(fin, bnot(c), 'loop of %s ends at its trip count' % nm)
    return fin


def annotated(ip, st, cond, body, inc, node, spec):
    """deductive rule for a loop with a written invariant: establish, havoc, preserve"""
    L = LoopView(ip, node, st.clone())
    nm = spec.label or ip.where().replace('haptics::', '')

    def claims(s):
        L.st = s
        return [(x + (None,))[:3] for x in spec.inv(L)]

    for n, f, cs in claims(st):
        ip.oblige(st, f, 'loop invariant of %s on entry: %s' % (nm, n))
    base_cells = [k for k in st.cells if k != 'ret']
    leaves = {}

    def havoc(assume=True):
        s = st.clone()
        for ref, mk in leaves.values():
            ip.write(s, ref, mk())
        if assume:
            for n, f, cs in claims(s):
                if f is not True:
                    s.assume(B(f))
        return s

    def coarse(ref):
        path = []
        for q in ref.path:
            if q[0] != 'f':
                break
            path.append(q)
        return LRef(ref.cell, tuple(path))

    def maker(ref):
        t = ip.ltype(ref)
        v0 = force(ip.read(st, ref))
        if isinstance(v0, IterVal):
            def mk():
                h = fresh_int('it')
                return IterVal(v0.ref, h, v0.rev)
            return mk
        if isinstance(v0, LRef) or v0 is None:
            raise Unsupported('annotated loop modifies a pointer')
        if t is None and isinstance(v0, (int, z3.ArithRef)) and not isinstance(v0, bool):
            t = T('int', bits=64, signed=True)
        if t is None and isinstance(v0, Seq) and v0.et is not None:
            t = T('vector', args=[v0.et])
        if t is None:
            raise Unsupported('annotated loop modifies a location of unknown type (%s)' % type(v0).__name__)
        t = strip_ref(t)

        def mk():
            return ip.symval('lv!%d' % uid(), list(V.LOOPVARS), t)
        return mk

    ip.probing += 1
    try:
        for rnd in range(8):
            m = ip.mark()
            start = havoc()
            s = start.clone()
            L.head = start
            new = {}
            ok = True
            c = cond(s)
            if c is not False:
                if c is not True:
                    s.assume(c)
                br = []
                post = one(ip, s, body, inc, br)
                if post is not None:
                    for k in base_cells:
                        if k in post.cells:
                            diff(ip, LRef(k), start.cells[k], post.cells[k], new)
            else:
                s = None
            # conditions with side effects
            ip.rollback(m)
            add = False
            for kk, ref in new.items():
                ref = coarse(ref)
                kk = key(ref)
                if any(kk[0] == o[0] and kk[1][:len(o[1])] == o[1] for o in leaves):
                    continue
                for o in [o for o in leaves if o[0] == kk[0] and o[1][:len(kk[1])] == kk[1]]:
                    del leaves[o]
                leaves[kk] = (ref, maker(ref))
                add = True
            if not add:
                break
        else:
            raise Unsupported('modified set of the annotated loop does not stabilise')
    finally:
        ip.probing -= 1
    # an arbitrary iteration
    head = havoc()
    L.head = head.clone()
    s = head.clone()
    fin = head.clone()
    c = cond(s)
    exits = []
    if c is not False:
        if c is not True:
            s.assume(c)
        if S.feasible(s.pc, True):
            before = spec.variant(setst(L, s)) if spec.variant else None
            br = []
            start = {k: s.cells[k] for k in base_cells if k in s.cells}
            post = one(ip, s, body, inc, br)
            exits.extend(br)
            if post is not None:
                extra = {}
                for k in base_cells:
                    if k in post.cells and k in start:
                        diff(ip, LRef(k), start[k], post.cells[k], extra)
                for kk, ref in extra.items():
                    kk = key(coarse(ref))
                    if not any(kk[0] == o[0] and kk[1][:len(o[1])] == o[1] for o in leaves):
                        raise Unsupported('annotated loop modifies an unexpected location')
                if spec.hints:
                    L.st = post
                    for h in spec.hints(L):
                        post.assume(h)
                for n, f, cs in claims(post):
                    ip.oblige(post, f, 'loop invariant of %s is preserved: %s' % (nm, n), cs)
                if spec.variant:
                    after = spec.variant(setst(L, post))
                    ip.oblige(post, z3.And(I(after) < I(before), I(before) >= 0), 'loop of %s terminates (variant decreases)' % nm)
    if c is True:
        return merge_states(exits)
    c2 = cond(fin)
    fin.assume(bnot(c2))
    ends = exits if not S.feasible(fin.pc, True) else [fin] + exits
    return merge_states(ends)


def find_spec(ip, node):
    d = ip.fr.decl
    if d.qual not in ip.loopspecs:
        return None
    for i, n in enumerate(loop_nodes(d)):
        if n is node:
            return ip.loopspecs[d.qual].get(i)
    return None


def setst(L, s):
    L.st = s
    return L


def run_loop(ip, st, cond, body, inc, node=None):
    exits = []
    if node is not None and ip.loopspecs and ip.frames and ip.fr.decl is not None:
        spec = find_spec(ip, node)
        if isinstance(spec, LoopForm):
            return formed(ip, st, cond, body, inc, node, spec)
        if spec is not None:
            return annotated(ip, st, cond, body, inc, node, spec)
    cur = st
    n = 0
    mark = ip.mark()
    while True:
        pre = cur.clone()
        try:
            c = cond(cur)
        except Dead:
            return merge_states(exits)
        if c is False:
            return merge_states([cur] + exits)
        if c is not True:
            if not S.feasible(cur.pc, c):
                return merge_states([cur.assume(bnot(c))] + exits)
            # symbolic trip count
            m = ip.mark()
            nc = ip.ncell
            try:
                r = summarise(ip, pre, cond, body, inc, node)
                return merge_states([r] + exits) if r is not None else merge_states(exits)
            except Unsupported as e:
                ip.rollback(m)
                if DEBUG is not None and len(DEBUG) < 50:
                    DEBUG.append((ip.where(), str(e)))
                return merge_states(exits + [unroll(ip, pre, cond, body, inc, e)])
        n += 1
        if n > ip.MAXUNROLL:
            raise Unsupported('loop unrolled %d times' % n)
        cur = one(ip, cur, body, inc, exits)
        if cur is None:
            return merge_states(exits)


def one(ip, cur, body, inc, exits):
    """body and increment from cur; breaks appended to exits"""
    ctx = LoopCtx()
    ip.loops.append(ctx)
    try:
        r = body(cur)
    finally:
        ip.loops.pop()
    exits.extend(ctx.breaks)
    r = merge_states([r] + ctx.conts)
    if r is None:
        return None
    try:
        r2 = inc(r)
    except Dead:
        return None
    return r2 if r2 is not None else r


def unroll(ip, st, cond, body, inc, why):
    """bounded unrolling: complete only when every path leaves the loop within the bound"""
    exits = []
    cur = st
    for _ in range(getattr(ip, "maxsym", MAXSYM) if not ip.probing else 4):
        try:
            c = cond(cur)
        except Dead:
            cur = None
            break
        if c is False:
            exits.append(cur)
            cur = None
            break
        if c is not True:
            if not S.feasible(cur.pc, c):
                exits.append(cur.assume(bnot(c)))
                cur = None
                break
            if S.feasible(cur.pc, bnot(c)):
                exits.append(cur.clone().assume(bnot(c)))
            cur.assume(c)
        cur = one(ip, cur, body, inc, exits)
        if cur is None:
            break
    if cur is not None:
        raise Unsupported('loop in %s: %s' % (ip.where(), why))
    return merge_states(exits)


# ---------------------------------------------------------------- leaves
def diff(ip, ref, a, b, out, t=None):
    """leaf locations whose value differs"""
    a, b = force(a), force(b)
    if a is b:
        return
    if isinstance(a, RecVal) and isinstance(b, RecVal) and a.cls == b.cls and set(a.f) == set(b.f):
        for n in a.f:
            x, y = a.f[n], b.f[n]
            if x is y:
                continue
            diff(ip, ref.field(n), x, y, out)
        return
    if isinstance(a, Seq) and isinstance(b, Seq) and b.upd is not None and all(not mentions(b.upd[1], {x.get_id()}) for x in V.LOOPVARS[-1:] + HOLES) \
            and isinstance(force(b.upd[2]), (RecVal, Seq)):
        if b.upd[0] is a or (a.upd is not None and same(a.upd[1], b.upd[1]) and (a.upd[0] is b.upd[0] or same_ps(a.upd[0].ps, b.upd[0].ps))) or same_ps(b.upd[0].ps, a.ps):
            diff(ip, ref.idx(b.upd[1]), seq_get(a, b.upd[1]), b.upd[2], out)
            return
    if isinstance(a, IterVal) and isinstance(b, IterVal) and same(a.ref, b.ref) and a.rev == b.rev:
        if not same(a.pos, b.pos):
            out[key(ref)] = ref
        return
    if isinstance(a, (int, bool, Fraction)) and isinstance(b, (int, bool, Fraction)) and a == b:
        return
    if same(a, b, 2):
        return
    out[key(ref)] = ref


def key(ref):
    return (ref.cell, ref.path)


def is_stream_leaf(ref, v):
    return isinstance(v, PosVal) or (ref.path and ref.path[-1] == ('f', 'data') and isinstance(v, Seq))


class Leaf:
    def __init__(self, ref, v0):
        self.ref = ref; self.v0 = v0; self.hole = None; self.kind = None; self.form = None; self.consts = []; self.havoc = False; self.affine = None


def mkhole(ip, leaf, st, kv, guard=None):
    v0 = leaf.v0
    t = ip.ltype(leaf.ref)
    nm = 'hole!%d' % uid()
    if isinstance(v0, IterVal):
        h = z3.Int(nm)
        F.bounds[nm] = (0, 1 << 30)
        leaf.consts = [h]
        return IterVal(v0.ref, h, v0.rev)
    if is_stream_leaf(leaf.ref, v0):
        rest = v0.rest if isinstance(v0, PosVal) else v0.ps
        ost = False
        rv = None
        if not isinstance(v0, PosVal):
            par = ip.read(st, LRef(leaf.ref.cell, leaf.ref.path[:-1]))
            ost = isinstance(par, RecVal) and par.cls == 'ostream'
        if not ost:
            leaf.kind = 'stream'
            rest = stream_level(st, list(rest), guard)
            f = stream_form(rest, kv)
            if f is None:
                raise Unsupported('stream consumed in a loop without a matching written loop')
            leaf.form = lambda k, rest=rest, v0=v0: mkstream(v0, stream_at(rest, k))
            leaf.form_now = leaf.form(kv)
            return leaf.form_now
    if isinstance(v0, bool) or isinstance(v0, z3.BoolRef):
        h = z3.Bool(nm)
        leaf.consts = [h]
        return h
    if is_bv(v0):
        h = z3.BitVec(nm, v0.size())
        leaf.consts = [h]
        return h
    if isinstance(v0, Fraction) or (isinstance(v0, z3.ArithRef) and v0.is_real()) or (isinstance(v0, int) and t is not None and strip_ref(t).k == 'float'):
        h = z3.Real(nm)
        leaf.consts = [h]
        return h
    if isinstance(v0, (int, z3.ArithRef)):
        h = z3.Int(nm)
        tt = strip_ref(t) if t is not None else None
        lo = 0
        hi = 1 << 30
        if tt is not None and tt.k in ('int',) and tt.bits < 32:
            hi = (1 << (tt.bits - 1)) - 2 if tt.signed else (1 << tt.bits) - 2
        F.bounds[nm] = (lo, hi)
        leaf.consts = [h]
        return h
    if isinstance(v0, Undef):
        if t is None:
            raise Unsupported('undefined leaf of unknown type')
        tt = strip_ref(t)
        if tt.k in ('int', 'enum', 'bool', 'float'):
            h = {'int': z3.Int, 'enum': z3.Int, 'bool': z3.Bool, 'float': z3.Real}[tt.k](nm)
            if tt.k in ('int', 'enum'):
                F.bounds[nm] = (0, 1 << 30)
            leaf.consts = [h]
            return h
        raise Unsupported('undefined leaf')
    if isinstance(v0, Seq):
        par_o = leaf.ref.path and leaf.ref.path[-1] == ('f', 'data')
        hl = z3.Int(nm + '#')
        F.bounds[nm + '#'] = (0, 1 << 40)
        F.add(nm + '#', lambda a: a >= 0)
        hc = z3.Int(nm)
        leaf.consts = [hl, hc]
        if par_o or v0.et is None and t is None:
            return Seq([Enc('hole', (hc,), hl)], v0.et)
        et = v0.et or (strip_ref(t).args[0] if t is not None and strip_ref(t).k in ('vector', 'array') else None)
        n0 = seq_len(v0)
        w = index_var('v')
        if t is not None and strip_ref(t).k == 'array':
            return Seq([Loop(w, 0, n0, [U(ip.symval_lazy(nm + '[]', [hc, w], et, ''))])], et)
        return Seq([Loop(w, 0, hl, [U(ip.symval_lazy(nm + '[]', [hc, w], et, ''))])], et)
    if isinstance(v0, OptVal):
        if t is None:
            raise Unsupported('optional leaf of unknown type')
        hc = z3.Int(nm)
        leaf.consts = [hc]
        return ip.symval(nm, [hc], strip_ref(t))
    if isinstance(v0, RecVal) and t is not None and strip_ref(t).k == 'record':
        hc = z3.Int(nm)
        leaf.consts = [hc]
        return ip.symval(nm, [hc], strip_ref(t))
    if isinstance(v0, RecVal) and v0.cls == 'bitset':
        h = z3.Int(nm)
        F.bounds[nm] = (0, (1 << v0.get('n')) - 1)
        leaf.consts = [h]
        return RecVal('bitset', {'v': h, 'n': v0.get('n')})
    raise Unsupported('loop modifies a %s' % type(v0).__name__)


def elementwise(lf, post, leaves):
    """a sequence updated at the running index: what lies ahead is taken to be as it was before the loop (the
    step proof checks it)"""
    if not isinstance(lf.v0, Seq) or not isinstance(post, Seq) or post.upd is None or lf.kind == 'stream' or not isinstance(lf.hole, Seq):
        return
    i = post.upd[1]
    for o in leaves.values():
        if isinstance(o.hole, z3.ArithRef) and o.hole.is_int() and (o.affine is not None or len(o.consts) == 1) and (same(i, o.hole) or same(i, o.v0)):
            h, base, n = lf.hole, lf.v0, seq_len(lf.v0)
            w = index_var('v')
            done = norm(w < o.hole)
            lf.hole = Seq([Loop(w, 0, n, [U(Lazy(lambda: vite(done, ps_get(h.ps, w), seq_get(base, w)), roots=(done, w, lf.consts[1], base)))])], base.et)
            return


def affine_step(ip, lf, post, kv):
    """step of an integer that the first iteration moved by a constant (a guess; every later round re-checks it)"""
    if not isinstance(lf.v0, (int, z3.ArithRef)) or isinstance(lf.v0, bool) or not isinstance(post, (int, z3.ArithRef)) or isinstance(post, bool):
        return None
    if isz(lf.v0) and not lf.v0.is_int() or isz(post) and not post.is_int():
        return None
    t = ip.ltype(lf.ref)
    t = strip_ref(t) if t is not None else None
    if t is None or t.k != 'int':
        return None
    d = norm(I(post) - I(lf.v0))
    if not isinstance(d, int) or d == 0:
        return None
    if t.bits < 32 and d != -1:
        hi = (1 << (t.bits - 1)) - 2 if t.signed else (1 << t.bits) - 2
        lo0, hi0 = F.bounds[kv.decl().name()]
        if d != 1 or not isinstance(lf.v0, int):
            return None
        F.bounds[kv.decl().name()] = (lo0, min(hi0, hi - lf.v0))
    return d


def running_element(ref, leaves):
    """an element of a sequence at the index the loop moves: the whole sequence changes"""
    for j, p in enumerate(ref.path):
        if p[0] == 'i' and any(o.affine is not None and (same(p[1], o.v0) or same(p[1], o.hole)) for o in leaves.values()):
            return LRef(ref.cell, ref.path[:j])
    return ref


def stream_level(st, rest, guard):
    """with nested loops in the stream: expose the one that runs as often as the loop being summarised"""
    c = guard() if guard is not None and rest and isinstance(rest[0], Loop) and isinstance(rest[0].body[0] if rest[0].body else None, Loop) else None
    if c is None or not isz(c):
        return rest
    ps = rest
    for _ in range(4):
        if not ps or not isinstance(ps[0], Loop):
            return rest
        p = ps[0]
        ne = I(p.lo) < I(p.hi)
        if S.entails(st.pc, norm(B(c) == ne)) and not S.entails(st.pc, ne):
            return ps
        if not S.entails(st.pc, ne):
            return rest
        ps = p.at(p.lo) + [Loop(p.var, norm(I(p.lo) + 1), p.hi, p.body)] + ps[1:]
    return rest


def stream_form(rest, kv):
    for i, p in enumerate(rest):
        if isinstance(p, Loop):
            return i
        if isinstance(plen([p]), int) and plen([p]) == 0:
            continue
        return None
    return None


def stream_at(rest, k):
    i = stream_form(rest, k)
    p = rest[i]
    return [Loop(p.var, norm(I(p.lo) + I(k)), p.hi, p.body)] + list(rest[i + 1:])


def mkstream(v0, ps):
    if isinstance(v0, PosVal):
        return PosVal(v0.total, ps)
    return Seq(ps, v0.et)


def iteration(ip, st, cond, body, inc, ctx_exits=None):
    """one iteration from st; returns (cond term, state after cond, post state, breaks, retcount, throwcount)"""
    c = cond(st)
    if c is False:
        return c, None, []
    if c is not True:
        st.assume(c)
        if not S.feasible(st.pc, True):
            return False, None, []
    br = []
    r = one(ip, st, body, inc, br)
    return c, r, br


def summarise(ip, pre, cond, body, inc, node=None):
    kv = z3.Int('k!%d' % uid())
    F.bounds[kv.decl().name()] = (0, IP.MAXLEN - 1)
    V.LOOPVARS.append(kv)
    frame_rets = [len(f.rets) for f in ip.frames]
    base_cells = list(pre.cells.keys())
    leaves = {}
    nholes = len(HOLES)
    dead = dead_cells(ip, node) if node is not None else {}
    def guard():
        m = ip.mark()
        try:
            return cond(pre.clone())
        finally:
            ip.rollback(m)
    try:
        ip.probing += 1
        ip.discovering += 1
        try:
            # ---- discover modified leaves
            for rnd in range(6):
                m = ip.mark()
                s = pre.clone()
                for lf in leaves.values():
                    ip.write(s, lf.ref, lf.hole)
                if leaves:
                    s.assume(kv >= 0)
                    assume_stream(s, leaves, kv, True)
                c, post, br = iteration(ip, s, cond, body, inc)
                ip.rollback(m)
                if post is None:
                    if not leaves:
                        raise Unsupported('loop body does not complete normally')
                    raise Unsupported('loop body does not complete normally (havoc)')
                new = {}
                start = pre.clone()
                for lf in leaves.values():
                    ip.write(start, lf.ref, lf.hole)
                for k in base_cells:
                    if k in post.cells and k in start.cells:
                        if k == 'ret':
                            continue
                        diff(ip, LRef(k), start.cells[k], post.cells[k], new)
                add = False
                for lf in leaves.values():
                    if lf.affine is not None:
                        p = ip.read(post, lf.ref)
                        d = norm(I(p) - I(lf.hole)) if isinstance(p, (int, z3.ArithRef)) else None
                        if not isinstance(d, int) or d != lf.affine:
                            lf.affine = None
                            lf.hole = mkhole(ip, lf, pre, kv, guard)
                            HOLES.extend(lf.consts)
                            add = True
                for kk, ref in sorted(new.items(), key=lambda x: not isinstance(force(ip.read(pre, x[1])), (int, z3.ArithRef))):
                    if kk in leaves:
                        continue
                    dv = dead.get(kk[0])
                    if dv is not None and (kk[0], ()) not in leaves:
                        kk, ref = (kk[0], ()), LRef(kk[0])
                    ref = running_element(ref, leaves)
                    if key(ref) in leaves:
                        continue
                    kk = key(ref)
                    # a leaf below/above an existing one
                    if any(kk[0] == o[0] and (kk[1][:len(o[1])] == o[1]) for o in leaves):
                        continue
                    drop = [o for o in leaves if o[0] == kk[0] and o[1][:len(kk[1])] == kk[1]]
                    for o in drop:
                        del leaves[o]
                    v0 = ip.read(pre, ref)
                    pv = ip.read(post, ref) if isinstance(v0, int) and v0 == 0 else None
                    if isinstance(pv, PosVal):
                        v0 = PosVal(pv.total, list(pv.total))      # a bit cursor at the start of its stream
                        ip.write(pre, ref, v0)
                    lf = Leaf(ref, v0)
                    if dv is not None:
                        havoc_leaf(ip, lf, V.LOOPVARS[:-1], kv)
                        lf.hole = lf.form(kv)
                    else:
                        lf.affine = affine_step(ip, lf, ip.read(post, ref), kv)
                        lf.hole = norm(I(v0) + kv * lf.affine) if lf.affine is not None else mkhole(ip, lf, pre, kv, guard)
                        elementwise(lf, ip.read(post, ref), leaves)
                    HOLES.extend(lf.consts)
                    leaves[kk] = lf
                    add = True
                if not add:
                    break
            else:
                raise Unsupported('modified set does not stabilise')
        finally:
            ip.probing -= 1
            ip.discovering -= 1
        # ---- classify
        F.bounds[kv.decl().name()] = (0, IP.MAXLEN - 1)
        for lf in leaves.values():
            lf.post = ip.read(post, lf.ref)
            if lf.affine is not None:
                lf.form = lambda k, v0=lf.v0, d=lf.affine: norm(I(v0) + I(k) * d) if isz(v0) or isz(k) else v0 + k * d
        classify(ip, leaves, kv, pre)
        # ---- trip count
        def at(k, st0=None):
            s = (st0 or pre).clone()
            for lf in leaves.values():
                ip.write(s, lf.ref, lf.form(k))
            return s
        g = at(kv)
        g.assume(kv >= 0)
        npc = len(g.pc)
        ip.probing += 1
        try:
            m = ip.mark()
            g2 = g.clone()
            c = cond(g2)
            ip.rollback(m)
        finally:
            ip.probing -= 1
        N = trip_count(ip, pre, g, c, kv)
        quant = None
        fallback = False
        if N is None:
            N = fresh_N(kv)
            fallback = True
        # ---- verify the step
        s = at(kv)
        s.assume(z3.And(kv >= 0, kv < I(N)))
        assume_stream(s, leaves, kv)
        if fallback:
            pass
        if not S.feasible(s.pc, True):
            # the loop never iterates
            fin = pre.clone()
            cc = cond(fin)
            return fin.assume(bnot(cc))
        npc = len(s.pc)
        m = ip.mark()
        rets0 = len(ip.fr.rets) if ip.frames else 0
        thr0 = len(ip.throws[-1])
        before = dict(s.cells)
        c2, post, br = iteration(ip, s, cond, body, inc)
        if post is None:
            raise Unsupported('step does not complete')
        rets = ip.fr.rets[rets0:]
        del ip.fr.rets[rets0:]
        thr = ip.throws[-1][thr0:]
        del ip.throws[-1][thr0:]
        ip_probe = ip.probing
        for lf in leaves.values():
            if lf.havoc:
                continue
            want = lf.form(norm(kv + 1))
            got = ip.read(post, lf.ref)
            if same(got, want, 0):
                continue
            goal = goal_eq(got, want)
            stt, info = S.prove(post.pc, goal, 6)
            if stt != 'proved':
                if ip.hooks.get("debug") or os.environ.get("VERIF_DEBUG"):
                    aa, bb = V.absorb(got.ps) or got.ps, V.absorb(want.ps) or want.ps
                    for P_, Q_ in zip(aa, bb):
                        if isinstance(P_, Loop) and isinstance(Q_, Loop):
                            ba = P_.body
                            bq = [V.subst_piece(q, [(Q_.var, P_.var)]) for q in Q_.body]
                            for X_, Y_ in zip(ba, bq):
                                if not V.same_piece(X_, Y_):
                                    print('DIFF', X_, Y_)
                    for i_, P_ in enumerate(got.ps):
                        if isinstance(P_, Loop):
                            for X_, Y_ in zip([V.subst_piece(q, [(P_.var, V.I(P_.hi))]) for q in P_.body], got.ps[i_ + 1:]):
                                if not V.same_piece(X_, Y_):
                                    print('DIFA', X_, Y_)
                    print('NOT INDUCTIVE', lf.ref, '\n got ', got, '\n want', want, '\n post', lf.post, '\n goal', goal, '\n', str(info)[:800])
                raise Unsupported('loop summary of %r not inductive (%s)' % (lf.ref, stt))
        probe = pre.clone()
        for lf in leaves.values():
            ip.write(probe, lf.ref, lf.hole)
        extra = {}
        for k in base_cells:
            if k == 'ret' or k not in post.cells:
                continue
            diff(ip, LRef(k), before[k], post.cells[k], extra)
        for kk in extra:
            if not any(kk[0] == o[0] and kk[1][:len(o[1])] == o[1] for o in leaves):
                raise Unsupported('step modifies an unexpected location')
        if not ip.probing:
            ip.obls.append(IP.Obl('loop invariant is preserved in ' + ip.where(), 'proved', 'closed form', ip.context))
        delta = [p for p in post.pc[npc:]]
        # ---- exits
        V.LOOPVARS.pop()
        popped = True
        exits = []
        stop = N
        outs = [(b, 'break') for b in br] + [(r, 'ret') for r in rets] + [(t[0], t[1]) for t in thr]
        basepc = pre.pc
        def quantify(f):
            return f
        if outs:
            M = fresh_int('exit', 0)
            conds = []
            for e, kind in outs:
                d = [p for p in e.pc[npc:]]
                conds.append(band(*[B(p) for p in d]) if d else True)
            anyb = bor(*conds)
            facts = [z3.And(M >= 0, M <= I(N), I(N) >= 0)]
            if isz(anyb):
                j = index_var('q')
                facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < M), z3.Not(z3.substitute(anyb, (kv, j))))))
                facts.append(z3.Implies(M < I(N), z3.substitute(anyb, (kv, M))))
            else:
                facts.append(M == 0)
            stop = M
        else:
            facts = [I(N) >= 0] if isz(N) else []
            M = None
        dl = [p for p in delta if not z3.is_true(p)]
        if fallback:
            j = index_var('q')
            cb = B(c)
            facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(stop)), z3.substitute(cb, (kv, j)))))
        if dl:
            j = index_var('q')
            facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(stop)), z3.substitute(z3.And(*[B(p) for p in dl]), (kv, j)))))
        fin = at(I(N) if isz(N) else N)
        cleanup_stream(fin, leaves, ip, N)
        fin.pc = list(pre.pc) + [B(f) for f in facts if not z3.is_true(f)]
        if M is not None:
            fin.assume(M == I(N))
        cc = cond(fin)
        res = [fin.assume(bnot(cc))] if cc is not True else []
        for (e, kind), cnd in zip(outs, conds if outs else []):
            x = State({k: subst(v, [(kv, M)]) if v is not pre.cells.get(k) else v for k, v in e.cells.items()}, None)
            x.pc = list(pre.pc) + [B(f) for f in facts if not z3.is_true(f)]
            x.assume(M < I(N))
            x.assume(B(subst(cnd, [(kv, M)])) if isz(cnd) else True)
            if not S.feasible(x.pc, True):
                continue
            if kind == 'break':
                res.append(x)
            elif kind == 'ret':
                ip.fr.rets.append(x)
            else:
                ip.throws[-1].append((x, kind))
        return merge_states(res)
    finally:
        del HOLES[nholes:]
        if any(kv is x for x in V.LOOPVARS) and kv is V.LOOPVARS[-1]:
            V.LOOPVARS.pop()
        if False and kv in V.LOOPVARS and V.LOOPVARS and V.LOOPVARS[-1] is kv:
            V.LOOPVARS.pop()
        for f, k in zip(ip.frames, frame_rets):
            pass


def fresh_N(kv):
    V.LOOPVARS.pop()
    try:
        return fresh_int('trips', 0)
    finally:
        V.LOOPVARS.append(kv)


def assume_stream(s, leaves, kv, discovery=False):
    """while discovering what changes, the stream is taken to hold one more element (re-checked in the step)"""
    if not discovery:
        return
    for lf in leaves.values():
        if lf.kind == 'stream':
            v = ip_read_ps(s, lf)
            if v and isinstance(v[0], Loop):
                s.assume(I(v[0].lo) < I(v[0].hi))


def ip_read_ps(s, lf):
    v = lf.form_now
    return v.rest if isinstance(v, PosVal) else v.ps


def cleanup_stream(st, leaves, ip, N):
    for lf in leaves.values():
        if lf.kind == 'stream':
            v = ip.read(st, lf.ref)
            ps = v.rest if isinstance(v, PosVal) else v.ps
            if ps and isinstance(ps[0], Loop) and (same(ps[0].lo, ps[0].hi) or S.entails(st.pc, I(ps[0].lo) >= I(ps[0].hi))):
                ps = ps[1:]
            ip.write(st, lf.ref, mkstream(v, ps))


def classify(ip, leaves, kv, pre):
    todo = [lf for lf in leaves.values() if lf.form is None]
    submap = []      # (hole const, value at kv) for scalars
    structural = {}
    allconsts = {}
    for lf in leaves.values():
        for c in lf.consts:
            allconsts[c.get_id()] = lf

    def unresolved(v, own=None):
        ids = {i for i, l in allconsts.items() if l.form is None and l is not own}
        return bool(ids) and mentions(v, ids)

    def set_int(lf, form):
        lf.form = form
        submap.append((lf.consts[0], I(form(kv))))

    def wrapit(lf, f):
        v0 = lf.v0
        if isinstance(v0, IterVal):
            return lambda k: IterVal(v0.ref, f(k), v0.rev)
        if isinstance(v0, RecVal) and v0.cls == 'bitset':
            return lambda k: RecVal('bitset', {'v': f(k), 'n': v0.get('n')})
        return f

    def scal(lf):
        if isinstance(lf.v0, IterVal):
            return lf.post.pos, lf.v0.pos
        if isinstance(lf.v0, RecVal) and lf.v0.cls == 'bitset':
            return lf.post.get('v'), lf.v0.get('v')
        return lf.post, lf.v0

    def is_scalar(lf):
        return len(lf.consts) == 1 and (isinstance(lf.hole, (z3.ArithRef, z3.BoolRef)) or is_bv(lf.hole) or isinstance(lf.hole, IterVal) or isinstance(lf.v0, RecVal) and lf.v0.cls == 'bitset')

    # affine
    for lf in todo:
        if is_scalar(lf) and lf.consts[0].sort() == z3.IntSort():
            p, v0 = scal(lf)
            if isinstance(p, PosVal) or isinstance(v0, Undef):
                continue
            d = norm(I(p) - lf.consts[0])
            if isinstance(d, int):
                f = (lambda k, v0=v0, d=d: norm(I(v0) + I(k) * d) if isz(v0) or isz(k) else v0 + k * d)
                lf.form = wrapit(lf, f)
                submap.append((lf.consts[0], I(f(kv))))
    progress = True
    while progress:
        progress = False
        for lf in leaves.values():
            if lf.form is not None:
                continue
            post = lf.post
            # ---- sequences
            if isinstance(lf.v0, Seq):
                if not isinstance(post, Seq):
                    continue
                hp = lf.hole.ps
                if len(post.ps) >= 1 and post.ps[0] is hp[0]:
                    newp = post.ps[1:]
                    nn = [subst_piece(p, submap) for p in newp] if submap else newp
                    if unresolved(nn):
                        continue
                    # occurrences of the sequence's own length (e.g. size() before the append)
                    own = {c.get_id() for c in lf.consts}
                    if mentions(nn, own):
                        per = plen(newp)
                        if isinstance(per, int):
                            l0 = seq_len(lf.v0)
                            nn = [subst_piece(p, [(lf.consts[0], norm(I(l0) + kv * per))]) for p in nn]
                        if mentions(nn, own):
                            continue
                    def form(k, lf=lf, nn=nn):
                        if isinstance(k, int) and k == 0:
                            return lf.v0
                        v = index_var('a')
                        bd = [subst_piece(p, [(kv, v)]) for p in nn]
                        base = list(lf.v0.ps)
                        if base and isinstance(base[-1], Loop) and same(base[-1].lo, 0) and False:
                            pass
                        return Seq(base + [Loop(v, 0, k, bd)], lf.v0.et or lf.post.et)
                    lf.form = memo1(form)
                    if len(lf.consts) == 2:
                        submap.append((lf.consts[0], I(norm(I(seq_len(lf.form(kv)))))))
                    progress = True
                    continue
                # element update chain
                ups = []
                x = post
                while x.upd is not None and x is not lf.hole:
                    ups.append((x.upd[1], x.upd[2]))
                    x = x.upd[0]
                if ups and (x is lf.hole or same_ps(x.ps, lf.hole.ps)):
                    if len(ups) == 1:
                        i, val = ups[0]
                        i = subst(i, submap) if isz(i) else i
                        d = norm(z3.substitute(I(i), (kv, kv + 1)) - I(i)) if isz(i) else 0
                        own = {c.get_id() for c in lf.consts}
                        if isinstance(d, int) and d in (1, -1) and not unresolved(i) and not mentions(i, own):
                            vv = subst(val, submap)
                            if unresolved(vv, lf):
                                continue
                            # own elements: only the one being written may be read
                            base = lf.v0
                            i0 = norm(z3.substitute(I(i), (kv, z3.IntVal(0))))
                            rd = Lazy(lambda: vv)
                            if mentions(vv, own):
                                vv2 = replace_own(vv, lf, base, i)
                                if vv2 is None:
                                    continue
                                vv = vv2
                            n = seq_len(base)
                            def form(k, base=base, i0=i0, d=d, vv=vv, n=n):
                                if isinstance(k, int) and k == 0:
                                    return base
                                w = index_var('u')
                                kk = norm(w - I(i0)) if d == 1 else norm(I(i0) - w)
                                inr = band(norm(I(kk) >= 0), norm(I(kk) < I(k)))
                                return Seq([Loop(w, 0, n, [U(Lazy((lambda: vite(inr, subst(vv, [(kv, I(kk))]), ps_get(base.ps, w))), roots=(inr, vv, base, w, kk)))])], base.et)
                            lf.form = memo1(form)
                            if len(lf.consts) == 2:
                                submap.append((lf.consts[0], I(n)))
                            progress = True
                            continue
                if not mentions(post, {c.get_id() for c in lf.consts}):
                    p2 = subst(post, submap)
                    if unresolved(p2):
                        continue
                    lf.form = memo1(lambda k, lf=lf, p2=p2: lastval(k, lf.v0, p2, kv))
                    progress = True
                continue
            if is_scalar(lf):
                p, v0 = scal(lf)
                if isinstance(p, Undef):
                    continue
                h = lf.consts[0]
                p2 = subst(p, submap) if isz(p) else p
                if unresolved(p2, lf):
                    continue
                if not mentions(p2, {h.get_id()}):
                    f = memo1(lambda k, v0=v0, p2=p2: lastval(k, v0, p2, kv))
                    lf.form = wrapit(lf, f)
                    try:
                        cv = f(kv)
                        submap.append((h, B(cv) if h.sort() == z3.BoolSort() else R(cv) if h.sort() == z3.RealSort() else I(cv) if h.sort() == z3.IntSort() else cv))
                    except Unsupported:
                        lf.form = None
                        continue
                    progress = True
                    continue
                if h.sort() == z3.IntSort():
                    d = norm(I(p2) - h)
                    if isinstance(d, int) or not mentions(d, {h.get_id()}):
                        b = bounds(d)
                        if b[0] is not None and b[0] >= 0:
                            f = (lambda k, v0=v0, d=d: norm(I(v0) + I(sum_term(kv, 0, k, d))))
                            lf.form = wrapit(lf, f)
                            submap.append((h, I(f(kv))))
                            progress = True
                            continue
                continue
            # ---- other structured values: last value
            p2 = subst(post, submap)
            own = {c.get_id() for c in lf.consts}
            if not unresolved(p2) and not mentions(p2, own):
                lf.form = memo1(lambda k, lf=lf, p2=p2: lastval(k, lf.v0, p2, kv))
                progress = True
    rest = [lf for lf in leaves.values() if lf.form is None]
    if rest:
        recursive_forms(ip, rest, leaves, kv, submap, is_scalar, scal, wrapit)


def memo1(f):
    cache = {}
    def g(k):
        kk = k if isinstance(k, int) else ('z', k.get_id())
        if kk not in cache:
            cache[kk] = (k, f(k))
        return cache[kk][1]
    return g


def lastval(k, v0, p, kv):
    if isinstance(k, int):
        if k == 0:
            return v0
        return subst(p, [(kv, z3.IntVal(k - 1))])
    k = norm(k)
    if isinstance(k, int):
        return lastval(k, v0, p, kv)
    q = subst(p, [(kv, I(norm(k - 1)))])
    if isinstance(v0, Undef):
        return q
    if bounds(k)[0] is not None and bounds(k)[0] > 0:
        return q
    c = norm(k <= 0)
    return vite(c, v0, q)


def replace_own(v, lf, base, i):
    """rewrite reads hole[i] into base[i] (the written element before the write)"""
    hc = lf.consts[-1]
    own = {c.get_id() for c in lf.consts}
    if isinstance(v, RecVal):
        return own_record(v, seq_get(lf.hole, i), seq_get(base, i), own)
    if not isz(v):
        return None
    apps = []
    seen = set()
    stk = [v]
    while stk:
        t = stk.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.num_args() == 2 and t.arg(0).eq(hc):
            apps.append(t)
            continue
        stk.extend(t.children())
    m = []
    for a in apps:
        ix = a.arg(1)
        if not (norm(ix) if not isz(i) else simp(ix)) == i if not isz(i) else not simp(ix).eq(simp(i)):
            return None
        e = seq_get(base, i)
        m.append((a, R(e) if a.sort() == z3.RealSort() else B(e) if a.sort() == z3.BoolSort() else I(e)))
    r = z3.substitute(v, *m) if m else v
    if mentions(r, own):
        return None
    return norm(r)


def own_record(v, h, b, own):
    """what the body left alone comes from the sequence before the loop; the rest must not mention it"""
    v, h, b = force(v), force(h), force(b)
    if same(v, h):
        return b
    if not mentions(v, own):
        return v
    def parts(xs):
        r = [own_record(x, hx, bx, own) for x, hx, bx in xs]
        return None if any(x is None for x in r) else r
    if isinstance(v, RecVal) and isinstance(h, RecVal) and isinstance(b, RecVal):
        r = parts([(v.get(n), h.get(n), b.get(n)) for n in v.f])
        return RecVal(v.cls, dict(zip(v.f, r))) if r else None
    if isinstance(v, OptVal) and isinstance(h, OptVal) and isinstance(b, OptVal):
        r = parts([(v.has, h.has, b.has), (v.val, h.val, b.val)])
        return OptVal(*r) if r else None
    if isinstance(v, Seq) and len(v.ps) == 1 and isinstance(v.ps[0], Cond) and not mentions(v.ps[0].c, own):
        p = v.ps[0]
        r = parts([(Seq(p.a, v.et), h, b), (Seq(p.b, v.et), h, b)])
        return Seq([Cond(p.c, r[0].ps, r[1].ps)], v.et) if r else None
    if isz(v) and isz(h):
        if isinstance(b, Undef):     # the value of an empty optional: any
            b = z3.FreshConst(h.sort(), 'any')
        r = norm(z3.substitute(v, (h, B(b) if h.sort() == z3.BoolSort() else R(b) if h.sort() == z3.RealSort() else I(b) if h.sort() == z3.IntSort() else b)))
        return None if mentions(r, own) else r
    return None


def dead_cells(ip, node):
    """cells of local variables of class type whose value at the head of an iteration does not matter"""
    d = ip.fr.decl if ip.frames else None
    if d is None or d.body is None:
        return {}
    r = {}
    for i, ref in ip.fr.env.items():
        if isinstance(ref, LRef) and not ref.path:
            t = ip.ltype(ref)
            if t is not None and t.k == 'record' and _mentions_var(node, i) and dead_at(d.body, node, i):
                r[ref.cell] = i
    return r


def havoc_leaf(ip, lf, outer, kv):
    """no closed form: any value at all at the start of each iteration but the first (dead locals, typically)"""
    t = ip.ltype(lf.ref)
    t = strip_ref(t) if t is not None else None
    if t is None or t.k not in ('record', 'optional', 'vector', 'string') or lf.kind == 'stream' or not isinstance(lf.v0, (RecVal, OptVal, Seq)):
        raise Unsupported('no closed form for %r (%s)' % (lf.ref, type(lf.v0).__name__))
    nm = 'any!%d' % uid()
    lf.form = memo1(lambda k: lf.v0 if isinstance(k, int) and k == 0 else ip.symval(nm, list(outer) + [I(k)], t))
    lf.havoc = True


def recursive_forms(ip, rest, leaves, kv, submap, is_scalar, scal, wrapit):
    """fallback for scalar accumulators: a function defined by the loop's own recurrence"""
    outer = V.LOOPVARS[:-1]
    for lf in [l for l in rest if not is_scalar(l)]:
        havoc_leaf(ip, lf, outer, kv)
    rest = [lf for lf in rest if lf.form is None]
    if not rest:
        return
    fs = {}
    for lf in rest:
        h = lf.consts[0]
        p, v0 = scal(lf)
        if isinstance(v0, Undef):
            raise Unsupported('undefined accumulator')
        nm = 'rec!%d' % uid()
        f = z3.Function(nm, *([z3.IntSort()] * (len(outer) + 1) + [h.sort()]))
        fs[h.get_id()] = (f, nm, lf)
    allids = {c.get_id() for lf in rest for c in lf.consts}
    steps = {}
    for lf in rest:
        h = lf.consts[0]
        f, nm, _ = fs[h.get_id()]
        p, v0 = scal(lf)
        p2 = subst(p, submap) if isz(p) else p
        lift = (lambda x, s=h.sort(): B(x) if s == z3.BoolSort() else R(x) if s == z3.RealSort() else I(x) if s == z3.IntSort() else x)
        p2 = lift(p2)
        m = [(z3c, fs[i][0](*(list(outer) + [kv]))) for i, z3c in ((l.consts[0].get_id(), l.consts[0]) for l in rest)]
        stepterm = z3.substitute(p2, *m)      # value at kv+1 in terms of values at kv
        v0t = lift(v0)
        outv = list(outer)
        def fact(app, stepterm=stepterm, v0t=v0t, outv=outv):
            a = app.children()
            k = a[-1]
            sub0 = list(zip(outv, a[:-1]))
            base = z3.substitute(v0t, *sub0) if sub0 else v0t
            st = z3.substitute(stepterm, *(sub0 + [(kv, k - 1)]))
            return z3.And(z3.Implies(k <= 0, app == base), z3.Implies(k > 0, app == st))
        F.add(nm, fact)
        lf.form = wrapit(lf, (lambda k, f=f, outer=outer: norm(f(*(list(outer) + [I(k)])))))
        submap.append((h, f(*(list(outer) + [kv]))))


# ---------------------------------------------------------------- trip counts
def trip_count(ip, pre, g, c, kv):
    """closed form of the number of iterations for linear conditions, checked"""
    if c is True:
        return None
    N = tc(c, kv, pre.pc)
    if N is None:
        return None
    N = norm(N)
    # check: c holds below N, fails at N
    cb = B(c)
    if not isinstance(N, int):
        b = bounds(N)
    s1, _ = S.prove(pre.pc, z3.Implies(z3.And(kv >= 0, kv < I(N)), cb), 4)
    if s1 != 'proved':
        return None
    s2, _ = S.prove(pre.pc, z3.Not(z3.substitute(cb, (kv, I(N)))), 4)
    if s2 != 'proved':
        return None
    if not isinstance(N, int) and not S.entails(pre.pc, N >= 0):
        return None
    if not ip.probing:
        ip.obls.append(IP.Obl('loop bound is exact in ' + ip.where(), 'proved', 'z3', ip.context))
    return N


def tc(c, kv, pc):
    neg = False
    while z3.is_not(c):
        neg = not neg
        c = c.children()[0]
    if (z3.is_and(c) and not neg) or (z3.is_or(c) and neg):
        ns = [tc(z3.Not(x) if neg else x, kv, pc) for x in c.children()]
        if any(n is None for n in ns):
            return None
        r = ns[0]
        for n in ns[1:]:
            r = norm(z3.If(I(n) < I(r), I(n), I(r)))
        return r
    if not z3.is_app(c) or c.num_args() != 2:
        return None
    k = c.decl().kind()
    a, b = c.children()
    if not (isinstance(a, z3.ArithRef) and a.is_int()):
        if not (isinstance(a, z3.ArithRef)):
            return None
        # real comparison of lifted integers
        ua, ub = unreal(a), unreal(b)
        if ua is None or ub is None:
            return None
        a, b = ua, ub
    f = a - b
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
        # normal form f < 0
        if neg:
            k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_GT: z3.Z3_OP_LE}[k]
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            f = -f
            k = z3.Z3_OP_LE if k == z3.Z3_OP_GE else z3.Z3_OP_LT
        if k == z3.Z3_OP_LE:
            f = f - 1
        d = norm(z3.substitute(f, (kv, kv + 1)) - f)
        f0 = simp(z3.substitute(f, (kv, z3.IntVal(0))))
        if not isinstance(d, int):
            return None
        if d <= 0:
            return None
        n = norm((-I(f0) + (d - 1)) / d) if d > 1 else norm(-I(f0))
        if isinstance(n, int):
            return max(0, n)
        bnd = bounds(n)
        if bnd[0] is not None and bnd[0] >= 0:
            return n
        if S.entails(pc, n >= 0):
            return n
        return norm(z3.If(n > 0, n, z3.IntVal(0)))
    if k == z3.Z3_OP_EQ and neg:
        d = norm(z3.substitute(f, (kv, kv + 1)) - f)
        f0 = norm(z3.substitute(f, (kv, z3.IntVal(0))))
        if d == 1:
            return norm(-I(f0))
        if d == -1:
            return norm(I(f0))
    return None


def unreal(t):
    if z3.is_rational_value(t) and t.denominator_as_long() == 1:
        return z3.IntVal(t.numerator_as_long())
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return t.children()[0]
    return None
