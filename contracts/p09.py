"""P09: inlining library references (Perception::linearizeLibrary, resolveReferences, getEffectById)."""
from contracts.pairs import *
from engine.spec import Suite, MODEL
from contracts import p07

SRC = p07.SRC
suite = Suite('P09', SRC, harness='linear', stand_in='random documents with nested references against a recursive reference implementation', link=MODEL)
EFF = T('record', TY + 'Effect')
REF = 1


def first_match(c, lib, eid, k):
    """k is the first library effect with that id"""
    a = z3.Int('a!')
    return z3.And(I(k) >= 0, I(k) < I(seq_len(lib)), I(get(lib, k, 'id')) == I(eid),
                  z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < I(k)), I(get(lib, norm(a), 'id')) != I(eid))))


def none(lib, eid):
    a = z3.Int('a!')
    return z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < I(seq_len(lib))), I(get(lib, norm(a), 'id')) != I(eid)))


@suite.unit(TY + 'Perception::getEffectById', 'finds the first library effect with the id, and nothing when there is none', label='find')
def _(c):
    c.build()
    lib = c.old['this'].get('effectLibrary')
    r = c.call()
    c.no_throw()
    p07.frame(c, None)
    k = fresh_int('k', 0)
    st = c.where(first_match(c, lib, c.arg('id'), k))
    c.ensure('found when there is one', get(r, '?'), st=st)
    c.eq('the first one', get(r, '!'), get(lib, k), st=st)
    st = c.where(none(lib, c.arg('id')))
    c.ensure('nothing when there is none', bnot(get(r, '?')), st=st)


# ---------------------------------------------------------------- resolving one effect
FOUND = z3.Function('FOUND', z3.IntSort(), z3.BoolSort())      # the library has an effect with this id
IDX = z3.Function('IDX', z3.IntSort(), z3.IntSort())           # the first one
OPEN = z3.Function('OPEN', z3.IntSort(), z3.BoolSort())        # the id is being resolved already (by a caller)
AT = z3.Function('AT', z3.IntSort(), z3.IntSort())


class Lookup:
    """getEffectById, proved above"""

    def apply(self, ip, st, d, this, args):
        i = ip.read(st, args[0]) if isinstance(args[0], LRef) else args[0]
        lib = ip.read(st, this.field('effectLibrary'))
        x = I(i)
        k = IDX(x)
        st.assume(z3.Implies(FOUND(x), z3.And(k >= 0, k < I(seq_len(lib)), I(get(lib, k, 'id')) == x)))
        return OptVal(norm(FOUND(x)), Lazy(lambda: get(lib, k), roots=(lib, k)))


def resolved(lib, et):
    """the effect with its references replaced; extra: ids being resolved besides those of the caller"""
    @decoded('Resolved')
    def f(ip, e, *extra):
        i = I(e.get('id'))
        isref = I(e.get('effectType')) == REF
        hit = norm(simp(z3.And(isref, FOUND(i), z3.Not(OPEN(i)), *[i != I(x) for x in extra])))
        return result(ip, e, extra, hit, norm(simp(isref)))

    def result(ip, e, extra, hit, isref):
        src = get(lib, IDX(I(e.get('id'))))
        copied = src.set('position', e.get('position')).set('id', -1).set('timeline', mapped(src, ['timeline'], lambda x: f(ip, x, *(extra + (e.get('id'),)))))
        kept = e.set('timeline', mapped(e, ['timeline'], lambda x: f(ip, x, *extra)))
        return vite(hit, copied, vite(isref, e, kept))
    f.result = result
    return f


class Rec:
    """resolveReferences applied to a child (induction hypothesis)"""

    def __init__(self, f, base):
        self.f, self.base = f, base

    def apply(self, ip, st, d, this, args):
        e = force(ip.read(st, args[0]))
        o = ip.read(st, args[1])
        extra = tail(o, self.base)
        ip.write(st, args[0], self.f(ip, e, *extra))
        return None


def tail(o, base):
    o = force(o)
    n = len(base.ps)
    if len(o.ps) < n or o.ps[:n] != base.ps or not all(isinstance(p, U) for p in o.ps[n:]):
        raise Unsupported('open references: %r' % (o,))
    return tuple(force(p.v) for p in o.ps[n:])


def resolve_unit(label, case):
    @suite.unit(TY + 'Perception::resolveReferences', 'an effect and its timeline are replaced by what the library says', label=label)
    def _(c):
        c.build()
        lib = c.old['this'].get('effectLibrary')
        e = c.arg('effect')
        base = c.arg('openReferences')
        i = I(e.get('id'))
        isref = I(e.get('effectType')) == REF
        a = z3.Int('a!')
        n = I(seq_len(base))
        c.pre(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n, I(get(base, norm(a))) == i), OPEN(i))))
        c.pre(z3.Implies(OPEN(i), z3.And(AT(i) >= 0, AT(i) < n, I(get(base, AT(i))) == i)))
        hit = z3.And(FOUND(i), z3.Not(OPEN(i)))
        c.pre(z3.Not(isref) if case == 'other' else z3.And(isref, hit) if case == 'copied' else z3.And(isref, z3.Not(hit)))
        f = resolved(lib, EFF)
        c.ip.contracts[TY + 'Perception::getEffectById'] = Lookup()
        c.ip.contracts[TY + 'Perception::resolveReferences'] = Rec(f, base)
        c.call()
        c.no_throw()
        p07.frame(c, None)
        c.eq('the open references are as before', c.new('openReferences'), base)
        want = f.result(c.ip, e, (), case == 'copied', case != 'other')
        compare(c, c.new('effect'), want)
        if case == 'copied':
            c.ensure('no reference any more', I(c.new('effect', 'effectType')) != REF, when=I(get(lib, IDX(i), 'effectType')) != REF)
            c.eq('starts where the reference started', c.new('effect', 'position'), e.get('position'))


def compare(c, got, want):
    got, want = force(got), force(want)
    for n in got.f:
        c.eq(n, got.get(n), want.get(n))


resolve_unit('reference', 'copied')
resolve_unit('unresolved', 'kept')
resolve_unit('not-a-reference', 'other')


# ---------------------------------------------------------------- the whole document
def inlined(lib):
    """a perception after inlining, given its library"""
    f = resolved(lib, EFF)
    d_band = Decoded('InlinedBand', lambda ip, b: b.set('effects', mapped(b, ['effects'], lambda e: f(ip, e))))
    d_channel = Decoded('InlinedChannel', lambda ip, ch: ch.set('bands', mapped(ch, ['bands'], lambda b: d_band(ip, b))))
    d_perc = Decoded('InlinedPerception', lambda ip, p: p.set('channels', mapped(p, ['channels'], lambda ch: d_channel(ip, ch))).set('effectLibrary', Seq([], EFF)))
    f.band, f.channel = d_band, d_channel
    return f, d_perc


def partly(s, k, fn):
    """the first k elements replaced"""
    a, b = index_var('m'), index_var('m')
    if same(k, seq_len(s)):
        return Seq([Loop(a, 0, k, [U(Lazy(lambda: fn(get(s, a)), roots=(s, a)))])], s.et)
    return Seq([Loop(a, 0, k, [U(Lazy(lambda: fn(get(s, a)), roots=(s, a)))]), Loop(b, k, seq_len(s), [U(Lazy(lambda: get(s, b), roots=(s, b)))])], s.et)


@suite.unit(TY + 'Perception::linearizeLibrary', 'every effect of every band of every channel is resolved, nothing else changes, and the library is emptied', label='all')
def _(c):
    c.build()
    lib = c.old['this'].get('effectLibrary')
    f, d_perc = inlined(lib)
    c.ip.contracts[TY + 'Perception::getEffectById'] = Lookup()
    c.ip.contracts[TY + 'Perception::resolveReferences'] = Rec(f, Seq([], T('int', 'int', bits=32, signed=True)))
    chans = c.old['this'].get('channels')

    def level(ref, s, fn):
        return seq_len(s), [(ref, lambda k: partly(s, k, lambda x: fn(c.ip, x)))]

    def at(L, *names):
        r, s = L.ref('this').field('channels'), chans
        for n, fld in zip(names, ('bands', 'effects')):
            r, s = r.idx(L(n)).field(fld), get(s, L(n), fld)
        return r, s
    c.form(0, lambda L: level(*at(L), f.channel))
    c.form(1, lambda L: level(*at(L, 'i'), f.band))
    c.form(2, lambda L: level(*at(L, 'i', 'j'), f))
    c.call()
    c.no_throw()
    compare(c, c.new('this'), d_perc.fn(c.ip, c.old['this']))


@suite.unit(TY + 'Haptics::linearize', 'every perception is inlined, nothing else changes', label='perceptions')
def _(c):
    class Lin:
        def apply(self, ip, st, d, this, args):
            p = force(ip.read(st, this))
            f, d_perc = inlined(p.get('effectLibrary'))
            ip.write(st, this, d_perc(ip, p))
            return None
    c.build()
    c.ip.contracts[TY + 'Perception::linearizeLibrary'] = Lin()
    c.call()
    c.no_throw()
    p07.frame(c, 'perceptions')
    s, t = c.old['this'].get('perceptions'), c.new('this', 'perceptions')
    c.eq('as many perceptions', seq_len(t), seq_len(s))
    k = c.forall(0, seq_len(s))
    p = get(s, k)
    f, d_perc = inlined(p.get('effectLibrary'))
    c.eq('each one inlined', get(t, k), d_perc(c.ip, p))
