"""P16: command-line options are found exactly where they were given (tools::InputParser)."""
from engine.spec import *
from engine.ctypes_ import T
import z3

SRC = ['Tools/src/InputParser.cpp']
HARNESS_SOURCES = SRC
suite = Suite('P16', SRC, harness='cmdline', stand_in='all argument vectors of up to 5 tokens over a small alphabet, plus random ones, against a direct reading of the vector')
NS = 'haptics::tools::InputParser::'


def tok(s, i):
    return str_term(seq_get(s, i))


def opt(c):
    return str_term(c.arg('option'))


def first(c, s, m):
    """m is the first position of the option in s"""
    a = z3.Int('a!')
    return z3.And(m >= 0, m < I(seq_len(s)), tok(s, m) == opt(c), z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < m), tok(s, a) != opt(c))))


def absent(c, s):
    a = z3.Int('a!')
    return z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < I(seq_len(s))), tok(s, a) != opt(c)))


@suite.unit(NS + 'getCmdOption', 'returns the argument directly after the first occurrence of the option; empty when there is none')
def value(c):
    c.build()
    s = c.old['this'].get('tokens')
    r = c.call()
    c.no_throw()
    c.eq('asking changes nothing', c.new('this', 'tokens'), s)
    m = fresh_int('m')
    st = c.where(first(c, s, m), m + 1 < I(seq_len(s)))
    c.eq('value is the next argument', r, seq_get(s, norm(m + 1)), st=st)
    st = c.where(first(c, s, m), m + 1 == I(seq_len(s)))
    c.eq('empty when the option is last', seq_len(r), 0, st=st)
    st = c.where(absent(c, s))
    c.eq('empty when the option is absent', seq_len(r), 0, st=st)


@suite.unit(NS + 'cmdOptionExists', 'tells whether the option is among the arguments')
def exists(c):
    c.build()
    s = c.old['this'].get('tokens')
    r = c.call()
    c.no_throw()
    c.eq('asking changes nothing', c.new('this', 'tokens'), s)
    k = c.forall(0, seq_len(s))
    c.ensure('found when given', r, when=tok(s, k) == opt(c))
    st = c.where(absent(c, s))
    c.ensure('not found when absent', bnot(r), st=st)


@suite.unit(NS + 'InputParser', 'keeps every argument, in order')
def ctor(c):
    c.build()
    c.call()
    c.no_throw()
    t = c.new('this', 'tokens')
    a = c.arg(0)
    c.eq('as many tokens as arguments', seq_len(t), seq_len(a))
    k = c.forall(0, seq_len(a))
    c.eq('token k is argument k', seq_get(t, k), seq_get(a, k))


@suite.unit(NS + 'getFileExt', 'returns what follows the last dot, empty when there is none')
def ext(c):
    c.build()
    f = c.arg('filename')
    r = c.call()
    c.no_throw()
    n = I(seq_len(f))
    DOT = 46
    ch = lambda i: I(seq_get(f, i))
    a = z3.Int('a!')
    c.eq('the name is not changed', c.new('filename'), f)
    m = fresh_int('m')
    st = c.where(m >= 0, m < n, ch(m) == DOT, z3.ForAll([a], z3.Implies(z3.And(a > m, a < n), ch(a) != DOT)))
    c.eq('length of the extension', seq_len(r), norm(n - m - 1), st=st)
    k = fresh_int('k')
    st.assume(z3.And(k >= 0, k < n - m - 1))
    c.eq('characters of the extension', seq_get(r, k), ch(norm(m + 1 + k)), st=st)
    st = c.where(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n), ch(a) != DOT)))
    c.eq('no dot: empty', seq_len(r), 0, st=st)
