"""P14: OHM metadata files read back as written."""
from contracts.pairs import *
from engine.spec import Suite, at_index
from engine.vals import *
from engine import spec

O = 'haptics::tools::OHMData::'
suite = Suite('P14', ['Tools/src/OHMData.cpp'], harness='ohm', stand_in='random metadata written and read back', link=spec.MODEL)


@suite.unit(O + 'fillString', 'the text, cut or padded with NUL to the field width', label='pad')
def pad(c):
    c.range('[]', -128, 127)
    c.build()
    t, n = c.arg('text'), I(c.arg('numCharacters'))
    c.pre(n >= 0)
    r = c.call()
    c.no_throw()
    ln = I(seq_len(t))
    j = c.forall(0, 1 << 31, 'j')
    c.ensure('field width', I(seq_len(r)) == n)
    c.ensure('character j', at_index(r, j, lambda e: I(e) == z3.If(j < ln, I(get(t, j)), 0)))



HEADER = [U(ord(ch)) for ch in 'OHM ']



def text_fits(path, width):
    """documents whose text fits the field and does not end in NUL (the padding)"""
    def fact(app):
        a = app.children()
        ch = z3.Function(path + '.c', *([z3.IntSort()] * (len(a) + 2)))
        return z3.And(app >= 0, app <= width, z3.Implies(app > 0, ch(*a, app - 1) != 0))
    F.add(path + '#', fact)
    F.bounds[path + '#'] = (0, width)


class Pad:
    """contract of fillString, as its own unit shows it, for texts that fit the field"""

    def apply(self, ip, st, d, this, args):
        t = force(ip.read(st, args[0]) if isinstance(args[0], LRef) else args[0])
        n = force(args[1])
        ln = seq_len(t)
        ip.oblige(st, I(ln) <= I(n), 'the text fits the field in ' + ip.where())
        k = index_var('pad')
        return Seq(list(t.ps) + [Loop(k, 0, norm(I(n) - I(ln)), [U(0)])], T('int', bits=8, signed=True))


@suite.unit(O + 'writeFile', 'loadFile gives back what was written', label='round')
def roundtrip(c):
    c.range('[]', -128, 127)
    text_fits('this.description', 32)
    E = 'this.elementsMetadata'
    for path, w in (('[].elementFilename', 64), ('[].elementDescription', 32), ('[].channelsMetadata[].channelDescription', 32)):
        text_fits(E + path, w)
    c.range('OHMData.elementsMetadata#', 0, 32767)
    c.range('HapticElementMetadata.channelsMetadata#', 0, 32767)
    c.range('HapticChannelMetadata.bodyPartMask', 0, (1 << 32) - 1)      # masks combine body parts
    # the channel count says how many channels the element has
    F.add(E + '[].numHapticChannels', lambda a: a == z3.Function(E + '[].channelsMetadata#', z3.IntSort(), z3.IntSort())(*a.children()))
    F.bounds[E + '[].numHapticChannels'] = (0, 32767)
    c.build()
    o = c.arg('this')
    c.old['this'] = o = o.set('header', Seq(HEADER, T('int', bits=8, signed=True)))
    c.ip.write(c.st, c.this, o)
    c.disk()
    c.ip.contracts[O + 'fillString'] = Pad()
    r = c.call()
    c.no_throw()
    c.ensure('reports success', r)
    c.pre(I(seq_len(c.file())) < (1 << 32))          # the reader keeps the file size in an unsigned int
    c.new_obj = c.cell(c.ip.default(T('record', 'haptics::tools::OHMData'), c.st), T('record', 'haptics::tools::OHMData'))
    r = c.run(O + 'loadFile', [c.cell(Seq([], T('int', bits=8, signed=True)))], this=c.new_obj)
    c.ensure('loads', r)
    c.eq('same metadata', c.read(c.new_obj), o)
