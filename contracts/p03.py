"""P03: the metadata packets of the streaming format decode to what was encoded.

Every writer/reader pair of a metadata packet is run in turn on the same bits: the reader gets what the writer
appended followed by arbitrary further bits, and must yield the written object (quantised values on their grid,
absent values at their documented defaults) with the cursor exactly behind the last bit of the packet."""
from contracts.pairs import *
from contracts import p01
from contracts.p01 import d_dev, d_avatar, d_lkf, q, val_or, oq, phase, amp, BASIS, EFF, CURVE, WAVE, fill, compare
from engine.spec import Suite, MODEL
from engine.vals import PosVal, MapVal
from engine import lib as LIB

IS = H + 'io::IOStream::'
SRC = ['IOHaptics/src/IOStream.cpp', 'IOHaptics/src/IOBinaryPrimitives.cpp', 'Types/src/Effect.cpp', 'Types/src/Band.cpp', 'Types/src/Channel.cpp', 'Types/src/Perception.cpp', 'Types/src/Haptics.cpp', 'Types/src/Keyframe.cpp', 'Types/src/Avatar.cpp', 'Types/src/ReferenceDevice.cpp', 'Types/src/Sync.cpp']
LINK = ['IOHaptics/src/IOStream.cpp', 'IOHaptics/src/IOBinary.cpp', 'IOHaptics/src/IOBinaryBands.cpp', 'IOHaptics/src/IOBinaryPrimitives.cpp'] + MODEL
suite = Suite('P03', SRC, harness='meta', stand_in='random metadata packets written and read back', link=LINK)

RANGES = dict(p01.RANGES)
RANGES.update({'Channel.id': (0, 65535), 'Perception.priority': (0, 255), 'Channel.priority': (0, 255), 'Band.priority': (0, 255), 'Band.blockLength': (0, 255), 'Band.curveType': (0, 15),
               'Perception.effectSemanticScheme#': (0, 255), 'Effect.position': (0, (1 << 25) - 1), 'Effect.effectType': (0, 3), 'Keyframe.relativePosition': (0, 65535),
               'Channel.frequencySampling': (0, (1 << 31) - 1)})
HAP = T('record', TY + 'Haptics')
PERC = T('record', TY + 'Perception')
CHAN = T('record', TY + 'Channel')
BANDT = T('record', TY + 'Band')
AV = T('record', TY + 'Avatar')
DEV = T('record', TY + 'ReferenceDevice')
LIBEFF = p01.LIBEFF
EFF_T = T('record', TY + 'Effect')
INT = T('int', bits=32, signed=True)
BITS = T('vector', args=(BOOL,))
BEFORE = 'before'


def setup(c, **kw):
    BT.use_in(c)
    for k, v in dict(RANGES, **kw).items():
        c.range(k, *v)


def before():
    F.bounds['before#'] = (0, None)
    return Enc('before', (), z3.Int('before#'))


def packet(c, ps, from_start=False):
    """the written bits followed by anything, and a cursor of the caller that stands at their start; the reader gets the
    bits from the cursor on, or the whole stream"""
    r = rest()
    s = list(ps) + [r]
    b = before()
    return c.cell(Seq([b] + s if from_start else s, BOOL), BITS), c.cell(PosVal([b] + s, s), INT), r, b


def all_taken(c, idx, r):
    p = c.read(idx)
    if not isinstance(p, PosVal):
        raise Unsupported('cursor after the reader: %r' % (p,))
    c.eq('the cursor moves exactly past what was written', Seq(p.rest, BOOL), Seq([r], BOOL))


class ReadAt:
    """takes the encoding of one object at the cursor of the caller"""

    def __init__(self, name, result, bs=0, obj=1, idx=2, cls=None):
        self.name, self.result, self.bs, self.obj, self.idx, self.cls = name, result, bs, obj, idx, cls or name

    def apply(self, ip, st, d, this, args):
        b, x = args[self.bs], args[self.idx]
        s = force(ip.read(st, b) if isinstance(b, LRef) else b)
        p = ip.read(st, x)
        if isinstance(p, int) and p == 0:
            p = PosVal(s.ps, list(s.ps))
        if not isinstance(p, PosVal) or not (same_ps(p.rest, s.ps) or same_ps(p.total, s.ps)):
            raise Unsupported('%s is not read at the cursor' % self.name)
        e, after = BT.head(ip, st, p.rest)
        if not isinstance(e, Enc) or e.name != self.name:
            raise Unsupported('%s read where the stream holds %r' % (self.name, e))
        ip.write(st, x, PosVal(p.total, list(after)))
        ip.oblige(st, goal_eq(ip.read(st, args[self.obj]), ip.default(T('record', TY + self.cls))), 'the object handed to the reader is a new one')
        ip.write(st, args[self.obj], self.result(ip, ip.read(st, args[self.obj]), *e.args))
        return True


def default_of(c, t):
    return c.ip.default(t)


def at_cursor(name, cls, writer, reader, dec, title):
    @suite.unit(IS + writer, title, label='pair')
    def f(c):
        setup(c)
        c.build(bitstream=Seq([], BOOL))
        o = c.arg({'Avatar': 'avatar', 'ReferenceDevice': 'refDevice'}[cls])
        c.call()
        c.no_throw()
        bs, idx, r, b = packet(c, c.new('bitstream').ps)
        x = c.cell(default_of(c, T('record', TY + cls)), T('record', TY + cls))
        ok = c.run(IS + reader, [bs, x, idx])
        c.no_throw('reader never throws')
        c.eq('reader succeeds', ok, True)
        all_taken(c, idx, r)
        compare(c, c.read(x), dec(c.ip, o))


at_cursor('Avatar', 'Avatar', 'writeAvatar', 'readAvatar', d_avatar, 'an avatar written and read back')
at_cursor('Device', 'ReferenceDevice', 'writeReferenceDevice', 'readReferenceDevice', d_dev, 'a reference device written and read back')


# ---------------------------------------------------------------- experience
def use(c, *names):
    for n in names:
        w, r = PAIRS[n]
        c.ip.contracts[IS + 'write' + n] = w
        c.ip.contracts[IS + 'read' + n] = r


PAIRS = {
    'Avatar': (Write('Avatar'), ReadAt('Avatar', lambda ip, old, o: d_avatar(ip, o))),
    'ReferenceDevice': (Write('ReferenceDevice'), ReadAt('ReferenceDevice', lambda ip, old, o: d_dev(ip, o))),
}


def whole(c, ps):
    """the payload handed to a packet reader: the packet, then padding or further packets"""
    r = rest()
    return c.cell(Seq(list(ps) + [r], BOOL), BITS)


TEXTS = ('version', 'profile', 'level', 'date', 'description')


@suite.unit(IS + 'writeMetadataHaptics', 'the description of the experience written and read back', label='pair')
def mdhaptics(c):
    setup(c)
    use(c, 'Avatar')
    c.build(bitstream=Seq([], BOOL))
    o = c.arg('haptic')
    c.call()
    c.no_throw()
    bs = whole(c, c.new('bitstream').ps)
    h0 = c.ip.symval('h0', [], HAP).set('avatars', Seq([], AV))
    h = c.cell(h0, HAP)
    ok = c.run(IS + 'readMetadataHaptics', [h, bs])
    c.no_throw('reader never throws')
    c.eq('reader succeeds', ok, True)
    compare(c, c.read(h), fill(h0, dict({n: o.get(n) for n in TEXTS}, avatars=mapped(o, ['avatars'], lambda a: d_avatar(c.ip, a)))))


# ---------------------------------------------------------------- perception
def prio(v):
    v = val_or(v, 0)
    return vite(norm(I(v) != 0), OptVal(True, v), NULLOPT)


def perception_fields(ip, o):
    return dict(id=o.get('id'), priority=prio(o.get('priority')), description=o.get('description'), perceptionModality=o.get('perceptionModality'), avatarId=o.get('avatarId'), effectSemanticScheme=o.get('effectSemanticScheme'),
                unitExponent=OptVal(True, val_or(o.get('unitExponent'), -3)), perceptionUnitExponent=OptVal(True, val_or(o.get('perceptionUnitExponent'), 0)),
                referenceDevices=mapped(o, ['referenceDevices'], lambda d: d_dev(ip, d)))


@suite.unit(IS + 'writeMetadataPerception', 'the description of a perception written and read back', label='pair')
def mdperception(c):
    setup(c)
    use(c, 'ReferenceDevice')
    c.build(bitstream=Seq([], BOOL))
    o = c.arg('swriter').get('perception')
    c.call()
    c.no_throw()
    bs = whole(c, c.new('bitstream').ps)
    t = T('record', IS + 'StreamReader')
    r0 = c.ip.symval('r0', [], t)
    s = c.cell(r0, t)
    ok = c.run(IS + 'readMetadataPerception', [s, bs])
    c.no_throw('reader never throws')
    c.eq('reader succeeds', ok, True)
    got = c.read(s)
    compare(c, got.get('perception'), make(c.ip, 'Perception', **perception_fields(c.ip, o)), 'perception ')
    c.eq('the experience read so far is untouched', got.get('haptic'), r0.get('haptic'))


# ---------------------------------------------------------------- timing
@suite.unit(IS + 'writeInitializationTiming', 'timing of the stream written and read back', label='pair')
def inittiming(c):
    setup(c)
    c.range('StreamWriter.time', 0, (1 << 31) - 1)
    c.range('StreamWriter.timescale', 0, (1 << 31) - 1)
    for n in ('nominalDuration', 'durationDeviation'):
        c.range('StreamWriter.' + n, 0, (1 << 24) - 1)
    c.build(bitstream=Seq([], BOOL))
    o = c.arg('swriter')
    c.call()
    c.no_throw()
    bs = whole(c, c.new('bitstream').ps)
    t = T('record', IS + 'StreamReader')
    r0 = c.ip.symval('r0', [], t)
    s = c.cell(r0, t)
    c.run(IS + 'readInitializationTiming', [s, bs])
    c.no_throw('reader never throws')
    got = c.read(s)
    for n in ('time', 'timescale', 'nominalDuration', 'durationDeviation', 'overlapping'):
        c.eq('reads ' + n, got.get(n), o.get(n))
    sy = Seq(get(r0, 'haptic', 'syncs').ps + [U(RecVal(get(r0, 'haptic', 'syncs').et.name, {'timestamp': o.get('time'), 'timescale': OptVal(True, o.get('timescale'))}))], get(r0, 'haptic', 'syncs').et)
    c.eq('adds a synchronisation point', get(got, 'haptic', 'syncs'), sy)


@suite.unit(IS + 'writeTiming', 'a time stamp written and read back', label='pair')
def timing(c):
    setup(c)
    c.range('StreamWriter.time', 0, (1 << 31) - 1)
    c.build(bitstream=Seq([], BOOL))
    o = c.arg('swriter')
    c.call()
    c.no_throw()
    bs = whole(c, c.new('bitstream').ps)
    t = T('record', IS + 'StreamReader')
    r0 = c.ip.symval('r0', [], t)
    s = c.cell(r0, t)
    c.run(IS + 'readTiming', [s, bs])
    c.no_throw('reader never throws')
    got = c.read(s)
    c.eq('reads the time', got.get('time'), o.get('time'))
    c.eq('keeps the timescale', got.get('timescale'), r0.get('timescale'))
    old = get(r0, 'haptic', 'syncs')
    c.eq('adds one synchronisation point', seq_len(get(got, 'haptic', 'syncs')), norm(I(seq_len(old)) + 1))
    c.eq('at that time', get(seq_get(get(got, 'haptic', 'syncs'), seq_len(old)), 'timestamp'), o.get('time'))


# ---------------------------------------------------------------- packet header
def header(data):
    @suite.unit(IS + 'writeMIHSPacketHeader', 'type and length of a packet written and read back', label='data' if data else 'other')
    def f(c):
        setup(c)
        F.bounds['mihsPacketType'] = (0, 11)
        F.add('mihsPacketType', lambda a: z3.And(a >= 0, a <= 11))
        n = z3.Int('payloadSize')
        F.bounds['payloadSize'] = (0, ((1 << 17) - 1) * 8)
        F.add('payloadSize', lambda a: z3.And(a >= 0, a <= ((1 << 17) - 1) * 8))
        c.build(bitstream=Seq([], BOOL), payloadSize=n)
        t = c.arg('mihsPacketType')
        c.pre(I(t) == 5 if data else I(t) != 5)
        if data:
            c.pre(n >= 32)      # the time stamp of a data packet is part of its payload
        c.call()
        c.no_throw()
        ps = c.new('bitstream').ps
        c.eq('the header has 24 bits', plen(ps), 24)
        bs = whole(c, ps)
        c.eq('type', c.run(IS + 'readMIHSPacketType', [bs]), t)
        ln = c.run(IS + 'readPacketLength', [bs])
        c.no_throw('readers never throw')
        c.eq('whole bytes of the payload%s' % (', without its time stamp' if data else ''), ln, norm((n + 7) / 8 - (4 if data else 0)))


header(False)
header(True)


# ---------------------------------------------------------------- looking an identifier up
READER = T('record', IS + 'StreamReader')


@suite.unit(IS + 'searchPerceptionInHaptic', 'index of the first perception with that identifier, -1 without one')
def search_p(c):
    c.build()
    ps = c.arg('haptic').get('perceptions')
    i = I(c.arg('id'))
    n = I(seq_len(ps))
    r = c.call()
    c.no_throw()
    r = I(r)
    c.ensure('an index of the list, or -1', z3.And(r >= -1, r < n))
    c.ensure('the perception found has that identifier', z3.Implies(r >= 0, I(get(seq_get(ps, norm(r)), 'id')) == i))
    k = c.forall(0, n)
    c.ensure('no perception with that identifier is overlooked', z3.Implies(r < 0, I(get(seq_get(ps, k), 'id')) != i))
    c.eq('nothing is changed', c.new('haptic', 'perceptions'), ps)


class Search:
    """the list holds exactly one such object: its index"""

    def __init__(self, index):
        self.index = index

    def apply(self, ip, st, d, this, args):
        h = ip.read(st, args[0])
        i, holds = self.index(h, I(force(args[1])))
        ip.oblige(st, holds, 'the identifier looked up is that of the object written')
        return i


def context(c, r0, perception, channel=None):
    """the reader already knows the perception (and channel) the packet belongs to; identifiers are unique"""
    ps = get(r0, 'haptic', 'perceptions')
    k = z3.Int('pk')
    F.bounds['pk'] = (0, None)
    c.pre(z3.And(k >= 0, k < I(seq_len(ps))))
    p = force(seq_get(ps, k))
    pid = I(perception.get('id'))
    c.pre(I(p.get('id')) == pid)
    c.ip.contracts[IS + 'searchPerceptionInHaptic'] = Search(lambda h, i: (k, z3.And(i == pid, goal_eq(h.get('perceptions'), ps))))
    if channel is None:
        return p
    ch = p.get('channels')
    m = z3.Int('ck')
    F.bounds['ck'] = (0, None)
    c.pre(z3.And(m >= 0, m < I(seq_len(ch))))
    q_ = force(seq_get(ch, m))
    cid = I(channel.get('id'))
    c.pre(I(q_.get('id')) == cid)
    c.ip.contracts[IS + 'searchChannelInHaptic'] = Search(lambda h, i: (m, z3.And(i == cid, goal_eq(h.get('perceptions'), ps))))
    return p, q_


# ---------------------------------------------------------------- band
@suite.unit(IS + 'writeMetadataBand', 'the description of a band written and read back', label='pair')
def mdband(c):
    setup(c)
    c.range('BandStream.id', 0, 255)
    c.build(bitstream=Seq([], BOOL))
    w = c.arg('swriter')
    r0 = c.ip.symval('r0', [], READER)
    p, ch = context(c, r0, w.get('perception'), w.get('channel'))
    c.call()
    c.no_throw()
    bs = whole(c, c.new('bitstream').ps)
    s = c.cell(r0, READER)
    ok = c.run(IS + 'readMetadataBand', [s, bs])
    c.no_throw('reader never throws')
    c.eq('reader succeeds', ok, True)
    got = c.read(s)
    o = get(w, 'bandStream', 'band')
    c.eq('identifier', get(got, 'bandStream', 'id'), get(w, 'bandStream', 'id'))
    t = o.get('bandType')
    want = make(c.ip, 'Band', bandType=t, priority=prio(o.get('priority')), lowerFrequencyLimit=o.get('lowerFrequencyLimit'), upperFrequencyLimit=o.get('upperFrequencyLimit'),
                curveType=vite(norm(I(t) == CURVE), OptVal(True, val_or(o.get('curveType'), 0)), NULLOPT))
    want = want.set('blockLength', vite(norm(I(t) == WAVE), OptVal(True, val_or(o.get('blockLength'), 0)), want.get('blockLength')))
    compare(c, get(got, 'bandStream', 'band'), want, 'band ')
    c.eq('its perception', got.get('perception'), p)
    c.eq('its channel', got.get('channel'), ch)
    c.eq('the experience read so far is untouched', got.get('haptic'), r0.get('haptic'))


# ---------------------------------------------------------------- channel
MAXF = p01.MAXF


def chan_fields(ip, o):
    f = dict(p01.channel_fields(ip, o))
    f['priority'] = prio(o.get('priority'))
    return f


@suite.unit(IS + 'writeMetadataChannel', 'the description of a channel written and read back', label='pair')
def mdchannel(c):
    setup(c)
    c.build(bitstream=Seq([], BOOL))
    w = c.arg('swriter')
    r0 = c.ip.symval('r0', [], READER)
    p = context(c, r0, w.get('perception'))
    c.call()
    c.no_throw()
    bs = whole(c, c.new('bitstream').ps)
    s = c.cell(r0, READER)
    ok = c.run(IS + 'readMetadataChannel', [s, bs])
    c.no_throw('reader never throws')
    c.eq('reader succeeds', ok, True)
    got = c.read(s)
    compare(c, got.get('channel'), make(c.ip, 'Channel', **chan_fields(c.ip, w.get('channel'))), 'channel ')
    c.eq('its perception', got.get('perception'), p)
    c.eq('the experience read so far is untouched', got.get('haptic'), r0.get('haptic'))


@suite.unit(IS + 'searchChannelInHaptic', 'index of a channel with that identifier within its perception, -1 without one')
def search_c(c):
    c.build()
    ps = c.arg('haptic').get('perceptions')
    i = I(c.arg('id'))
    np = I(seq_len(ps))
    a, b = z3.Int('a!'), z3.Int('b!')
    cid = lambda a, b: I(get(seq_get(get(seq_get(ps, a), 'channels'), b), 'id'))
    nc = lambda a: I(seq_len(get(seq_get(ps, a), 'channels')))
    # every channel of the perceptions passed has another identifier
    c.loop(0, lambda L: [('index in the list', I(L('i')) >= 0), ('perceptions passed hold no such channel', z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < I(L('i')), b >= 0, b < nc(a)), cid(a, b) != i)))])
    c.loop(1, lambda L: [('index in the perception', I(L('j')) >= 0), ('channels passed have another identifier', z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < I(L('j'))), cid(I(L('i')), b) != i)))])
    r = c.call()
    c.no_throw()
    r = I(r)
    u, v = z3.Int('u!'), z3.Int('v!')
    c.pre(z3.And(u >= 0, u < np, v >= 0, v < nc(u), cid(u, v) == i))
    c.ensure('a channel with that identifier is found', r >= 0)


# ---------------------------------------------------------------- library of effects
SEMANTIC_BITS = 12


def semantics(c, effect):
    """the names of semantics are looked up in the two tables of the format: the name of the effect is one of the
    first table, has a code there, and the second table is asked for that code only"""
    text = force(force(effect.get('semantic')).val)
    code = z3.Int('semanticCode')
    F.bounds['semanticCode'] = (0, (1 << SEMANTIC_BITS) - 1)
    F.add('semanticCode', lambda a: z3.And(a >= 0, a < 1 << SEMANTIC_BITS))
    seen = {}

    def lit(s):
        s = force(s)
        out = []
        for p in s.ps:
            if isinstance(p, U):
                out.append(p.v)
            else:
                raise Unsupported('table of semantics: %r' % (p,))
        return tuple(out)

    def at(ip, st, n, x, ref, v, argn):
        if not isinstance(v, MapVal):
            return NotImplemented
        k = force(ip.eval(argn[0], st))
        if isinstance(k, Seq) and same(k, text):
            codes = {lit(a): b for a, b in v.items}
            ip.oblige(st, all(isinstance(b, int) and 0 <= b < 1 << SEMANTIC_BITS for b in codes.values()), 'every semantic of the table has a code of the field')
            seen['codes'] = codes
            return ip.new_cell(st, code, None)
        if isz(k) and k.eq(code):
            names = {b: lit(a) for b, a in v.items}
            ip.oblige(st, 'codes' in seen and all(names.get(b) == a for a, b in seen['codes'].items()), 'the code of every semantic is read back as that semantic')
            return ip.new_cell(st, text, None)
        return NotImplemented

    LIB.METHODS[('MapVal', 'at')] = at


PAIRS[LIBEFF] = (Write(LIBEFF), ReadAt(LIBEFF, lambda ip, old, o: d_slib(ip, o), bs=2, obj=0, idx=1, cls='Effect'))


@decoded('StreamLibraryEffect')
def d_slib(ip, o):
    return fill(p01.d_lib(ip, o), dict(semantic=o.get('semantic'), timeline=mapped(o, ['timeline'], lambda e: d_slib(ip, e))))


@suite.unit(IS + 'writeLibraryEffect', 'an effect of the library written and read back', label='pair')
def libeff(c):
    setup(c)
    use(c, LIBEFF)
    c.build(bitstream=Seq([], BOOL))
    o = c.arg('libraryEffect')
    semantics(c, o)
    c.call()
    c.no_throw()
    bs, idx, r, b = packet(c, c.new('bitstream').ps, True)
    x = c.cell(default_of(c, EFF_T), EFF_T)
    ok = c.run(IS + 'readLibraryEffect', [x, idx, bs])
    c.no_throw('reader never throws')
    c.eq('reader succeeds', ok, True)
    all_taken(c, idx, r)
    compare(c, c.read(x), d_slib(c.ip, o))


@suite.unit(IS + 'writeLibrary', 'the library of a perception written and read back', label='pair')
def library(c):
    setup(c)
    use(c, LIBEFF)
    c.build(bitstream=Seq([], BOOL))
    o = c.arg('perception')
    r0 = c.ip.symval('r0', [], READER)
    p = context(c, r0, o)
    ok = c.call()
    c.no_throw()
    c.eq('writer succeeds', ok, True)
    bs = whole(c, c.new('bitstream').ps)
    s = c.cell(r0, READER)
    ok = c.run(IS + 'readLibrary', [s, bs])
    c.no_throw('reader never throws')
    c.eq('reader succeeds', ok, True)
    got = c.read(s)
    old, new = get(r0, 'haptic', 'perceptions'), get(got, 'haptic', 'perceptions')
    k = z3.Int('pk')
    c.eq('no perception is added or lost', seq_len(new), seq_len(old))
    lib = get(p, 'effectLibrary')
    c.eq('the effects are added to the library of their perception', get(seq_get(new, k), 'effectLibrary'), Seq(lib.ps + force(mapped(o, ['effectLibrary'], lambda e: d_slib(c.ip, e))).ps, lib.et))
    j = c.forall(0, I(seq_len(old)))
    c.ensure('other perceptions are untouched', z3.Implies(j != k, goal_eq(seq_get(new, j), seq_get(old, j))))


# ---------------------------------------------------------------- packets
class Pad:
    """fills up to a whole byte with zeros"""

    def apply(self, ip, st, d, this, args):
        s = force(ip.read(st, args[0]))
        n = norm((8 - I(plen(s.ps)) % 8) % 8)
        ip.write(st, args[0], Seq(s.ps + [Enc('pad', (), n)], BOOL))
        return None


@suite.unit(IS + 'padToByteBoundary', 'fills a packet up to a whole byte, with zeros', label='pad')
def pad(c):
    c.build()
    F.bounds['bitstream#'] = (0, (1 << 31) - 1)
    F.add('bitstream#', lambda a: z3.And(a >= 0, a < 1 << 31))
    s = c.arg('bitstream')
    n = I(seq_len(s))
    c.call()
    c.no_throw()
    t = c.new('bitstream')
    c.ensure('whole bytes', I(seq_len(t)) % 8 == 0)
    c.ensure('by less than a byte', z3.And(I(seq_len(t)) >= n, I(seq_len(t)) < n + 8))
    k = c.forall(0, n)
    c.ensure('what was there is kept', B(seq_get(t, k)) == B(seq_get(s, k)))
    j = c.forall(n, I(seq_len(t)))
    c.ensure('filled with zeros', z3.Not(B(seq_get(t, j))))


class Keep:
    """removes the components without content: the documents considered have none"""

    def apply(self, ip, st, d, this, args):
        return None


LONGEST = ((1 << 17) - 1) * 8


class Fits(Write):
    """the payload fits the length field of a packet"""

    def __init__(self, name, part=None):
        super().__init__(name)
        self.part = part

    def apply(self, ip, st, d, this, args):
        a = args[0]
        for f in self.part.split('.') if self.part else ():
            a = a.field(f)
        o = ident(ip.read(st, a) if isinstance(a, LRef) else a, self.name)
        n = enc_len(self.name, o)
        f = n.decl().name()
        F.bounds[f] = (0, LONGEST)
        F.add(f, lambda a: z3.And(a >= 0, a <= LONGEST))
        ip.write(st, args[1], Seq(ip.read(st, args[1]).ps + [Enc(self.name, (o,), n)], BOOL))
        return True


class Payload:
    """a reader that is handed the payload of the packet"""

    def __init__(self, name, at):
        self.name, self.at, self.seen = name, at, []

    def apply(self, ip, st, d, this, args):
        e, _ = BT.head(ip, st, force(ip.read(st, args[self.at])).ps)
        if not isinstance(e, Enc) or e.name != self.name:
            raise Unsupported('%s read where the packet holds %r' % (self.name, e))
        self.seen.append(e.args)
        return True


TYPES = dict(InitializationTiming=0, Timing=1, MetadataHaptics=2)


def framed(c, pk, name, n):
    """a packet of the stream: type, declared length = bytes of the payload, payload, padding"""
    pk = force(pk)
    total = I(plen(pk.ps))
    c.ensure('a packet has whole bytes', total % 8 == 0)
    bs = c.cell(pk, BITS)
    c.eq('type of the packet', c.run(IS + 'readMIHSPacketType', [bs]), n)
    ln = c.run(IS + 'readPacketLength', [bs])
    c.ensure('declared length is the number of bytes after the header', 24 + 8 * I(ln) == total)
    return bs


def single(name, obj):
    @suite.unit(IS + 'writeMIHSPacket', 'a packet of this type is framed and its payload handed to its reader', label=name)
    def f(c):
        setup(c)
        t = c.ip.p.enums[H + 'io::MIHSPacketType'][name] if H + 'io::MIHSPacketType' in c.ip.p.enums else None
        if t is None:
            raise Unsupported('packet types')
        c.ip.contracts[IS + 'checkHapticComponent'] = Keep()
        c.ip.contracts[IS + 'padToByteBoundary'] = Pad()
        c.ip.contracts[IS + 'write' + name] = Fits(name)
        rd = Payload(name, 1)
        c.ip.contracts[IS + 'read' + name] = rd
        c.build(mihsPacketType=t, bitstream=Seq([], T('vector', args=(BOOL,))))
        w = c.arg('swriter')
        r = c.call()
        c.no_throw()
        c.eq('writer succeeds', r, True)
        out = c.new('bitstream')
        c.eq('one packet', seq_len(out), 1)
        bs = framed(c, seq_get(out, 0), name, t)
        r0 = c.ip.symval('r0', [], READER)
        c.pre(I(r0.get('timescale')) != 0)
        s = c.cell(r0, READER)
        crc = c.ip.symval('crc', [], T('record', IS + 'CRC'))
        ok = c.run(IS + 'readMIHSPacket', [c.read(bs), s, c.cell(crc, T('record', IS + 'CRC'))])
        c.no_throw('reader never throws')
        c.ensure('its reader gets the payload', len(rd.seen) >= 1)


single('Timing', None)
single('MetadataHaptics', None)
single('InitializationTiming', None)


def elements(c, ps):
    """every element of a list, whatever builds it: an index of each loop in it is taken at will"""
    for p in ps:
        if isinstance(p, U):
            yield p.v
        elif isinstance(p, Loop):
            yield from elements(c, p.at(c.forall(p.lo, p.hi)))
        elif isinstance(p, Cond):
            # both branches: what is claimed of either holds without the condition too
            yield from elements(c, p.a)
            yield from elements(c, p.b)
        else:
            raise Unsupported('list of packets: %r' % (p,))


def many(name, writer=None, part=None):
    """one packet per perception, channel or band"""
    @suite.unit(IS + 'writeMIHSPacket', 'every packet of this type is framed', label=name)
    def f(c):
        setup(c)
        t = c.ip.p.enums[H + 'io::MIHSPacketType'][name]
        c.ip.contracts[IS + 'checkHapticComponent'] = Keep()
        c.ip.contracts[IS + 'padToByteBoundary'] = Pad()
        c.ip.contracts[IS + 'write' + (writer or name)] = Fits(name, part)
        c.build(mihsPacketType=t, bitstream=Seq([], T('vector', args=(BOOL,))))
        w = c.arg('swriter')
        r = c.call()
        c.no_throw()
        c.eq('writer succeeds', r, True)
        out = c.new('bitstream')
        es = list(elements(c, out.ps))
        c.ensure('packets are built', len(es) >= 1)
        for e in es:
            framed(c, e, name, t)


many('MetadataPerception', part='perception')
many('EffectLibrary', writer='Library')
many('MetadataChannel', part='channel')
