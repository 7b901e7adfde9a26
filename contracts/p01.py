"""P01: the .hmpg writers and readers are inverse."""
from contracts.pairs import *
from engine.spec import Suite, MODEL

BB = H + 'io::IOBinaryBands::'
IB = H + 'io::IOBinary::'
SRC = ['IOHaptics/src/IOBinary.cpp', 'IOHaptics/src/IOBinaryBands.cpp', 'IOHaptics/src/IOBinaryPrimitives.cpp', 'Types/src/Effect.cpp', 'Types/src/Band.cpp', 'Types/src/Channel.cpp', 'Types/src/Perception.cpp', 'Types/src/Haptics.cpp', 'Types/src/Keyframe.cpp', 'Types/src/Avatar.cpp', 'Types/src/ReferenceDevice.cpp', 'Types/src/Sync.cpp']
suite = Suite('P01', SRC, harness='hmpg', stand_in='random documents saved and loaded', link=MODEL)

RANGES = {
    'Effect.id': (0, 65535), 'Effect.position': (0, (1 << 25) - 1), 'Effect.timeline#': (0, 65535), 'Effect.keyframes#': (0, 65535), 'Effect.waveletBitstream#': (0, 65535),
    'Effect.phase': (0, Fraction('6.28318')), 'Keyframe.relativePosition': (0, 65535), 'Keyframe.amplitudeModulation': (-1, 1), 'Keyframe.frequencyModulation': (0, 65535),
    'Band.lowerFrequencyLimit': (0, 65535), 'Band.upperFrequencyLimit': (0, 65535), 'Band.effects#': (0, 65535), 'Band.bandType': (0, 3),
}


def setup(c, **kw):
    BT.use_in(c)
    for k, v in dict(RANGES, **kw).items():
        c.range(k, *v)


def q(n, lo, hi, v):
    f, g = BT.quant(n, Fraction(lo), Fraction(hi))
    return g(f(R(force(v))))


def amp(v):
    return q(8, -1, 1, v)


def val_or(o, d):
    o = force(o)
    return vite(o.has, o.val, d) if o.has is not True and o.has is not False else (o.val if o.has else d)


@decoded('TransientKf')
def d_tkf(ip, k):
    return make(ip, 'Keyframe', relativePosition=OptVal(True, val_or(k.get('relativePosition'), 0)), amplitudeModulation=OptVal(True, amp(val_or(k.get('amplitudeModulation'), Fraction(0)))), frequencyModulation=OptVal(True, val_or(k.get('frequencyModulation'), 0)))


EFF = T('record', TY + 'Effect')
BANDT = T('record', TY + 'Band')
CURVE, VECT, WAVE, TRANS = 1, 2, 3, 0     # BandType
BASIS, REF, COMP = 0, 1, 2                # EffectType


@decoded('CurveKf')
def d_ckf(ip, k):
    return make(ip, 'Keyframe', relativePosition=OptVal(True, val_or(k.get('relativePosition'), 0)), amplitudeModulation=OptVal(True, amp(val_or(k.get('amplitudeModulation'), Fraction(0)))), frequencyModulation=NULLOPT)


@decoded('VectorialKf')
def d_vkf(ip, k):
    p, a, f = k.get('relativePosition'), force(k.get('amplitudeModulation')), k.get('frequencyModulation')
    return make(ip, 'Keyframe', relativePosition=OptVal(True, force(p).val), amplitudeModulation=OptVal(a.has, Lazy(lambda: amp(a.val), roots=(k,))), frequencyModulation=f)


PHASE = '6.28318'


def phase(v):
    return q(16, 0, MAX_PHASE, v)


MAX_PHASE = Fraction(PHASE)
EFFECTS = {
    'Transient': lambda ip, o: dict(keyframes=mapped(o, ['keyframes'], lambda k: d_tkf(ip, k))),
    'Curve': lambda ip, o: dict(keyframes=mapped(o, ['keyframes'], lambda k: d_ckf(ip, k))),
    'Vectorial': lambda ip, o: dict(keyframes=mapped(o, ['keyframes'], lambda k: d_vkf(ip, k)), phase=OptVal(True, phase(val_or(o.get('phase'), 0))), baseSignal=OptVal(True, val_or(o.get('baseSignal'), 0))),
    'Wavelet': lambda ip, o: dict(waveletBitstream=o.get('waveletBitstream')),
    'Reference': lambda ip, o: dict(id=o.get('id')),
}


def is_stream(d):
    return any('istream' in p['type']['qualType'] for p in d.params)


def target(ip):
    """an effect about to be filled in by a reader: anything, but without keyframes or children"""
    return ip.symval('e0', [], EFF).set('keyframes', Seq([], T('record', TY + 'Keyframe'))).set('timeline', Seq([], EFF)).set('waveletBitstream', Seq([], T('int', 'uchar', bits=8, signed=False)))


def fill(e, fields):
    for k, v in fields.items():
        e = e.set(k, v)
    return e


def is_empty(st, s):
    n = seq_len(s)
    return n == 0 if isinstance(n, int) else S.entails(st.pc, I(n) == 0)


def blank(ip, st, e):
    if ip.discovering:
        return
    for n in ('keyframes', 'timeline', 'waveletBitstream'):
        if not is_empty(st, e.get(n)):
            raise Unsupported('reader called on an effect that already has %s: %r PC %s' % (n, seq_len(e.get(n)), [str(x) for x in st.pc][-6:]))


def read_into(name):
    def f(ip, st, args, o, *more):
        e = ip.read(st, args[0])
        blank(ip, st, e)
        ip.write(st, args[0], fill(e, EFFECTS[name](ip, o, *more)))
        return True
    return f


def compare(c, got, want, label='field '):
    got, want = force(got), force(want)
    for n in got.f:
        c.eq(label + n, got.get(n), want.get(n))


def eff_pair(name):
    @suite.unit(BB + 'write%sEffect' % name, 'a %s effect written and read back' % name.lower(), label='pair')
    def f(c):
        setup(c)
        if name == 'Vectorial':
            F.pre['Keyframe.relativePosition?'] = True
        c.build(output=Seq([], BOOL))
        o = c.arg('effect')
        r = c.call()
        c.no_throw()
        c.eq('writer succeeds', r, True)
        f, u, rs = feed(c, c.new('output').ps)
        e0 = target(c.ip)
        e = c.cell(e0, EFF)
        r = c.run(BB + 'read%sEffect' % name, [e, f, u], pick=is_stream)
        c.no_throw('reader never throws')
        c.eq('reader succeeds', r, True)
        consumed(c, f, u, rs)
        want = fill(e0, EFFECTS[name](c.ip, o))
        compare(c, c.read(e), want)
        again(c, BB + 'write%sEffect' % name, [c.cell(want, EFF), OUT], c.new('output'))


for n_ in EFFECTS:
    eff_pair(n_)
    suite.contracts[BB + 'write%sEffect' % n_] = Write(n_)
    suite.contracts[BB + 'read%sEffect' % n_] = Read(n_, read_into(n_), 1, 2)


def merge_effect(ip, e, child, bt):
    """what the readers make of one effect of a band of type bt"""
    ty = child.get('effectType')
    per = {TRANS: 'Transient', CURVE: 'Curve', VECT: 'Vectorial', WAVE: 'Wavelet'}
    if isinstance(bt, int):
        basis = fill(e, EFFECTS[per[bt]](ip, child))
    else:
        basis = fill(e, EFFECTS['Wavelet'](ip, child))
        for k in (TRANS, CURVE, VECT):
            basis = vite(norm(I(bt) == k), fill(e, EFFECTS[per[k]](ip, child)), basis)
    ref = fill(e, EFFECTS['Reference'](ip, child))
    comp = fill(e, EFFECTS['Timeline'](ip, child, bt))
    return vite(norm(I(ty) == REF), ref, vite(norm(I(ty) == COMP), comp, basis))


@decoded('Child')
def d_child(ip, o, bt):
    return merge_effect(ip, make(ip, 'Effect', effectType=o.get('effectType'), position=o.get('position')), o, bt)


EFFECTS['Timeline'] = lambda ip, o, bt: dict(timeline=mapped(o, ['timeline'], lambda x: d_child(ip, x, bt)))


def band_type(ip, st, args):
    t = force(ip.read(st, args[1]).get('bandType'))
    t = t if isinstance(t, int) else conc(simp(I(t)))
    if not isinstance(t, int):
        raise Unsupported('symbolic band type')
    return (t,)


def use_timeline(c):
    c.ip.contracts[BB + 'writeTimelineEffect'] = Write('Timeline', 0, 2, band_type)
    def res(ip, st, args, o, bt):
        if band_type(ip, st, args)[0] != bt:
            raise Unsupported('band type differs')
        e = ip.read(st, args[0])
        blank(ip, st, e)
        ip.write(st, args[0], fill(e, EFFECTS['Timeline'](ip, o, bt)))
        return True
    c.ip.contracts[BB + 'readTimelineEffect'] = Read('Timeline', res, 2, 3)


def timeline_pair(bt, bn):
    @suite.unit(BB + 'writeTimelineEffect', 'the children of a composite effect written and read back (%s band)' % bn, label=bn)
    def f(c):
        setup(c)
        use_timeline(c)
        band = c.sym('band', BANDT).set('bandType', bt)
        c.build(output=Seq([], BOOL), band=band)
        o = c.arg('effect')
        r = c.call()
        c.no_throw()
        c.eq('writer succeeds', r, True)
        f, u, rs = feed(c, c.new('output').ps)
        e0 = target(c.ip)
        e = c.cell(e0, EFF)
        r = c.run(BB + 'readTimelineEffect', [e, c.args['band'], f, u], pick=is_stream)
        c.no_throw('reader never throws')
        c.eq('reader succeeds', r, True)
        consumed(c, f, u, rs)
        want = fill(e0, EFFECTS['Timeline'](c.ip, o, bt))
        compare(c, c.read(e), want)
        again(c, BB + 'writeTimelineEffect', [c.cell(want, EFF), c.args['band'], OUT], c.new('output'))


for b_, n_ in ((TRANS, 'transient'), (CURVE, 'curve'), (VECT, 'vectorial'), (WAVE, 'wavelet')):
    timeline_pair(b_, n_)


class AddEffectLast:
    """an effect no earlier than the others goes last"""

    def apply(self, ip, st, d, this, args):
        e = force(ip.read(st, args[0]) if isinstance(args[0], LRef) else args[0])
        ref = this.field('effects')
        old = ip.read(st, ref)
        j = fresh_int('j')
        n = seq_len(old)
        if not ip.discovering and not is_empty(st, old) and not S.entails(st.pc, z3.Implies(z3.And(j >= 0, j < I(n)), I(get(old, j, 'position')) <= I(e.get('position')))):
            raise Unsupported('addEffect out of order %r | %s | %s' % (n, [str(x)[:100] for x in old.ps], [str(x) for x in st.pc][-6:]))
        ip.write(st, ref, Seq(old.ps + [U(e)], old.et))
        return None


@suite.unit(TY + 'Band::addEffect', 'an effect no earlier than the others goes last', label='last')
def addlast(c):
    c.build()
    e, old = c.arg('newEffect'), c.old['this'].get('effects')
    j = z3.Int('pj')
    c.pre(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(seq_len(old))), I(get(old, j, 'position')) <= I(e.get('position')))))
    c.call()
    c.no_throw()
    c.eq('appended', c.new('this', 'effects'), Seq(old.ps + [U(e)], old.et))


suite.contracts[TY + 'Band::addEffect'] = AddEffectLast()
TIMESCALE = 1000


def header_fields(ip, o, bt=None):
    t = o.get('bandType')
    f = dict(bandType=t, lowerFrequencyLimit=o.get('lowerFrequencyLimit'), upperFrequencyLimit=o.get('upperFrequencyLimit'))
    f['curveType'] = vite(norm(I(t) == CURVE), OptVal(True, val_or(o.get('curveType'), 0)), NULLOPT)
    f['blockLength'] = vite(norm(I(t) == WAVE), OptVal(True, force(o.get('blockLength')).val), OptVal(True, 0))
    return f


def blanks(ip, o):
    """as many default effects as the band has effects"""
    def go():
        n = seq_len(o.get('effects'))
        e = ip.default(EFF)
        return Seq([Loop(index_var('m'), 0, n, [U(e)])], EFF)
    return Lazy(go, roots=(o,))


@decoded('BandHeader')
def d_header(ip, o):
    return make(ip, 'Band', effects=blanks(ip, o), **header_fields(ip, o))


@decoded('BandEffect')
def d_effect(ip, o, bt):
    return merge_effect(ip, make(ip, 'Effect', effectType=o.get('effectType'), position=o.get('position')), o, bt)


@decoded('Band')
def d_band(ip, o):
    return make(ip, 'Band', effects=mapped(o, ['effects'], lambda e: d_effect(ip, e, o.get('bandType'))), **header_fields(ip, o))


def band_header(label, bt, code=None):
    @suite.unit(BB + 'writeBandHeader', 'a %s band header written and read back' % label, label=label)
    def f(c):
        setup(c)
        if bt == WAVE:
            F.pre['Band.blockLength?'] = True
        band = c.sym('band', BANDT).set('bandType', bt)
        c.build(output=Seq([], BOOL), band=band, timescale=TIMESCALE)
        o = c.arg('band')
        if code is not None:
            bl, up = force(o.get('blockLength')).val, o.get('upperFrequencyLimit')
            c.pre(z3.And(I(bl) > 0, I(up) > 0, I(bl) * I(up) == (16 << code) * TIMESCALE))
        r = c.call()
        c.no_throw()
        c.eq('writer succeeds', r, True)
        f, u, rs = feed(c, c.new('output').ps)
        b0 = make(c.ip, 'Band')
        b = c.cell(b0, BANDT)
        r = c.run(BB + 'readBandHeader', [b, f, u, TIMESCALE])
        c.no_throw('reader never throws')
        c.eq('reader succeeds', r, True)
        consumed(c, f, u, rs)
        compare(c, c.read(b), d_header(c.ip, o))
        again(c, BB + 'writeBandHeader', [c.cell(d_band(c.ip, o), BANDT), OUT, TIMESCALE], c.new('output'))


BANDS = ((TRANS, 'transient'), (CURVE, 'curve'), (VECT, 'vectorial'))
for b_, n_ in BANDS:
    band_header(n_, b_)
for k_ in range(13):
    band_header('wavelet, %d samples' % (16 << k_), WAVE, k_)


def band_body(bt, label):
    @suite.unit(BB + 'writeBandBody', 'the effects of a %s band written and read back' % label, label=label)
    def f(c):
        setup(c)
        use_timeline(c)
        band = c.sym('band', BANDT).set('bandType', bt)
        if bt == WAVE:
            F.pre['Band.blockLength?'] = True
            bl = force(c.sym('band', BANDT).get('blockLength')).val
            F.pre['Effect.position'] = lambda a: z3.And(a >= 0, a < 1 << 25, z3.Implies(z3.Function('band.effects[].effectType', z3.IntSort(), z3.IntSort())(a.arg(0)) == BASIS, a == a.arg(0) * bl)) if a.decl().name() == 'band.effects[].position' else z3.And(a >= 0, a < 1 << 25)
        c.build(output=Seq([], BOOL), band=band)
        o = c.arg('band')
        r = c.call()
        c.no_throw()
        c.eq('writer succeeds', r, True)
        f, u, rs = feed(c, c.new('output').ps)
        b0 = d_header(c.ip, o)
        b = c.cell(b0, BANDT)
        r = c.run(BB + 'readBandBody', [b, f, u, TIMESCALE])
        c.no_throw('reader never throws')
        c.eq('reader succeeds', r, True)
        consumed(c, f, u, rs)
        compare(c, c.read(b), d_band(c.ip, o))
        again(c, BB + 'writeBandBody', [c.cell(d_band(c.ip, o), BANDT), OUT], c.new('output'))


for b_, n_ in BANDS + ((WAVE, 'wavelet'),):
    band_body(b_, n_)


# ---------------------------------------------------------------- library of effects
LIBEFF = 'LibraryEffect'


@decoded('LibraryKf')
def d_lkf(ip, k):
    a = force(k.get('amplitudeModulation'))
    return make(ip, 'Keyframe', relativePosition=k.get('relativePosition'), amplitudeModulation=OptVal(a.has, Lazy(lambda: amp(a.val), roots=(k,))), frequencyModulation=k.get('frequencyModulation'))


@decoded(LIBEFF)
def d_lib(ip, o):
    b = norm(I(o.get('effectType')) == BASIS)
    return make(ip, 'Effect', id=o.get('id'), position=o.get('position'), effectType=o.get('effectType'),
                phase=vite(b, OptVal(True, phase(val_or(o.get('phase'), 0))), NULLOPT),
                baseSignal=vite(b, OptVal(True, val_or(o.get('baseSignal'), 0)), NULLOPT),
                keyframes=mapped(o, ['keyframes'], lambda k: d_lkf(ip, k)), timeline=mapped(o, ['timeline'], lambda e: d_lib(ip, e)))


WRITE, READ = {}, {}


def use(c, *names):
    """contracts of the functions the unit's own body calls"""
    for n in names:
        for q, k in (WRITE[n], READ[n]):
            c.ip.contracts[q] = k


def val_pair(name, dec, obj='libraryEffect'):
    WRITE[name] = (IB + 'write' + name, Write(name))
    READ[name] = (IB + 'read' + name, Read(name, lambda ip, st, args, o: dec(ip, o), 0, 1))


val_pair(LIBEFF, d_lib)


@suite.unit(IB + 'writeLibraryEffect', 'an effect of the library written and read back', label='pair')
def libeff(c):
    setup(c)
    use(c, LIBEFF)
    c.build(output=Seq([], BOOL))
    o = c.arg('libraryEffect')
    r = c.call()
    c.no_throw()
    c.eq('writer succeeds', r, True)
    f, u, rs = feed(c, c.new('output').ps)
    r = c.run(IB + 'readLibraryEffect', [f, u])
    c.no_throw('reader never throws')
    consumed(c, f, u, rs)
    want = d_lib(c.ip, o)
    compare(c, r, want)
    again(c, IB + 'writeLibraryEffect', [c.cell(want, EFF), OUT], c.new('output'))


# ---------------------------------------------------------------- parts of a perception
FILE_FIELDS = ('version', 'profile', 'level', 'date', 'description')     # assigned, not appended to


def part(name, cls, fields, uses=(), full=None):
    """write<name>(object, output) and read<name>(object, file, unused): `fields` of the object are restored"""
    def res(ip, st, args, o):
        p = ip.read(st, args[0])
        if not ip.discovering:
            for n in fields:
                if isinstance(force(p.get(n)), Seq) and n not in FILE_FIELDS and not is_empty(st, p.get(n)):
                    raise Unsupported('read%s on an object that already has %s' % (name, n))
        ip.write(st, args[0], fill(p, {n: fn(ip, o) for n, fn in fields.items()}))
        return True
    WRITE[name] = (IB + 'write' + name, Write(name))
    READ[name] = (IB + 'read' + name, Read(name, res, 1, 2))

    @suite.unit(IB + 'write' + name, '%s of a %s written and read back' % (name, cls.lower()), label='pair')
    def unit(c):
        setup(c)
        use(c, *uses)
        c.build(output=Seq([], BOOL))
        o = c.arg(cls.lower() if cls == 'Perception' else 'haptic')
        r = c.call()
        c.no_throw()
        c.eq('writer succeeds', r, True)
        f, u, rs = feed(c, c.new('output').ps)
        t = T('record', TY + cls)
        p0 = c.ip.symval('p0', [], t)
        for n in fields:
            if isinstance(force(o.get(n)), Seq):
                p0 = p0.set(n, Seq([], o.get(n).et))
        p = c.cell(p0, t)
        r = c.run(IB + 'read' + name, [p, f, u])
        c.no_throw('reader never throws')
        c.eq('reader succeeds', r, True)
        consumed(c, f, u, rs)
        compare(c, c.read(p), fill(p0, {n: fn(c.ip, o) for n, fn in fields.items()}))
        final = full(c.ip, o) if full else fill(p0, {n: fn(c.ip, o) for n, fn in fields.items()})
        again(c, IB + 'write' + name, [c.cell(final, t), OUT], c.new('output'))
    return unit


part('Library', 'Perception', {'effectLibrary': lambda ip, o: mapped(o, ['effectLibrary'], lambda e: d_lib(ip, e))}, uses=[LIBEFF])

MAXF = Fraction(10000)
REFF = {'maximumFrequency': (0, MAXF), 'minimumFrequency': (0, MAXF), 'resonanceFrequency': (0, MAXF), 'maximumAmplitude': (0, MAXF), 'impedance': (0, MAXF), 'maximumVoltage': (0, MAXF),
        'maximumCurrent': (0, MAXF), 'maximumDisplacement': (0, MAXF), 'weight': (0, MAXF), 'size': (0, MAXF), 'custom': (-MAXF, MAXF)}
RANGES.update({'ReferenceDevice.' + k: v for k, v in REFF.items()})
RANGES.update({'ReferenceDevice.id': (0, 255), 'ReferenceDevice.name#': (0, 255), 'ReferenceDevice.type': (0, 15), 'Perception.referenceDevices#': (0, 255), 'Perception.effectLibrary#': (0, 65535)})


def oq(o, lo, hi):
    o = force(o)
    return OptVal(o.has, Lazy(lambda: q(32, lo, hi, o.val)))


@decoded('ReferenceDevice')
def d_dev(ip, o):
    f = {k: oq(o.get(k), *v) for k, v in REFF.items()}
    return make(ip, 'ReferenceDevice', id=o.get('id'), name=o.get('name'), bodyPartMask=OptVal(True, val_or(o.get('bodyPartMask'), 0)), type=o.get('type'), **f)


part('ReferenceDevices', 'Perception', {'referenceDevices': lambda ip, o: mapped(o, ['referenceDevices'], lambda e: d_dev(ip, e))})

RANGES.update({'Channel.id': (-32768, 32767), 'Channel.description#': (0, 255), 'Channel.referenceDeviceId': (0, 254), 'Channel.gain': (-MAXF, MAXF), 'Channel.mixingWeight': (0, MAXF),
               'Channel.vertices#': (0, 65535), 'Channel.bands#': (0, 255), 'Channel.bodyPartTarget#': (0, 255), 'Channel.actuatorTarget#': (0, 255), 'Channel.bodyPartTarget': (0, 255),
               'Perception.channels#': (0, 65535), 'Perception.id': (0, 255), 'Perception.avatarId': (0, 255), 'Perception.perceptionModality': (0, 255), 'Perception.description#': (0, 255),
               'Haptics.perceptions#': (0, 255), 'Haptics.avatars#': (0, 255), 'Haptics.version#': (0, 255), 'Haptics.profile#': (0, 255), 'Haptics.date#': (0, 255), 'Haptics.description#': (0, 255),
               'Avatar.id': (0, 255), 'Avatar.lod': (0, 255), 'Avatar.type': (0, 255), 'Avatar.mesh#': (0, 255)})


def channel_fields(ip, o):
    res = force(o.get('actuatorResolution')).has
    fs = force(o.get('frequencySampling'))
    s = norm(I(val_or(fs, 0)) != 0)
    opt = lambda n: vite(res, OptVal(True, val_or(o.get(n), Seq([], ip.default(CHAN).get(n) and opt_elem(ip, n)))), NULLOPT)
    return dict(id=o.get('id'), description=o.get('description'), referenceDeviceId=o.get('referenceDeviceId'), gain=q(32, -MAXF, MAXF, o.get('gain')), mixingWeight=q(32, 0, MAXF, o.get('mixingWeight')),
                bodyPartMask=vite(res, 0, o.get('bodyPartMask')), actuatorResolution=o.get('actuatorResolution'), bodyPartTarget=opt('bodyPartTarget'), actuatorTarget=opt('actuatorTarget'),
                frequencySampling=vite(s, OptVal(True, val_or(fs, 0)), NULLOPT), sampleCount=vite(s, OptVal(True, val_or(o.get('sampleCount'), 0)), NULLOPT),
                direction=o.get('direction'), vertices=o.get('vertices'))


CHAN = T('record', TY + 'Channel')


def opt_elem(ip, n):
    return None


@decoded('ChannelHeader')
def d_chan(ip, o):
    def bands():
        return Seq([Loop(index_var('m'), 0, seq_len(o.get('bands')), [U(ip.default(BANDT))])], BANDT)
    return make(ip, 'Channel', bands=Lazy(bands, roots=(o,)), **channel_fields(ip, o))


part('ChannelsHeader', 'Perception', {'channels': lambda ip, o: mapped(o, ['channels'], lambda e: d_chan(ip, e))},
     full=lambda ip, o: d_perception(ip, o))


@decoded('Avatar')
def d_avatar(ip, o):
    empty = Seq([], T('int', 'char', bits=8, signed=True))
    return make(ip, 'Avatar', id=o.get('id'), lod=o.get('lod'), type=o.get('type'), mesh=vite(norm(I(o.get('type')) == 0), OptVal(True, val_or(o.get('mesh'), empty)), NULLOPT))


part('Avatars', 'Haptics', {'avatars': lambda ip, o: mapped(o, ['avatars'], lambda e: d_avatar(ip, e))})


@decoded('PerceptionHeader')
def d_perc(ip, o):
    return make(ip, 'Perception', id=o.get('id'), avatarId=o.get('avatarId'), description=o.get('description'), perceptionModality=o.get('perceptionModality'),
                unitExponent=OptVal(True, val_or(o.get('unitExponent'), -3)), perceptionUnitExponent=OptVal(True, val_or(o.get('perceptionUnitExponent'), 0)),
                effectLibrary=mapped(o, ['effectLibrary'], lambda e: d_lib(ip, e)), referenceDevices=mapped(o, ['referenceDevices'], lambda e: d_dev(ip, e)),
                channels=mapped(o, ['channels'], lambda e: d_chan(ip, e)))


part('PerceptionsHeader', 'Haptics', {'perceptions': lambda ip, o: mapped(o, ['perceptions'], lambda e: d_perc(ip, e))}, uses=['Library', 'ReferenceDevices', 'ChannelsHeader'],
     full=lambda ip, o: d_haptics(ip, o))


# ---------------------------------------------------------------- whole file
HAP = T('record', TY + 'Haptics')


def header_of(ip, o, base):
    return fill(base, dict({n: o.get(n) for n in FILE_FIELDS}, avatars=mapped(o, ['avatars'], lambda e: d_avatar(ip, e)), perceptions=mapped(o, ['perceptions'], lambda e: d_perc(ip, e))))


part('FileHeader', 'Haptics', {'avatars': lambda ip, o: mapped(o, ['avatars'], lambda e: d_avatar(ip, e)), 'perceptions': lambda ip, o: mapped(o, ['perceptions'], lambda e: d_perc(ip, e)),
                               **{n: (lambda ip, o, n=n: o.get(n)) for n in FILE_FIELDS}}, uses=['Avatars', 'PerceptionsHeader'], full=lambda ip, o: d_haptics(ip, o))


def band_contracts(c):
    c.ip.contracts[BB + 'writeBandHeader'] = Write('BandHeader')
    c.ip.contracts[BB + 'writeBandBody'] = Write('BandBody')

    def read_header(ip, st, args, o):
        b = ip.read(st, args[0])
        if not ip.discovering and not is_empty(st, b.get('effects')):
            raise Unsupported('readBandHeader on a band that already has effects')
        if not ip.discovering and not S.entails(st.pc, I(force(args[3])) == TIMESCALE):
            raise Unsupported('readBandHeader with another timescale')
        h = d_header(ip, o)
        # a fresh band: the fields the format does not carry stay at their defaults
        ip.write(st, args[0], fill(b, {n: h.get(n) for n in ('bandType', 'curveType', 'blockLength', 'lowerFrequencyLimit', 'upperFrequencyLimit', 'effects')}))
        return True

    def read_body(ip, st, args, o):
        b, h = ip.read(st, args[0]), d_header(ip, o)
        if not ip.discovering:
            for n in ('bandType', 'blockLength', 'effects'):
                g = goal_eq(b.get(n), h.get(n))
                if S.prove(st.pc, g, 5)[0] != 'proved':
                    raise Unsupported('readBandBody on a band whose %s is not the header read before' % n)
        ip.write(st, args[0], b.set('effects', d_band(ip, o).get('effects')))
        return True
    c.ip.contracts[BB + 'readBandHeader'] = Read('BandHeader', read_header, 1, 2)
    c.ip.contracts[BB + 'readBandBody'] = Read('BandBody', read_body, 1, 2)


@decoded('Channel')
def d_channel(ip, o):
    return d_chan.fn(ip, o).set('bands', mapped(o, ['bands'], lambda e: d_band(ip, e)))


@decoded('Perception')
def d_perception(ip, o):
    return d_perc.fn(ip, o).set('channels', mapped(o, ['channels'], lambda e: d_channel(ip, e)))


@decoded('Haptics')
def d_haptics(ip, o):
    return header_of(ip, o, ip.default(HAP)).set('perceptions', mapped(o, ['perceptions'], lambda e: d_perception(ip, e)))


@suite.unit(IB + 'writeFileBody', 'the bands of a document written and read back into the document header read before', label='pair')
def filebody(c):
    setup(c)
    band_contracts(c)
    c.build(output=Seq([], BOOL), haptic=c.sym('haptic', HAP).set('timescale', OptVal(True, TIMESCALE)))
    o = c.arg('haptic')
    r = c.call()
    c.no_throw()
    c.eq('writer succeeds', r, True)
    f, u, rs = feed(c, c.new('output').ps)
    h0 = header_of(c.ip, o, c.ip.default(HAP))
    h = c.cell(h0, HAP)
    r = c.run(IB + 'readFileBody', [h, f, u])
    c.no_throw('reader never throws')
    c.eq('reader succeeds', r, True)
    consumed(c, f, u, rs)
    compare(c, c.read(h), d_haptics(c.ip, o))
    again(c, IB + 'writeFileBody', [c.cell(d_haptics(c.ip, o), HAP), OUT], c.new('output'))

for n_ in ('Transient', 'Curve', 'Vectorial', 'Wavelet', 'Reference', 'Timeline'):
    AGAIN[n_] = ('Child', 'BandEffect')
AGAIN.update({LIBEFF: (LIBEFF,), 'Library': ('Perception',), 'ReferenceDevices': ('Perception',), 'ChannelsHeader': ('Perception',), 'BandHeader': ('Band',), 'BandBody': ('Band',),
              'Avatars': ('Haptics',), 'PerceptionsHeader': ('Haptics',)})
