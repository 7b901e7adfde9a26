"""P07: document containers: edits address exactly one element, bounds are checked, effects stay ordered."""
from engine.spec import *
from engine.spec import Suite
import z3

SRC = ['Types/src/Band.cpp', 'Types/src/Effect.cpp', 'Types/src/Channel.cpp', 'Types/src/Perception.cpp', 'Types/src/Haptics.cpp', 'Types/src/Keyframe.cpp', 'Types/src/Sync.cpp', 'Types/src/Avatar.cpp', 'Types/src/ReferenceDevice.cpp']
HARNESS_SOURCES = SRC + ['Tools/src/Tools.cpp', 'Tools/src/OHMData.cpp']
suite = Suite('P07', SRC, harness='containers', stand_in='random edit scripts on random documents against a list model')
NS = 'haptics::types::'


def frame(c, fld, when=None, obj='this'):
    """every field other than fld is unchanged"""
    old, new = force(c.old[obj]), c.new(obj)
    for f in old.f:
        if f != fld:
            c.eq('frame: %s unchanged' % f, new.get(f), old.get(f), when)


def in_range(i, s):
    return z3.And(I(i) >= 0, I(i) < I(seq_len(s)))


def mk_replace(qual, fld):
    @suite.unit(NS + qual, 'replaces element [index] and nothing else; an index out of range fails and changes nothing', label='replace')
    def _(c):
        c.build()
        i, nv = c.arg(0), c.arg(1)
        old = c.old['this'].get(fld)
        ok = in_range(i, old)
        r = c.call()
        c.no_throw()
        c.eq('reports success exactly when the index exists', r, ok)
        new = c.new('this', fld)
        frame(c, fld)
        c.eq('length kept', seq_len(new), seq_len(old))
        j = c.forall(0, seq_len(old))
        c.eq('other elements kept', seq_get(new, j), seq_get(old, j), when=j != I(i))
        c.eq('nothing changes on failure', seq_get(new, j), seq_get(old, j), when=z3.Not(ok))
        c.eq('element replaced', seq_get(new, i), nv, when=ok)
        c.eq('argument unchanged', c.new(1), nv)


def mk_remove(qual, fld):
    @suite.unit(NS + qual, 'removes element [index], keeps the order of the rest; an index out of range fails and changes nothing', label='remove')
    def _(c):
        c.build()
        i = c.arg(0)
        old = c.old['this'].get(fld)
        ok = in_range(i, old)
        r = c.call()
        c.no_throw()
        c.eq('reports success exactly when the index exists', r, ok)
        new = c.new('this', fld)
        frame(c, fld)
        c.eq('one element fewer', seq_len(new), norm(I(seq_len(old)) - 1), when=ok)
        c.eq('length kept on failure', seq_len(new), seq_len(old), when=z3.Not(ok))
        j = c.forall(0, seq_len(old))
        c.eq('nothing changes on failure', seq_get(new, j), seq_get(old, j), when=z3.Not(ok))
        c.eq('elements before are kept', seq_get(new, j), seq_get(old, j), when=z3.And(ok, j < I(i)))
        c.eq('elements after move down by one', seq_get(new, norm(j - 1)), seq_get(old, j), when=z3.And(ok, j > I(i)))


def mk_add(qual, fld, pick=None):
    @suite.unit(NS + qual, 'appends the element and keeps everything before it', label='add', pick=pick)
    def _(c):
        c.build()
        old = c.old['this'].get(fld)
        nv = c.arg(0)
        c.call()
        c.no_throw()
        new = c.new('this', fld)
        frame(c, fld)
        c.eq('one element more', seq_len(new), norm(I(seq_len(old)) + 1))
        c.eq('new element last', seq_get(new, seq_len(old)), nv)
        c.eq('argument unchanged', c.new(0), nv)
        j = c.forall(0, seq_len(old))
        c.eq('existing elements kept', seq_get(new, j), seq_get(old, j))


def mk_at(qual, fld):
    @suite.unit(NS + qual, 'gives access to element [index] itself; an index out of range is reported and changes nothing', label='at')
    def _(c):
        c.build()
        i = c.arg(0)
        old = c.old['this'].get(fld)
        r = c.call()
        c.eq('returns the element', r, seq_get(old, i))
        c.ensure('an index out of range does not return', in_range(i, old))
        c.throws_only_when(z3.Not(in_range(i, old)), 'throws only for an index out of range')
        rr = c.retref
        c.ensure('the result refers to the element in place', rr is not None and rr.cell == c.this.cell and len(rr.path) == 2 and rr.path[0] == ('f', fld) and I(rr.path[1][1]) == I(i))
        frame(c, None)


def mk_size(qual, fld):
    @suite.unit(NS + qual, 'reports the number of elements', label='size')
    def _(c):
        c.build()
        r = c.call()
        c.no_throw()
        c.eq('size', r, seq_len(c.old['this'].get(fld)))
        frame(c, None)


def mk_clear(qual, fld):
    @suite.unit(NS + qual, 'empties the collection only', label='clear')
    def _(c):
        c.build()
        c.call()
        c.no_throw()
        c.eq('empty', seq_len(c.new('this', fld)), 0)
        frame(c, fld)


def mk_set(qual, fld, pick=None):
    @suite.unit(NS + qual, 'stores the value and changes nothing else', label='set', pick=pick)
    def _(c):
        c.build()
        c.call()
        c.no_throw()
        nv = force(c.arg(0))
        got = c.new('this', fld)
        if isinstance(got, OptVal) and not isinstance(nv, OptVal):
            c.ensure('present', got.has)
            got = got.val
        c.eq('stored', got, nv)
        frame(c, fld)


def mk_get(qual, fld):
    @suite.unit(NS + qual, 'returns the stored value and changes nothing', label='get')
    def _(c):
        c.build()
        r = c.call()
        c.no_throw()
        c.eq('value', r, c.old['this'].get(fld))
        frame(c, None)


for q, f in [('Haptics::replacePerceptionAt', 'perceptions'), ('Perception::replaceChannelAt', 'channels'), ('Channel::replaceBandAt', 'bands'), ('Band::replaceEffectAt', 'effects'), ('Effect::replaceKeyframeAt', 'keyframes')]:
    mk_replace(q, f)
for q, f in [('Haptics::removePerceptionAt', 'perceptions'), ('Perception::removeChannelAt', 'channels'), ('Channel::removeBandAt', 'bands'), ('Band::removeEffectAt', 'effects'), ('Effect::removeKeyframeAt', 'keyframes')]:
    mk_remove(q, f)
one = lambda d: len(d.params) == 1
for q, f, p in [('Haptics::addPerception', 'perceptions', None), ('Haptics::addAvatar', 'avatars', None), ('Haptics::addSync', 'syncs', None), ('Perception::addChannel', 'channels', None),
                ('Perception::addReferenceDevice', 'referenceDevices', lambda d: 'tuple' not in d.params[0]['type']['qualType']),
                ('Perception::addBasisEffect', 'effectLibrary', None), ('Channel::addVertex', 'vertices', None), ('Channel::addBand', 'bands', None), ('Effect::addKeyframe', 'keyframes', one), ('Effect::addTimelineEffect', 'timeline', None)]:
    mk_add(q, f, p)
for q, f in [('Haptics::getPerceptionAt', 'perceptions'), ('Haptics::getAvatarAt', 'avatars'), ('Haptics::getSyncsAt', 'syncs'), ('Perception::getChannelAt', 'channels'), ('Perception::getReferenceDeviceAt', 'referenceDevices'), ('Perception::getBasisEffectAt', 'effectLibrary'),
             ('Channel::getVertexAt', 'vertices'), ('Channel::getBandAt', 'bands'), ('Band::getEffectAt', 'effects'), ('Effect::getKeyframeAt', 'keyframes'), ('Effect::getTimelineEffectAt', 'timeline')]:
    mk_at(q, f)
for q, f in [('Haptics::getPerceptionsSize', 'perceptions'), ('Haptics::getAvatarsSize', 'avatars'), ('Haptics::getSyncsSize', 'syncs'), ('Perception::getChannelsSize', 'channels'), ('Perception::getReferenceDevicesSize', 'referenceDevices'), ('Perception::getEffectLibrarySize', 'effectLibrary'),
             ('Channel::getVerticesSize', 'vertices'), ('Channel::getBandsSize', 'bands'), ('Band::getEffectsSize', 'effects'), ('Effect::getKeyframesSize', 'keyframes'), ('Effect::getTimelineSize', 'timeline')]:
    mk_size(q, f)
for q, f in [('Perception::clearReferenceDevices', 'referenceDevices'), ('Perception::clearChannels', 'channels'), ('Perception::clearEffectLibrary', 'effectLibrary'), ('Channel::clearVertices', 'vertices'), ('Channel::clearBands', 'bands')]:
    mk_clear(q, f)
FIELDS = {
    'Haptics': 'version profile level date description timescale',
    'Perception': 'id avatarId description priority perceptionModality unitExponent perceptionUnitExponent effectSemanticScheme',
    'Channel': 'id description priority gain mixingWeight bodyPartMask referenceDeviceId frequencySampling sampleCount direction actuatorResolution bodyPartTarget actuatorTarget',
    'Band': 'bandType priority curveType blockLength upperFrequencyLimit lowerFrequencyLimit',
    'Effect': 'id position semantic phase baseSignal effectType',
    'Keyframe': 'relativePosition amplitudeModulation frequencyModulation',
}
for cl, fs in FIELDS.items():
    for f in fs.split():
        n = f[0].upper() + f[1:]
        mk_set('%s::set%s' % (cl, n), f)
        mk_get('%s::get%s' % (cl, n), f)


# ---------------------------------------------------------------- ordered insertion
def pos(s, i):
    return I(get(seq_get(s, i), 'position'))


@suite.unit(NS + 'Band::addEffect', 'inserts the effect in position order, after effects at the same position, losing none', label='ordered', weight=3)
def _(c):
    c.build()
    old = c.old['this'].get('effects')
    nv = c.arg(0)
    n = I(seq_len(old))
    a, b = z3.Ints('a! b!')
    c.pre(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a <= b, b < n), pos(old, a) <= pos(old, b))))
    c.call()
    c.no_throw()
    new = c.new('this', 'effects')
    frame(c, 'effects')
    c.eq('one element more', seq_len(new), norm(n + 1))
    p = I(get(nv, 'position'))
    i = c.forall(0, norm(n + 1), 'i')
    j = c.forall(0, norm(n + 1), 'j')
    c.ensure('effects stay in non-decreasing position order', pos(new, i) <= pos(new, j), when=i <= j)
    k = c.forall(0, n, 'k')
    c.eq('effects not after the new one keep their place', seq_get(new, k), seq_get(old, k), when=pos(old, k) <= p)
    c.eq('effects after the new one move up by one', seq_get(new, norm(k + 1)), seq_get(old, k), when=pos(old, k) > p)
    m = fresh_int('m', 0)
    st = c.where(m <= n, z3.Implies(m < n, pos(old, m) > p), z3.Implies(m > 0, pos(old, norm(m - 1)) <= p))
    c.eq('the new effect is at the insertion point', seq_get(new, m), nv, st=st)
    c.eq('argument unchanged', c.new(0), nv)


# ---------------------------------------------------------------- metadata replacement
def elem(c, fld, i, new):
    return seq_get((c.new('this') if new else force(c.old['this'])).get(fld), i)


def mk_meta(qual, fld, same_fields, kept, extra=None):
    @suite.unit(NS + qual, 'copies the metadata of the new object into element [index], keeps its content and every other element', label='metadata', weight=4)
    def _(c):
        c.build()
        i, nv = c.arg(0), c.arg(1)
        old = c.old['this'].get(fld)
        ok = in_range(i, old)
        r = c.call()
        c.no_throw()
        c.eq('reports success exactly when the index exists', r, ok)
        new = c.new('this', fld)
        frame(c, fld)
        c.eq('length kept', seq_len(new), seq_len(old))
        j = c.forall(0, seq_len(old))
        c.eq('other elements kept', seq_get(new, j), seq_get(old, j), when=j != I(i))
        c.eq('nothing changes on failure', seq_get(new, j), seq_get(old, j), when=z3.Not(ok))
        e, o = seq_get(new, i), seq_get(old, i)
        for f in same_fields:
            c.eq('metadata %s replaced' % f, get(e, f), get(nv, f), when=ok)
        for f in kept:
            c.eq('content %s kept' % f, get(e, f), get(o, f), when=ok)
        c.eq('argument unchanged', c.new(1), nv)
        if extra:
            extra(c, ok, e, o, nv)


def perc_extra(c, ok, e, o, nv):
    for f in ('unitExponent', 'perceptionUnitExponent'):
        c.eq('metadata %s replaced' % f, get(e, f, '!'), get(nv, f, '!'), when=z3.And(ok, B(get(nv, f, '?'))))
        c.ensure('metadata %s present' % f, get(e, f, '?'), when=z3.And(ok, B(get(nv, f, '?'))))
    c.eq('semantic scheme replaced', get(e, 'effectSemanticScheme', '!'), get(nv, 'effectSemanticScheme', '!'), when=z3.And(ok, B(get(nv, 'effectSemanticScheme', '?'))))


def chan_extra(c, ok, e, o, nv):
    h = B(get(nv, 'referenceDeviceId', '?'))
    c.eq('reference device replaced when given', get(e, 'referenceDeviceId', '!'), get(nv, 'referenceDeviceId', '!'), when=z3.And(ok, h))


def band_extra(c, ok, e, o, nv):
    bt = I(get(nv, 'bandType'))
    en = c.prog.enums[NS + 'BandType']
    w = z3.And(ok, bt == en['Curve'], B(get(nv, 'curveType', '?')))
    c.eq('curve type replaced for curve bands', get(e, 'curveType', '!'), get(nv, 'curveType', '!'), when=w)
    w = z3.And(ok, bt == en['WaveletWave'], B(get(nv, 'blockLength', '?')))
    c.eq('block length replaced for wavelet bands', get(e, 'blockLength', '!'), get(nv, 'blockLength', '!'), when=w)


mk_meta('Haptics::replacePerceptionMetadataAt', 'perceptions', ['id', 'avatarId', 'description', 'perceptionModality', 'referenceDevices', 'effectLibrary'], ['channels'], perc_extra)
mk_meta('Perception::replaceChannelMetadataAt', 'channels', ['id', 'description', 'gain', 'mixingWeight', 'bodyPartMask', 'vertices', 'frequencySampling', 'sampleCount', 'direction', 'actuatorResolution', 'bodyPartTarget', 'actuatorTarget'], ['bands'], chan_extra)
mk_meta('Channel::replaceBandMetadataAt', 'bands', ['bandType', 'lowerFrequencyLimit', 'upperFrequencyLimit'], ['effects'], band_extra)
