"""P25: parameters, filter descriptions, routings, scene objects, geometry and arrays used from Python."""
import copy, json, math
import numpy as np
import pbt
from pbt import check, must_throw, must_not_throw
import visr, efl, rbbl, pml, objectmodel as om, panning, panningdsp, rrl

F32 = lambda v: float(np.float32(v))
EPC = pml.EmptyParameterConfig


def num(c, t, mag=4):
    v = c.sym(mag)
    return F32(v) if t == 'f' else v


def near(a, b, rel=2e-5, ab=1e-6):
    return a == b or abs(a - b) <= ab + rel * abs(b)


def allnear(a, b, rel=2e-5, ab=1e-6):
    return len(a) == len(b) and all(near(x, y, rel, ab) for x, y in zip(a, b))


# ---- biquads --------------------------------------------------------------------------------------------------

def bq5(b):
    return [b.b0, b.b1, b.b2, b.a1, b.a2]


def bq_text(c, v, form):
    a0 = c.pick([None, 1.0, 2.0, -0.5])
    d = dict(zip(('b0', 'b1', 'b2', 'a1', 'a2'), [repr(x * (a0 or 1.0)) for x in v]))
    if a0 is not None:
        d['a0'] = repr(a0)
    if form == 'Json':
        return '{' + ', '.join('"%s": %s' % (k, x if c.flag() else '"%s"' % x) for k, x in d.items()) + '}'
    return '<biquad ' + ' '.join('%s="%s"' % kv for kv in d.items()) + '/>'


def rnd_bq(c, t):
    return [num(c, t) for _ in range(5)]


def mk_bq(c, mod, name, v):
    cls = getattr(mod, name)
    k = c.draw(4)
    if k == 0:
        return cls(*v)
    if k == 1:
        return cls(v)
    if k == 2:
        return cls(b0=v[0], b1=v[1], b2=v[2], a1=v[3], a2=v[4])
    b = cls()
    check(bq5(b) == [1, 0, 0, 0, 0], 'default biquad is %s' % bq5(b))
    for n, x in zip(('b0', 'b1', 'b2', 'a1', 'a2'), v):
        setattr(b, n, x)
    return b


def biquads(c):
    """single sections, lists and matrices through histories of changes, copies and text round trips"""
    t = c.pick('fd')
    S = 'Float' if t == 'f' else 'Double'
    par = c.flag()
    mod, mid = (pml, 'Parameter') if par else (rbbl, '')
    B, L, M = 'BiquadCoefficient' + mid + S, 'BiquadCoefficientList' + mid + S, 'BiquadCoefficientMatrix' + mid + S
    RB, RL, RM = (getattr(rbbl, 'BiquadCoefficient' + k + S) for k in ('', 'List', 'Matrix'))
    rel = 2e-5 if t == 'f' else 2e-5
    eq = lambda x, y: allnear(x, y, rel)
    what = c.draw(3)
    if what == 0:
        v = rnd_bq(c, t)
        b = mk_bq(c, mod, B, v)
        c.nontrivial()
        check(bq5(b) == v and list(b.data) == v, lambda: 'section is %s instead of %s' % (bq5(b), v))
        check(b.numberOfCoefficients == 5, 'number of coefficients')
        d = type(b)(b) if not par or c.flag() else RB(b)
        for form in ('Json', 'Xml'):
            s = b.writeJson() if form == 'Json' and c.flag() else bq_text(c, v, form)  # writing XML is not implemented
            e = getattr(RB, 'from' + form)(s)
            check(eq(bq5(e), v), lambda: '%s round trip of %s: %s' % (form, v, bq5(e)))
            e2 = RB()
            getattr(e2, 'load' + form)(s)
            check(bq5(e2) == bq5(e), 'load%s() and from%s() differ' % (form, form))
            before = bq5(e2)
            bad = c.pick(['{', '', '<a>', '[]', '{"b0": "x"}'])
            must_throw(lambda: getattr(e2, 'load' + form)(bad), 'load%s(%r)' % (form, bad))
            check(bq5(e2) == before, 'a text that is refused changes the section')
        v2 = rnd_bq(c, t)
        b.data = v2
        check(bq5(b) == v2 and bq5(d) == v, 'assignment of the coefficients or independence of a copy')
        must_throw(lambda: setattr(b, 'data', v2[:4]), 'four coefficients')
        check(str(b).count(':') == 5, 'printed form %s' % str(b))
    elif what == 1:
        model = [rnd_bq(c, t) for _ in range(c.wide(0, 5, 40))]
        l = getattr(mod, L)([RB(*v) for v in model]) if c.flag() or not model else getattr(mod, L)(len(model))
        if model and bq5(l[0]) == [1, 0, 0, 0, 0]:
            for i, v in enumerate(model):
                l[i] = mk_bq(c, rbbl, 'BiquadCoefficient' + S, v)
        copies = []
        for _ in range(c.size(1, 8)):
            op = c.draw(7)
            if op == 0 and model:
                i = c.draw(len(model))
                model[i] = rnd_bq(c, t)
                l[i] = mk_bq(c, mod, B, model[i])
            elif op == 1:
                n = c.size(0, 6)
                if c.flag():
                    l.resize(n)
                else:
                    l.size = n
                model = model[:n] + [[1.0, 0, 0, 0, 0]] * (n - len(model))
            elif op == 2:
                i = len(model) + c.size(0, 3)
                must_throw(lambda: l[i], 'reading section %d of %d' % (i, len(model)))
                must_throw(lambda: l.__setitem__(i, RB()), 'writing section %d of %d' % (i, len(model)))
            elif op == 3 and model:
                form = c.pick(['Json', 'Xml'])
                if form == 'Json':
                    s = l.writeJson() if c.flag() else '[' + ','.join(bq_text(c, v, form) for v in model) + ']'
                else:
                    s = '<filterSpec>' + ''.join(bq_text(c, v, form) for v in model) + '</filterSpec>'
                l2 = getattr(RL, 'from' + form)(s)
                check(len(l2) == len(model) and all(eq(bq5(x), y) for x, y in zip(l2, model)), lambda: '%s round trip of %s: %s' % (form, model, s))
                model = [bq5(x) for x in l2]
                getattr(l, 'load' + form)(s)
                c.nontrivial()
            elif op == 4:
                copies.append((RL(l), [list(v) for v in model]))
                if par:
                    copies.append((l.clone(), [list(v) for v in model]))
            elif op == 5:
                before = [bq5(x) for x in l]
                form, bad = c.pick([('Json', '{'), ('Json', ''), ('Xml', '<b>'), ('Json', '[ {"b0": 1 ]')])
                must_throw(lambda: getattr(l, 'load' + form)(bad), 'load%s(%r)' % (form, bad))
                check([bq5(x) for x in l] == before, 'a text that is refused changes the list')
            elif op == 6:
                it = iter(getattr(mod, L)([RB(*v) for v in model]))  # only the iterator refers to the list
                check([bq5(x) for x in it] == model, 'iteration over a temporary list')
            for k, (x, m) in enumerate([(l, model)] + copies):
                check(len(x) == x.size == len(m), lambda: 'length %d %d instead of %d (%d)' % (len(x), x.size, len(m), k))
                check([bq5(x[i]) for i in range(len(m))] == m == [bq5(y) for y in x], lambda: 'list differs: %s instead of %s' % ([bq5(y) for y in x], m))
    else:
        nf, ns = c.wide(0, 4, 20), c.wide(0, 4, 20)
        if c.flag() and par and nf:
            model = [[rnd_bq(c, t) for _ in range(ns)] for _ in range(nf)]
            m = getattr(mod, M)([[RB(*v) for v in row] for row in model])
            if ns and nf > 1:
                must_throw(lambda: getattr(mod, M)([[RB()] * ns, [RB()] * (ns + 1)]), 'ragged matrix')
        else:
            model = [[[1.0, 0, 0, 0, 0] for _ in range(ns)] for _ in range(nf)]
            m = getattr(mod, M)(nf, ns)
        get = lambda x: [[bq5(x[i, j]) for j in range(x.numberOfSections)] for i in range(x.numberOfFilters)]
        copies = []
        for _ in range(c.size(1, 8)):
            nf, ns = len(model), m.numberOfSections
            op = c.draw(7)
            if op == 0 and nf and ns:
                i, j = c.draw(nf), c.draw(ns)
                model[i][j] = rnd_bq(c, t)
                m[i, j] = mk_bq(c, rbbl, 'BiquadCoefficient' + S, model[i][j])
            elif op == 1 and nf:
                i = c.draw(nf)
                row = [rnd_bq(c, t) for _ in range(ns)]
                lst = RL([RB(*v) for v in row])
                if c.flag():
                    m.setFilter(i, lst)
                else:
                    m[i] = lst
                model[i] = row
                check([bq5(x) for x in m[i]] == row, 'filter read as a list')
            elif op == 2:
                nf2, ns2 = c.size(0, 5), c.size(0, 5)
                m.resize(nf2, ns2)
                model = [[model[i][j] if i < nf and j < ns else [1.0, 0, 0, 0, 0] for j in range(ns2)] for i in range(nf2)]
                check((m.numberOfFilters, m.numberOfSections) == (nf2, ns2 if nf2 else 0), 'dimensions after resize')
                model = get(m)  # content after a resize is not specified
            elif op == 3:
                i = (nf + c.size(0, 2), c.draw(max(1, ns))) if c.flag() else (c.draw(max(1, nf)), ns + c.size(0, 2))
                must_throw(lambda: m[i], 'reading element %s of %dx%d' % (i, nf, ns))
                must_throw(lambda: m.__setitem__(i, RB()), 'writing element %s of %dx%d' % (i, nf, ns))
                if i[0] >= nf:
                    must_throw(lambda: m[i[0]], 'reading filter %d of %d' % (i[0], nf))
                    must_throw(lambda: m.__setitem__(i[0], RL(ns)), 'writing filter %d of %d' % (i[0], nf))
            elif op == 4 and nf and ns:
                form = 'Json'  # XML and writing are not implemented for matrices
                s = '[' + ','.join('[' + ','.join(bq_text(c, v, form) for v in r) + ']' for r in model) + ']'
                m2 = RM.fromJson(s)
                g = get(m2)
                check(len(g) == nf and all(len(x) == len(y) and all(eq(p, q) for p, q in zip(x, y)) for x, y in zip(g, model)),
                      lambda: '%s round trip of %s: %s' % (form, model, s))
                getattr(m, 'load' + form)(s)
                model = g
                c.nontrivial()
            elif op == 5 and par:
                copies.append((m.clone(), [[list(v) for v in r] for r in model]))
            elif op == 6:
                before = get(m)
                form, bad = c.pick([('Json', '{'), ('Json', ''), ('Xml', '<b>')])
                must_throw(lambda: getattr(m, 'load' + form)(bad), 'load%s(%r)' % (form, bad))
                check(get(m) == before, 'a text that is refused changes the matrix')
            for x, mm in [(m, model)] + copies:
                check(x.numberOfFilters == len(mm) and get(x) == mm, lambda: 'matrix differs: %s instead of %s' % (get(x), mm))


TYPES = ['lowpass', 'highpass', 'bandpass', 'bandstop', 'highshelf', 'lowshelf', 'peak', 'allpass']


def design(c):
    """parametric filters: values, text round trips, designed sections independent of the calling form"""
    t = c.pick('fd')
    S = 'Float' if t == 'f' else 'Double'
    P, B = getattr(rbbl, 'ParametricIirCoefficient' + S), getattr(rbbl, 'BiquadCoefficient' + S)
    base, calc = rbbl.ParametricIirCoefficientBase, rbbl.ParametricIirCoefficientCalculator
    name = c.pick(TYPES)
    typ = getattr(base.Type, name)
    cast = F32 if t == 'f' else float
    f, q, g = cast(c.real(20, 20000)), cast(c.real(0.1, 10)), cast(c.sym(18))
    check(base.stringToTypeId(name) == typ and base.typeToIdString(typ) == name, 'names of the filter types')
    must_throw(lambda: base.stringToTypeId(name + 'x'), 'unknown filter type')
    p = (P(typ, f, q, g), P(name, f, q, g), P(type=name, frequency=f, quality=q, gain=g))[c.draw(3)]
    val = lambda x: (x.type, x.frequency, x.quality, x.gain)
    c.nontrivial()
    check(val(p) == (typ, f, q, g), lambda: 'values %s' % (val(p),))
    p2 = P()
    p2.type, p2.frequency, p2.quality, p2.gain = typ, f, q, g
    check(val(p2) == val(p), 'values set one by one')
    for form in ('Json', 'Xml'):
        s = getattr(p, 'write' + form)()
        p3 = getattr(P, 'from' + form)(s)
        check(p3.type == typ and allnear(val(p3)[1:], (f, q, g)), lambda: '%s round trip of %s: %s' % (form, val(p), val(p3)))
        p2 = P()
        getattr(p2, 'load' + form)(s)
        check(val(p2) == val(p3), 'load%s() and from%s() differ' % (form, form))
    fs = c.pick([44100.0, 48000.0, 96000.0])
    a = calc.calculateIirCoefficients(p, fs)
    b = B()
    calc.calculateIirCoefficients(p, b, fs)
    check(bq5(a) == bq5(b), 'the two forms of the design function differ')
    # gain of the designed section at 0 and half of the sampling frequency
    dc = (a.b0 + a.b1 + a.b2) / (1 + a.a1 + a.a2)
    ny = (a.b0 - a.b1 + a.b2) / (1 - a.a1 + a.a2)
    G = 10 ** (g / 20)
    want = {'lowpass': (1, 0), 'highpass': (0, 1), 'bandpass': (0, 0), 'bandstop': (1, 1), 'peak': (1, 1), 'allpass': (1, 1),
            'lowshelf': (G, 1), 'highshelf': (1, G)}[name]
    if t == 'd':
        check(abs(dc - want[0]) < 1e-6 * max(1, G) and abs(ny - want[1]) < 1e-6 * max(1, G), lambda: '%s f=%g q=%g g=%g: gains %g %g instead of %s' % (name, f, q, g, dc, ny, want))
    # stability
    check(abs(a.a2) < 1 and abs(a.a1) < 1 + a.a2, lambda: '%s is not stable: %s' % (name, bq5(a)))


# ---- parameters: one table entry per type: make, value, change, same shape, other shape -----------------------------

def scal(cls, mk):
    return dict(make=lambda c: cls(mk(c)), value=lambda p: p.value, change=lambda c, p: p.set(mk(c)))


def arr_value(p):
    return np.array(p, copy=True)


def vec(S, dt):
    cls = getattr(pml, 'VectorParameter' + S)

    def make(c, n=None):
        n = c.wide(0, 9, 200) if n is None else n
        d = c.rng().uniform(-1, 1, n).astype(dt)
        if n and c.flag():
            p = cls(n, c.pick([0, 4]))
            p.zeroFill()
            for i in range(n):
                p[i] = d[i].item()
            return p
        return cls(d, c.pick([0, 4]))

    def change(c, p):
        if p.size:
            p[c.draw(p.size)] = 7
        else:
            p.resize(2)
            p.zeroFill()
    return dict(make=make, value=arr_value, change=change, like=lambda c, p: make(c, p.size), unlike=lambda c, p: make(c, p.size + 1))


def mat(S, dt):
    cls = getattr(pml, 'MatrixParameter' + S)

    def make(c, n=None):
        n = (c.wide(0, 4, 20), c.wide(0, 6, 40)) if n is None else n
        return cls(c.rng().uniform(-1, 1, n).astype(dt), c.pick([0, 4]))

    def change(c, p):
        if p.numberOfRows * p.numberOfColumns:
            p[c.draw(p.numberOfRows), c.draw(p.numberOfColumns)] = 7
        else:
            p.resize(2, 1)
            p.zeroFill()
    return dict(make=make, value=arr_value, change=change, like=lambda c, p: make(c, (p.numberOfRows, p.numberOfColumns)),
                unlike=lambda c, p: make(c, (p.numberOfRows + 1, p.numberOfColumns)))


def tf(S, dt):
    cls = getattr(pml, 'TimeFrequencyParameter' + S)

    def make(c, n=None):
        n = (c.size(1, 3), c.size(1, 3), c.size(1, 9)) if n is None else n
        r = c.rng()
        d = (r.uniform(-1, 1, n) + 1j * r.uniform(-1, 1, n)).astype(dt)
        if c.flag():
            wide = np.full((n[0], 2 * n[1], n[2] + 3), 9, dt)
            wide[:, ::2, 1:n[2] + 1] = d
            d = wide[:, ::2, 1:n[2] + 1]
        p = cls(d, c.pick([0, 4]))
        check((p.numberOfFrames, p.numberOfChannels, p.numberOfDftBins) == n, 'dimensions')
        check(np.array_equal(np.array(p), d), 'content differs from the array')
        return p
    dims = lambda p: (p.numberOfFrames, p.numberOfChannels, p.numberOfDftBins)

    def change(c, p):
        k = tuple(c.draw(x) for x in dims(p))
        p[k] = 3 - 2j
        check(p[k] == 3 - 2j and np.array(p, copy=False)[k] == 3 - 2j, 'element written')
        for a in range(3):
            bad = list(k)
            bad[a] = dims(p)[a]
            must_throw(lambda: p[tuple(bad)], 'index out of range')
            must_throw(lambda: p.__setitem__(tuple(bad), 0), 'index out of range')
        must_throw(lambda: p[k[:2]], 'index with two elements')
    return dict(make=make, value=arr_value, change=change, like=lambda c, p: make(c, dims(p)))


def bqp(kind, t):
    S = 'Float' if t == 'f' else 'Double'
    cls = getattr(pml, 'BiquadCoefficient%sParameter%s' % (kind, S)) if hasattr(pml, 'BiquadCoefficient%sParameter%s' % (kind, S)) else None
    return cls


def routing_value(l):
    return sorted((e.inputIndex, e.outputIndex, e.filterIndex, e.gain) for e in l)


def mk_filter_routing(c):
    p = pml.FilterRoutingListParameter(EPC())
    for _ in range(c.size(0, 4)):
        p.addRouting(c.draw(5), c.draw(5), c.draw(5), num(c, 'f'))
    return p


def mk_sparse(c):
    p = pml.SparseGainRoutingListParameter(EPC())
    for _ in range(c.size(0, 4)):
        p.addRouting(c.draw(5), c.draw(5), c.draw(5), num(c, 'f'))
    return p


def mk_interp(c, n=None):
    n = c.size(1, 4) if n is None else n
    p = pml.InterpolationParameter(c.draw(5), [c.draw(9) for _ in range(n)], [F32(c.real(0, 1)) for _ in range(n)])
    return p


def mk_signal(c):
    return pml.SignalRoutingParameter([pml.SignalRoutingParameter.Entry(c.draw(5), c.draw(6)) for _ in range(c.size(0, 4))])


def text(c):
    return ''.join(c.pick('ab \n"\\{}:,1éß世') for _ in range(c.size(0, 12)))


def mk_objects(c):
    p = pml.ObjectVector(EPC())
    p.set([Obj.make(c, c.draw(6)) for _ in range(c.size(0, 4))])
    return p


def posef(p):
    return [p.x, p.y, p.z] + list(p.orientationQuaternion.data) + [p.faceId, p.timeStamp]


def mk_pose(c):
    p = pml.ListenerPosition(num(c, 'f'), num(c, 'f'), num(c, 'f'), c.sym(3), c.sym(1.5), c.sym(3))
    p.faceId = c.draw(9)
    p.timeStamp = c.draw(10 ** 12)
    return p


def bq_params(kind, t):
    S = 'Float' if t == 'f' else 'Double'
    name = 'BiquadCoefficient%sParameter%s' % (kind, S)
    cls, B = getattr(pml, name), getattr(rbbl, 'BiquadCoefficient' + S)
    mk = lambda c: B(*rnd_bq(c, t))
    if kind == '':
        return dict(make=lambda c: cls(*rnd_bq(c, t)), value=bq5, change=lambda c, p: setattr(p, 'b1', 11.0))
    if kind == 'List':
        make = lambda c, n=None: cls([mk(c) for _ in range(c.size(0, 4) if n is None else n)])
        return dict(make=make, value=lambda p: [bq5(x) for x in p], change=lambda c, p: setattr(p, 'size', p.size + 1), like=lambda c, p: make(c, p.size))
    make = lambda c, n=None: (lambda n: cls([[mk(c) for _ in range(n[1])] for _ in range(n[0])]))((c.size(1, 3), c.size(1, 3)) if n is None else n)
    return dict(make=make, value=lambda p: [[bq5(p[i, j]) for j in range(p.numberOfSections)] for i in range(p.numberOfFilters)],
                change=lambda c, p: p.__setitem__((0, 0), mk_bq(c, rbbl, 'BiquadCoefficient' + S, [9.0, 0, 0, 0, 0])), like=lambda c, p: make(c, (p.numberOfFilters, p.numberOfSections)))


class Obj:
    """random scene objects and their description as plain data"""
    KINDS = ['PointSource', 'PlaneWave', 'DiffuseSource', 'PointSourceWithDiffuseness', 'PointSourceExtent', 'PointSourceWithReverb',
             'HoaSource', 'ChannelObject']

    @staticmethod
    def make(c, oid):
        k = c.pick(Obj.KINDS)
        o = getattr(om, k)(oid)
        check(o.objectId == oid, 'id')
        Obj.modify(c, o, True)
        return o

    @staticmethod
    def modify(c, o, first=False):
        k = type(o).__name__
        f = lambda: first or c.chance(40)
        if f():
            o.groupId = c.draw(9)
        if f():
            o.level = F32(c.real(0, 2))
        if f():
            o.priority = c.draw(9)
        if f():
            n = {'HoaSource': (c.draw(3) + 1) ** 2, 'ChannelObject': c.size(1, 3)}.get(k, 1)
            o.channels = [c.draw(20) for _ in range(n)]
            if k == 'HoaSource':
                o.order = int(round(math.sqrt(n))) - 1
            if k == 'ChannelObject':
                o.outputChannels = [[c.pick(['1', 'L', 'M+030', 'U@x']) + str(i) for i in range(c.size(1, 2))] for _ in range(n)]
        if k.startswith('PointSource') and f():
            p = [num(c, 'f') for _ in range(3)]
            if c.flag():
                o.position = p
            else:
                o.x, o.y, o.z = p
        if k == 'PlaneWave' and f():
            o.azimuth, o.elevation, o.referenceDistance = F32(c.sym(170)), F32(c.sym(89)), F32(c.real(0.5, 5))
        if k == 'PointSourceWithDiffuseness' and f():
            o.diffuseness = F32(c.real(0, 1))
        if k == 'PointSourceExtent' and f():
            o.extent = [F32(c.real(0, 3)) for _ in range(3)]
        if k == 'PointSourceWithReverb' and f():
            refl = []
            for _ in range(c.size(0, 3)):
                d = om.PointSourceWithReverb.DiscreteReflection()
                d.position = [num(c, 'f') for _ in range(3)]
                d.level, d.delay = F32(c.real(0, 1)), F32(c.real(0, 0.1))
                if c.flag():
                    d.setReflectionFilter(c.draw(o.numberOfDiscreteReflectionEqSections), rbbl.BiquadCoefficientFloat(*[F32(c.sym(1)) for _ in range(5)]))
                refl.append(d)
            o.setDiscreteReflections(refl)
            n = o.numberOfLateReflectionSubbands
            late = o.lateReverb
            late.onsetDelay = F32(c.real(0, 0.2))
            late.levels = np.array([c.real(0, 1) for _ in range(n)], np.float32)
            if c.flag():
                late.attackTimes = np.array([c.real(0, 0.2) for _ in range(2 * n)], np.float32)[::2]
            else:
                late.attackTimes = [c.real(0, 0.2) for _ in range(n)]
            late.decayCoefficients = np.array([-c.real(0, 20) for _ in range(n)])

    @staticmethod
    def data(o):
        k = type(o).__name__
        d = {'kind': k, 'id': o.objectId, 'group': o.groupId, 'level': o.level, 'priority': o.priority, 'channels': list(o.channels)}
        if k.startswith('PointSource'):
            check(list(o.position) == [o.x, o.y, o.z], 'position and coordinates')
            d['pos'] = list(o.position)
        if k == 'PlaneWave':
            d['plane'] = [o.azimuth, o.elevation, o.referenceDistance]
        if k == 'PointSourceWithDiffuseness':
            d['diff'] = o.diffuseness
        if k == 'PointSourceExtent':
            check(list(o.extent) == [o.width, o.height, o.depth], 'extent')
            d['extent'] = list(o.extent)
        if k == 'HoaSource':
            d['order'] = o.order
        if k == 'ChannelObject':
            d['out'] = [list(o.outputChannel(i)) for i in range(o.size())]
            check([list(x) for x in o.outputChannels] == d['out'], 'output channels')
        if k == 'PointSourceWithReverb':
            r = [o.discreteReflection(i) for i in range(o.numberOfDiscreteReflections())]
            d['refl'] = [[x.x, x.y, x.z, x.level, x.delay] + [v for b in x.reflectionFilters for v in bq5(b)] for x in r]
            l = o.lateReverb
            d['late'] = [l.onsetDelay] + list(map(float, l.levels)) + list(map(float, l.attackTimes)) + list(map(float, l.decayCoefficients))
        return d


def dnear(a, b, rel=3e-5, ab=1e-5):
    if isinstance(b, dict):
        return isinstance(a, dict) and a.keys() == b.keys() and all(dnear(a[k], b[k], rel, ab) for k in b)
    if isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(dnear(x, y, rel, ab) for x, y in zip(a, b))
    if isinstance(b, float):
        return near(a, b, rel, ab)
    return a == b


CPX = lambda f: lambda c: complex(f(c.sym(4)), f(c.sym(4)))
PARAMS = {
    'Boolean': scal(pml.Boolean, lambda c: c.flag()), 'Integer': scal(pml.Integer, lambda c: c.range(-2 ** 31, 2 ** 31 - 1)),
    'UnsignedInteger': scal(pml.UnsignedInteger, lambda c: c.draw(2 ** 32)), 'Float': scal(pml.Float, lambda c: num(c, 'f')),
    'Double': scal(pml.Double, lambda c: num(c, 'd')), 'ComplexFloat': scal(pml.ComplexFloat, CPX(F32)), 'ComplexDouble': scal(pml.ComplexDouble, CPX(float)),
    'String': dict(make=lambda c: pml.StringParameter(text(c)), value=lambda p: (p.str, p.size, bool(p.empty), p.bytes),
                   change=lambda c, p: setattr(p, 'str', p.str + 'x')),
    'VectorFloat': vec('Float', np.float32), 'VectorDouble': vec('Double', np.float64),
    'VectorComplexFloat': vec('ComplexFloat', np.complex64), 'VectorComplexDouble': vec('ComplexDouble', np.complex128),
    'MatrixFloat': mat('Float', np.float32), 'MatrixDouble': mat('Double', np.float64),
    'MatrixComplexFloat': mat('ComplexFloat', np.complex64), 'MatrixComplexDouble': mat('ComplexDouble', np.complex128),
    'TimeFrequencyFloat': tf('Float', np.complex64), 'TimeFrequencyDouble': tf('Double', np.complex128),
    'FilterRoutingList': dict(make=mk_filter_routing, value=routing_value, change=lambda c, p: p.addRouting(7, 7, 7, 0.5)),
    'SparseGainList': dict(make=mk_sparse, value=lambda l: sorted((e.entryIndex, e.rowIndex, e.columnIndex, e.gain) for e in l),
                           change=lambda c, p: p.addRouting(7, 7, 7, 0.5)),
    'Interpolation': dict(make=mk_interp, value=lambda p: (p.id, list(p.indices), list(p.weights)), change=lambda c, p: p.setIndex(0, 77),
                          like=lambda c, p: mk_interp(c, p.numberOfInterpolants)),
    'SignalRouting': dict(make=mk_signal, value=lambda p: sorted((e.input, e.output) for e in p), change=lambda c, p: p.addRouting(9, 9)),
    'IndexedString': dict(make=lambda c: pml.IndexedString(c.draw(9), text(c)), value=lambda p: (p.index, p.value), change=lambda c, p: setattr(p, 'value', p.value + 'x')),
    'IndexedVectorFloat': dict(make=lambda c: pml.IndexedVectorFloat(c.draw(9), np.array([num(c, 'f') for _ in range(c.size(0, 5))], np.float32)[::c.pick([1, -1])]),
                               value=lambda p: (p.index, list(p.value)), change=lambda c, p: setattr(p, 'index', p.index + 1)),
    'IndexedVectorDouble': dict(make=lambda c: pml.IndexedVectorDouble(c.draw(9), np.array([num(c, 'd') for _ in range(c.size(0, 5))])),
                                value=lambda p: (p.index, list(p.value)), change=lambda c, p: setattr(p, 'value', list(p.value) + [1.0])),
    'ListenerPosition': dict(make=mk_pose, value=posef, change=lambda c, p: setattr(p, 'x', p.x + 1)),
    'ObjectVector': dict(make=mk_objects, value=lambda p: [Obj.data(o) for o in p], change=lambda c, p: p.insert(om.PointSource(99))),
    'Biquad': bq_params('', 'f'), 'BiquadDouble': bq_params('', 'd'), 'BiquadList': bq_params('List', 'f'),
    'BiquadListDouble': bq_params('List', 'd'), 'BiquadMatrix': bq_params('Matrix', 'f'), 'BiquadMatrixDouble': bq_params('Matrix', 'd'),
}


def eqv(a, b):
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)
    return a == b


def parameters(c):
    """histories of copying, cloning, assigning and changing parameters of every type"""
    name = c.pick(sorted(PARAMS))
    T = PARAMS[name]
    c.label(name)
    objs = [T['make'](c)]
    model = [T['value'](objs[0])]
    check(objs[0].type() == type(objs[0]).staticType, 'type() and staticType differ')
    c.note(name, model[0])
    for _ in range(c.size(1, 6)):
        op = c.draw(5)
        i = c.draw(len(objs))
        if op == 0:
            objs.append(objs[i].clone())
            model.append(model[i])
        elif op == 1:
            objs.append(copy.copy(objs[i]))
            model.append(model[i])
        elif op == 2:
            objs.append(copy.deepcopy(objs[i]) if c.flag() else copy.deepcopy([objs[i]])[0])
            model.append(model[i])
        elif op == 3:
            p = T['like'](c, objs[i]) if 'like' in T else T['make'](c)
            objs[i].assign(p)
            model[i] = T['value'](p)
            T['change'](c, p)
        else:
            T['change'](c, objs[i])
            new = T['value'](objs[i])
            check(not eqv(new, model[i]) or (name in ('VectorFloat',) and False) or name in CAN_STAY, lambda: 'change() had no effect on %s' % (new,))
            model[i] = new
        c.nontrivial()
        for k, (o, m) in enumerate(zip(objs, model)):
            check(type(o) is type(objs[0]), lambda: 'copy has type %s instead of %s' % (type(o), type(objs[0])))
            check(eqv(T['value'](o), m), lambda: 'object %d after operation %d on %d: %s instead of %s' % (k, op, i, T['value'](o), m))
    # a parameter of another type cannot be assigned
    other = c.pick(sorted(set(PARAMS) - {name}))
    q = PARAMS[other]['make'](c)
    must_throw(lambda: objs[0].assign(q), 'assignment of %s to %s' % (other, name))
    check(eqv(T['value'](objs[0]), model[0]), 'a refused assignment changes the parameter')


CAN_STAY = {'Boolean', 'Integer', 'UnsignedInteger', 'Float', 'Double', 'ComplexFloat', 'ComplexDouble', 'FilterRoutingList', 'SparseGainList',
            'TimeFrequencyFloat', 'TimeFrequencyDouble', 'VectorFloat', 'VectorDouble', 'VectorComplexFloat', 'VectorComplexDouble',
            'MatrixFloat', 'MatrixDouble', 'MatrixComplexFloat', 'MatrixComplexDouble', 'Interpolation', 'SignalRouting', 'ObjectVector', 'Biquad',
            'BiquadDouble', 'BiquadMatrix', 'BiquadMatrixDouble', 'ListenerPosition', 'IndexedVectorFloat'}


# ---- routings ---------------------------------------------------------------------------------------------------------

def routings(c):
    """routing tables and interpolant sets through histories of changes against dictionaries"""
    kind = c.draw(4)
    if kind == 0 or kind == 1:
        filt = kind == 0
        E, L = (rbbl.FilterRouting, rbbl.FilterRoutingList) if filt else (rbbl.SparseGainRouting, rbbl.SparseGainRoutingList)
        key = (lambda e: (e.inputIndex, e.outputIndex)) if filt else (lambda e: e.entryIndex)
        val = (lambda e: (e.filterIndex, e.gain)) if filt else (lambda e: (e.rowIndex, e.columnIndex, e.gain))

        def rnd():
            a, b, d, g = c.draw(4), c.draw(4), c.draw(4), num(c, 'f')
            return (a, b, d, g), ((a, b) if filt else a), ((d, g) if filt else (b, d, g))
        l = (pml.FilterRoutingListParameter if filt else pml.SparseGainRoutingListParameter)(EPC()) if c.flag() else L()
        model = {}
        for _ in range(c.size(1, 10)):
            op = c.draw(6)
            if op <= 1:
                args, k, v = rnd()
                if op == 0:
                    l.addRouting(*args)
                else:
                    l.addRouting(E(*args))
                model[k] = v
            elif op == 2 and filt:
                k = (c.draw(4), c.draw(4))
                check(l.removeRouting(*k) == (k in model), 'result of removeRouting')
                model.pop(k, None)
            elif op == 2 and model:
                k = c.pick(sorted(model))
                check(l.removeRouting(E(k, *model[k])), 'result of removeRouting')
                model.pop(k)
            elif op == 3:
                rows = [rnd() for _ in range(c.size(0, 4))]
                js = []
                model = {}
                for a, k, v in rows:
                    names = ('input', 'output', 'filter', 'gain') if filt else ('index', 'row', 'column', 'gain')
                    js.append(dict(zip(names, map(str, a))))
                    model[k] = v
                s = json.dumps(js)
                if c.flag():
                    l.parseJson(s)
                else:
                    l = L.fromJson(s)
                c.nontrivial()
            elif op == 4:
                before = sorted((key(e), val(e)) for e in l)
                bad = c.pick(['', '[', '{"input": "0"}', '[{"input": "x", "output": "0", "filter": "0"}]', '[{"index": "x", "row": "0", "column": "0"}]'])
                must_throw(lambda: l.parseJson(bad), 'parseJson(%r)' % bad)
                check(before == sorted((key(e), val(e)) for e in l), 'a text that is refused changes the list')
            elif op == 5:
                es = [rnd() for _ in range(c.size(0, 4))]
                it = iter(L([E(*a) for a, k, v in es]))
                m2 = {k: v for a, k, v in es}
                got = {key(e): val(e) for e in it}
                check(got == m2, lambda: 'iteration over a temporary list: %s instead of %s' % (got, m2))
            if len(model) > 1:
                c.nontrivial()
            got = {key(e): val(e) for e in l}
            check(set(got) == set(model) and all(allnear(got[k], model[k]) for k in got), lambda: 'list is %s instead of %s' % (got, model))
            check(l.size == len(l) == len(model) and bool(l.empty) == (not model), 'size')
            check(repr(l).count('(') == len(model), 'printed form')
            model = got
    elif kind == 2:
        SP = pml.SignalRoutingParameter
        model = {}
        l = SP()
        for _ in range(c.size(1, 10)):
            op = c.draw(7)
            i, o = c.draw(5), c.draw(5)
            if op == 0:
                l.addRouting(i, o)
                model[o] = i
            elif op == 1:
                l.addRouting(SP.Entry(i, o))
                model[o] = i
            elif op == 2:
                check(l.removeRouting(o) == (o in model), 'result of removeRouting(output)')
                model.pop(o, None)
            elif op == 3:
                hit = model.get(o) == i
                check(l.removeRouting(SP.Entry(i, o)) == hit, 'result of removeRouting(entry)')
                if hit:
                    model.pop(o)
            elif op == 4:
                ps = [(c.draw(5), c.draw(5)) for _ in range(c.size(1, 4))]
                s = c.pick([', ', ' ', ',']).join('%d%s%d' % (a, c.pick(['=', ' = ']), b) for a, b in ps)
                check(l.parse(s), 'parse(%r)' % s)
                model = {}
                for a, b in ps:
                    model[b] = a
                c.nontrivial()
            elif op == 5:
                check(not l.parse(c.pick(['x', '1=', '1=2,', '1=2 x', '=3', '-1=2'])), 'parse() of an invalid text succeeded')
            elif op == 6:
                ps = [(c.draw(5), c.draw(5)) for _ in range(c.size(0, 4))]
                m2 = SP([SP.Entry(a, b) for a, b in ps])
                l.swap(m2)
                check(sorted((e.output, e.input) for e in m2) == sorted(model.items()), 'swap()')
                model = {b: a for a, b in ps}
            check(sorted((e.output, e.input) for e in l) == sorted(model.items()), lambda: 'table is %s instead of %s' % ([(e.input, e.output) for e in l], model))
            check(l.size == len(model) and bool(l.empty) == (not model), 'size')
            for o in range(5):
                x = l.getInput(o)
                check(x == model[o] if o in model else x >= 2 ** 31, lambda: 'getInput(%d) is %s, expected %s' % (o, x, model.get(o)))
            for i in range(5):
                x = l.getOutput(i)
                outs = [o for o in model if model[o] == i]
                check(x in outs if outs else x >= 2 ** 31, 'getOutput()')
    else:
        S, P = rbbl.InterpolationParameterSet, rbbl.InterpolationParameter
        rnd = lambda: (lambda n: (c.draw(5), [c.draw(9) for _ in range(n)], [F32(c.real(0, 1)) for _ in range(n)]))(c.size(0, 3))
        first = [rnd() for _ in range(c.size(0, 3))]
        s = S([P(*x) for x in first])
        model = {}
        for x in first:
            model.setdefault(x[0], x[1:])
        for _ in range(c.size(1, 6)):
            x = rnd()
            s.insert(P(*x))
            model.setdefault(x[0], x[1:])  # a set: an element that exists stays
            got = {p.id: (list(p.indices), list(p.weights)) for p in s}
            check(got == model, lambda: 'set is %s instead of %s' % (got, model))
            check(len(s) == s.size == len(model), 'size')
            k = c.draw(6)
            p = s[k]
            check((p is None) == (k not in model) and (p is None or (list(p.indices), list(p.weights)) == model[k]), 'element by id')
            if p is not None:
                n = p.numberOfInterpolants
                must_throw(lambda: p.index(n), 'index out of range')
                must_throw(lambda: p.weight(n), 'index out of range')
                must_throw(lambda: p.setWeight(n + c.draw(3), 0.5), 'index out of range')
                must_throw(lambda: setattr(p, 'weights', [0.5] * (n + 1)), 'wrong number of weights')
                check(all(p.index(i) == model[k][0][i] and p.weight(i) == model[k][1][i] for i in range(n)), 'elements of an interpolant')
            c.nontrivial()
        x = rnd()
        must_throw(lambda: P(x[0], x[1] + [1], x[2]), 'different numbers of indices and weights')


# ---- scene objects ----------------------------------------------------------------------------------------------------

def objects(c):
    """object vectors through histories of changes, copies and text round trips"""
    V = (lambda: pml.ObjectVector(EPC())) if c.flag() else om.ObjectVector
    v = V()
    model = {}
    copies = []
    for _ in range(c.size(1, 10)):
        op = c.draw(10)
        if op <= 1:
            o = Obj.make(c, c.draw(7))
            v.insert(o)
            model[o.objectId] = Obj.data(o)
            if c.flag():
                o.level = 77  # the vector holds a copy
            del o
        elif op == 2:
            os = [Obj.make(c, c.draw(7)) for _ in range(c.size(0, 4))]
            if c.flag():
                v.set(os)
                model = {}
            else:
                v.insert(os)
            for o in os:
                model[o.objectId] = Obj.data(o)
        elif op == 3 and model:
            k = c.pick(sorted(model))
            o = v[k] if c.flag() else v.at(k)
            Obj.modify(c, o)
            model[k] = Obj.data(o)
            c.nontrivial()
        elif op == 4:
            k = c.draw(7)
            if k in model:
                v.remove(k)
                model.pop(k)
            else:
                must_throw(lambda: v.remove(k), 'removing object %d' % k)
                must_throw(lambda: v[k], 'reading object %d' % k)
        elif op == 5:
            s = v.writeJson()
            w = om.ObjectVector([Obj.make(c, 9)])
            w.fillFromJson(s)
            got = {o.objectId: Obj.data(o) for o in w}
            check(dnear(got, model), lambda: 'round trip: %s instead of %s (%s)' % (got, model, s))
            js = json.loads(s)
            check(sorted(x['id'] if isinstance(x['id'], int) else int(x['id']) for x in js['objects'] or []) == sorted(model), 'ids in the text')
            if model:
                c.nontrivial()
        elif op == 6:
            w = om.ObjectVector([Obj.make(c, c.draw(7)) for _ in range(c.size(0, 3))])
            s = w.writeJson()
            v.updateFromJson(s)
            for o in w:
                d = Obj.data(o)
                got = Obj.data(v[o.objectId])
                check(dnear(got, d), lambda: 'update from text: %s instead of %s' % (got, d))
                model[o.objectId] = got
        elif op == 7:
            snap = {k: dict(d) for k, d in model.items()}
            if isinstance(v, pml.ObjectVector):
                copies.append((v.clone() if c.flag() else pml.ObjectVector(v), snap))
            else:
                w = om.ObjectVector()
                w.assign(v)
                copies.append((w, snap))
        elif op == 8:
            before = [Obj.data(o) for o in v]
            bad = c.pick(['{', '', '{"objects": [ {"id": "0"} ] }', '[1', '{"objects": [{"id": 0, "type": "nothing", "group": 0, "priority": 0, "level": 1, "channels": "0"}]}'])
            try:
                v.updateFromJson(bad)
            except Exception:
                pass
            after = [Obj.data(o) for o in v]
            check(len(after) == len(before) and after == before, lambda: 'a faulty message changes the scene: %s' % after)
        elif op == 9:
            if c.flag():
                v.clear()
                model = {}
            else:
                es = [Obj.make(c, k) for k in range(c.size(0, 3))]
                ds = [Obj.data(o) for o in es]
                it = iter(om.ObjectVector(es))
                check([Obj.data(o) for o in it] == ds, 'iteration over a temporary vector')
                if es:
                    o = om.ObjectVector(es)[0]  # only the element is kept
                    check(Obj.data(o) == ds[0], 'element of a temporary vector')
        for w, m in [(v, model)] + copies:
            got = {o.objectId: Obj.data(o) for o in w}
            check(got == m, lambda: 'after operation %d: scene is %s instead of %s' % (op, got, m))
            check(w.size == len(m) and bool(w.empty) == (not m), 'size')
            check([o.objectId for o in w] == sorted(m), 'order of the objects')


def parts(c):
    """parts of reverberant objects and channel objects; values that do not fit are refused"""
    o = om.PointSourceWithReverb(c.draw(9))
    R, L = om.PointSourceWithReverb.DiscreteReflection, om.PointSourceWithReverb.LateReverb
    n, ns = o.numberOfLateReflectionSubbands, o.numberOfDiscreteReflectionEqSections
    c.nontrivial()
    late = o.lateReverb
    names = ['levels', 'attackTimes', 'decayCoefficients']
    vals = {k: [F32(c.real(0, 1)) for _ in range(n)] for k in names}
    for k in names:
        setattr(late, k, vals[k])
    # arrays of another shape are refused and change nothing
    k = c.pick(names)
    bad = c.pick([np.zeros(n + 1, np.float32), np.zeros(n - 1, np.float32), np.zeros((n, 1), np.float32), np.float32(3), np.zeros((), np.float32),
                  np.zeros((1, n), np.float32), np.zeros(0, np.float32)])
    must_throw(lambda: setattr(late, k, bad), '%s with shape %s' % (k, np.shape(bad)))
    arr = late.levels
    arr[0] = 55  # a copy
    for k in names:
        check(list(map(float, getattr(late, k))) == vals[k], lambda: '%s is %s instead of %s' % (k, getattr(late, k), vals[k]))
    l2 = L(late)
    l2.onsetDelay = 3
    check(late.onsetDelay != 3, 'a copy of the late reverberation is not independent')
    # parts stay valid while referenced
    late3 = om.PointSourceWithReverb(1).lateReverb
    late3.levels = vals['levels']
    check(list(map(float, late3.levels)) == vals['levels'], 'late reverberation of a temporary object')
    m = c.size(0, 4)
    o.setNumberOfDiscreteReflections(m)
    check(o.numberOfDiscreteReflections() == m, 'number of reflections')
    must_throw(lambda: o.discreteReflection(m + c.draw(3)), 'reflection out of range')
    for i in range(m):
        r = o.discreteReflection(i)
        r.level = F32(0.25 * (i + 1))
        v = [F32(c.sym(1)) for _ in range(5)]
        j = c.draw(ns)
        r.setReflectionFilter(j, rbbl.BiquadCoefficientFloat(*v))
        check(bq5(o.discreteReflection(i).reflectionFilter(j)) == v, 'reflection filter')
        must_throw(lambda: r.reflectionFilter(ns + c.draw(2)), 'reflection filter out of range')
        must_throw(lambda: r.setReflectionFilter(ns + c.draw(2), rbbl.BiquadCoefficientFloat()), 'reflection filter out of range')
        must_throw(lambda: setattr(r, 'position', [0.0] * c.pick([0, 1, 4])), 'position with another number of coordinates')
        before = [bq5(b) for b in r.reflectionFilters]
        lst = rbbl.BiquadCoefficientListFloat(c.size(0, ns + 2))
        try:
            r.reflectionFilters = lst
            ok = True
        except Exception:
            ok = False
        after = [bq5(b) for b in r.reflectionFilters]
        check(len(after) == ns, lambda: '%d reflection filters after setting %d' % (len(after), len(lst)))
        check(ok or after == before, 'refused filters change the reflection')
    check([o.discreteReflection(i).level for i in range(m)] == [F32(0.25 * (i + 1)) for i in range(m)], 'levels of the reflections')
    # channels
    ch = om.ChannelObject(3)
    k = c.size(0, 4)
    ch.channels = list(range(k))
    check(ch.numberOfChannels == k and list(ch.channels) == list(range(k)), 'channels')
    must_throw(lambda: ch.setChannelIndex(k + c.draw(3), 0), 'channel out of range')
    must_throw(lambda: ch.outputChannel(len(ch) + c.draw(2)), 'output channel out of range')
    must_throw(lambda: ch[len(ch) + c.draw(2)], 'output channel out of range')
    must_throw(lambda: ch.setOutputChannel(len(ch) + c.draw(2), 'x'), 'output channel out of range')
    # every kind has its own, named type
    kinds = [getattr(om, x)(1) for x in Obj.KINDS]
    types = [x.type for x in kinds]
    check(len(set(map(int, types))) == len(kinds), 'types are not distinct')
    for x, t in zip(Obj.KINDS, types):
        check(t.name == x, lambda: 'type of %s is called %s' % (x, t.name))


def routes_alloc(c):
    """assignment of objects to slots"""
    n = c.size(0, 5)
    a = rbbl.ObjectChannelAllocator(n)
    slots = {}
    for _ in range(c.size(1, 6)):
        ids = {c.draw(9) for _ in range(c.size(0, n))}
        order = list(ids)
        c.rng().shuffle(order)
        a.setObjects(order)
        check(a.maxChannels == n and a.numberOfUsedChannels == len(ids), lambda: 'used %d of %s' % (a.numberOfUsedChannels, ids))
        now = {k: a.getObjectForChannel(k) for k in range(n)}
        now = {k: x for k, x in now.items() if x < 100}
        check(sorted(now.values()) == sorted(ids), lambda: 'slots %s for the objects %s' % (now, sorted(ids)))
        if all(k in now for k in range(len(ids))):  # with gaps the function is unspecified
            check(list(a.getObjectChannels()) == [now[k] for k in range(len(ids))], lambda: 'objects are %s instead of %s' % (a.getObjectChannels(), now))
        for k, x in slots.items():
            if x in ids:
                check(now.get(k) == x, lambda: 'object %d moved from slot %d: %s' % (x, k, now))
        slots = now
        c.nontrivial()
    must_throw(lambda: a.getObjectForChannel(n + c.draw(3)), 'slot out of range')
    must_throw(lambda: a.setObjects(list(range(n + 1))), 'too many objects')


# ---- geometry ---------------------------------------------------------------------------------------------------------

def rotm(q):
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def qmul(a, b):
    w, v, x, u = a[0], np.array(a[1:]), b[0], np.array(b[1:])
    return np.concatenate([[w * x - v @ u], w * u + x * v + np.cross(v, u)])


def ypr(y, p, r):
    cz, sz, cy, sy, cx, sx = np.cos(y), np.sin(y), np.cos(p), np.sin(p), np.cos(r), np.sin(r)
    return (np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]]) @ np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]]) @
            np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]]))


def geometry(c):
    """positions, rotations and listener poses"""
    d = c.flag()
    P, Q = (rbbl.Position3DDouble, rbbl.QuaternionDouble) if d else (rbbl.Position3D, rbbl.Quaternion)
    t, tol = ('d', 1e-11) if d else ('f', 1e-4)
    pv = lambda p: np.array([p.x, p.y, p.z])
    qv = lambda q: np.array(q.data)
    a, b = [num(c, t) for _ in range(3)], [num(c, t) for _ in range(3)]
    p, q = P(*a), P(a)
    c.nontrivial()
    check(list(pv(p)) == a == list(np.array(q)) == [q[0], q[1], q[2]], 'coordinates')
    must_throw(lambda: p[3 + c.draw(3)], 'coordinate out of range')
    must_throw(lambda: p.__setitem__(3 + c.draw(3), 1), 'coordinate out of range')
    must_throw(lambda: P([1.0, 2.0]), 'two coordinates')
    s = P(*b)
    A, B = np.array(a), np.array(b)
    k = num(c, t)
    same = lambda x, y, what, f=1.0: check(np.all(np.abs(np.asarray(x) - np.asarray(y)) <= tol * f * (1 + np.max(np.abs(y)))), lambda: '%s: %s instead of %s' % (what, x, y))
    same(pv(p + s), A + B, 'sum')
    same(pv(p - s), A - B, 'difference')
    same(pv(-p), -A, 'negation')
    same(pv(k * p), k * A, 'scaling')
    if abs(k) > 1e-3:
        same(pv(p / k), A / k, 'division')
    same(rbbl.dot(p, s), A @ B, 'dot product')
    same(p.norm(), np.linalg.norm(A), 'norm')
    same(p.normSquare(), A @ A, 'squared norm')
    x = P(a)
    x += s
    x -= P(*a)
    x *= 2
    same(pv(x), 2 * B, 'in-place operators')
    np.array(x, copy=False)[1] = 5
    check(x.y == 5, 'writing through the buffer')
    if np.linalg.norm(A) > 1e-2:
        same(pv(rbbl.normalise(p)), A / np.linalg.norm(A), 'normalise()')
    # rotations
    ang = (c.sym(3.1), c.sym(1.5), c.sym(3.1))
    r1 = Q.fromYPR(*ang) if c.flag() else Q.fromYPR(list(ang))
    M1 = ypr(*ang)
    same(rotm(qv(r1)), M1, 'fromYPR', 20)
    check(list(qv(r1)) == [r1.w, r1.x, r1.y, r1.z], 'components')
    ax = np.array([c.sym(1) + 1.5, c.sym(1), c.sym(1)])
    th = c.sym(3.1)
    r2 = Q.fromRotationVector(P(*map(float, ax / np.linalg.norm(ax))), th)
    same(qv(r2), np.concatenate([[np.cos(th / 2)], np.sin(th / 2) * ax / np.linalg.norm(ax)]), 'fromRotationVector', 20)
    same(qv(r1 * r2), qmul(qv(r1), qv(r2)), 'product', 20)
    same(qv(rbbl.conjugate(r1)), qv(r1) * [1, -1, -1, -1], 'conjugate')
    same(qv(Q(*qv(r1)) - r2), qv(r1) - qv(r2), 'difference')
    same(qv(r1 + r2), qv(r1) + qv(r2), 'sum')
    same(rbbl.dot(r1, r2), qv(r1) @ qv(r2), 'dot product')
    same(pv(rbbl.rotate(p, r1)), M1 @ A, 'rotate()', 30)
    same(pv(rbbl.transform(p, r1, s)), M1 @ A + B, 'transform()', 30)
    if d:
        return
    # listener pose
    Lp = pml.ListenerPosition
    l = (Lp(a[0], a[1], a[2], *ang), Lp(a, list(ang)), Lp(P(*a), r1), Lp.fromQuaternion(P(*a), r1), Lp.fromQuaternion(a, [float(v) for v in qv(r1)]))[c.draw(5)]
    pos, R = A, M1
    chk = lambda what: (same([l.x, l.y, l.z], pos, what + ' (position)', 60), same(rotm(qv(l.orientationQuaternion)), R, what + ' (orientation)', 60))
    chk('pose')
    for _ in range(c.size(0, 4)):
        op = c.draw(6)
        if op == 0:
            l.translate(s) if c.flag() else l.translate(b)
            pos = pos + B
        elif op == 1:
            l.rotate(r2)
            M2 = rotm(qv(r2))
            pos, R = M2 @ pos, M2 @ R
        elif op == 2:
            l.rotateOrientation(r2)
            R = rotm(qv(r2)) @ R
        elif op == 3:
            if c.flag():
                l.transform(r2, s)
            else:
                l.transform(rotationQuaternion=r2, translationVector=s)
            M2 = rotm(qv(r2))
            pos, R = M2 @ pos + B, M2 @ R
        elif op == 4:
            fmt = c.pick([Lp.RotationFormat.YPR, Lp.RotationFormat.RotationVector, Lp.RotationFormat.Quaternion])
            js = l.writeJson(fmt, c.flag())
            l2 = Lp()
            l2.parseJson(js)
            l3 = Lp.fromJson(js)
            check(posef(l2) == posef(l3), 'parseJson() and fromJson() differ')
            l = l2
            json.loads(js)
        elif op == 5:
            l.position = s
            l.orientationQuaternion = r2
            pos, R = B, rotm(qv(r2))
        chk('after operation %d' % op)
    if abs(R[2, 0]) < 0.99:
        same(ypr(l.yaw, l.pitch, l.roll), R, 'yaw, pitch and roll', 100)
    same(list(ypr(*l.orientationYPR).ravel()) if abs(R[2, 0]) < 0.99 else [0], list(R.ravel()) if abs(R[2, 0]) < 0.99 else [0], 'orientationYPR', 100)


# ---- loudspeaker arrays -----------------------------------------------------------------------------------------------

def arrays(c):
    """loudspeaker arrays read from XML and panning gains in arrays of any layout"""
    # octahedron, rotated about the vertical axis: closed triangulation of six loudspeakers, some of them virtual
    th = c.real(0, 1.5)
    rad = [F32(c.real(1, 3)) for _ in range(6)]
    dirs = [(math.cos(th + k * math.pi / 2), math.sin(th + k * math.pi / 2), 0.0) for k in range(4)] + [(0.0, 0.0, 1.0), (0.0, 0.0, -1.0)]
    nvirt = c.draw(3)
    nreg = 6 - nvirt
    ids = ['s%d' % i for i in range(6)]
    chans = list(range(1, nreg + 1))
    r = c.rng()
    r.shuffle(chans)
    gains = [F32(c.real(0.1, 1)) for _ in range(nreg)]
    delays = [F32(c.real(0, 0.01)) for _ in range(nreg)]
    nsub = c.draw(3)
    neq = c.draw(3)
    x = ['<panningConfiguration>']
    eqv_ = [rnd_bq(c, 'f') for _ in range(neq)]
    if neq:
        x.append('<outputEqConfiguration type="iir" numberOfBiquads="%d"><filterSpec name="e">' % neq +
                 ''.join('<biquad b0="%r" b1="%r" b2="%r" a1="%r" a2="%r"/>' % tuple(v) for v in eqv_) + '</filterSpec></outputEqConfiguration>')
    pts = []
    for i in range(6):
        p = [dirs[i][k] * rad[i] for k in range(3)]
        pts.append(p)
        cart = '<cart x="%.9g" y="%.9g" z="%.9g"/>' % tuple(p)
        if i < nreg:
            x.append('<loudspeaker id="%s" channel="%d" gain="%.9g" delay="%.9g"%s>%s</loudspeaker>' % (ids[i], chans[i], gains[i], delays[i], ' eq="e"' if neq else '', cart))
        else:
            route = '<route lspId="%s" gainDB="0"/>' % ids[0]
            x.append('<virtualspeaker id="%s">%s%s</virtualspeaker>' % (ids[i], cart, route))
    for i in range(nsub):
        x.append('<subwoofer channel="%d" assignedLoudspeakers="%s" weights="%s"/>' % (nreg + 1 + i, ','.join(ids[:nreg]), ','.join(['0.5'] * nreg)))
    tris = [(a, (a + 1) % 4, t) for a in range(4) for t in (4, 5)]
    for t in tris:
        x.append('<triplet l1="%s" l2="%s" l3="%s"/>' % tuple(ids[k] for k in t))
    x.append('</panningConfiguration>')
    xml = '\n'.join(x)
    la = panning.LoudspeakerArray()
    must_not_throw(lambda: la.loadXmlString(xml), 'reading the array')
    c.nontrivial()
    check((la.totNumberOfLoudspeakers, la.numberOfRegularLoudspeakers, la.numberOfTriplets, la.numberOfSubwoofers) == (6, nreg, 8, nsub), 'numbers')
    check(not la.is2D and not la.isInfinite, 'dimension')
    at = [la.getSpeakerIndexFromId(i) for i in ids]  # the order of the loudspeakers is chosen by the array
    check(sorted(at[:nreg]) == list(range(nreg)) and sorted(at) == list(range(6)), lambda: 'indices of the ids: %s' % at)
    pos = la.positions()
    check(pos.shape == (6, 3) and np.allclose([pos[k] for k in at], pts, atol=1e-5), lambda: 'positions %s instead of %s' % (pos, pts))
    chn, off = list(la.channelIndices()), None
    for z in (0, 1):
        if sorted(chn) == [k - z for k in sorted(chans)]:
            off = z
    check(off is not None and all(chn[at[i]] == chans[i] - off == la.getSpeakerChannelFromId(ids[i]) for i in range(nreg)), lambda: 'channels %s for %s' % (chn, chans))
    check([la.getSpeakerChannel(i) for i in range(nreg)] == chn, 'channels by index')
    check(all(near(la.getLoudspeakerGainAdjustment(at[i]), gains[i]) and near(la.getGainAdjustments()[at[i]], gains[i]) for i in range(nreg)), 'gains')
    check(all(near(la.getLoudspeakerDelayAdjustment(at[i]), delays[i]) and near(la.getDelayAdjustments()[at[i]], delays[i]) for i in range(nreg)), 'delays')
    check(sorted(tuple(sorted(la.getTriplet(i))) for i in range(8)) == sorted(tuple(sorted(at[k] for k in t)) for t in tris), 'triplets')
    check(bool(la.isOutputEqualisationPresent()) == bool(neq), 'equalisers')
    if neq:
        m = la.outputEqualisationBiquads()
        check((m.numberOfFilters, m.numberOfSections) == (nreg + nsub, neq), 'dimension of the equalisers')
        check(all(allnear(bq5(m[i, j]), eqv_[j]) for i in range(nreg) for j in range(neq)), 'equalisers')
    check(len(la.subwooferChannelIndices()) == nsub and [la.subwooferChannelIndex(i) for i in range(nsub)] == list(la.subwooferChannelIndices()), 'subwoofer channels')
    # indices out of range
    far = lambda n: n + c.pick([0, 1, 1000])
    for what, f in (('channel', lambda: la.getSpeakerChannel(far(nreg))), ('channel index', lambda: la.getSpeakerChannelIndex(far(nreg))),
                    ('unknown id', lambda: la.getSpeakerIndexFromId('zz')), ('unknown id', lambda: la.getSpeakerChannelFromId('zz')),
                    ('channel of a virtual loudspeaker', lambda: la.getSpeakerChannelFromId(ids[5]) if nvirt else fail_()),
                    ('triplet', lambda: la.getTriplet(far(8))), ('triplet', lambda: la.setTriplet(far(8), 0, 1, 2)), ('subwoofer', lambda: la.subwooferChannelIndex(far(nsub))),
                    ('gain', lambda: la.getLoudspeakerGainAdjustment(far(nreg + nsub))), ('delay', lambda: la.getLoudspeakerDelayAdjustment(far(nreg + nsub))),
                    ('subwoofer gain', lambda: la.getSubwooferGainAdjustment(far(nsub))), ('subwoofer delay', lambda: la.getSubwooferDelayAdjustment(far(nsub))),
                    ('rerouting', lambda: la.getReRoutingCoefficient(far(nvirt), 0)), ('rerouting', lambda: la.getReRoutingCoefficient(0, far(nreg))),
                    ('position', lambda: la.position('zz'))):
        must_throw(f, 'access out of range: ' + what)
    g = la.getSubwooferGains()
    rc = la.getReRoutingCoefficients()
    check(g.numberOfRows == nsub and rc.numberOfRows == nvirt, 'dimension of the tables')
    # panning: normalised, and nothing is written outside the array that is passed
    v = panning.VBAP(la) if c.flag() else panning.VBAP(la, 0.1, 0.0, 0.0)
    src = [F32(c.sym(3)) + 0.01, F32(c.sym(3)), F32(c.sym(3))]
    planeWave = c.flag()
    raw = np.full(nreg + 4, 7, np.float32)
    fun = c.pick(['calculateGains', 'calculateGainsUnNormalised'])
    layout = c.draw(7)
    if layout < 2:
        st = 1 if layout == 0 else c.pick([2, 3, -1, -2])
        raw = np.full((nreg + 4) * abs(st), 7, np.float32)
        whole = raw[::st]
        out = whole[2:2 + nreg]
        getattr(v, fun)(src[0], src[1], src[2], out, planeWave)
        check(np.sum(raw == 7) == len(raw) - nreg, 'writes outside the array')
        check(np.all(np.isfinite(out)) and np.all(out >= -1e-5), lambda: 'gains %s' % out)
        if fun == 'calculateGains':
            check(abs(np.sum(out.astype(float) ** 2) - 1) < 1e-4, lambda: 'gains %s are not normalised' % out)
    else:
        bad = [np.zeros(nreg - 1, np.float32), np.zeros(0, np.float32), np.zeros((nreg, nreg), np.float32), np.zeros(nreg),
               np.zeros((), np.float32)][layout - 2]
        must_throw(lambda: getattr(v, fun)(src[0], src[1], src[2], bad, planeWave), 'gains into an array of shape %s stride %s type %s' % (bad.shape, bad.strides, bad.dtype))
    # results stay valid without the array
    gm = np.array(g, copy=True)
    del la, v
    for _ in range(3):
        panning.LoudspeakerArray().loadXmlString(xml)
    check(np.array_equal(np.array(g, copy=True), gm), 'subwoofer gains change after the array is gone')
    np.array(rc, copy=True)


# ---- scheduled gain changes -----------------------------------------------------------------------------------

INF = panningdsp.timeStampInfinity


def layout2(c, a):
    k = c.draw(5)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        big = np.full((a.shape[0] * 2, a.shape[1] * 3), 77, a.dtype)
        big[::2, ::3] = a
        return big[::2, ::3]
    if k == 2:
        return a.astype(np.float64)
    if k == 3 and a.size:
        return a[::-1, ::-1].copy()[::-1, ::-1]
    return a.copy()


def layout1(c, a):
    k = c.draw(4)
    if k == 0:
        big = np.full(len(a) * 3, 5, a.dtype)
        big[::3] = a
        return big[::3]
    if k == 1 and all(int(x) < 2 ** 50 for x in a):
        return [int(x) for x in a]
    if k == 2:
        return a[::-1].copy()[::-1]
    return a.copy()


def times(c, n):
    return np.array([INF if c.chance(25) else c.draw(1 << c.pick([1, 4, 10, 40, 60])) for _ in range(n)], np.uint64)


def rnd_gains(c, n, l):
    return np.array([F32(c.sym(3)) for _ in range(n * l)], np.float32).reshape(n, l)


def panmatrix(c):
    n, l = c.wide(0, 4, 12), c.wide(0, 4, 12)
    P = panningdsp.PanningMatrixParameter
    g, ts, tt = np.zeros((n, l), np.float32), np.full(n, INF, np.uint64), np.full(n, INF, np.uint64)
    al = c.pick([0, 1, 2, 4, 8, 16])
    k = c.draw(4)
    if k == 0:
        p = P(n, l, al)
    elif k == 1:
        p = P(pml.MatrixParameterConfig(n, l))
    elif k == 2:
        p = P(numberOfObjects=n, numberOfLoudspeakers=l)
    else:
        g, ts, tt = rnd_gains(c, n, l), times(c, n), times(c, n)
        p = P(layout2(c, g), layout1(c, ts), layout1(c, tt), al)
        must_throw(lambda: P(g, np.append(ts, np.uint64(1)), tt), 'one time stamp too many')
        must_throw(lambda: P(g, ts, np.zeros(n + 2, np.uint64)), 'two transition times too many')
        must_throw(lambda: P(g.reshape(-1), ts, tt), 'one-dimensional gains')

    def same():
        check(p.numberOfObjects == n and p.numberOfLoudspeakers == l, 'dimension %dx%d' % (p.numberOfObjects, p.numberOfLoudspeakers))
        a = np.asarray(p.gains)
        check(a.shape == (n, l) and np.array_equal(a, g), lambda: 'gains %s instead of %s' % (a, g))
        check(np.array_equal(p.timeStamps, ts) and p.timeStamps.dtype == np.uint64, lambda: 'time stamps %s instead of %s' % (p.timeStamps, ts))
        check(np.array_equal(p.transitionTimes, tt), lambda: 'transition times %s instead of %s' % (p.transitionTimes, tt))
    same()
    kept = []
    for _ in range(c.wide(1, 6, 30)):
        k = c.draw(7)
        if k == 0:
            g = rnd_gains(c, n, l)
            p.gains = layout2(c, g)
        elif k == 1:
            ts = times(c, n)
            p.timeStamps = layout1(c, ts)
        elif k == 2:
            tt = times(c, n)
            p.transitionTimes = layout1(c, tt)
        elif k == 3 and n and l:
            i, j = c.draw(n), c.draw(l)
            g = g.copy()
            g[i, j] = F32(c.sym(9))
            np.asarray(p.gains)[i, j] = g[i, j]
        elif k == 4:
            t = p.timeStamps
            t[:] = 3  # a copy
            kept.append((p.transitionTimes, tt.copy()))
        elif k == 5:
            bad = c.draw(4)
            must_throw(lambda: setattr(p, 'gains', np.zeros((n + 1, l) if bad < 2 else (n, l + 1), np.float32)), 'gains of another dimension')
            must_throw(lambda: setattr(p, 'gains', np.zeros(n, np.float32)), 'gains in a vector')
            must_throw(lambda: setattr(p, 'timeStamps', np.zeros(n + 1 if bad % 2 else n + 4, np.uint64)), 'time stamps of another length')
            must_throw(lambda: setattr(p, 'transitionTimes', np.zeros((n, 1), np.uint64)), 'transition times in a matrix')
        same()
    for a, b in kept:
        check(np.array_equal(a, b), 'times read earlier have changed')
    view = p.gains
    del p
    check(np.array_equal(np.asarray(view), g), 'gains after the message is gone')
    if n and l:
        c.nontrivial()


def panflow(c):
    n, l, period = c.size(1, 4), c.size(1, 4), c.wide(1, 20, 200)
    ctx = visr.SignalFlowContext(period, 48000)
    g0 = rnd_gains(c, n, l)
    init = layout2(c, g0) if c.flag() else efl.BasicMatrixFloat(g0)
    comp = panningdsp.PanningGainMatrix(ctx, 'pan', None, numberOfObjects=n, numberOfLoudspeakers=l, initialGains=init)
    must_throw(lambda: panningdsp.PanningGainMatrix(ctx, 'x', None, n, l + 1, g0), 'initial gains of another dimension')
    del init
    flow = rrl.AudioSignalFlow(comp)
    port = flow.parameterReceivePort('gainInput')
    # one change per object at a time: (start, duration, from, to)
    cur = [(0, 0, g0[o].astype(float), g0[o].astype(float)) for o in range(n)]
    nb, changed = c.wide(1, 8, 30), False
    for b in range(nb):
        now = b * period
        msg = [o for o in range(n) if c.chance(40) and now >= cur[o][0] + cur[o][1]]
        if msg:
            p = port.data()
            ts, tt, g = np.full(n, INF, np.uint64), np.full(n, INF, np.uint64), rnd_gains(c, n, l)
            for o in msg:
                s, d = now + c.draw(2 * period), c.pick([0, 1, period, c.draw(3 * period + 1)])
                ts[o], tt[o] = s, d
                cur[o] = (s, d, cur[o][3], g[o].astype(float))
                changed = True
            p.timeStamps, p.transitionTimes, p.gains = layout1(c, ts), layout1(c, tt), layout2(c, g)
            port.swapBuffers()
        x = np.array([c.sym(1) for _ in range(n * period)] if n * period < 40 else np.random.RandomState(c.draw(1 << 30)).uniform(-1, 1, n * period), np.float32).reshape(n, period)
        y = flow.process(x)
        t = now + np.arange(period)
        want = np.zeros((l, period))
        for o in range(n):
            s, d, a, z = cur[o]
            w = np.clip((t + 1.0 - s) / d, 0, 1) if d else (t >= s).astype(float)
            want += (a[:, None] + (z - a)[:, None] * w[None, :]) * x[o]
        check(np.allclose(y, want, rtol=0, atol=1e-4), lambda: 'block %d: outputs %s instead of %s' % (b, y, want))
    if changed:
        c.nontrivial()


def fail_():
    raise ValueError('not applicable')


pbt.run({'rule': 'non-trivial: at least one value transported, one operation of a history applied or one text converted',
         'subs': [('parameters', parameters, 9000, 250000), ('biquads', biquads, 8000, 150000), ('design', design, 4000, 80000),
                  ('routings', routings, 8000, 150000), ('objects', objects, 5000, 100000), ('parts', parts, 2000, 40000),
                  ('slots', routes_alloc, 2000, 40000), ('geometry', geometry, 5000, 100000), ('arrays', arrays, 1500, 30000),
                  ('panmatrix', panmatrix, 4000, 80000), ('panflow', panflow, 2500, 60000)]})
