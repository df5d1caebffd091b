"""P32: loudspeaker configurations generated by the Python package describe the given array."""
import copy, math, os, random, shutil, sys, tempfile, warnings
sys.path.insert(0, os.path.join(os.environ.get('VERIF_SRC', '/repo'), 'src', 'python', 'packages'))
import numpy as np
import lxml.etree as ET
import pbt
from pbt import check, must_throw, must_not_throw
import visr, efl, rbbl, pml, objectmodel, panning
import loudspeakerconfig as lc

CHARS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789@&()+/:_-'


def near(a, b, rel=3e-5, ab=1e-6):
    return abs(a - b) <= ab + rel * abs(b)


def label(c, used):
    while True:
        s = ''.join(c.pick(CHARS) for _ in range(c.size(1, 4)))
        while s in used:
            s += c.pick(CHARS)
        used.add(s)
        return s


def directions(c, n, two):
    """n unit vectors, no two of them close to one another"""
    g = random.Random(c.seed())
    out = []
    grid = c.chance(30)
    for _ in range(2000):
        if len(out) == n:
            break
        if two:
            phi = g.randrange(8) * math.pi / 4 if grid else g.uniform(-math.pi, math.pi)
            v = np.array([math.cos(phi), math.sin(phi), 0.0])
        elif grid:
            v = np.array([g.choice([-1, 0, 1]) for _ in range(3)], float)
            if not v.any():
                continue
            v /= np.linalg.norm(v)
        else:
            v = np.array([g.gauss(0, 1) for _ in range(3)])
            v /= np.linalg.norm(v)
        if all(np.linalg.norm(v - w) > 0.15 for w in out):
            out.append(v)
    return out


def hullable(dirs, two):
    if two:
        return len(dirs) >= 3
    if len(dirs) < 4:
        return False
    d = np.array(dirs)
    return np.linalg.svd(d - d.mean(0), compute_uv=False)[2] > 0.1


class Args:
    """one set of arguments, together with the array it describes"""


def generate(c):
    a = Args()
    a.two = two = c.flag()
    nreg, nvirt = c.size(1, 12 if not two else 7), c.weighted([2, 2, 1, 1])
    dirs = directions(c, nreg + nvirt, two)
    nreg = max(1, len(dirs) - nvirt)
    dirs = dirs[:nreg + nvirt]
    nvirt = len(dirs) - nreg
    integer = c.chance(15)
    a.integer = integer
    if integer:
        # integer coordinates in the directions of the axes and diagonals
        seen, pts = set(), []
        g = random.Random(c.seed())
        for _ in range(300):
            if len(pts) == nreg + nvirt:
                break
            v = [g.choice([-1, 0, 1]) for _ in range(3)]
            if two:
                v[2] = 0
            if not any(v) or tuple(v) in seen:
                continue
            seen.add(tuple(v))
            k = g.choice([1, 1, 2, 3])
            pts.append([k * x for x in v])
        nreg = max(1, len(pts) - nvirt)
        nvirt = len(pts) - nreg
        P = np.array(pts, float)
        dirs = [p / np.linalg.norm(p) for p in P]
    else:
        unit = c.chance(25)
        P = np.array([d * (1.0 if unit else c.real(0.2, 5)) for d in dirs])
    a.nreg, a.nvirt, a.P, a.dirs = nreg, nvirt, P, dirs
    used = set()
    kw = {'twoDconfig': two}
    if not two and c.flag():
        del kw['twoDconfig']
    # positions of the regular loudspeakers
    pos = P[:nreg].T.copy()
    a.junk = two and c.flag()  # a third row of a plane array is ignored
    if a.junk:
        pos[2] = [c.pick([-2, 1, 3]) for _ in range(nreg)]
    elif two and c.chance(80):
        pos = pos[:2]
    form = c.draw(4)
    if integer:
        pos = pos.astype(np.int64 if c.flag() else np.int32)
    if form == 1:
        pos = np.asfortranarray(pos)
    elif form == 2:
        pos = pos.tolist()
    elif form == 3 and not integer:
        pos = pos[:, ::-1].copy()[:, ::-1]
    a.pos = pos
    if c.flag():
        kw['sphericalPositions'] = c.flag()
    a.channels = list(range(1, nreg + 1))
    subs = c.weighted([2, 2, 1])
    pool = list(range(1, 80))
    random.Random(c.seed()).shuffle(pool)
    if c.flag():
        a.channels = [pool.pop() for _ in range(nreg)]
        kw['channelIndices'] = np.array(a.channels) if c.flag() else list(a.channels)
    elif nreg:
        pool = [p for p in pool if p > nreg]
    if c.chance(70):
        a.labels = [label(c, used) for _ in range(nreg)]
        kw['loudspeakerLabels'] = c.pick([list, tuple, np.array])(a.labels)
    else:
        a.labels = ['lsp%d' % (i + 1) for i in range(nreg)]
        used |= set(a.labels)
    # virtual loudspeakers
    a.vlabels = [label(c, used) for _ in range(nvirt)]
    a.routes = [{} for _ in range(nvirt)]
    virt = []
    for i in range(nvirt):
        p = P[nreg + i].copy()
        if two:
            p = p[:2] if c.flag() else np.append(p[:2], 7.0)
        v = {'id': a.vlabels[i], 'pos': c.pick([list, tuple, np.array])(p)}
        if c.chance(70):
            ls = [l for l in a.labels if c.chance(40)]
            for l in ls:
                a.routes[i][l] = c.pick([1.0, 0.0, 0.5, c.real(0.001, 2)])
            v['routing'] = list(a.routes[i].items())
        virt.append(v)
    if nvirt or c.chance(30):
        kw['virtualLoudspeakers'] = virt
    elif c.flag():
        kw['virtualLoudspeakers'] = None
    # triangulation
    a.auto = hullable(dirs, two) and c.chance(75)
    names = a.labels + a.vlabels
    a.names = names
    k = 2 if two else 3
    if not a.auto:
        a.triplets = [[c.pick(names) for _ in range(k)] for _ in range(c.size(0, 6))]
        kw['triplets'] = [tuple(t) for t in a.triplets] if c.flag() else copy.deepcopy(a.triplets)
    # gains and delays
    dist = np.linalg.norm(P[:nreg], axis=1)
    a.gain, a.delay = np.zeros(nreg), np.zeros(nreg)
    wrap = lambda v: c.pick([np.array, list, tuple])(v)
    if c.flag():
        a.gain = np.array([c.pick([0, -3, c.sym(30)]) for _ in range(nreg)], float)
        kw['lspGainDB'] = wrap(a.gain)
        if c.chance(30):
            a.gain = np.rint(a.gain)
            kw['lspGainDB'] = wrap(a.gain.astype(int))
    if c.flag():
        a.delay = np.array([c.pick([0, 0.001, c.real(0, 0.1)]) for _ in range(nreg)], float)
        kw['lspDelays'] = wrap(a.delay)
    speed = 340.0
    if c.flag():
        kw['distanceAttenuation'] = c.flag()
        if kw['distanceAttenuation']:
            a.gain = a.gain + 20 * np.log10(dist / dist.max())
    if c.flag():
        kw['distanceDelay'] = c.flag()
        if c.flag():
            speed = kw['speedOfSound'] = c.pick([340.0, 343, c.real(300, 360)])
        if kw['distanceDelay']:
            a.delay = a.delay + (dist.max() - dist) / speed
    # equalisers
    a.eqs, a.eqOf = {}, {}
    neq = c.weighted([2, 1, 1, 1])
    if neq:
        cfg, free = [], list(a.labels)
        for i in range(neq):
            name = c.pick(['eq', 'low pass ', 'x&<y>']) + str(i)
            secs, spec = [], []
            for _ in range(c.size(1, 4)):
                v = [round(c.sym(3), 6) for _ in range(5)]
                a0 = c.pick([None, 1.0, 2.0, -0.5])
                secs.append([x / (a0 or 1.0) for x in v])
                spec.append({'b': wrap(v[:3]), 'a': wrap(([] if a0 is None else [a0]) + v[3:])})
            e = {'name': name, 'filter': spec}
            a.eqs[name] = secs
            if c.chance(80):
                take = [l for l in free if c.chance(40)]
                free = [l for l in free if l not in take]
                e['loudspeakers'] = take
                for l in take:
                    a.eqOf[l] = name
            cfg.append(e)
        kw['eqConfiguration'] = cfg
    elif c.flag():
        kw['eqConfiguration'] = c.pick([None, []])
    # subwoofers
    a.subs = []
    cfg = []
    for i in range(subs):
        s = Args()
        e = {'channel': pool.pop()}
        s.channel = e['channel']
        s.name = 'sub_%d' % (i + 1)
        if c.flag():
            s.name = e['name'] = c.pick(['LFE', 'Sub left', 'a<b']) + str(i)
        ls = [l for l in a.labels if c.flag()] or [a.labels[0]]
        random.Random(c.seed()).shuffle(ls)
        e['assignedSpeakers'] = list(ls)
        w = [1.0] * len(ls)
        if c.flag():
            w = [c.pick([0, 1, 0.5, c.sym(2)]) for _ in ls]
            e['weights'] = wrap(w)
        s.weights = dict(zip(ls, w))
        s.gain, s.delay, s.eq = 0.0, 0.0, None
        if c.flag():
            s.gain = e['gainDB'] = round(c.sym(20), 3)
        if c.flag():
            s.delay = e['delay'] = round(c.real(0, 0.1), 5)
        if a.eqs and c.flag():
            s.eq = e['eq'] = c.pick(list(a.eqs))
        cfg.append(e)
        a.subs.append(s)
    if cfg or c.flag():
        kw['subwooferConfig'] = cfg
    a.comment = None
    if c.chance(30):
        a.comment = kw['comment'] = c.pick(['An array', 'x < y & z', 'no-subwoofer \n 2D'])
    a.kw = kw
    if nreg >= 2 and (a.auto or nvirt or subs or neq):
        c.nontrivial()
    c.label('2D' if two else '3D')
    c.label('hull' if a.auto else 'given triplets')
    c.note('positions %s, %s' % (np.asarray(pos).tolist(), kw))
    return a


def db(x):
    return 10 ** (x / 20)


def verify(a, f):
    """the array that is read from the file is the one that was given"""
    arr = panning.LoudspeakerArray()
    must_not_throw(lambda: arr.loadXmlFile(f), 'reading the file')
    la = arr
    nreg, nvirt, names = a.nreg, a.nvirt, a.names
    check((la.numberOfRegularLoudspeakers, la.totNumberOfLoudspeakers, la.numberOfSubwoofers) == (nreg, nreg + nvirt, len(a.subs)), 'numbers of loudspeakers')
    check(bool(la.is2D) == a.two and not la.isInfinite, 'dimension')
    at = {}
    for l in names:
        at[l] = must_not_throw(lambda: la.getSpeakerIndexFromId(l), 'label %s' % l)
    check(sorted(at.values()) == list(range(nreg + nvirt)) and all(at[l] >= nreg for l in a.vlabels), 'indices %s' % at)
    pos = la.positions()
    for i, l in enumerate(names):
        check(np.allclose(pos[at[l]], a.P[i], atol=2e-5, rtol=1e-5), lambda: 'position of %s is %s instead of %s' % (l, pos[at[l]], a.P[i]))
    for i, l in enumerate(a.labels):
        check(la.getSpeakerChannelFromId(l) == a.channels[i], lambda: "channel of %s is %d instead of %d" % (l, la.getSpeakerChannelFromId(l), a.channels[i]))
        g, d = la.getLoudspeakerGainAdjustment(at[l]), la.getLoudspeakerDelayAdjustment(at[l])
        check(near(g, db(a.gain[i])), lambda: 'gain of %s is %s instead of %s' % (l, g, db(a.gain[i])))
        check(near(d, a.delay[i], 1e-5, 1e-8), lambda: 'delay of %s is %s instead of %s' % (l, d, a.delay[i]))
    rc = la.getReRoutingCoefficients() if nvirt else None
    for i, v in enumerate(a.vlabels):
        for l in a.labels:
            want, got = a.routes[i].get(l, 0.0), la.getReRoutingCoefficient(at[v] - nreg, at[l])
            check(near(got, want), lambda: 'gain from %s to %s is %s instead of %s' % (v, l, got, want))
    # triangulation
    rev = {k: l for l, k in at.items()}
    k = 2 if a.two else 3
    tri = [[rev[x] for x in list(la.getTriplet(i))[:k]] for i in range(la.numberOfTriplets)]
    if a.auto:
        U = {l: a.dirs[i] for i, l in enumerate(names)}
        n = len(names)
        check(len(tri) == (n if a.two else 2 * n - 4), lambda: '%d elements of the triangulation of %d loudspeakers' % (len(tri), n))
        faces = {}
        for t in tri:
            check(len(set(t)) == k, 'a loudspeaker occurs twice in %s' % t)
            if a.two:
                p, q = U[t[0]], U[t[1]]
                nrm = np.array([p[1] - q[1], q[0] - p[0], 0])
            else:
                nrm = np.cross(U[t[1]] - U[t[0]], U[t[2]] - U[t[0]])
            nrm = nrm / np.linalg.norm(nrm)
            side = [float(np.dot(U[l] - U[t[0]], nrm)) for l in names]
            check(max(side) < 1e-9 or min(side) > -1e-9, lambda: 'the loudspeakers %s do not form a face of the convex hull' % t)
            for e in range(k):
                edge = tuple(sorted(t[:e] + t[e + 1:]))
                faces[edge] = faces.get(edge, 0) + 1
        check(all(v == 2 for v in faces.values()), 'the triangulation is not closed')
        check({l for t in tri for l in t} == set(names), 'loudspeakers missing in the triangulation')
    else:
        check(tri == a.triplets, lambda: 'triplets %s instead of %s' % (tri, a.triplets))
    # equalisers
    check(bool(la.isOutputEqualisationPresent()) == bool(a.eqs), 'presence of equalisers')
    if a.eqs:
        m = la.outputEqualisationBiquads()
        ns = max(len(e) for e in a.eqs.values())
        check((m.numberOfFilters, m.numberOfSections) == (nreg + len(a.subs), ns), 'dimension of the equalisers')
        for row, name in [(at[l], a.eqOf.get(l)) for l in a.labels] + [(nreg + i, s.eq) for i, s in enumerate(a.subs)]:
            want = (a.eqs[name] if name else []) + [[1.0, 0, 0, 0, 0]] * ns
            for j in range(ns):
                b = m[row, j]
                got = [b.b0, b.b1, b.b2, b.a1, b.a2]
                check(all(near(x, y) for x, y in zip(got, want[j])), lambda: 'equaliser %s section %d is %s instead of %s' % (name, j, got, want[j]))
    # subwoofers
    sg = np.array(la.getSubwooferGains()) if a.subs else None
    for i, s in enumerate(a.subs):
        check(la.subwooferChannelIndex(i) == s.channel, 'channel of subwoofer %d' % i)
        check(near(la.getSubwooferGainAdjustment(i), db(s.gain)) and near(la.getSubwooferDelayAdjustment(i), s.delay), 'gain or delay of subwoofer %d' % i)
        for l in a.labels:
            check(near(sg[i, at[l]], s.weights.get(l, 0.0)), lambda: 'gain of %s in subwoofer %d is %s instead of %s' % (l, i, sg[i, at[l]], s.weights.get(l, 0.0)))
    root = ET.parse(f).getroot()
    check([x.get('name') for x in root.findall('subwoofer')] == [s.name for s in a.subs], 'names of the subwoofers')
    check([x.text for x in root.iter(ET.Comment)] == ([a.comment] if a.comment else []), 'comment')


def equal(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, np.ndarray):
        return x.dtype == y.dtype and x.shape == y.shape and bool(np.all(x == y))
    if isinstance(x, dict):
        return list(x) == list(y) and all(equal(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(equal(p, q) for p, q in zip(x, y))
    return x == y


def generated(c):
    """a written configuration describes the array that was passed, the arguments are unchanged"""
    a = generate(c)
    d = tempfile.mkdtemp(prefix='p32_')
    try:
        f = os.path.join(d, c.pick(['array.xml', 'an array.config']))
        for _ in range(c.size(1, 2)):  # a second call with the same arguments overwrites the file with the same contents
            pos, kw = copy.deepcopy(a.pos), copy.deepcopy(a.kw)
            must_not_throw(lambda: lc.createArrayConfigFile(f, a.pos, **a.kw), 'createArrayConfigFile')
            check(equal(pos, a.pos) and equal(kw, a.kw), 'arguments were changed: %s' % (a.kw,))
            check(os.listdir(d) == [os.path.basename(f)], 'files written: %s' % os.listdir(d))
            verify(a, f)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def refused(c):
    """arguments that contradict one another are refused without writing a file, the next call works"""
    a = generate(c)
    pos, kw = np.array(a.pos), dict(a.kw)
    n, k = a.nreg, 2 if a.two else 3
    lab = list(a.labels)
    bad = c.pick(['x y', 'a\\b', '', 'x\n', 'a,b', 'a"', '\u00e4'])
    faults = {
        'labels of another length': lambda: kw.update(loudspeakerLabels=['qq%d' % i for i in range(n + c.pick([1, -1]))]),
        'label': lambda: kw.update(loudspeakerLabels=[bad] + ['qq%d' % i for i in range(n - 1)]),
        'virtual label': lambda: kw.update(virtualLoudspeakers=[{'id': bad, 'pos': [0.0, -1.0, 0.0][:k]}]),
        'virtual label of a loudspeaker': lambda: kw.update(virtualLoudspeakers=[{'id': c.pick(lab), 'pos': [0.0, -1.0, 0.0][:k]}]),
        'route': lambda: kw.update(virtualLoudspeakers=[{'id': 'VVV', 'pos': [0.0, -1.0, 0.0][:k], 'routing': [(c.pick(['VVV', 'nobody']), 1.0)]}]),
        'negative route': lambda: kw.update(virtualLoudspeakers=[{'id': 'VVV', 'pos': [0.0, -1.0, 0.0][:k], 'routing': [(c.pick(lab), -1.0)]}]),
        'channels of another length': lambda: kw.update(channelIndices=[100 + i for i in range(n + c.pick([1, -1]))]),
        'channels twice': lambda: kw.update(channelIndices=[100 + i for i in range(n - 1)] + [100]),
        'channel zero': lambda: kw.update(channelIndices=[100 + i for i in range(n - 1)] + [c.pick([0, -1])]),
        'gains of another length': lambda: kw.update(lspGainDB=[0.0] * (n + 1)),
        'delays of another length': lambda: kw.update(lspDelays=[0.0] * (n + c.pick([1, -1]))),
        'equaliser twice': lambda: kw.update(eqConfiguration=[{'name': 'e', 'filter': [{'b': [1, 0, 0], 'a': [0, 0]}]}] * 2),
        'numerator': lambda: kw.update(eqConfiguration=[{'name': 'e', 'filter': [{'b': c.pick([[1, 0], [1, 0, 0, 0]]), 'a': [0, 0]}]}]),
        'denominator': lambda: kw.update(eqConfiguration=[{'name': 'e', 'filter': [{'b': [1, 0, 0], 'a': c.pick([[1], [1, 0, 0, 0]])}]}]),
        'equaliser of nobody': lambda: kw.update(eqConfiguration=[{'name': 'e', 'filter': [{'b': [1, 0, 0], 'a': [0, 0]}], 'loudspeakers': ['nobody']}]),
        'two equalisers': lambda: kw.update(eqConfiguration=[{'name': 'e%d' % i, 'filter': [{'b': [1, 0, 0], 'a': [0, 0]}], 'loudspeakers': [lab[0]]} for i in (1, 2)]),
        'subwoofer on the channel of a loudspeaker': lambda: kw.update(subwooferConfig=[{'channel': a.channels[0], 'assignedSpeakers': lab}]),
        'subwoofers on one channel': lambda: kw.update(subwooferConfig=[{'channel': 200, 'assignedSpeakers': lab}] * 2),
        'subwoofer of nobody': lambda: kw.update(subwooferConfig=[{'channel': 200, 'assignedSpeakers': lab + ['nobody']}]),
        'weights': lambda: kw.update(subwooferConfig=[{'channel': 200, 'assignedSpeakers': lab, 'weights': [1.0] * (n + c.pick([1, -1]))}]),
        'equaliser of a subwoofer': lambda: kw.update(subwooferConfig=[{'channel': 200, 'assignedSpeakers': lab, 'eq': 'nothing'}]),
        'triplet of nobody': lambda: kw.update(triplets=[(lab + ['nobody', 'nobody', 'nobody'])[-k:]]),
        'triplet length': lambda: kw.update(triplets=[[lab[0]] * (k + c.pick([1, -1]))]),
        'positions': lambda: None,
    }
    what = c.pick(list(faults))
    if what == 'channels twice' and n < 2:
        return
    if 'loudspeakerLabels' in kw or what.startswith('label'):
        # other arguments refer to the labels: keep only those that do not
        pass
    for x in ('virtualLoudspeakers', 'subwooferConfig', 'eqConfiguration'):
        kw.pop(x, None)
    if what.startswith('label') or 'triplets' not in kw:
        kw['triplets'] = []
    faults[what]()
    if not what.startswith('triplet') and kw.get('triplets') and any(l not in lab for t in kw['triplets'] for l in t):
        kw['triplets'] = []
    if what == 'positions':
        pos = c.pick([np.zeros((4, n)), np.zeros((1, n)), np.ones((3, n, 1)), np.ones(3)])
    d = tempfile.mkdtemp(prefix='p32_')
    c.label(what)
    c.nontrivial()
    try:
        f = os.path.join(d, 'array.xml')
        old = c.flag()
        if old:
            lc.createArrayConfigFile(f, a.pos, **a.kw)
            before = open(f, 'rb').read()
        must_throw(lambda: lc.createArrayConfigFile(f, pos, **kw), '%s: %s' % (what, kw), (ValueError,))
        if old:
            check(open(f, 'rb').read() == before, 'the existing file was changed')
        else:
            check(os.listdir(d) == [], 'a file was written')
        must_not_throw(lambda: lc.createArrayConfigFile(f, a.pos, **a.kw), 'createArrayConfigFile')
        verify(a, f)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Emitters:
    def __init__(self, data, kind):
        self.data, self.attrs = data, {'Type': kind}

    def __array__(self, dtype=None, copy=None):
        return np.array(self.data, dtype=dtype)

    shape = property(lambda self: self.data.shape)

    def __getitem__(self, k):
        return np.array(self.data)[k]


class FakeH5:
    """stands for the HDF5 library, which is not installed here; files hold the positions of emitters"""
    files, opened = {}, []

    class File:
        def __init__(self, name, mode='r'):
            if name not in FakeH5.files:
                raise OSError('no such file')
            self.name, self.open = name, True
            FakeH5.opened.append(self)

        def get(self, key):
            assert self.open
            return FakeH5.files[self.name] if key == 'EmitterPosition' else None

        __getitem__ = get

        def close(self):
            self.open = False

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()


def sofa(c):
    """configurations made from the emitters of a data file"""
    a = Args()
    a.two = two = c.flag()
    n, nvirt = c.size(4, 12) if not two else c.size(2, 8), c.weighted([2, 1, 1])
    a.dirs = dirs = directions(c, n + nvirt, two)
    if not hullable(dirs, two) or len(dirs) < nvirt + 2:
        return
    nreg = a.nreg = len(dirs) - nvirt
    a.nvirt = nvirt
    a.P = np.array([d * c.real(0.2, 5) for d in dirs])
    a.auto = True
    a.channels = list(range(1, nreg + 1))
    a.gain, a.delay, a.eqs, a.eqOf, a.subs, a.comment = np.zeros(nreg), np.zeros(nreg), {}, {}, [], None
    used = set()
    kw = {}
    a.labels = ['lsp%d' % (i + 1) for i in range(nreg)]
    if c.flag():
        a.labels = [label(c, used) for _ in range(nreg)]
        kw['lspLabels'] = list(a.labels)
    used |= set(a.labels)
    a.vlabels = [label(c, used) for _ in range(nvirt)]
    a.names = a.labels + a.vlabels
    a.routes = [{} for _ in range(nvirt)]
    if nvirt:
        kw['virtualLoudspeakers'] = [{'id': l, 'pos': list(a.P[nreg + i][:2 if two else 3])} for i, l in enumerate(a.vlabels)]
    if two or c.flag():
        kw['twoDSetup'] = two
    p = a.P[:nreg].copy()
    sph = c.flag()
    if sph:
        az, el, r = np.degrees(np.arctan2(p[:, 1], p[:, 0])), np.degrees(np.arctan2(p[:, 2], np.hypot(p[:, 0], p[:, 1]))), np.linalg.norm(p, axis=1)
        if c.flag():
            az = np.mod(az, 360)
        p = np.stack([az, el, r], 1)
    if c.flag():
        p = p[:, :, np.newaxis]
    d = tempfile.mkdtemp(prefix='p32_')
    sys.modules['h5py'] = FakeH5
    cwd = os.getcwd()
    try:
        os.chdir(d)
        sub = os.path.join(d, 'data.v1')
        os.mkdir(sub)
        name = os.path.join(sub, c.pick(['room.sofa', 'my.room.sofa', 'room']))
        open(name, 'w').close()
        FakeH5.files[name] = Emitters(p.copy(), b'spherical' if sph else b'cartesian')
        out = os.path.splitext(name)[0] + '.xml'
        if c.flag():
            out = kw['xmlFile'] = os.path.join(d, 'out.xml')
        must_throw(lambda: lc.createArrayConfigFromSofa(name + 'x', **kw), 'a missing file', (ValueError,))
        c.note('%s %s' % (p.tolist(), kw))
        must_not_throw(lambda: lc.createArrayConfigFromSofa(name, **kw), 'createArrayConfigFromSofa')
        check(os.path.exists(out), lambda: 'file %s is not written: %s %s' % (out, os.listdir(d), os.listdir(sub)))
        check(not any(f.open for f in FakeH5.opened), 'data file left open')
        check(np.array_equal(FakeH5.files[name].data, p), 'data file changed')
        verify(a, out)
        c.nontrivial()
    finally:
        os.chdir(cwd)
        FakeH5.files.clear()
        del FakeH5.opened[:]
        shutil.rmtree(d, ignore_errors=True)


def geometry(c):
    """conversions of coordinates are inverse to one another for arrays of any shape"""
    shape = c.pick([(), (1,), (5,), (2, 3), (2, 1, 4)])
    g = random.Random(c.seed())
    n = int(np.prod(shape))
    pts = []
    for _ in range(n):
        k = g.randrange(4)
        v = [g.uniform(-3, 3) for _ in range(3)] if k < 2 else [g.choice([0.0, 1.0, -1.0, 1e-9, -1e-6]) for _ in range(3)]
        pts.append(v)
    X = np.array(pts, float).reshape(shape + (3,))
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        az, el, r = must_not_throw(lambda: lc.cart2sph(X), 'cart2sph')
    check(np.shape(az) == np.shape(el) == np.shape(r) == shape, 'shapes')
    check(np.all(np.abs(r - np.linalg.norm(X, axis=-1)) < 1e-12), 'radius')
    check(np.all(np.abs(az) <= math.pi + 1e-12) and np.all(np.abs(el) <= math.pi / 2 + 1e-12), 'range of the angles')
    Y = lc.sph2cart(az, el, r)
    check(Y.shape == X.shape and np.all(np.abs(Y - X) < 1e-12), lambda: 'round trip of %s gives %s' % (X.tolist(), Y.tolist()))
    if n > 1:
        c.nontrivial()
    # scalars are combined with arrays
    A, E, R = g.uniform(-9, 9), g.uniform(-1.5, 1.5), g.uniform(0, 4)
    Z = lc.sph2cart(np.broadcast_to(A, shape) if c.flag() else A, E, np.full(shape, R))
    want = np.array([R * math.cos(A) * math.cos(E), R * math.sin(A) * math.cos(E), R * math.sin(E)])
    check(Z.shape == shape + (3,) and np.all(np.abs(Z - want) < 1e-12), 'broadcast')
    x = g.uniform(-720, 720)
    check(abs(lc.deg2rad(x) - math.radians(x)) < 1e-12 and abs(lc.rad2deg(lc.deg2rad(x)) - x) < 1e-9, 'degrees')


if __name__ == '__main__':
    pbt.run({'rule': 'arrays of two or more loudspeakers with a computed triangulation, virtual loudspeakers, subwoofers or equalisers; '
                     'every refused set of arguments; arrays of several points',
             'subs': [('generated', generated, 2500, 60000), ('refused', refused, 1500, 30000), ('sofa', sofa, 600, 10000),
                      ('geometry', geometry, 1500, 20000)]})
