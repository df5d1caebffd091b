"""P27: binaural synthesis toolkit (visr_bst): harmonics, rotations, head-tracked binaural renderers, trackers, SOFA data."""
import gc, io, math, os, shutil, sys, tempfile, types, warnings
from contextlib import redirect_stdout
import numpy as np
import pbt
from pbt import check, fail, must_throw, must_not_throw

sys.path.insert(0, os.path.join(os.environ.get('VERIF_SRC', '/repo'), 'src', 'python', 'packages'))
FILES = {}  # contents of data files by their path


class FakeData(np.ndarray):
    attrs = {}


class FakeFile:
    """Stands for a HDF5 file, which is a small file with a key into FILES."""
    def __init__(self, name, mode='r'):
        self.d = FILES[open(name).read()]
        self.closed = False
        if mode != 'r':
            key = 'copy%d' % len(FILES)
            self.d = FILES[key] = {k: [v[0].copy(), dict(v[1])] for k, v in self.d.items()}
            open(name, 'w').write(key)

    def get(self, k):
        if k not in self.d:
            return None
        v = self.d[k][0].view(FakeData)
        v.attrs = self.d[k][1]
        return v

    def __getitem__(self, k):
        if k not in self.d:
            raise KeyError(k)
        return self.get(k)

    def keys(self):
        return self.d.keys()

    def __delitem__(self, k):
        del self.d[k]

    def create_dataset(self, name, shape, dtype, data, compression=None):
        if name in self.d:
            raise ValueError('name already exists')
        self.d[name] = [np.array(data, dtype).reshape(shape), {}]

    def close(self):
        self.closed = True


class FakeSerial:
    """A serial port that delivers the given chunks."""
    last = None

    def __init__(self, port, baud, timeout=None):
        self.buf = b''
        FakeSerial.last = self

    @property
    def in_waiting(self):
        return len(self.buf)

    def read(self, n=1):
        r, self.buf = self.buf[:n], self.buf[n:]
        return r


class FakeQuaternion:
    def __init__(self, w, x, y, z):
        self.q = (w, x, y, z)

    def to_euler(self, degrees=False):
        """Any known function of the quaternion."""
        w, x, y, z = self.q
        return (x * 90, y * 60 + w, z * 45)


sys.modules['h5py'] = types.SimpleNamespace(File=FakeFile)
sys.modules['serial'] = types.SimpleNamespace(Serial=FakeSerial)
sys.modules['squaternion'] = types.SimpleNamespace(Quaternion=FakeQuaternion)
import scipy.spatial
import visr, efl, rbbl, pml, objectmodel as om, panning, rrl, rcl, signalflows
import visr_bst
from visr_bst import util, hoa_components, tracker
from visr_bst.util import rotation_functions as rf

EPC = pml.EmptyParameterConfig
warnings.simplefilter('ignore')


# ---- reference -----------------------------------------------------------------------------------------------

def head(ypr):
    """Matrix from world to listener coordinates: yaw about z, then pitch about the new y, then roll about the new x."""
    y, p, r = [float(v) for v in ypr]
    cy, sy, cp, sp, cr, sr = math.cos(y), math.sin(y), math.cos(p), math.sin(p), math.cos(r), math.sin(r)
    rz = np.array([[cy, -sy, 0], [sy, cy, 0], [0, 0, 1]])
    ry = np.array([[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]])
    rx = np.array([[1, 0, 0], [0, cr, -sr], [0, sr, cr]])
    return (rz @ ry @ rx).T


def legendre(n, m, x):
    """Associated Legendre function without the factor (-1)^m."""
    p = 1.0
    s = math.sqrt(max(0.0, 1 - x * x))
    for k in range(1, m + 1):
        p *= (2 * k - 1) * s
    if n == m:
        return p
    q = x * (2 * m + 1) * p
    for k in range(m + 2, n + 1):
        p, q = q, (x * (2 * k - 1) * q - (k + m - 1) * p) / (k - m)
    return q


def harmonic(n, m, d):
    """Real orthonormal spherical harmonic in direction d."""
    d = np.asarray(d, float)
    d = d / np.linalg.norm(d)
    a = abs(m)
    k = math.sqrt((2 * n + 1) / (4 * math.pi) * math.factorial(n - a) / math.factorial(n + a))
    phi = math.atan2(d[1], d[0])
    t = 1.0 if m == 0 else math.sqrt(2) * (math.sin(a * phi) if m < 0 else math.cos(a * phi))
    return k * t * legendre(n, a, d[2])


def harmonics(N, d):
    return np.array([harmonic(n, m, d) for n in range(N + 1) for m in range(-n, n + 1)])


def rotation(N, A):
    """Matrix of the harmonics up to order N with Y(A d) = M Y(d), from a least-squares fit on many directions."""
    key = (N, A.tobytes())
    if key not in CACHE:
        CACHE.clear()
        D = DIRS
        Y = np.stack([harmonics(N, d) for d in D], 1) if N not in YD else YD[N]
        YD[N] = Y
        Z = np.stack([harmonics(N, A @ d) for d in D], 1)
        M = np.zeros(((N + 1) ** 2,) * 2)
        for n in range(N + 1):
            s = slice(n * n, (n + 1) ** 2)
            M[s, s] = np.linalg.lstsq(Y[s].T, Z[s].T, rcond=None)[0].T
        CACHE[key] = M
    return CACHE[key]


CACHE, YD = {}, {}
_g = np.random.default_rng(5)
DIRS = _g.normal(size=(60, 3))
DIRS /= np.linalg.norm(DIRS, axis=1)[:, None]


def lagrange3(d):
    """Impulse response (length, taps) of the delay d in samples plus 1.5 samples; None close to a change of the support."""
    q = -d - 3
    base = math.floor(q + 0.5)
    if abs(q + 0.5 - round(q + 0.5)) < 0.02:
        return None
    x = q + 1.5 - base
    w = [np.prod([(x - m) / (j - m) for m in range(4) if m != j]) for j in range(4)]
    h = np.zeros(int(d) + 8)
    for j in range(4):
        k = -(base + j)
        if k >= 0:
            h[k] += w[j]
    return h


def interpolate(P, d):
    """Points and weights of the hull facet of the points P that contains direction d."""
    hull = scipy.spatial.ConvexHull(P)
    best = None
    for s in hull.simplices:
        try:
            g = np.linalg.solve(P[s].T, d)
        except np.linalg.LinAlgError:
            continue
        if best is None or g.min() > best[0]:
            best = (g.min(), s, g)
    _, s, g = best
    return s, g / np.abs(g).sum()


def weights(P, d, inter):
    """Points and weights; None if numerically undetermined."""
    if inter:
        return interpolate(P, d)
    v = P @ d
    o = np.sort(v)
    if len(o) > 1 and o[-1] - o[-2] < 1e-4:
        return None
    return np.array([np.argmax(v)]), np.ones(1)


# ---- generators ----------------------------------------------------------------------------------------------

def gen_ypr(c):
    k = c.draw(6)
    if k == 0:
        return np.zeros(3)
    y, p, r = c.real(-3.1, 3.1), c.real(-1.3, 1.3), c.real(-3.1, 3.1)
    return np.array([(y, 0, 0), (0, p, 0), (0, 0, r), (y, p, 0), (y, p, r)][k - 1], float)


def gen_dir(c):
    if c.chance(20):
        d = np.zeros(3)
        d[c.draw(3)] = c.pick([1.0, -1.0])
        return d
    d = np.array([c.sym(1), c.sym(1), c.sym(1)])
    n = np.linalg.norm(d)
    return d / n if n > 0.05 else np.array([0.0, 1.0, 0.0])


def gen_orientation(c, ypr):
    """The orientation as the types that are accepted."""
    k = c.draw(3)
    if ypr[2] == 0 and c.flag():
        ypr = ypr[:2]
    return [list(ypr), np.array(ypr, np.float32), np.array(ypr)][k]


def pose(ypr, c):
    p = pml.ListenerPosition(c.sym(2), c.sym(2), c.sym(2))
    p.orientationYPR = [float(v) for v in ypr]
    return p


def set_pose(port, ypr, c):
    d = port.data()
    p = d.position if hasattr(d, 'position') else None
    d.orientationYPR = [float(v) for v in ypr]
    port.swapBuffers()


def gen_grid(c, dim):
    """Directions around the origin as azimuth, elevation, radius (radian)."""
    g = c.rng()
    if dim == 2:
        n = c.range(3, 12)
        az = np.arange(n) * 2 * np.pi / n + g.uniform(-0.2, 0.2, n) / n * 3
        az = np.where(az > np.pi, az - 2 * np.pi, az)
        p = np.stack([az, np.zeros(n), g.uniform(0.5, 3, n)], 1)
    else:
        k = c.range(0, 12)
        d = np.concatenate([np.eye(3), -np.eye(3), g.normal(size=(k, 3))]) + 0
        d = d / np.linalg.norm(d, axis=1)[:, None] + g.uniform(-0.08, 0.08, (6 + k, 3))
        d /= np.linalg.norm(d, axis=1)[:, None]
        p = np.stack([np.arctan2(d[:, 1], d[:, 0]), np.arcsin(d[:, 2]), g.uniform(0.5, 3, 6 + k)], 1)
    p = p[g.permutation(len(p))]
    return p.astype(c.pick([np.float32, np.float64]))


def cart(p):
    p = np.asarray(p, float)
    return np.stack([np.cos(p[:, 0]) * np.cos(p[:, 1]), np.sin(p[:, 0]) * np.cos(p[:, 1]), np.sin(p[:, 1])], 1)


def gen_scene(c, nobj, kinds=('point', 'plane', 'ext', 'div')):
    """Objects by channel: {channel: (direction, level)} and the vector of objects."""
    chans = [k for k in range(nobj) if c.chance(75)]
    src, ov = {}, []
    for i, k in enumerate(sorted(chans, key=lambda k: c.draw(1000))):
        d, level = gen_dir(c), c.pick([0.0, 0.5, 1.0]) if c.chance(30) else c.real(0.05, 2)
        t = c.pick(kinds)
        oid = i + c.draw(3) * 100
        if t == 'plane':
            o = om.PlaneWave(oid)
            o.azimuth, o.elevation = math.degrees(math.atan2(d[1], d[0])), math.degrees(math.asin(max(-1, min(1, d[2]))))
            o.referenceDistance = c.real(0.5, 3)
        else:
            o = {'point': om.PointSource, 'ext': om.PointSourceExtent, 'div': om.PointSourceWithDiffuseness}[t](oid)
            r = c.real(0.3, 4)
            o.position = [float(v) for v in d * r]
        o.channels = [k]
        o.level = level
        src[k] = (d, level)
        ov.append(o)
    if c.chance(25):
        # other kinds of objects are not rendered
        o = c.pick([om.DiffuseSource, om.ChannelObject, om.HoaSource])(77)
        free = [k for k in range(nobj) if k not in src]
        if free:
            o.channels = [c.pick(free)]
            o.level = 1.0
            ov.insert(c.draw(len(ov) + 1), o)
            c.label('other objects')
    return src, ov


def send(port, ov):
    port.data().set(ov)
    port.swapBuffers()


class Audio:
    """Runs a flow on random signals, keeping the inputs and outputs."""
    def __init__(self, c, flow, nin, period):
        self.flow, self.period, self.g = flow, period, c.rng()
        self.x, self.y = np.zeros((nin, 0)), np.zeros((2, 0))

    def run(self, n):
        for _ in range(n):
            x = self.g.uniform(-1, 1, (self.x.shape[0], self.period)).astype(np.float32)
            y = self.flow.process(x)
            check(y.shape == (2, self.period), 'shape of the output: %s' % (y.shape,))
            self.x = np.concatenate([self.x, x], 1)
            self.y = np.concatenate([self.y, y], 1)

    def compare(self, n, filters, what, tol=3e-5):
        """filters[ear][input]: impulse response or None; compares the last n blocks"""
        L = n * self.period
        for e in range(2):
            z = np.zeros(self.x.shape[1])
            amp = 1e-2
            for i, h in filters[e].items():
                z += np.convolve(self.x[i], h)[:len(z)]
                amp += np.abs(h).sum()
            d = np.abs(z[-L:] - self.y[e, -L:])
            check(d.max() <= tol * amp, lambda: '%s: ear %d differs by %g at sample %d: %s, expected %s' %
                  (what, e, d.max(), d.argmax(), self.y[e, -L:][d.argmax()], z[-L:][d.argmax()]))


# ---- harmonics and rotations ---------------------------------------------------------------------------------

def harmonic_functions(c):
    """Spherical harmonics and their rotations."""
    N = c.range(0, 8)
    shape = c.pick([(), (1,), (3,), (2, 3)])
    n = int(np.prod(shape))
    D = np.array([gen_dir(c) for _ in range(n)])
    th = np.arccos(np.clip(D[:, 2], -1, 1)).reshape(shape)
    ph = np.arctan2(D[:, 1], D[:, 0]).reshape(shape)
    dt = c.pick([np.float64, np.float32, None])
    tol = 1e-4 if dt == np.float32 else 1e-9
    Y = util.allSphHarmRealACN(N, th, ph, dt)
    check(Y.shape == ((N + 1) ** 2,) + shape, 'shape of the harmonics %s' % (Y.shape,))
    ref = np.stack([harmonics(N, d) for d in D], 1).reshape(Y.shape)
    check(np.abs(Y - ref).max() <= tol * (N + 1), 'harmonics differ by %g' % np.abs(Y - ref).max())
    l = c.range(0, N)
    m = c.range(-l, l)
    check(np.abs(util.sphHarmReal(l, m, th, ph) - ref[l * l + l + m]).max() <= 1e-9 * (N + 1), 'single harmonic')
    # coordinates
    r = c.real(0.1, 10)
    X = (D * r).reshape(shape + (3,))
    s = util.cart2sph(X[..., 0], X[..., 1], X[..., 2])
    check(s.shape == (3,) + shape, 'shape of spherical coordinates')
    check(np.allclose(s[2], r) and np.allclose(np.sin(s[1]) * r, X[..., 2]), 'spherical coordinates')
    check(np.allclose(util.sph2cart(np.moveaxis(s, 0, -1)), X), 'spherical coordinates do not lead back')
    a = c.sym(720)
    check(abs(util.deg2rad(a) - a / 180 * math.pi) < 1e-9 and abs(util.rad2deg(util.deg2rad(a)) - a) < 1e-9, 'degrees')
    # rotations
    ypr = gen_ypr(c)
    dtr = c.pick([np.float64, np.float32])
    A = util.calcRotationMatrix(ypr.astype(dtr))
    tol = 1e-5 if dtr == np.float32 else 1e-12
    check(np.allclose(A, head(ypr), atol=tol), 'rotation matrix for %s' % ypr)
    must_throw(lambda: util.calcRotationMatrix(ypr[:2]), 'rotation matrix of two angles', (ValueError,))
    R1 = util.rotationMatrixReorderingACN(A)
    M = rotation(N, head(ypr))
    all_ = util.allSphericalHarmonicsRotationMatrices(N, R1)
    check(len(all_) == N + 1, 'number of rotation matrices %d for order %d' % (len(all_), N))
    prev, prev2 = None, None
    for k in range(N + 1):
        s = slice(k * k, (k + 1) ** 2)
        for what, Q in [('all', all_[k]), ('single', util.sphericalHarmonicsRotationMatrix(k, R1))] + \
                       ([('given', util.sphericalHarmonicsRotationMatrix(k, R1, all_[k - 1])),
                         ('scalar', rf.HOARotationMatrixCalc(k, all_[k - 1], R1))] if k > 1 else []):
            Q = np.asarray(Q)
            check(Q.size == (2 * k + 1) ** 2, '%s: size of the rotation matrix of order %d: %s' % (what, k, Q.shape))
            e = np.abs(Q.reshape(2 * k + 1, -1) - M[s, s]).max()
            check(e <= (1e-3 if dtr == np.float32 or what == 'scalar' else 1e-8), '%s: rotation matrix of order %d differs by %g' % (what, k, e))
    if N >= 2 and np.count_nonzero(ypr) > 1:
        c.nontrivial()


# ---- Ambisonics ----------------------------------------------------------------------------------------------

def gen_filters(c, shape):
    return (c.rng().uniform(-1, 1, shape)).astype(np.float32)


def hoa(c):
    """Binaural rendering of Ambisonics signals for the head orientation."""
    N = c.range(0, 4)
    C = (N + 1) ** 2
    period, fs = c.pick([8, 16, 32]), 48000
    ctx = visr.SignalFlowContext(period, fs)
    L = c.range(1, 20)
    h = gen_filters(c, (C + c.draw(3), 2, L))
    tracking = c.flag()
    ori = gen_ypr(c) if c.chance(60) else None
    kw = {}
    if h.shape[0] != C or c.flag():
        kw['hoaOrder'] = N
    else:
        c.label('order from the filters')
    if c.flag():
        kw['interpolationSteps'] = period * c.range(1, 2)
    steps = kw.get('interpolationSteps', period)
    if ori is not None:
        kw['headOrientation'] = gen_orientation(c, ori)
    realtime = c.flag()
    h0 = h.copy()
    if realtime and tracking:
        kw.update(headTrackingReceiver=Pose, headTrackingPositionalArguments=c.pick([('x',), ['x']]), headTrackingKeywordArguments={'b': 2})
    r = (visr_bst.RealtimeHoaBinauralRenderer if realtime else visr_bst.HoaBinauralRenderer)(
        ctx, 'r', None, decodingFilters=h, headTracking=tracking, **kw)
    flow = rrl.AudioSignalFlow(r)
    a = Audio(c, flow, C, period)
    A = head(ori) if ori is not None else np.eye(3)
    settle = (steps + L) // period + 2
    for ph in range(c.range(1, 4)):
        if ph and tracking:
            y = gen_ypr(c)
            if realtime:
                r.trackingDevice.next = y
            else:
                set_pose(flow.parameterReceivePort('tracking'), y, c)
            A = head(y)
            c.nontrivial()
        a.run(settle + 2)
        M = rotation(N, A)
        f = [{i: sum(M[k, i] * h[k, e].astype(float) for k in range(C)) for i in range(C)} for e in range(2)]
        a.compare(2, f, 'phase %d order %d orientation %s' % (ph, N, ori))
    check(np.array_equal(h, h0), 'the filters were changed')
    c.label('realtime %d tracking %d initial %d' % (realtime, tracking, ori is not None))


class Pose(visr.AtomicComponent):
    """Stands for a tracking device."""
    def __init__(self, ctx, name, parent, a='x', b=2):
        super(Pose, self).__init__(ctx, name, parent)
        assert a == 'x' and b == 2
        self.o = visr.ParameterOutput('orientation', self, pml.ListenerPosition.staticType, pml.DoubleBufferingProtocol.staticType, EPC())
        self.next = None

    def process(self):
        if self.next is not None:
            p = self.o.protocolOutput()
            p.data().orientationYPR = [float(v) for v in self.next]
            p.swapBuffers()
            self.next = None


def hoaobj(c):
    """Binaural rendering of objects by Ambisonics."""
    N = c.range(0, 4)
    C = (N + 1) ** 2
    nobj = c.range(1, 4)
    period = c.pick([8, 16, 32])
    ctx = visr.SignalFlowContext(period, 48000)
    L = c.range(1, 20)
    h = gen_filters(c, (C, 2, L))
    tracking = c.flag()
    ori = gen_ypr(c) if c.chance(60) else None
    kw = {}
    realtime = c.flag()
    if realtime or c.flag():
        kw['maxHoaOrder'] = N
    if c.flag():
        kw['interpolationSteps'] = period // c.range(1, 2)  # longer fades start again with every block
    steps = kw.get('interpolationSteps', period)
    if ori is not None:
        kw['headOrientation'] = gen_orientation(c, ori)
    if realtime and tracking:
        kw.update(headTrackingReceiver=Pose)
    r = (visr_bst.RealtimeHoaObjectToBinauralRenderer if realtime else visr_bst.HoaObjectToBinauralRenderer)(
        ctx, 'r', None, numberOfObjects=nobj, decodingFilters=h, headTracking=tracking, **kw)
    flow = rrl.AudioSignalFlow(r)
    a = Audio(c, flow, nobj, period)
    A = head(ori) if ori is not None else np.eye(3)
    settle = (steps + L) // period + 2
    src = {}
    for ph in range(c.range(1, 4)):
        if c.chance(70):
            src, ov = gen_scene(c, nobj)
            send(flow.parameterReceivePort('objectVector'), ov)
        if ph and tracking and c.chance(70):
            y = gen_ypr(c)
            if realtime:
                r.trackingDevice.next = y
            else:
                set_pose(flow.parameterReceivePort('tracking'), y, c)
            A = head(y)
        a.run(settle + 2)
        f = [{k: sum(v * h[i, e].astype(float) for i, v in enumerate(lv * harmonics(N, A @ d))) for k, (d, lv) in src.items()} for e in range(2)]
        a.compare(2, f, 'phase %d order %d' % (ph, N), 1e-4)
        if src:
            c.nontrivial()
    c.label('realtime %d tracking %d initial %d' % (realtime, tracking, ori is not None))


# ---- head-related impulse responses ---------------------------------------------------------------------------

def gen_delays(c, shape, fs):
    k = c.draw(3)
    g = c.rng()
    d = g.integers(0, 12, shape).astype(float) if k == 0 else g.uniform(0, 12, shape)
    return d / fs, 12


def filters_for(P, d, inter, hr, delays, fs, scale):
    """Two impulse responses of a source in direction d; None if undetermined."""
    w = weights(P, d, inter)
    if w is None:
        return None
    s, g = w
    r = []
    for e in range(2):
        f = sum(gi * hr[i, e].astype(float) for i, gi in zip(s, g)) * scale
        if delays is not None:
            l = lagrange3(fs * sum(gi * delays[i, e] for i, gi in zip(s, g)))
            if l is None:
                return None
            f = np.convolve(f, l)
        r.append(f)
    return r


def hrir(c):
    """Dynamic rendering of objects by head-related impulse responses."""
    nobj = c.range(1, 4)
    period, fs = c.pick([8, 16, 32]), c.pick([1000, 8000])
    ctx = visr.SignalFlowContext(period, fs)
    grid = gen_grid(c, 3)
    G, L = len(grid), c.range(1, 20)
    hr = gen_filters(c, (G, 2, L))
    itd, ild, inter, fade, iconv, tracking = [c.flag() for _ in range(6)]
    delays = maxd = None
    if itd or c.chance(20):
        delays, maxd = gen_delays(c, (G, 2), fs)
        delays = delays.astype(c.pick([np.float32, np.float64]))
    ori = gen_ypr(c) if c.chance(50) else None
    kw = {}
    if ori is not None:
        kw['headOrientation'] = gen_orientation(c, ori)
    realtime = c.chance(30)
    if realtime:
        if tracking:
            kw['headTrackingReceiver'] = Pose
        iconv = False
    else:
        kw.update(headTracking=tracking, interpolatingConvolver=iconv)
    keep = [v.copy() if v is not None else None for v in (grid, hr, delays)]
    r = (visr_bst.RealtimeDynamicHrirRenderer if realtime else visr_bst.DynamicHrirRenderer)(
        ctx, 'r', None, numberOfObjects=nobj, hrirPositions=grid, hrirData=hr, hrirDelays=delays, dynamicITD=itd, dynamicILD=ild,
        hrirInterpolation=inter, filterCrossfading=fade, **kw)
    for v, k, n in zip((grid, hr, delays), keep, ('positions', 'responses', 'delays')):
        check(k is None or np.array_equal(v, k), 'the given %s were changed' % n)
    flow = rrl.AudioSignalFlow(r)
    P = cart(grid)
    a = Audio(c, flow, nobj, period)
    A = head(ori) if ori is not None else np.eye(3)
    settle = (2 * period + L + 20) // period + 2
    src = {}
    for ph in range(c.range(1, 4)):
        if c.chance(75):
            src, ov = gen_scene(c, nobj)
            send(flow.parameterReceivePort('objectVector'), ov)
        if tracking and ph and c.chance(70):
            y = gen_ypr(c)
            if realtime:
                r.trackingDevice.next = y
            else:
                set_pose(flow.parameterReceivePort('tracking'), y, c)
            A = head(y)
        a.run(settle + 2)
        f = [{}, {}]
        for k, (d, lv) in src.items():
            q = filters_for(P, A @ d, inter, hr, delays if itd else 0 * hr[:, :, 0] if ild else None, fs, lv)
            if q is None:
                f = None
                c.label('undetermined')
                break
            f[0][k], f[1][k] = q
        if f:
            a.compare(2, f, 'phase %d itd %d ild %d interpolation %d crossfade %d interpolating convolver %d tracking %d' %
                      (ph, itd, ild, inter, fade, iconv, tracking), 2e-4 if itd else 5e-5)
            if src:
                c.nontrivial()
    c.label('realtime %d tracking %d initial %d' % (realtime, tracking, ori is not None))


def controller(c):
    """Messages of the controller: filters, weights, delays and gains of every block."""
    nobj = c.range(1, 4)
    ctx = visr.SignalFlowContext(4, 48000)
    grid = gen_grid(c, 3)
    P = cart(grid)
    G, L = len(grid), c.range(1, 5)
    hr = gen_filters(c, (G, 2, L))
    delays = c.rng().uniform(0, 1e-3, (G, 2))
    itd, ild, inter, iconv, tracking = [c.flag() for _ in range(5)]
    r = visr_bst.DynamicHrirController(ctx, 'c', None, nobj, grid, hr, useHeadTracking=tracking, dynamicITD=itd, dynamicILD=ild,
                                       interpolatingConvolver=iconv, hrirInterpolation=inter, hrirDelays=delays if itd else None)
    flow = rrl.AudioSignalFlow(r)
    A = np.eye(3)
    src = {}
    for b in range(c.range(1, 6)):
        if c.chance(60):
            src, ov = gen_scene(c, nobj)
            send(flow.parameterReceivePort('objectVector'), ov)
        if tracking and c.chance(50):
            y = gen_ypr(c)
            set_pose(flow.parameterReceivePort('headTracking'), y, c)
            A = head(y)
        flow.process()
        got = {}
        q = flow.parameterSendPort('interpolatorOutput' if iconv else 'filterOutput')
        while not q.empty():
            m = q.front()
            if iconv:
                check(m.id not in got, 'two messages for filter %d in a block' % m.id)
                got[m.id] = (list(m.indices), np.array(list(m.weights), float))
            else:
                check(m.index not in got, 'two messages for filter %d in a block' % m.index)
                got[m.index] = np.array(m.value, float)
            q.pop()
            del m
        check(sorted(got) == list(range(2 * nobj)), 'filters updated: %s' % sorted(got))
        dv = np.array(flow.parameterSendPort('delayOutput').data(), float) if itd else None
        gv = np.array(flow.parameterSendPort('gainOutput').data(), float) if ild else None
        for k in range(nobj):
            d, lv = src.get(k, (None, 0.0))
            if ild:
                check(np.allclose(gv[[k, k + nobj]], lv, rtol=1e-6), 'gains of object %d: %s, level %g' % (k, gv[[k, k + nobj]], lv))
            sc = 1.0 if ild else lv
            if d is None:
                if not ild:
                    for e in range(2):
                        g = got[k + e * nobj]
                        check(np.all((g[1] if iconv else g) == 0), 'filter of an unused channel')
                continue
            w = weights(P, A @ d, inter)
            if w is None:
                continue
            s, g = w
            for e in range(2):
                if iconv:
                    ii, gg = got[k + e * nobj]
                    check(len(ii) == (3 if inter else 1) and len(gg) == len(ii), 'number of interpolants %d' % len(ii))
                    check(all(i % 2 == e and i < 2 * G for i in ii), 'filters of ear %d: %s' % (e, ii))
                    v = sum(wi * hr[i // 2, e].astype(float) for i, wi in zip(ii, gg))
                    if not inter:
                        check(ii[0] // 2 == s[0], 'nearest filter')
                    else:
                        check(gg.min() >= -1e-4 * max(sc, 1), 'negative weights %s' % gg)
                else:
                    v = got[k + e * nobj]
                ref = sum(gi * hr[i, e].astype(float) for i, gi in zip(s, g)) * sc
                check(v.shape == ref.shape and np.abs(v - ref).max() <= 5e-5 * max(sc, 1), 'filter of object %d ear %d: %s, expected %s' % (k, e, v, ref))
                if itd:
                    rd = sum(gi * delays[i, e] for i, gi in zip(s, g))
                    check(abs(dv[k + e * nobj] - rd) <= 1e-7, 'delay of object %d ear %d: %g, expected %g' % (k, e, dv[k + e * nobj], rd))
            c.nontrivial()
    c.label('itd %d ild %d interpolation %d convolver %d' % (itd, ild, inter, iconv))


# ---- virtual loudspeakers ---------------------------------------------------------------------------------------

def view(ypr, dim):
    """Viewing direction in world coordinates."""
    return head(ypr).T[:dim, 0]


def vls(c):
    """Virtual loudspeakers for the orientation of the head."""
    S = c.range(1, 3)
    period, fs = c.pick([8, 16, 32]), c.pick([1000, 8000])
    ctx = visr.SignalFlowContext(period, fs)
    dim = c.pick([2, 3])
    grid = gen_grid(c, dim)
    G, L = len(grid), c.range(1, 20)
    hr = gen_filters(c, (G, 2, S, L))
    itd, inter, fade, iconv, tracking, late = [c.flag() for _ in range(6)]
    delays = None
    if itd or c.chance(20):
        delays = gen_delays(c, (G, 2, S), fs)[0].astype(c.pick([np.float32, np.float64]))
    ori = gen_ypr(c) if c.chance(60) else None
    kw = {}
    if late:
        LL = c.range(1, 30)
        lf = gen_filters(c, (2, S, LL))
        ld = c.rng().integers(0, 20, (2, S)) / fs
        kw.update(staticLateFilters=lf, staticLateDelays=ld)
    realtime = c.chance(30)
    if ori is not None:
        kw['headOrientation'] = gen_orientation(c, ori)
    if realtime:
        if tracking:
            kw['headTrackingReceiver'] = Pose
    else:
        kw.update(headTracking=tracking)
    pos = grid
    if dim == 2 and c.flag():
        pos = grid[:, [0, 2]] if c.flag() else grid
    if dim == 2 and pos.shape[1] == 2:
        pos[:, 1] = 1.0
    keep = [v.copy() if v is not None else None for v in (pos, hr, delays)]
    r = (visr_bst.RealtimeVirtualLoudspeakerRenderer if realtime else visr_bst.VirtualLoudspeakerRenderer)(
        ctx, 'r', None, hrirPositions=pos, hrirData=hr, hrirDelays=delays, dynamicITD=itd, hrirInterpolation=inter,
        filterCrossfading=fade, interpolatingConvolver=iconv, **kw)
    for v, k, n in zip((pos, hr, delays), keep, ('positions', 'responses', 'delays')):
        check(k is None or np.array_equal(v, k), 'the given %s were changed' % n)
    flow = rrl.AudioSignalFlow(r)
    P = cart(grid)[:, :dim]
    a = Audio(c, flow, S, period)
    y = ori if ori is not None else np.zeros(3)
    settle = (2 * period + L + 60) // period + 2
    for ph in range(c.range(1, 4)):
        if tracking and ph:
            y = gen_ypr(c)
            if realtime:
                r.trackingDevice.next = y
            else:
                set_pose(flow.parameterReceivePort('tracking'), y, c)
        a.run(settle + 2)
        d = view(y, dim)
        f = [{}, {}]
        for i in range(S):
            if np.linalg.norm(d) < 0.1:
                f = None
                break
            q = filters_for(P, d, inter, hr[:, :, i], delays[:, :, i] if itd else None, fs, 1.0)
            if q is None:
                f = None
                c.label('undetermined')
                break
            for e in range(2):
                if late:
                    k = int(round(float(ld[e, i]) * fs))
                    n = max(len(q[e]), k + LL)
                    z = np.zeros(n)
                    z[:len(q[e])] += q[e]
                    z[k:k + LL] += lf[e, i]
                    q[e] = z
                f[e][i] = q[e]
        if f:
            a.compare(2, f, 'phase %d dim %d itd %d interpolation %d crossfade %d interpolating convolver %d tracking %d late %d orientation %s' %
                      (ph, dim, itd, inter, fade, iconv, tracking, late, y), 2e-4 if itd else 5e-5)
            c.nontrivial()
    c.label('realtime %d dim %d tracking %d itd %d inter %d iconv %d late %d' % (realtime, dim, tracking, itd, inter, iconv, late))


def ring(c):
    """Loudspeakers in the horizontal plane."""
    n = c.range(3, 6)
    out = list(c.rng().permutation(n) + 1)
    x = ['<panningConfiguration infinite="%s" dimension="2">' % c.pick(['true', 'false'])]
    for i in range(n):
        x.append('<loudspeaker id="L%d" channel="%d" gainDB="%d" delay="0" eq=""><polar az="%d" el="0" r="1.0"/></loudspeaker>' %
                 (i, out[i], -c.draw(4), round(i * 360 / n + c.sym(10))))
    for i in range(n):
        x.append('<triplet l1="L%d" l2="L%d"/>' % (i, (i + 1) % n))
    x.append('</panningConfiguration>')
    return n, '\n'.join(x).replace(' eq=""', '')


def objvls(c):
    """Objects rendered by loudspeakers that are rendered by impulse responses."""
    n, xml = ring(c)
    nobj = c.range(1, 4)
    period, fs = c.pick([8, 16, 32]), 48000
    ctx = visr.SignalFlowContext(period, fs)
    S = n + (c.draw(3) if c.flag() else 0)
    route = None
    if S != n or c.flag():
        route = [int(v) for v in c.rng().permutation(S)[:n]]
    dim = c.pick([2, 3])
    grid = gen_grid(c, dim)
    G, L = len(grid), c.range(1, 20)
    hr = gen_filters(c, (G, 2, S, L))
    inter, iconv, tracking, opts = [c.flag() for _ in range(4)]
    ori = gen_ypr(c) if c.chance(60) else None
    kw = {}
    if ori is not None:
        kw['headOrientation'] = gen_orientation(c, ori)
    if route is not None:
        kw['loudspeakerRouting'] = route
    fn = None
    try:
        if c.flag():
            f = tempfile.NamedTemporaryFile('w', prefix='p27', suffix='.xml', delete=False)
            f.write(xml)
            f.close()
            arr = fn = f.name
            la = panning.LoudspeakerArray(fn)
        else:
            la = panning.LoudspeakerArray()
            la.loadXmlString(xml)
            arr = la
        diff = efl.BasicMatrixFloat(gen_filters(c, (n, c.pick([4, 32]))))
        ip = period
        if opts:
            ip = c.pick([period, 2 * period])
            kw['objectRendererOptions'] = {'interpolationPeriod': ip, 'diffusionFilters': diff}
        keep = dict(kw.get('objectRendererOptions', {}))
        r = visr_bst.ObjectToVirtualLoudspeakerRenderer(ctx, 'r', None, numberOfObjects=nobj, hrirPositions=grid, hrirData=hr,
                                                        headTracking=tracking, hrirInterpolation=inter, interpolatingConvolver=iconv,
                                                        loudspeakerConfiguration=arr, **kw)
        check(kw.get('objectRendererOptions', {}) == keep, 'the options were changed')
    finally:
        if fn:
            os.unlink(fn)
    flow = rrl.AudioSignalFlow(r)
    core = rrl.AudioSignalFlow(signalflows.CoreRenderer(ctx, 'c', None, loudspeakerConfiguration=la, numberOfInputs=nobj, numberOfOutputs=n,
                                                        interpolationPeriod=ip, diffusionFilters=diff))
    P = cart(grid)[:, :dim]
    a = Audio(c, flow, nobj, period)
    y = ori if ori is not None else np.zeros(3)
    settle = (3 * period + L) // period + 2
    for ph in range(c.range(1, 4)):
        if c.chance(70):
            src, ov = gen_scene(c, nobj, ('point', 'plane'))
            ov = [o for o in ov if isinstance(o, (om.PointSource, om.PlaneWave))]
            for f in (flow, core):
                f.parameterReceivePort('objectVector' if f is flow else 'objectDataInput').data().set(ov)
                f.parameterReceivePort('objectVector' if f is flow else 'objectDataInput').swapBuffers()
        if tracking and ph:
            y = gen_ypr(c)
            set_pose(flow.parameterReceivePort('tracking'), y, c)
        m = a.x.shape[1]
        a.run(settle + 2)
        z = np.concatenate([core.process(a.x[:, k:k + period].astype(np.float32)) for k in range(m, a.x.shape[1], period)], 1)
        b = Audio(c, flow, S, period)
        b.x = np.zeros((S, z.shape[1]))
        b.x[route if route is not None else list(range(n))] = z
        b.y = a.y[:, m:]
        d = view(y, dim)
        f = [{}, {}]
        for i in range(S):
            q = filters_for(P, d, inter, hr[:, :, i], None, fs, 1.0) if np.linalg.norm(d) >= 0.1 else None
            if q is None:
                f = None
                break
            f[0][i], f[1][i] = q
        if f:
            b.compare(2, f, 'phase %d loudspeakers %d of %d routing %s' % (ph, n, S, route), 1e-4)
            if np.abs(z[:, -2 * period:]).max() > 1e-3:
                c.nontrivial()
    c.label('routing %s options %d' % (route is not None, opts))


# ---- trackers and data files --------------------------------------------------------------------------------------

def trackers(c):
    """Orientation from the byte stream of a tracking device, in whatever pieces it arrives."""
    ctx = visr.SignalFlowContext(4, 48000)
    razor = c.flag()
    off = [c.pick([0.0, 10.0, -90.0]), c.pick([0.0, 10.0, -20.0]), c.pick([0.0, 10.0, -90.0])]
    cal = c.flag()
    out = io.StringIO()
    if razor:
        right = [c.flag() for _ in range(3)]
        with redirect_stdout(out):
            t = tracker.RazorAHRS(ctx, 't', None, '/dev/none', yawOffset=off[0], pitchOffset=off[1], rollOffset=off[2], yawRightHand=right[0],
                                  pitchRightHand=right[1], rollRightHand=right[2], calibrationInput=cal)
        end = '\r\n'
    else:
        T = c.rng().integers(-1, 2, (3, 3)) if c.flag() else None
        with redirect_stdout(out):
            t = tracker.HdMTracker(ctx, 't', None, '/dev/none', yawOffset=off[0], pitchOffset=off[1], rollOffset=off[2], yprTranslation=T,
                                   calibrationInput=cal, displayPos=False)
        end = ';'
    flow = rrl.AudioSignalFlow(t)
    ser = FakeSerial.last
    stream, values = '', []
    for _ in range(c.range(1, 12)):
        if razor:
            v = [round(c.sym(179), 2), round(c.sym(30), 2), round(c.sym(179), 2)]
            stream += '#YPR=%.2f,%.2f,%.2f' % tuple(v) + end
            raw = np.array([-x if s else x for x, s in zip(v, right)])
        else:
            v = [round(c.sym(1), 3) for _ in range(4)]
            stream += ('%.3f, %.3f, %.3f, %.3f' if c.flag() else '%.3f,%.3f,%.3f,%.3f') % tuple(v) + end
            raw = np.array(FakeQuaternion(*v).to_euler())
            raw = T @ raw if T is not None else raw
        values.append((raw, len(stream)))
    pos, last, offset = 0, -1, np.array(off)
    seen = None
    port = flow.parameterSendPort('orientation')
    data = stream.encode()
    while pos < len(data):
        n = min(c.pick([1, 3, 10, 25, 60, 200]), len(data) - pos)
        ser.buf += data[pos:pos + n]
        pos += n
        if cal and seen is not None and c.chance(30):
            flow.parameterReceivePort('calibration').enqueue(pml.StringParameter('now'))
            offset = -seen
            c.label('calibrated')
        with redirect_stdout(out):
            flow.process()
        check(ser.buf == b'', 'bytes are not read')
        if port.changed():
            port.resetChanged()
            got = np.degrees(np.array(port.data().orientationYPR, float))
            avail = [i for i, (r, e) in enumerate(values) if e <= pos]

            def same(i):
                # angles are reported in the principal range
                h1, h2 = head(np.radians(values[i][0] + offset)), head(np.radians(got))
                return np.abs(h1 - h2).max() < 2e-3
            m = [i for i in avail if i >= last and same(i)]
            check(m, lambda: 'orientation %s is none of %s' % (got, [list(values[i][0] + offset) for i in avail if i >= last]))
            check(avail[-1] in m or values[avail[-1]][0] is not None and any(np.allclose(values[i][0], values[avail[-1]][0]) for i in m),
                  'orientation %s is not the last one received: %s' % (got, values[avail[-1]][0] + offset))
            last = avail[-1]
            seen = values[last][0]
            c.nontrivial()
        else:
            avail = [i for i, (r, e) in enumerate(values) if e <= pos]
            # two complete messages always contain a complete one, even if the device was already sending
            check(len(avail) < 2 or avail[-1] <= last, 'message %d is complete, but the orientation was not updated' % (avail[-1] if avail else -1))
    check('wrong' not in out.getvalue() and 'Error' not in out.getvalue(), 'correct messages are reported as wrong: %s' % out.getvalue())


def sofa(c):
    """Impulse responses from data files."""
    d = tempfile.mkdtemp(prefix='p27')
    try:
        G, L = c.range(2, 6), c.range(2, 24)
        multi = c.flag()
        shape = (G, 2) + ((c.range(1, 3),) if multi else ())
        g = c.rng()
        fs = c.pick([8000.0, 44100.0])
        ir = g.uniform(-1, 1, shape + (L,))
        cartesian = c.flag()
        pos = g.uniform(-2, 2, (G, 3)) if cartesian else np.stack([g.uniform(-180, 180, G), g.uniform(-80, 80, G), g.uniform(0.5, 2, G)], 1)
        per = c.flag()
        delay = g.integers(0, 20, shape).astype(float) if per else np.zeros((1, 2))
        other = np.zeros((1, 3))
        FILES['a'] = {'Data.IR': [ir, {}], 'Data.Delay': [delay, {}], 'Data.SamplingRate': [np.array([fs]), {}]}
        FILES['a']['ListenerView' if multi else 'SourcePosition'] = [pos, {'Type': b'cartesian' if cartesian else b'spherical'}]
        FILES['a']['SourcePosition' if multi else 'ListenerView'] = [other, {'Type': b'cartesian'}]
        fn = os.path.join(d, 'a.sofa')
        open(fn, 'w').write('a')
        must_throw(lambda: util.readSofaFile(fn + 'x'), 'missing file', (ValueError,))
        tl = c.range(1, L + 5) if c.flag() else None
        tw = c.range(0, min(tl, L)) if tl else 0
        kw = {} if tl is None else dict(truncationLength=tl, truncationWindowLength=tw)
        P, h, dl = util.readSofaFile(fn, **kw)
        n = L if tl is None or tl >= L else tl
        check(h.shape == shape + (n,), 'shape of the impulse responses %s' % (h.shape,))
        w = np.ones(n)
        if n < L and tw:
            w[n - tw:] = 0.5 + 0.5 * np.cos(np.pi * np.arange(1, tw + 1) / (tw + 2))
        check(np.abs(h - ir[..., :n] * w).max() < 1e-6, 'impulse responses')
        if per:
            check(dl is not None and dl.shape == shape and np.abs(dl - delay / fs).max() < 1e-6, 'delays')
        else:
            check(dl is None, 'delays without data')
        ref = np.stack([np.arctan2(pos[:, 1], pos[:, 0]), np.arcsin(pos[:, 2] / np.linalg.norm(pos, axis=1)), np.linalg.norm(pos, axis=1)], 1) \
            if cartesian else pos * [np.pi / 180, np.pi / 180, 1]
        check(P.shape == (G, 3) and np.abs(P - ref).max() < 1e-5, 'positions')
        # separation of the delays: applying the delays to the new responses gives the old ones up to a common delay
        FILES['b'] = {k: [v[0].copy(), dict(v[1])] for k, v in FILES['a'].items()}
        N = 128
        on = g.integers(3, 20, shape)
        ir = np.zeros(shape + (N,))
        tail = g.uniform(-1, 1, shape + (8,)) * 0.4 ** np.arange(8)
        tail[..., 0] = 1
        for i in np.ndindex(shape):
            ir[i][on[i]:on[i] + 8] = tail[i]
        FILES['b']['Data.IR'] = [ir.copy(), {}]
        f2, f3 = os.path.join(d, 'b.sofa'), os.path.join(d, 'c.sofa')
        open(f2, 'w').write('b')
        must_throw(lambda: util.sofaExtractDelay(f2 + 'x', f3), 'missing file', (ValueError,))
        util.sofaExtractDelay(f2, f3)
        check(np.array_equal(FILES['b']['Data.IR'][0], ir), 'the source file was changed')
        P2, h2, d2 = util.readSofaFile(f3, dtype=np.float64)
        check(d2 is not None and h2.shape == ir.shape, 'separated delays')
        s = np.rint(d2 * fs).astype(int)
        check(s.min() == 0 and np.abs(d2 * fs - s).max() < 1e-6, 'delays are multiples of the sampling period from zero: %s' % (d2 * fs))
        for i in np.ndindex(shape):
            z = np.concatenate([np.zeros(s[i]), h2[i]])[:N]
            y = ir[i].copy()
            y[:s[i]] = 0
            check(np.array_equal(z, y), 'delay and response do not give the original response')
        c.nontrivial()
    finally:
        FILES.clear()
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    pbt.run({'rule': 'rotations about two or more axes at order two or more; sources or loudspeakers rendered in a steady state after '
                     'updates of the scene or the orientation; orientations decoded; files read',
             'subs': [('harmonics', harmonic_functions, 700, 20000), ('hoa', hoa, 800, 12000), ('hoaobj', hoaobj, 800, 12000),
                      ('hrir', hrir, 900, 20000), ('controller', controller, 1000, 20000), ('vls', vls, 900, 20000), ('objvls', objvls, 300, 6000),
                      ('trackers', trackers, 1000, 20000), ('sofa', sofa, 600, 10000)]})
