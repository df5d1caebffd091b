"""P24: numeric functions and containers called from Python."""
import itertools
import numpy as np
import pbt
from pbt import check, fail, must_throw, must_not_throw
import visr, efl, rbbl, pml

DT = {'f': np.float32, 'd': np.float64, 'cf': np.complex64, 'cd': np.complex128}
SUF = {'f': 'Float', 'd': 'Double', 'cf': 'ComplexFloat', 'cd': 'ComplexDouble'}
WIDE = {'f': np.longdouble, 'd': np.longdouble, 'cf': np.clongdouble, 'cd': np.clongdouble}


def rnd(r, n, dt):
    v = r.uniform(-2, 2, n)
    if np.issubdtype(dt, np.complexfloating):
        v = v + 1j * r.uniform(-2, 2, n)
    return v.astype(dt)


def scal(r, dt):
    return rnd(r, 1, dt)[0]


class Arg:
    """one array argument, embedded in a larger block so that stray accesses are seen"""

    def __init__(self, c, r, dt, length, kind, offset=0):
        self.kind, self.length = kind, length
        pad = 16
        raw = np.full((pad * 2 + length) * 4 + 16, 77, dtype=dt)
        # first data element on a 64-byte boundary, plus the requested number of elements
        start = pad
        while (raw.__array_interface__['data'][0] + start * raw.itemsize) % (16 * raw.itemsize):
            start += 1
        start += offset
        self.raw, self.start = raw, start
        raw[start:start + length] = rnd(r, length, dt)
        self.init = raw[start:start + length].copy()
        if kind == 'array':
            self.obj = raw[start:start + length]
        elif kind == 'vector':
            cls = getattr(efl, 'BasicVector' + SUF[[k for k in DT if DT[k] == dt][0]])
            self.obj = cls(raw[start:start + length], 8)
        elif kind == 'strided':  # not contiguous
            self.obj = raw[start:start + 2 * length:2]
            self.init = self.obj.copy()
        elif kind == '2d':
            self.obj = raw[start:start + length].reshape(1, length)
        elif kind == 'reversed':
            self.obj = raw[start:start + length][::-1]
            self.init = self.obj.copy()
        elif kind == 'readonly':
            self.obj = raw[start:start + length].view()
            self.obj.flags.writeable = False
        self.whole = raw.copy()

    def now(self):
        return np.array(self.obj, copy=True).reshape(-1)

    def unchanged(self):
        return np.array_equal(self.raw, self.whole) and np.array_equal(self.now(), self.init)

    def outside_ok(self, n):
        """nothing but the first n elements may differ"""
        now = self.now()
        if not np.array_equal(now[n:], self.init[n:]):
            return False
        if self.kind == 'vector':
            return np.array_equal(self.raw, self.whole)
        m = np.ones(len(self.raw), bool)
        m[self.start:self.start + n] = False
        return np.array_equal(self.raw[m], self.whole[m])


# name: (argument names in order, reference)  a,b,d: inputs, y: output or in/out, k,k2: constants
OPS = {
    'vectorZero': ('y', lambda v: v['y'] * 0),
    'vectorFill': ('ky', lambda v: v['y'] * 0 + v['k']),
    'vectorCopy': ('ay', lambda v: v['a']),
    'vectorAdd': ('aby', lambda v: v['a'] + v['b']),
    'vectorAddInplace': ('ay', lambda v: v['a'] + v['y']),
    'vectorAddConstant': ('kay', lambda v: v['a'] + v['k']),
    'vectorAddConstantInplace': ('ky', lambda v: v['y'] + v['k']),
    'vectorSubtract': ('aby', lambda v: v['a'] - v['b']),
    'vectorSubtractInplace': ('ay', lambda v: v['a'] - v['y']),
    'vectorSubtractConstant': ('kay', lambda v: v['a'] - v['k']),
    'vectorSubtractConstantInplace': ('ky', lambda v: v['y'] - v['k']),
    'vectorMultiply': ('aby', lambda v: v['a'] * v['b']),
    'vectorMultiplyInplace': ('ay', lambda v: v['a'] * v['y']),
    'vectorMultiplyConstant': ('kay', lambda v: v['a'] * v['k']),
    'vectorMultiplyConstantInplace': ('ky', lambda v: v['y'] * v['k']),
    'vectorMultiplyAdd': ('abdy', lambda v: v['a'] * v['b'] + v['d']),
    'vectorMultiplyAddInplace': ('aby', lambda v: v['a'] * v['b'] + v['y']),
    'vectorMultiplyConstantAdd': ('kaby', lambda v: v['a'] * v['k'] + v['b']),
    'vectorMultiplyConstantAddInplace': ('kay', lambda v: v['a'] * v['k'] + v['y']),
}
NAMES = sorted(OPS)


def bad_kind(c):
    return c.pick(['short', 'strided', '2d', 'reversed', 'readonly'])


def kernels(c):
    t = c.pick(['f', 'd', 'cf', 'cd'])
    dt = DT[t]
    r = c.rng()
    n = c.wide(0, 40, 1500)
    vec = c.chance(30)
    align = c.pick([0, 1, 2, 4, 8])
    name = c.pick(NAMES)
    spec, ref = OPS[name]
    arrays = [s for s in spec if s in 'abdy']
    bad = c.draw(len(arrays)) if n > 1 and c.chance(25) else None
    badk = bad_kind(c) if bad is not None else None
    if vec and badk not in (None, 'short'):
        badk = 'short'
    # the promised alignment is usually kept
    breaks = not vec and bad is None and align > 1 and n > 0 and c.chance(15)
    brk = c.draw(len(arrays)) if breaks else None
    args, vals = {}, {}
    call = []
    i = 0
    for s in spec:
        if s in 'k':
            vals[s] = scal(r, dt)
            call.append(vals[s].item())
            continue
        extra = c.size(0, 3)
        ln, kind = max(1, n + extra), 'vector' if vec else 'array'
        if bad == i:
            if badk == 'short':
                ln = c.size(0, n - 1)
            else:
                kind = badk
                if kind == 'readonly' and s != 'y':
                    kind = 'strided'
        off = (c.size(0, 2) * max(align, 1)) % 8 if not vec else 0
        if brk == i:
            off = 1
        elif not vec and kind != 'array' and kind != 'readonly':
            off = 0
        args[s] = Arg(c, r, dt, ln, kind, off)
        call.append(args[s].obj)
        i += 1
    keyword_acc = None
    c.note(name, t, 'n=%d align=%d' % (n, align), 'containers=vector' if vec else 'containers=array',
           'bad=%s:%s' % (arrays[bad], badk) if bad is not None else '', 'misaligned=%s' % arrays[brk] if breaks else '')
    f = getattr(efl, name)
    if bad is not None or breaks:
        must_throw(lambda: f(*call, n, align), name + ' with an unsuitable argument')
        for k, a in args.items():
            check(a.unchanged(), '%s: argument %s was changed although the call was refused' % (name, k))
        c.label('refused:' + (badk if bad is not None else 'alignment'))
        c.nontrivial()
        return
    must_not_throw(lambda: f(*call, n, align), name)
    if n:
        c.nontrivial()
    c.label(name)
    W = WIDE[t]
    v = {k: a.init[:n].astype(W) for k, a in args.items()}
    v.update({k: np.asarray(x, W) for k, x in vals.items()})
    want = ref(v)
    got = args['y'].now()[:n]
    eps = np.finfo(dt).eps
    err = np.abs(got.astype(W) - want)
    check(np.all(err <= 60 * eps), lambda: '%s %s: got %s, definition gives %s' % (name, t, got, want.astype(dt)))
    check(args['y'].outside_ok(n), '%s changed elements beyond the requested number' % name)
    for k, a in args.items():
        if k != 'y':
            check(a.unchanged(), '%s modified its input %s' % (name, k))


def ramp(c):
    t = c.pick(['f', 'd', 'cf', 'cd'])
    dt = DT[t]
    r = c.rng()
    n = c.wide(0, 40, 1500)
    kind = 'vector' if c.chance(30) else 'array'
    eps = np.finfo(dt).eps
    y = Arg(c, r, dt, n + c.size(0, 3), kind)
    k, k2 = scal(r, dt), scal(r, dt)
    W = WIDE[t]
    if c.flag():
        f1, f2 = c.flag(), c.flag()
        c.note('vectorRamp', t, kind, 'n=%d %s..%s' % (n, k, k2), f1, f2)
        must_not_throw(lambda: efl.vectorRamp(y.obj, n, k.item(), k2.item(), f1, f2), 'vectorRamp')
        if n == 1:
            want = np.asarray([(W(k) + W(k2)) / 2 if f1 == f2 else (k if f1 else k2)], W)
        else:
            steps = n + 1 - f1 - f2
            want = W(k) + (W(k2) - W(k)) * ((np.arange(n) + (0 if f1 else 1)) / np.longdouble(steps if steps else 1))
    else:
        a = Arg(c, r, dt, n + c.size(0, 3), kind)
        b = Arg(c, r, dt, n + c.size(0, 3), kind)
        acc = c.flag()
        c.note('vectorRampScaling', t, kind, 'n=%d' % n, 'accumulate' if acc else '')
        must_not_throw(lambda: efl.vectorRampScaling(a.obj, b.obj, y.obj, k.item(), k2.item(), n, acc), 'vectorRampScaling')
        want = (W(k) + W(k2) * b.init[:n].astype(W)) * a.init[:n].astype(W)
        if acc:
            want = want + y.init[:n].astype(W)
        check(a.unchanged() and b.unchanged(), 'vectorRampScaling modified an input')
    if n:
        c.nontrivial()
    got = y.now()[:n]
    check(np.all(np.abs(got.astype(W) - want) <= 100 * eps), lambda: 'got %s, definition gives %s' % (got, want.astype(dt)))
    check(y.outside_ok(n), 'elements beyond the requested number changed')


CONV = [np.float32, np.float64, np.int8, np.int16, np.int32, np.int64]


def convert(c):
    vec = c.chance(20)
    it, ot = (c.pick(CONV[:2]), c.pick(CONV[:2])) if vec else (c.pick(CONV), c.pick(CONV))
    form = c.draw(4)
    r = c.rng()
    n = c.wide(0, 30, 600)
    si = c.size(1, 4) if form & 1 else 1
    so = c.size(1, 4) if form & 2 else 1
    need_i = (n - 1) * si + 1 if n else 0
    need_o = (n - 1) * so + 1 if n else 0
    # an array may hold exactly what is touched, more, or less
    short = c.weighted([5, 1, 1]) if n > 0 else 0
    li = c.size(0, need_i - 1) if short == 1 else n * si + c.size(0, 3)
    lo = c.size(0, need_o - 1) if short == 2 else n * so + c.size(0, 3)
    vals = r.integers(-120, 121, li).astype(np.float64)
    if np.issubdtype(it, np.floating):
        vals = vals + r.integers(0, 4, li) * 0.25
    rawi = np.full(li + 400, 55, it)
    rawi[:li] = vals.astype(it)
    rawo = np.full(lo + 400, 99, ot)
    if vec:
        mk = lambda a: (efl.BasicVectorFloat if a.dtype == np.float32 else efl.BasicVectorDouble)(a)
        src, dst = mk(rawi[:li]), mk(rawo[:lo])
    else:
        src, dst = rawi[:li], rawo[:lo]
    name = ['vectorConvert', 'vectorConvertInputStride', 'vectorConvertOutputStride', 'vectorConvertInputOutputStride'][form]
    strides = [s for s, u in ((si, form & 1), (so, form & 2)) if u]
    c.note(name, np.dtype(it).name, '->', np.dtype(ot).name, 'n=%d' % n, 'strides', strides, 'lengths', li, lo)
    f = getattr(efl, name)
    if short:
        c.label('too-short')
        c.nontrivial()
        must_throw(lambda: f(src, dst, n, *strides), name + ' reaching beyond the end of an array')
        check(np.all(np.asarray(dst) == 99) and np.all(rawo == 99), name + ': destination changed although the call was refused')
        return
    must_not_throw(lambda: f(src, dst, n, *strides), name)
    if n:
        c.nontrivial()
    want = np.full(lo, 99, ot)
    x = rawi[:li][::si][:n].astype(np.float64)
    if np.issubdtype(ot, np.integer):
        x = np.rint(x)
    want[::so][:n] = x.astype(ot)
    got = np.asarray(dst)
    check(np.array_equal(got, want), lambda: '%s: got %s expected %s' % (name, got, want))
    check(np.all(rawo[lo:] == 99), name + ' wrote beyond the destination')


def strided(c):
    t = c.pick(['f', 'd', 'cf', 'cd'])
    r = c.rng()
    dt = DT[t]
    n, ss, ds = c.wide(0, 20, 400), c.wide(1, 5, 30), c.wide(1, 5, 30)
    kind = 'vector' if c.chance(30) else 'array'
    short = c.weighted([5, 1, 1]) if n > 0 else 0
    la = c.size(0, (n - 1) * ss) if short == 1 else n * ss + c.size(0, 2)
    lb = c.size(0, (n - 1) * ds) if short == 2 else n * ds + c.size(0, 2)
    a, y = Arg(c, r, dt, la, kind), Arg(c, r, dt, lb, kind)
    c.note('vectorCopyStrided', t, kind, 'n=%d strides %d,%d lengths %d,%d' % (n, ss, ds, la, lb))
    call = lambda: efl.vectorCopyStrided(a.obj, y.obj, ss, ds, n, 0)
    if n:
        c.nontrivial()
    if short:
        must_throw(call, 'vectorCopyStrided reaching beyond the end of an array')
        check(a.unchanged() and y.unchanged(), 'changed although refused')
        return
    must_not_throw(call, 'vectorCopyStrided')
    want = y.init.copy()
    want[::ds][:n] = a.init[::ss][:n]
    check(np.array_equal(y.now(), want), lambda: 'got %s expected %s' % (y.now(), want))
    check(y.outside_ok(lb), 'wrote outside')


def iir(c):
    """biquad cascade, block by block, any state and coefficient stride"""
    t = c.pick(['f', 'd'])
    dt = DT[t]
    r = c.rng()
    ns = c.size(1, 4)
    blocks = [c.size(0, 20) for _ in range(c.size(1, 4))]
    sst, cst = c.size(2, 4), c.size(5, 7)
    vec = c.chance(30)
    mk = (lambda a: (efl.BasicVectorFloat if dt == np.float32 else efl.BasicVectorDouble)(a)) if vec else (lambda a: a)
    co = np.zeros(ns * cst, dt)
    sos = []
    for s in range(ns):
        rad, ang = r.uniform(0, 0.9), r.uniform(0, np.pi)
        b = r.uniform(-1, 1, 3)
        a = [-2 * rad * np.cos(ang), rad * rad]
        co[s * cst:s * cst + 5] = list(b) + a
        sos.append(co[s * cst:s * cst + 5].astype(np.float64))
        co[s * cst + 5:(s + 1) * cst] = 1e3
    st = np.zeros(ns * sst, dt)
    for s in range(ns):
        st[s * sst + 2:(s + 1) * sst] = 123
    cobj, sobj = mk(co), mk(st)
    x = r.uniform(-1, 1, sum(blocks)).astype(dt)
    want = x.astype(np.float64)
    for b0, b1, b2, a1, a2 in sos:
        o = np.zeros_like(want)
        x1 = x2 = y1 = y2 = 0.0
        for i, v in enumerate(want):
            o[i] = b0 * v + b1 * x1 + b2 * x2 - a1 * y1 - a2 * y2
            x2, x1, y2, y1 = x1, v, y1, o[i]
        want = o
    c.note('iir', t, 'sections=%d blocks=%s strides %d,%d' % (ns, blocks, sst, cst), 'vector' if vec else 'array')
    if len(blocks) > 1 and len(x) > 2:
        c.nontrivial()
    pos = 0
    got = np.zeros_like(x)
    for b in blocks:
        out = np.full(b + 8, 99, dt)
        xin = np.ascontiguousarray(x[pos:pos + b])
        oo = mk(out[:b])
        efl.iirFilterBiquadsSingleChannel(mk(xin), oo, sobj, cobj, b, ns, sst, cst, 0)
        got[pos:pos + b] = np.asarray(oo)
        check(np.all(out[b:] == 99), 'filter wrote beyond its output')
        pos += b
    tol = (2e-3 if t == 'f' else 1e-9) * max(1, np.max(np.abs(want)) if len(want) else 1)
    check(np.all(np.abs(got - want) <= tol), lambda: 'filtered signal differs by %g' % np.max(np.abs(got - want)))
    sa = np.asarray(sobj)
    for s in range(ns):
        check(np.all(sa[s * sst + 2:(s + 1) * sst] == 123), 'filter state gaps were overwritten')
    # too small state or coefficient arrays are refused
    which = c.draw(2)
    bad = [mk(x[:1] if len(x) else np.zeros(1, dt)), mk(np.zeros(1, dt)), sobj, cobj]
    small = mk(np.zeros(c.size(0, (ns - 1) * (sst, cst)[which] + (1, 4)[which]), dt))
    bad[2 + which] = small
    must_throw(lambda: efl.iirFilterBiquadsSingleChannel(*bad, 1, ns, sst, cst, 0), 'IIR filter with too small %s array' % ('state', 'coefficient')[which])


def containers(c):
    """construction from any array layout, views share memory, element access, resize"""
    t = c.pick(['f', 'd', 'cf', 'cd'])
    dt = DT[t]
    r = c.rng()
    two = c.flag()
    param = c.flag()
    shape = (c.wide(0, 6, 40), c.wide(0, 9, 60)) if two else (c.wide(0, 14, 300),)
    align = c.pick([1, 2, 4, 8])
    mod = pml if param else efl
    cls = getattr(mod, ('MatrixParameter' if two else 'VectorParameter') + SUF[t] if param else
                  ('BasicMatrix' if two else 'BasicVector') + SUF[t])
    model = rnd(r, int(np.prod(shape)), dt).reshape(shape)
    layout = c.pick(['C', 'F', 'strided', 'reversed'])
    src = model
    if layout == 'F':
        src = np.asfortranarray(model)
    elif layout == 'strided':
        big = np.full(tuple(2 * s + 1 for s in shape), 9, dt)
        src = big[tuple(slice(1, None, 2) for _ in shape)]
        src[...] = model
    elif layout == 'reversed':
        src = np.ascontiguousarray(model[tuple(slice(None, None, -1) for _ in shape)])[tuple(slice(None, None, -1) for _ in shape)]
    c.note(cls.__name__, 'shape', shape, layout, 'alignment=%d' % align)
    if model.size > 1:
        c.nontrivial()
    model = model.copy()
    obj = must_not_throw(lambda: cls(src, align), 'construction from a numpy array')
    check(obj.alignment == align, 'alignment %s instead of %s' % (obj.alignment, align))

    def same(where):
        v = np.asarray(obj)
        check(v.shape == model.shape and v.dtype == dt, '%s: shape %s type %s, expected %s' % (where, v.shape, v.dtype, model.shape))
        check(np.array_equal(v, model), lambda: '%s: holds %s, expected %s' % (where, v, model))
        if two:
            check((obj.numberOfRows, obj.numberOfColumns) == model.shape, where + ': reported dimensions')
        else:
            check(obj.size == model.shape[0], where + ': reported size')
    same('after construction')
    src_before = src.copy()
    for _ in range(c.size(0, 6)):
        op = c.weighted([3, 3, 2, 1, 2, 1, 1])
        if op == 0 and model.size:  # write through a view
            v = np.array(obj, copy=False)
            idx = tuple(c.draw(s) for s in model.shape)
            x = scal(r, dt)
            v[idx] = x
            model[idx] = x
            check(obj[idx if two else idx[0]] == x, 'a value written through the numpy view is not seen by the container')
        elif op == 1 and model.size:  # write an element, seen through an older view
            v = np.array(obj, copy=False)
            idx = tuple(c.draw(s) for s in model.shape)
            x = scal(r, dt)
            obj[idx if two else idx[0]] = x.item()
            model[idx] = x
            check(v[idx] == x, 'a value written to the container is not seen by the numpy view')
        elif op == 2:  # out of range access
            idx = tuple(s + c.size(0, 2) if i == 0 else c.draw(max(1, s)) for i, s in enumerate(model.shape))
            if two and c.flag():
                idx = (c.draw(max(1, model.shape[0])), model.shape[1] + c.size(0, 2))
            key = idx if two else idx[0]
            must_throw(lambda: obj[key], 'reading element %s of shape %s' % (idx, model.shape))
            must_throw(lambda: obj.__setitem__(key, 1), 'writing element %s of shape %s' % (idx, model.shape))
        elif op == 3:
            obj.zeroFill()
            model = np.zeros_like(model)
        elif op == 4:  # resize zeroes / keeps dimensions
            shape = (c.wide(0, 6, 40), c.wide(0, 9, 60)) if two else (c.wide(0, 14, 300),)
            obj.resize(*shape)
            obj.zeroFill()
            model = np.zeros(shape, dt)
        elif op == 5 and not two:
            if c.flag():
                new = rnd(r, model.size, dt)
                big = np.full(2 * model.size + 1, 3, dt)
                w = big[1::2][:model.size]
                w[...] = new
                step = -1 if c.flag() else 1
                obj.set(w[::step])
                model = new[::step].copy()
            else:
                must_throw(lambda: obj.set(np.zeros(model.size + c.size(1, 3), dt)), 'set() with the wrong length')
        elif op == 6 and not two:
            check(np.array_equal(np.array(list(obj), dt), model), 'iteration differs from the content')
        same('after operation %d' % op)
    check(np.array_equal(src, src_before), 'the source array was changed through the container')
    # wrong number of dimensions
    must_throw(lambda: cls(np.zeros((2, 2, 2) if c.flag() else ((2,) if two else (2, 2)), dt), align), 'array with the wrong number of dimensions')


def convolver(c):
    """convolution engines driven block by block from Python, against direct convolution;
    routings and filters changing between the blocks (multichannel engine)"""
    kind = c.pick(['Multichannel', 'Crossfading', 'Interpolating'])
    t = c.pick(['f', 'd'])
    dt = DT[t]
    r = c.rng()
    P = c.pick([4, 8, 16])
    nin, nout = c.wide(1, 3, 10), c.wide(1, 3, 10)
    maxlen = c.wide(1, 40, 400)
    nf = c.wide(1, 4, 30)
    order = c.wide(1, 3, 10) if kind == 'Interpolating' else 0
    align = c.pick([0, 4])
    fir = np.zeros((nf, maxlen), dt)
    for i in range(nf):
        fir[i, :c.size(1, maxlen)] = 1
    fir *= r.uniform(-1, 1, fir.shape).astype(dt)
    maxr = nin * nout
    routes = {}
    for _ in range(c.size(0, 5)):
        # the interpolating engine has one slot (interpolated filter) per routing point
        routes[(c.draw(nin), c.draw(nout))] = (c.draw(maxr if order else nf), float(dt(c.sym(2))))
    rl = rbbl.FilterRoutingList([rbbl.FilterRouting(i, o, f, g) for (i, o), (f, g) in routes.items()])
    check(len(rl) == rl.size == len(routes), 'length of the routing list')
    check({(e.inputIndex, e.outputIndex): (e.filterIndex, e.gain) for e in rl} == routes, 'content of the routing list')
    mk = lambda a: (efl.BasicMatrixFloat if t == 'f' else efl.BasicMatrixDouble)(np.ascontiguousarray(a), align)
    interp = {}
    a = dict(numberOfInputs=nin, numberOfOutputs=nout, blockLength=P, maxFilterLength=maxlen, maxRoutingPoints=maxr,
             maxFilterEntries=nf, initialRoutings=rl, initialFilters=mk(fir), alignment=align)
    if kind == 'Crossfading':
        a['transitionSamples'] = P
    if kind == 'Interpolating':
        # for this engine the filter index of a routing is the index of an interpolant
        a['transitionSamples'] = P
        a['numberOfInterpolants'] = order
        for f in sorted({f for f, g in routes.values()}):
            interp[f] = ([c.draw(nf) for _ in range(order)], [float(np.float32(c.real(0, 1))) for _ in range(order)])
        a['initialInterpolants'] = rbbl.InterpolationParameterSet(
            [rbbl.InterpolationParameter(f, ix, w) for f, (ix, w) in interp.items()])
    cls = getattr(rbbl, kind + 'ConvolverUniform' + SUF[t])
    cv = must_not_throw(lambda: cls(**a), 'construction of ' + cls.__name__)
    c.note(cls.__name__, '%dx%d block=%d filters=%dx%d' % (nin, nout, P, nf, maxlen), 'routings', routes, 'interpolants', interp)
    want = dict(numberOfInputs=nin, numberOfOutputs=nout, blockLength=P, maxFilterLength=maxlen, maxNumberOfRoutingPoints=maxr,
                maxNumberOfFilterEntries=nf, numberOfRoutingPoints=len(routes))
    if order:
        want['numberOfInterpolants'] = order
    blocks = c.wide(1, 8, 50)
    x = np.zeros((nin, blocks * P), dt)
    out = np.zeros((nout, blocks * P), dt)
    layout = c.pick(['slice', 'copy', 'reversed', 'wide'])
    if routes and blocks > 1:
        c.nontrivial()
    for b in range(blocks):
        for k, v in want.items():
            check(getattr(cv, k) == v, lambda: 'property %s is %s, expected %s' % (k, getattr(cv, k), v))
        if b and kind == 'Multichannel' and c.chance(40):
            op = c.draw(4)
            if op == 0:
                p, v = (c.draw(nin), c.draw(nout)), (c.draw(nf), float(dt(c.sym(2))))
                if c.flag():
                    cv.setRoutingEntry(*p, *v)
                else:
                    cv.setRoutingEntry(rbbl.FilterRouting(*p, *v))
                routes[p] = v
            elif op == 1:
                p = (c.draw(nin), c.draw(nout))
                check(cv.removeRoutingEntry(*p) == (p in routes), 'result of removeRoutingEntry')
                routes.pop(p, None)
            elif op == 2:
                fir = r.uniform(-1, 1, (nf, maxlen)).astype(dt)
                cv.initFilters(mk(fir))
            else:
                fi, ln = c.draw(nf), c.size(0, maxlen)
                ir = r.uniform(-1, 1, ln + c.size(0, 2)).astype(dt)
                cv.setImpulseResponse(ir, ln, fi)
                fir[fi] = 0
                fir[fi, :ln] = ir[:ln]
            want['numberOfRoutingPoints'] = len(routes)
            c.note('block %d: change %d' % (b, op))
        x[:, b * P:(b + 1) * P] = r.uniform(-1, 1, (nin, P))
        xb = x[:, b * P:(b + 1) * P]
        if layout == 'copy':
            xb = xb.copy()
        elif layout == 'reversed':
            xb = np.ascontiguousarray(xb[::-1])[::-1]
        elif layout == 'wide':
            w = np.full((2 * nin, P + 3), 7, dt)
            w[::2, 1:P + 1] = xb
            xb = w[::2, 1:P + 1]
        y = must_not_throw(lambda: cv.process(xb), 'process')
        check(y.shape == (nout, P) and y.dtype == dt, lambda: 'result has shape %s type %s' % (y.shape, y.dtype))
        ref = np.zeros((nout, P))
        for (i, o), (f, g) in routes.items():
            h = fir[f].astype(float) if not order else sum(w * fir[k].astype(float) for k, w in zip(*interp[f]))
            full = np.convolve(x[i, :(b + 1) * P].astype(float), h)
            ref[o] += g * full[b * P:(b + 1) * P]
        tol = (1e-3 if t == 'f' else 1e-10)
        check(np.all(np.abs(y - ref) <= tol), lambda: 'block %d differs from the direct convolution by %g' % (b, np.max(np.abs(y - ref))))
    # unsuitable blocks are refused
    bad = c.draw(4)
    xb = (np.zeros((nin + 1, P), dt), np.zeros((nin, P + 1), dt), np.zeros((nin, 2 * P), dt)[:, ::2], np.zeros((1, nin, P), dt))[bad]
    must_throw(lambda: cv.process(xb), 'process() with an unsuitable block %s' % (xb.shape,))


pbt.run({'rule': 'non-trivial: at least one element processed or a call that has to be refused',
         'subs': [('kernels', kernels, 40000, 800000), ('ramps', ramp, 8000, 150000), ('conversions', convert, 16000, 300000),
                  ('strided-copies', strided, 8000, 100000), ('biquads', iir, 3000, 50000), ('containers', containers, 12000, 200000),
                  ('convolvers', convolver, 5000, 100000)]})
