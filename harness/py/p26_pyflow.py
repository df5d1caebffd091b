"""P26: signal flows built and driven from Python."""
import copy, gc, pickle
import numpy as np
import pbt
from pbt import check, must_throw, must_not_throw
import visr, efl, rbbl, pml, objectmodel as om, rrl, rcl

DT = {'Float': np.float32, 'Double': np.float64, 'LongDouble': np.longdouble, 'Int8': np.int8, 'Uint8': np.uint8,
      'Int16': np.int16, 'Uint16': np.uint16, 'Int32': np.int32, 'Uint32': np.uint32,
      'ComplexFloat': np.complex64, 'ComplexDouble': np.complex128}
TID = {t: getattr(visr.AudioSampleType, t[0].lower() + t[1:] + 'Id') for t in DT}
IN = {t: getattr(visr, 'AudioInput' + t) for t in DT}
OUT = {t: getattr(visr, 'AudioOutput' + t) for t in DT}
EPC = pml.EmptyParameterConfig


def enc(v, t):
    """Small nonnegative integers as samples of a type; complex types carry a second component."""
    v = np.asarray(v)
    return (v + 1j * (63 - v)).astype(DT[t]) if 'Complex' in t else v.astype(DT[t])


def dec(a, t):
    if 'Complex' in t:
        check(np.all(a.imag == 63 - a.real), 'imaginary parts of a complex signal are wrong')
        a = a.real
    r = np.asarray(a).astype(np.int64)
    check(np.all(r == a), 'samples are not the integers that were sent: %s' % a)
    return r


# ---- arrays of any layout ---------------------------------------------------------------------------------------

def layout(c, a):
    """An array with the content of the 2-D array a in some memory layout, plus the array that owns the memory."""
    k = c.draw(11)
    n, m = a.shape
    if k == 0:
        r = np.ascontiguousarray(a)
    elif k == 1:
        r = np.asfortranarray(a)
    elif k == 2:
        r = np.ascontiguousarray(a[:, ::-1])[:, ::-1]
    elif k == 3:
        r = np.ascontiguousarray(a[::-1])[::-1]
    elif k == 4:
        s1, s2 = c.range(1, 3), c.range(1, 3)
        b = np.full((n * s1 + 1, m * s2 + 2), 99, a.dtype)
        r = b[1:1 + n * s1:s1, 2:2 + m * s2:s2]
        r[...] = a
    elif k == 5 and n and m:
        # identical rows or samples without strides
        if (a == a[:1]).all():
            r = np.broadcast_to(a[0].copy(), a.shape)
        elif (a == a[:, :1]).all():
            r = np.broadcast_to(a[:, :1].copy(), a.shape)
        else:
            r = a.copy()
    elif k == 6:
        pad = c.range(1, 7)
        d = np.dtype({'names': ['v'], 'formats': [a.dtype], 'offsets': [c.draw(pad + 1)], 'itemsize': a.dtype.itemsize + pad})
        b = np.zeros(a.shape, d)
        b['v'] = a
        r = b['v']
    elif k == 7:
        off = c.range(1, 7)
        raw = np.zeros(a.nbytes + 16, np.uint8)
        r = raw[off:off + a.nbytes].view(a.dtype).reshape(a.shape)
        r[...] = a
    elif k == 8:
        r = a.copy()
        r.setflags(write=False)
    elif k == 9:
        r = pickle.loads(pickle.dumps(a))
    else:
        r = np.lib.stride_tricks.as_strided(np.zeros(1 + 2 * n * m, a.dtype), a.shape, ((2 * a.itemsize), 2 * n * a.itemsize)) \
            if n and m else a.copy()
        r[...] = a
    check(np.array_equal(r, a), 'harness: layout')
    c.label('layout %d' % k)
    return r


def rnd(c, n, m, hi=64):
    k = c.draw(4)
    if k == 0:
        return np.repeat(np.asarray([[c.draw(hi)] for _ in range(n)], np.int64).reshape(n, 1), m, 1)
    if k == 1:
        return np.repeat(c.rng().integers(0, hi, (1, m)), n, 0).astype(np.int64)
    return c.rng().integers(0, hi, (n, m)).astype(np.int64)


# ---- components in Python ------------------------------------------------------------------------------------------

class Boom(Exception):
    pass


class Lin(visr.AtomicComponent):
    """Outputs are linear combinations of the inputs (modulo 64), optionally delayed by one block."""

    def __init__(self, ctx, name, parent, spec):
        super().__init__(ctx, name, parent)
        self.spec = spec
        self.inp, self.out = [], []
        for i, (t, w) in enumerate(spec['ins']):
            k = spec['style'][i % 3]
            p = IN[t](spec['in'][i], self, w) if k else IN[t](parent=self, name=spec['in'][i])
            if not k:
                p.width = w
            self.inp.append(p)
        for i, (t, w) in enumerate(spec['outs']):
            self.out.append(OUT[t](name=spec['out'][i], parent=self, width=w))
        self.n = 0
        self.fail_at = None
        self.last = None
        self.prev = np.zeros((sum(w for t, w in spec['outs']), self.period()), np.int64)

    def process(self):
        s = self.spec
        rows = []
        for (t, w), p, mode in zip(s['ins'], self.inp, s['read']):
            if mode == 0:
                a = np.array(p)
            elif mode == 1:
                a = p.data()
            elif mode == 2:
                a = np.array([p.channel(i) for i in range(w)], None if w else DT[t]).reshape(w, self.period())
            else:
                a = np.array([p[i] for i in range(w)], DT[t]).reshape(w, self.period())
            check(a.shape == (w, self.period()) and a.dtype == DT[t], 'samples of an input are an array %s of %s' % (a.shape, a.dtype))
            rows.append(dec(a, t))
        x = np.concatenate(rows) if rows else np.zeros((0, self.period()), np.int64)
        self.last = x.copy()
        if self.fail_at == self.n:
            self.n += 1
            raise Boom('block %d of %s' % (self.n - 1, s['name']))
        y = (s['coef'] @ x + s['const'] + s['ramp'] * self.n) % 64
        self.n += 1
        if s['delay']:
            y, self.prev = self.prev, y
        r = 0
        for (t, w), p, mode in zip(s['outs'], self.out, s['write']):
            a = enc(y[r:r + w], t)
            r += w
            if mode == 0:
                p.set(a)
            elif mode == 1:
                p.set(np.asfortranarray(a))
            elif mode == 2:
                p.set(np.ascontiguousarray(a[:, ::-1])[:, ::-1])
            elif mode == 3:
                p.data()[...] = a
            elif mode == 4:
                for i in range(w):
                    p.channel(i)[:] = a[i]
            elif mode == 5:
                for i in range(w):
                    p[i][:] = a[i]
            else:
                np.asarray(p)[...] = a
            check(np.array_equal(np.array(p), a), 'samples of an output are not those written (mode %d)' % mode)


def lin_spec(c, name, ins, outs, stateful=True, maxcoef=3):
    no, ni = sum(w for t, w in outs), sum(w for t, w in ins)
    g = c.rng()
    return {'kind': 'lin', 'name': name, 'ins': ins, 'outs': outs, 'in': ['in%d' % i for i in range(len(ins))],
            'out': ['out%d' % i for i in range(len(outs))], 'style': [c.draw(2) for _ in range(3)],
            'read': [c.draw(4) for _ in ins], 'write': [c.draw(7) for _ in outs],
            'coef': g.integers(-maxcoef, maxcoef + 1, (no, ni)).astype(np.int64), 'const': g.integers(0, 64, (no, 1)).astype(np.int64),
            'ramp': c.draw(5), 'delay': stateful and c.chance(25)}


# ---- random hierarchical flows ---------------------------------------------------------------------------------------

TOPT = list(DT)


def gen_composite(c, depth, name, ins, budget, period):
    """A composite: children in an order in which they can be processed, each input channel with a source."""
    pool = []  # (source, type, bound)
    for p, (t, w) in enumerate(ins):
        pool += [(('in', p, ch), t, 63) for ch in range(w)]
    unused = set(s for s, t, b in pool)
    kids = []

    def types():
        return sorted(set(t for s, t, b in pool), key=TOPT.index)

    def feed(t, w, maxb=None):
        cand = [e for e in pool if e[1] == t and (maxb is None or e[2] <= maxb)]
        r = []
        run = c.flag() and w <= len(cand)
        st = c.draw(len(cand) - w + 1) if run else 0
        for i in range(w):
            fresh = [e for e in cand if e[0] in unused]
            e = cand[st + i] if run else c.pick(fresh) if fresh and c.flag() else c.pick(cand)
            unused.discard(e[0])
            r.append(e)
        return r

    def add(node, feeds, bounds):
        i = len(kids)
        kids.append({'node': node, 'feeds': [[e[0] for e in f] for f in feeds]})
        for p, ((t, w), bs) in enumerate(zip(node['outs'], bounds)):
            for ch in range(w):
                e = (('kid', i, p, ch), t, bs)
                pool.append(e)
                unused.add(e[0])

    nk = c.range(0 if depth or ins else 1, 4)
    for _ in range(nk):
        if budget[0] <= 0:
            break
        budget[0] -= 1
        nm = '%s%d' % (c.pick(['c', 'comp ', 'x.y', 'K_']), len(kids))
        floats = [e for e in pool if e[1] == 'Float' and e[2] < 1 << 14]
        kind = c.draw(7)
        if kind <= 2 or (kind in (3, 4, 5) and not floats):
            ts = types()
            pi = [(c.pick(ts), c.range(0, 3)) for _ in range(c.draw(3))] if ts else []
            po = [(c.pick(TOPT[:1] * 4 + TOPT), c.range(0, 3)) for _ in range(c.range(0 if pi else 1, 2))]
            if not any(w for t, w in pi + po):
                po.append(('Float', 1))
            add(lin_spec(c, nm, pi, po), [feed(t, w) for t, w in pi], [63] * len(po))
        elif kind == 3:
            n, w = c.range(1, 3), c.range(1, 3)
            f = [feed('Float', w, 1 << 14) for _ in range(n)]
            add({'kind': 'add', 'name': nm, 'ins': [('Float', w)] * n, 'outs': [('Float', w)], 'in': ['in%d' % i for i in range(n)],
                 'out': ['out']}, f, [n * (1 << 14)])
        elif kind == 4:
            ni, no = c.range(1, 4), c.range(1, 4)
            g = c.rng().integers(-2, 3, (no, ni)).astype(np.float32)
            f = [feed('Float', ni, 1 << 14)]
            add({'kind': 'gain', 'name': nm, 'ins': [('Float', ni)], 'outs': [('Float', no)], 'in': ['in'], 'out': ['out'], 'g': g,
                 'style': c.draw(3)}, f, [2 * ni * (1 << 14)])
        elif kind == 5:
            ni, no = c.range(1, 4), c.range(1, 4)
            r = [(c.draw(ni), o) for o in range(no) if c.chance(75)]
            f = [feed('Float', ni, 1 << 14)]
            add({'kind': 'route', 'name': nm, 'ins': [('Float', ni)], 'outs': [('Float', no)], 'in': ['in'], 'out': ['out'], 'r': r},
                f, [1 << 14])
        else:
            if depth >= 2:
                continue
            ts = types()
            pi = [(c.pick(ts), c.range(0, 3)) for _ in range(c.draw(4))] if ts else []
            f = [feed(t, w) for t, w in pi]
            sub = gen_composite(c, depth + 1, nm, pi, budget, period)
            # samples entering a composite can have grown outside
            b = max([e[2] for x in f for e in x] + [63])
            if b > 63 or not (sub['ins'] or sub['outs']):
                pi2 = lin_spec(c, nm, pi, [('Float', 1)], False)
                add(pi2, f, [63])
            else:
                add(sub, f, sub['bounds'])
    # outputs
    outs, ofeeds, ob = [], [], []
    ts = ['Float'] if depth == 0 else types()
    ts = [t for t in ts if t in types()]
    for _ in range(c.range(0, 2)):
        if not ts:
            break
        t, w = c.pick(ts), c.range(0, 3)
        f = feed(t, w)
        outs.append((t, w))
        ofeeds.append([e[0] for e in f])
        ob.append(max([e[2] for e in f] + [63]))
    # whatever is not used yet
    for t in types():
        rest = [e for e in pool if e[1] == t and e[0] in unused]
        if not rest:
            continue
        if (depth > 0 or t == 'Float') and c.chance(60):
            outs.append((t, len(rest)))
            ofeeds.append([e[0] for e in rest])
            ob.append(max(e[2] for e in rest))
        else:
            kids.append({'node': lin_spec(c, 'sink%d' % len(kids), [(t, len(rest))], []), 'feeds': [[e[0] for e in rest]]})
        for e in rest:
            unused.discard(e[0])
    return {'kind': 'comp', 'name': name, 'ins': ins, 'outs': outs, 'in': ['i%d' % i for i in range(len(ins))],
            'out': ['o%d' % i for i in range(len(outs))], 'kids': kids, 'ofeeds': ofeeds, 'bounds': ob}


class Comp(visr.CompositeComponent):
    def __init__(self, ctx, name, parent, node, c):
        super().__init__(ctx, name, parent)
        self.node = node
        self.inp = [self.port(c, True, nm, t, w) for nm, (t, w) in zip(node['in'], node['ins'])]
        self.out = [self.port(c, False, nm, t, w) for nm, (t, w) in zip(node['out'], node['outs'])]
        order = list(range(len(node['kids'])))
        shuffle(c, order)
        self.kids = [None] * len(order)
        for i in order:
            self.kids[i] = build(c, ctx, self, node['kids'][i]['node'])
        conn = []
        for i, k in enumerate(node['kids']):
            for p, f in enumerate(k['feeds']):
                conn += chunks(c, f, ('kid', i, p))
        for p, f in enumerate(node['ofeeds']):
            conn += chunks(c, f, ('out', p))
        shuffle(c, conn)
        self.nconn = 0
        for src, sch, dst, dch in conn:
            self.connect(c, src, sch, dst, dch)

    def port(self, c, isin, nm, t, w):
        if c.flag():
            return (IN if isin else OUT)[t](nm, self, w)
        p = (visr.AudioInput if isin else visr.AudioOutput)(nm, self, TID[t], 0 if c.flag() else w)
        p.width = w
        return p

    def end(self, e):
        """component name, port name, port"""
        if e[0] == 'kid':
            n = self.node['kids'][e[1]]['node']
            recv = len(e) == 4
            return n['name'], e
        return None, e

    def connect(self, c, src, sch, dst, dch):
        n = self.node
        if src[0] == 'in':
            sname, sport, sp, sw = c.pick(['', 'this']), n['in'][src[1]], self.inp[src[1]], n['ins'][src[1]][1]
        else:
            k = n['kids'][src[1]]['node']
            sname, sport, sw = k['name'], k['out'][src[2]], k['outs'][src[2]][1]
            sp = self.kids[src[1]].audioPort(sport)
        if dst[0] == 'out':
            rname, rport, rp, rw = c.pick(['', 'this']), n['out'][dst[1]], self.out[dst[1]], n['outs'][dst[1]][1]
        else:
            k = n['kids'][dst[1]]['node']
            rname, rport, rw = k['name'], k['in'][dst[2]], k['ins'][dst[2]][1]
            rp = self.kids[dst[1]].audioPort(rport)
        sall, rall = sch == list(range(sw)), dch == list(range(rw))
        self.nconn += 1
        k = c.draw(6)
        if sall and rall and k <= 1:
            c.label('connect whole ports')
            self.audioConnection(sp, rp) if k else self.audioConnection(sendPort=sp, receivePort=rp)
        elif k <= 2 and (sall or rall) and sch and dch:
            c.label('connect one side whole')
            if rall:
                self.audioConnection(sp, plain(c, sch), rp)
            else:
                self.audioConnection(sendPort=sp, receivePort=rp, receiveIndices=plain(c, dch))
        elif k == 3 and sch:
            c.label('connect lists')
            self.audioConnection(sp, plain(c, sch), rp, plain(c, dch))
        elif k == 4:
            c.label('connect channel lists')
            self.audioConnection(sp, chlist(c, sch), rp, chlist(c, dch))
        else:
            c.label('connect by name')
            self.audioConnection(sname, sport, chlist(c, sch), rname, rport, chlist(c, dch))


def shuffle(c, l):
    for i in range(len(l) - 1, 0, -1):
        j = i - c.draw(i + 1)
        l[i], l[j] = l[j], l[i]


def arith(l):
    if not l:
        return 0
    if len(l) == 1:
        return 1
    d = l[1] - l[0]
    return d if d > 0 and all(b - a == d for a, b in zip(l, l[1:])) else 0


def plain(c, l):
    d = arith(l)
    if d and c.flag():
        return range(l[0], l[-1] + 1, d)
    return tuple(l) if c.flag() else list(l)


def chlist(c, l):
    d = arith(l)
    k = c.draw(3)
    if d and k:
        r = visr.ChannelRange(l[0], l[-1] + 1, d) if d > 1 or c.flag() else visr.ChannelRange(l[0], l[-1] + 1)
        x = visr.ChannelList(r)
    elif k == 2:
        x = visr.ChannelList([0] * len(l))
        for i, v in enumerate(l):
            x[i] = v
    else:
        x = visr.ChannelList(list(l))
    check(len(x) == len(l) and x.size == len(l) and list(x) == list(l) and [x[i] for i in range(len(l))] == list(l),
          'channel list of %s is %s' % (l, list(x)))
    return x


def chunks(c, f, dst):
    """Connections that give the channels of a receiving port their sources."""
    by = {}
    for ch, s in enumerate(f):
        key = s[:2] if s[0] == 'in' else s[:3]
        by.setdefault(key, []).append((s[-1], ch))
    r = []
    for key, pairs in by.items():
        if c.chance(30):
            shuffle(c, pairs)
        while pairs:
            n = len(pairs) if c.chance(70) else c.range(1, len(pairs))
            r.append((key, [a for a, b in pairs[:n]], dst, [b for a, b in pairs[:n]]))
            pairs = pairs[n:]
    return r


def build(c, ctx, parent, n):
    if n['kind'] == 'lin':
        return Lin(ctx, n['name'], parent, n)
    if n['kind'] == 'add':
        return rcl.Add(ctx, n['name'], parent, n['ins'][0][1], len(n['ins']))
    if n['kind'] == 'gain':
        no, ni = n['g'].shape
        if n['style'] == 0:
            return rcl.GainMatrix(ctx, n['name'], parent, ni, no, 0, layout(c, n['g']), controlInput=False)
        if n['style'] == 1:
            return rcl.GainMatrix(ctx, n['name'], parent, ni, no, interpolationSteps=ctx.period * 2, initialGains=efl.BasicMatrixFloat(n['g'], 8),
                                  controlInput=False)
        n['g'] = np.full((no, ni), np.float32(2))
        return rcl.GainMatrix(ctx, n['name'], parent, ni, no, initialGains=2.0, controlInput=False)
    if n['kind'] == 'route':
        r = pml.SignalRoutingParameter([{'inputIndex': 0, 'outputIndex': 0}][:0]) if False else pml.SignalRoutingParameter()
        for i, o in n['r']:
            r.addRouting(i, o)
        return rcl.SignalRouting(ctx, n['name'], parent, n['ins'][0][1], n['outs'][0][1], r, False)
    return Comp(ctx, n['name'], parent, n, c)


class Model:
    def __init__(self, node, period):
        self.n, self.p = node, period
        self.kids = [Model(k['node'], period) for k in node.get('kids', [])]
        self.count = 0
        self.prev = np.zeros((sum(w for t, w in node['outs']), period), np.int64)
        self.last = None

    def __call__(self, ins):
        n = self.n
        if n['kind'] == 'comp':
            vals = []

            def get(s):
                return ins[s[1]][s[2]] if s[0] == 'in' else vals[s[1]][s[2]][s[3]]

            def rows(f):
                return np.asarray([get(s) for s in f], np.int64).reshape(len(f), self.p)
            for k, m in zip(n['kids'], self.kids):
                vals.append(m([rows(f) for f in k['feeds']]))
            return [rows(f) for f in n['ofeeds']]
        x = np.concatenate(ins) if ins else np.zeros((0, self.p), np.int64)
        if n['kind'] == 'lin':
            self.last = x
            y = (n['coef'] @ x + n['const'] + n['ramp'] * self.count) % 64
            self.count += 1
            if n['delay']:
                y, self.prev = self.prev, y
        elif n['kind'] == 'add':
            y = sum(ins)
        elif n['kind'] == 'gain':
            y = n['g'].astype(np.int64) @ x
        else:
            y = np.zeros((n['outs'][0][1], self.p), np.int64)
            for i, o in n['r']:
                y[o] += x[i]
        r, out = 0, []
        for t, w in n['outs']:
            out.append(y[r:r + w])
            r += w
        return out


def gen_top(c, period):
    ins = [('Float', c.range(0, 3)) for _ in range(c.draw(4))]
    if c.chance(15):
        outs = [('Float', c.range(0, 3)) for _ in range(c.range(0 if any(w for t, w in ins) else 1, 2))]
        return lin_spec(c, 'top', ins, outs)
    return gen_composite(c, 0, 'top', ins, [c.range(2, 12)], period)


def port_slices(flow, n):
    """Channel ranges of the ports of the outermost component, which have to cover the channels of the flow."""
    check(flow.numberOfAudioCapturePorts == len(n['ins']) and flow.numberOfAudioPlaybackPorts == len(n['outs']),
          'number of capture or playback ports')
    si, so = [], []
    for names, spec, sl, idx, nm, wd, off, ty, total in (
            (n['in'], n['ins'], si, flow.audioCapturePortIndex, flow.audioCapturePortName, flow.audioCapturePortWidth,
             flow.audioCapturePortOffset, flow.audioCapturePortSampleType, flow.numberOfCaptureChannels),
            (n['out'], n['outs'], so, flow.audioPlaybackPortIndex, flow.audioPlaybackPortName, flow.audioPlaybackPortWidth,
             flow.audioPlaybackPortOffset, flow.audioPlaybackPortSampleType, flow.numberOfPlaybackChannels)):
        seen = []
        for a, (t, w) in zip(names, spec):
            i = idx(a)
            check(nm(i) == a and wd(i) == w and ty(i) == TID[t], 'port %s of the flow has name %s, width %d' % (a, nm(i), wd(i)))
            sl.append(slice(off(i), off(i) + w))
            seen += list(range(off(i), off(i) + w))
        check(sorted(seen) == list(range(total)), 'channels of the ports are %s of %d' % (seen, total))
        must_throw(lambda: idx('no such port'), 'unknown port name')
        must_throw(lambda: nm(len(spec)), 'port index out of range')
    return si, so


def sinks(comp, model):
    if model.n['kind'] == 'lin':
        yield comp, model
    for k, m in zip(getattr(comp, 'kids', []), model.kids):
        yield from sinks(k, m)


def step(c, flow, n, model, si, so, run=None):
    x = [rnd(c, w, flow_period(flow, model)) for t, w in n['ins']]
    a = np.zeros((flow.numberOfCaptureChannels, model.p), np.float32)
    for s, v in zip(si, x):
        a[s] = v
    y = model(x)
    exp = np.zeros((flow.numberOfPlaybackChannels, model.p), np.int64)
    for s, v in zip(so, y):
        exp[s] = v
    arg = layout(c, a)
    b = flow.process(arg) if a.shape[0] or c.flag() else flow.process()
    check(b.dtype == np.float32 and b.shape == exp.shape, 'result is %s %s instead of %s' % (b.dtype, b.shape, exp.shape))
    check(np.array_equal(arg, a), 'input of a flow was modified')
    check(np.array_equal(b, exp), lambda: 'outputs differ in channels %s: %s instead of %s' % (
        [i for i in range(len(b)) if not np.array_equal(b[i], exp[i])], b.tolist(), exp.tolist()))
    return b


def flow_period(flow, model):
    return model.p


def graphs(c):
    period = c.pick([1, 2, 3, 4, 5, 8, 16, 33])
    fs = c.pick([48000, 44100, 8000, 192000, 1])
    ctx = visr.SignalFlowContext(period=period, samplingFrequency=fs)
    n = gen_top(c, period)
    top = build(c, ctx, None, n)
    check(rrl.checkConnectionIntegrity(top, True)[0] if n['kind'] == 'comp' else True,
          lambda: 'valid flow reported as inconsistent: %s' % rrl.checkConnectionIntegrity(top, True)[1])
    introspect(c, top, n, None)
    flow = rrl.AudioSignalFlow(top)
    model = Model(n, period)
    check(flow.numberOfCaptureChannels == sum(w for t, w in n['ins']) and
          flow.numberOfPlaybackChannels == sum(w for t, w in n['outs']), 'number of channels of the flow')
    si, so = port_slices(flow, n)
    for b in range(c.range(1, 5)):
        t = top.time()
        check(t.sampleCount == b * period and t.blockCount == b, 'time before block %d is %d' % (b, t.sampleCount))
        check(abs(t.renderingTime - b * period / fs) <= 1e-12 * b * period / fs, 'rendering time before block %d is %r' % (b, t.renderingTime))
        step(c, flow, n, model, si, so)
        for k, m in sinks(top, model):
            check(np.array_equal(k.last, m.last), lambda: 'inputs of %s are %s instead of %s' % (k.fullName, k.last, m.last))
    introspect(c, top, n, None, True)

    def count(n):
        return 1 + sum(count(k['node']) for k in n.get('kids', []))

    def deep(n):
        return 1 + max([deep(k['node']) for k in n.get('kids', [])] + [0])
    c.label('levels %d' % deep(n))
    c.label('components %d' % min(10, count(n)))
    if count(n) >= 4 and flow.numberOfPlaybackChannels:
        c.nontrivial()
    c.note('%d components, %d levels, %d in, %d out, period %d' % (count(n), deep(n), flow.numberOfCaptureChannels,
                                                                  flow.numberOfPlaybackChannels, period))


def introspect(c, comp, n, prefix, running=False):
    full = n['name'] if not prefix else prefix + comp.nameSeparator + n['name']
    check(comp.name == n['name'] and comp.fullName == full, 'names of a component are %s, %s instead of %s, %s' % (comp.name, comp.fullName, n['name'], full))
    check(comp.isComposite() == (n['kind'] == 'comp') and comp.isTopLevel() == (prefix is None), 'kind of component')
    exp = {nm: (t, w, 'Input') for nm, (t, w) in zip(n['in'], n['ins'])}
    exp.update({nm: (t, w, 'Output') for nm, (t, w) in zip(n['out'], n['outs'])})
    got = {}
    for p in comp.audioPorts:
        got[p.name] = (next(t for t in TID if TID[t] == p.sampleType), p.width, p.direction.name)
        check(p.qualifiedName == n['name'] + ':' + p.name and p.fullName == full + ':' + p.name, 'names of port %s: %s, %s' % (p.name, p.qualifiedName, p.fullName))
        check(p.sampleSize == np.dtype(DT[got[p.name][0]]).itemsize, 'sample size')
        check(comp.audioPort(p.name) is p, 'port found by its name')
    check(got == exp, 'ports of %s are %s instead of %s' % (full, got, exp))
    check(list(comp.parameterPorts) == [], 'parameter ports')
    must_throw(lambda: comp.audioPort('nope'), 'unknown port')
    if n['kind'] == 'comp':
        check(running or comp.numberOfComponents == len(n['kids']), 'number of components of %s: %d instead of %d' % (full, comp.numberOfComponents, len(n['kids'])))
        found = {k.name: k for k in comp.components()}
        check((set if running else sorted)(k['node']['name'] for k in n['kids']) == (set(found) & set(k['node']['name'] for k in n['kids']) if running else sorted(found)), 'components are %s' % sorted(found))
        want = []
        names = [k['node'] for k in n['kids']]
        for i, k in enumerate(n['kids']):
            for p, f in enumerate(k['feeds']):
                want += [(ref(n, s), s[-1], k['node']['name'], k['node']['in'][p], ch) for ch, s in enumerate(f)]
        for p, f in enumerate(n['ofeeds']):
            want += [(ref(n, s), s[-1], n['name'], n['out'][p], ch) for ch, s in enumerate(f)]
        have = []
        for a in comp.audioConnections():
            str(a)
            s, r = list(a.sendIndices), list(a.receiveIndices)
            check(len(s) == len(r), 'connection with %d and %d channels' % (len(s), len(r)))
            for x, y in zip(s, r):
                q, z = a.sender.qualifiedName.rsplit(':', 1), a.receiver.qualifiedName.rsplit(':', 1)
                have.append(((q[0], q[1]), x, z[0], z[1], y))
        check(sorted(have) == sorted(want), lambda: 'connections of %s: %s instead of %s' % (full, sorted(have), sorted(want)))
        for k, child in zip(n['kids'], comp.kids):
            check(found[k['node']['name']] is child, 'components() returns other objects')
            introspect(c, child, k['node'], '' if prefix is None else full, running)


def ref(n, s):
    if s[0] == 'in':
        return (n['name'], n['in'][s[1]])
    k = n['kids'][s[1]]['node']
    return (k['name'], k['out'][s[2]])


# ---- arrays passed to a flow ------------------------------------------------------------------------------------------

def layouts(c):
    period, w = c.range(1, 17), c.range(0, 4)
    ctx = visr.SignalFlowContext(period, 44100)
    spec = lin_spec(c, 'copy', [('Float', w)], [('Float', w)], False)
    spec['coef'], spec['const'], spec['ramp'] = np.eye(w, dtype=np.int64), np.zeros((w, 1), np.int64), 0
    if c.flag():
        top = Lin(ctx, 'copy', None, spec)
    else:
        n = {'kind': 'comp', 'name': 't', 'ins': [('Float', w)], 'outs': [('Float', w)], 'in': ['i'], 'out': ['o'], 'bounds': [63],
             'kids': [{'node': spec, 'feeds': [[('in', 0, i) for i in range(w)]]}], 'ofeeds': [[('kid', 0, 0, i) for i in range(w)]]}
        top = Comp(ctx, 't', None, n, c)
    flow = rrl.AudioSignalFlow(top)
    flex = rrl.FlexibleBufferWrapper(flow) if c.chance(40) else None
    hist = np.zeros((w, period), np.int64)
    for _ in range(c.range(1, 6)):
        if c.chance(25):
            bad = [lambda: np.zeros((w + 1, period), np.float32), lambda: np.zeros((w, period), np.float64),
                   lambda: np.zeros((w, period), '>f4'), lambda: np.zeros((w, period), np.int32), lambda: np.zeros(w * period, np.float32),
                   lambda: np.zeros((w, period, 1), np.float32), lambda: np.zeros((w, period), np.complex64)]
            if not flex:
                bad += [lambda: np.zeros((w, period + 1), np.float32)]
                if period > 1:
                    bad += [lambda: np.zeros((w, period - 1), np.float32), lambda: np.zeros((period, w), np.float32) if w != period else
                            np.zeros((w, 2 * period), np.float32)]
            a = c.pick(bad)()
            must_throw(lambda: (flex or flow).process(a), 'array %s %s for %d x %d' % (a.dtype, a.shape, w, period))
            c.label('refused')
            continue
        m = c.range(0, 3 * period) if flex else period
        x = rnd(c, w, m)
        arg = layout(c, x.astype(np.float32))
        if w == 0 and flex and c.flag():
            y = flex.process(m)
        else:
            y = (flex or flow).process(arg)
        check(np.array_equal(arg, x), 'input was modified')
        if flex:
            hist = np.concatenate([hist, x], 1)
            exp, hist = hist[:, :m], hist[:, m:]
        else:
            exp = x
        check(y.shape == exp.shape and y.dtype == np.float32 and np.array_equal(y, exp), lambda: 'got %s instead of %s' % (y, exp))
        y[...] = 0
        if w and m and not np.all(x == x[0, 0]):
            c.nontrivial()
    c.note('width %d, period %d, flexible %s' % (w, period, flex is not None))


def flexible(c):
    period = c.range(1, 12)
    ctx = visr.SignalFlowContext(period, 48000)
    n = gen_top(c, period)
    flow = rrl.AudioSignalFlow(build(c, ctx, None, n))
    model = Model(n, period)
    si, so = port_slices(flow, n)
    ni, no = flow.numberOfCaptureChannels, flow.numberOfPlaybackChannels
    flex = rrl.FlexibleBufferWrapper(flow)
    del flow
    gc.collect()
    pend = np.zeros((ni, 0), np.int64)
    out = np.zeros((no, period), np.int64)
    blocks = 0
    for _ in range(c.range(1, 8)):
        m = c.pick([0, 1, period - 1, period, period + 1, c.draw(3 * period + 1)])
        x = rnd(c, ni, m)
        pend = np.concatenate([pend, x], 1)
        while pend.shape[1] >= period:
            y = model([pend[s, :period] for s in si])
            blk = np.zeros((no, period), np.int64)
            for s, v in zip(so, y):
                blk[s] = v
            out = np.concatenate([out, blk], 1)
            pend = pend[:, period:]
            blocks += 1
        if ni == 0 and c.flag():
            b = flex.process(m) if c.flag() else flex.process(numFrames=m)
        else:
            b = flex.process(layout(c, x.astype(np.float32)))
        exp, out = out[:, :m], out[:, m:]
        check(b.shape == exp.shape and np.array_equal(b, exp), lambda: 'call with %d frames: %s instead of %s' % (m, b.tolist(), exp.tolist()))
    if blocks >= 2 and no:
        c.nontrivial()
    c.note('period %d, %d blocks' % (period, blocks))


# ---- parameters ---------------------------------------------------------------------------------------------------------

PROT = {'queue': pml.MessageQueueProtocol, 'double': pml.DoubleBufferingProtocol, 'shared': pml.SharedDataProtocol}
PT = {'Integer': pml.Integer, 'Double': pml.Double, 'String': pml.StringParameter, 'Vector': pml.VectorParameterFloat,
      'Matrix': pml.MatrixParameterDouble, 'Objects': pml.ObjectVector}


def pvalue(c, t, n):
    if t == 'Integer':
        return c.draw(2000) - 1000
    if t == 'Double':
        return c.sym(10)
    if t == 'String':
        return ''.join(c.pick('abc {}"\\/0\n') for _ in range(c.draw(6)))
    if t == 'Vector':
        return tuple(float(c.draw(50)) for _ in range(n))
    if t == 'Matrix':
        return tuple(tuple(float(c.draw(50)) for _ in range(n)) for _ in range(2))
    return tuple(sorted((i, float(c.draw(9))) for i in range(4) if c.flag()))


def pconfig(t, n):
    return pml.VectorParameterConfig(n) if t == 'Vector' else pml.MatrixParameterConfig(2, n) if t == 'Matrix' else EPC()


def pmake(t, v, n):
    if t == 'Vector':
        return pml.VectorParameterFloat(np.asarray(v, np.float32))
    if t == 'Matrix':
        return pml.MatrixParameterDouble(np.asarray(v, np.float64).reshape(2, n))
    if t == 'Objects':
        o = pml.ObjectVector(EPC())
        fill_objects(o, v)
        return o
    return PT[t](v)


def fill_objects(o, v):
    o.clear()
    for i, x in v:
        p = om.PointSource(i)
        p.position = [x, 0.0, 1.0]
        p.channels = [0]
        o.insert(p)


def pread(t, p):
    if t == 'Vector':
        return tuple(float(x) for x in np.array(p))
    if t == 'Matrix':
        return tuple(tuple(float(x) for x in r) for r in np.array(p))
    if t == 'Objects':
        return tuple(sorted((i, float(p[i].x)) for i in p.keys())) if hasattr(p, 'keys') else tuple(sorted((o.objectId, float(o.x)) for o in p))
    if t == 'String':
        return p.str
    return p.value


def pwrite(c, t, p, v, n):
    """Change the value of a parameter object in place."""
    if t == 'Integer' or t == 'Double':
        p.set(v) if c.flag() else p.assign(PT[t](v))
    elif t == 'String':
        p.assign(PT[t](v))
    elif t == 'Vector':
        np.array(p, copy=False)[:] = v if c.flag() else np.asarray(v)
    elif t == 'Matrix':
        np.array(p, copy=False)[...] = np.asarray(v).reshape(2, n)
    else:
        fill_objects(p, v) if c.flag() else p.assign(pmake(t, v, n))


class Pass(visr.AtomicComponent):
    """Forwards what it receives to its outputs and keeps a log."""

    def __init__(self, ctx, name, parent, spec, outs, c):
        super().__init__(ctx, name, parent)
        proto, t, n = spec
        self.spec, self.c = spec, c
        self.log = []
        self.keep = []
        self.pin = visr.ParameterInput('pin', self, PT[t].staticType, PROT[proto].staticType, pconfig(t, n))
        self.pout = [visr.ParameterOutput(name='pout%d' % i, parent=self, parameterType=PT[t].staticType,
                                          protocolType=PROT[proto].staticType, parameterConfig=pconfig(t, n)) for i in range(outs)]

    def process(self):
        proto, t, n = self.spec
        c = self.c
        p = self.pin.protocol if c.flag() else self.pin.protocolInput()
        if proto == 'queue':
            k = p.size()
            check(p.empty() == (k == 0), 'empty queue')
            if k and c.chance(20):
                k = c.range(0, k)
            for _ in range(k):
                m = p.front()
                check(isinstance(m, PT[t]), 'message is a %s' % type(m))
                v = pread(t, m)
                p.pop()
                if c.flag():
                    self.keep.append((m, v))
                self.log.append(v)
                for o in self.pout:
                    o.protocol.enqueue(m if c.flag() else pmake(t, v, n))
                del m
        elif proto == 'double':
            if p.changed():
                v = pread(t, p.data())
                self.log.append(v)
                p.resetChanged()
                check(not p.changed(), 'changed after reset')
                for o in self.pout:
                    q = o.protocolOutput()
                    if c.flag():
                        q.set(pmake(t, v, n), True)
                    else:
                        pwrite(c, t, q.data(), v, n)
                        q.swapBuffers(c.flag())
        else:
            v = pread(t, p.data())
            self.log.append(v)
            for o in self.pout:
                pwrite(c, t, o.protocol.data(), v, n)


class Level(visr.CompositeComponent):
    """A composite around some other components of a chain."""

    def __init__(self, ctx, name, parent, spec, depth, kids, outs, c):
        super().__init__(ctx, name, parent)
        proto, t, n = spec
        self.pin = visr.ParameterInput('pin', self, PT[t].staticType, PROT[proto].staticType, pconfig(t, n))
        self.pout = [visr.ParameterOutput('pout%d' % i, self, PT[t].staticType, PROT[proto].staticType, pconfig(t, n)) for i in range(outs)]
        self.kids = []
        order = list(range(kids))
        if c.flag():
            order.reverse()
        for i in order:
            last = i == kids - 1
            o = outs if last else 1
            if depth and c.chance(40):
                k = Level(ctx, 'k%d' % i, self, spec, depth - 1, c.range(1, 2), o, c)
            else:
                k = Pass(ctx, 'k%d' % i, self, spec, o, c)
            self.kids.append((i, k))
        self.kids.sort(key=lambda x: x[0])
        self.kids = [k for i, k in self.kids]
        conns = [(None, k) for k in range(1)] + [(i, i + 1) for i in range(kids - 1)]
        for a, b in conns:
            self.link(c, '' if a is None else 'k%d' % a, 'pin' if a is None else 'pout0', 'k%d' % b, 'pin')
        for o in range(outs):
            self.link(c, 'k%d' % (kids - 1), 'pout%d' % o, c.pick(['', 'this']), 'pout%d' % o)

    def link(self, c, a, x, b, y):
        if c.flag():
            self.parameterConnection(a, x, b, y)
        else:
            pa = self.parameterPort(x) if a in ('', 'this') else self.kids[int(a[1:])].parameterPort(x)
            pb = self.parameterPort(y) if b in ('', 'this') else self.kids[int(b[1:])].parameterPort(y)
            self.parameterConnection(pa, pb)

    def leaves(self):
        for k in self.kids:
            if isinstance(k, Level):
                yield from k.leaves()
            else:
                yield k


def params(c):
    proto, t, n = c.pick(list(PROT)), c.pick(list(PT)), c.range(1, 4)
    spec = (proto, t, n)
    ctx = visr.SignalFlowContext(c.range(1, 64), 48000)
    outs = c.range(1, 2)
    c2 = c
    top = Level(ctx, 'top', None, spec, 2, c.range(1, 3), outs, c2) if c.chance(85) else Pass(ctx, 'top', None, spec, outs, c2)
    leaves = list(top.leaves()) if isinstance(top, Level) else [top]
    ports = list(top.parameterPorts)
    check(sorted((p.name, p.direction.name) for p in ports) == sorted([('pin', 'Input')] + [('pout%d' % i, 'Output') for i in range(outs)]), 'parameter ports')
    for p in ports:
        check(p.parameterType == PT[t].staticType and p.protocolType == PROT[proto].staticType, 'types of port %s' % p.name)
        check(p.fullName == 'top:' + p.name and p.qualifiedName == 'top:' + p.name, 'names of port %s' % p.name)
    # ports which are not part of a running flow
    if c.chance(30):
        q = leaves[0]
        if proto == 'queue':
            for f in (lambda: q.pin.protocol.front(), lambda: q.pin.protocol.pop(), lambda: q.pin.protocol.size(),
                      lambda: q.pout[0].protocol.enqueue(pmake(t, pvalue(c, t, n), n))):
                must_throw(f, 'use of an unconnected queue')
        else:
            must_throw(lambda: q.pin.protocol.data(), 'use of an unconnected port')
            must_throw(lambda: q.pout[0].protocol.data(), 'use of an unconnected port')
    flow = rrl.AudioSignalFlow(top)
    check(flow.numberParameterReceivePorts == 1 and flow.numberParameterSendPorts == outs, 'number of external parameter ports')
    must_throw(lambda: flow.parameterReceivePort('pout0'), 'send port as receive port')
    must_throw(lambda: flow.parameterSendPort('x'), 'unknown port')
    src = flow.parameterReceivePort('pin')
    dst = [flow.parameterSendPort(portName='pout%d' % i) for i in range(outs)]
    mutex = flow.parameterExchangeMutex()
    keep = []
    sent, current, total = [], None, 0
    got = [[] for _ in dst]
    for _ in range(c.range(2, 8)):
        newvals = []
        k = c.draw(3)
        guard = rrl.AudioSignalFlow.ParameterExchangeMutexGuard(flow if c.flag() else mutex) if c.flag() else None
        if guard:
            guard.__enter__()
        for _ in range(c.draw(4)):
            v = pvalue(c, t, n)
            newvals.append(v)
            if proto == 'queue':
                src.enqueue(pmake(t, v, n))
                if c.chance(15):
                    other = c.pick([x for x in PT if x != t])
                    must_throw(lambda: src.enqueue(pmake(other, pvalue(c, other, n), n)), 'message of type %s in a queue of %s' % (other, t))
            elif proto == 'double':
                if c.flag():
                    src.set(pmake(t, v, n), swapBuffers=True) if c.flag() else (src.set(value=pmake(t, v, n)), src.swapBuffers())
                else:
                    pwrite(c, t, src.data(), v, n)
                    src.swapBuffers(copyValue=c.flag())
            else:
                pwrite(c, t, src.data(), v, n)
        if guard:
            guard.__exit__(None, None, None)
        before = [len(l.log) for l in leaves]
        flow.process()
        total += len(newvals)
        if proto == 'queue':
            sent += newvals
            for i, d in enumerate(dst):
                for _ in range(c.range(0, d.size())):
                    m = d.front()
                    v = pread(t, m)
                    d.pop()
                    if c.flag():
                        keep.append((m, v))
                    got[i].append(v)
        elif proto == 'double':
            for i, l in enumerate(leaves):
                exp = newvals[-1:]
                check(l.log[before[i]:] == exp, lambda: '%s received %s instead of %s' % (l.name, l.log[before[i]:], exp))
            for d in dst:
                check(d.changed() == bool(newvals) or (d.changed() and total > 0), 'change flag of the output')
                if newvals:
                    check(pread(t, d.data()) == newvals[-1], 'value at the output')
                if c.flag():
                    d.resetChanged()
                    check(not d.changed(), 'changed after reset')
        else:
            if newvals:
                current = newvals[-1]
            if current is not None:
                for i, l in enumerate(leaves):
                    check(l.log[before[i]:] == [current], lambda: '%s received %s instead of %s' % (l.name, l.log[before[i]:], current))
                for d in dst:
                    check(pread(t, d.data()) == current, 'value at the output')
    if proto == 'queue':
        # everything arrives, once and in order
        for _ in range(3 * len(sent) * len(leaves) + 1):
            if all(len(l.log) == len(sent) for l in leaves):
                break
            flow.process()
        for l in leaves:
            check(l.log == sent, lambda: '%s received %s instead of %s' % (l.name, l.log, sent))
        for i, d in enumerate(dst):
            while not d.empty():
                m = d.front()
                got[i].append(pread(t, m))
                d.pop()
            check(got[i] == sent, lambda: 'output %d delivered %s instead of %s' % (i, got[i], sent))
            must_throw(lambda: d.front(), 'front of an empty queue')
            must_throw(lambda: d.pop(), 'pop from an empty queue')
    del flow
    for m, v in keep + [x for l in leaves for x in l.keep]:
        check(pread(t, m) == v, 'message changed after it was removed from the queue: %s instead of %s' % (pread(t, m), v))
    c.label('%s %s' % (proto, t))
    if len(leaves) >= 2 and total >= 2:
        c.nontrivial()
    c.note('%s of %s, %d components, %d values' % (proto, t, len(leaves), total))


# ---- errors -----------------------------------------------------------------------------------------------------------

def faults(c):
    period = c.range(1, 8)
    ctx = visr.SignalFlowContext(period, 48000)
    n = gen_composite(c, 0, 'top', [('Float', c.range(1, 3))], [c.range(2, 8)], period)
    top = Comp(ctx, 'top', None, n, c)
    kind = c.draw(5)
    c.label('fault %d' % kind)
    ports = [p for p in walk_ports(top)]
    before = top.numberOfComponents
    if kind == 0:
        # components that cannot be created leave nothing behind
        for _ in range(c.range(1, 3)):
            bad_component(c, ctx, top)
            check(top.numberOfComponents == before, 'a component that could not be created remains in the composite')
            gc.collect()
        introspect(c, top, n, None)
    elif kind == 1:
        # names used twice
        kid = c.pick(n['kids'])['node']['name'] if n['kids'] else None
        if kid:
            must_throw(lambda: rcl.Add(ctx, kid, top, 1, 1), 'second component %s' % kid)
            gc.collect()
            check(top.numberOfComponents == before, 'number of components after a duplicate')
        cand = [(x, nm) for x, k in walk(top, n) for nm in k['in'] + k['out'] if k['kind'] in ('lin', 'comp')]
        x, nm = c.pick(cand)
        must_throw(lambda: (visr.AudioInput if c.flag() else visr.AudioOutputFloat)(nm, x), 'second port %s' % nm)
        gc.collect()
        introspect(c, top, n, None)
    elif kind == 2:
        # connections that do not fit: refused at once or when the flow is created
        f = bad_connection(c, top, n)
        try:
            f()
        except Exception as e:
            c.label('refused at once')
            must_not_throw(lambda: rrl.AudioSignalFlow(top), 'flow after a refused connection')
        else:
            must_throw(lambda: rrl.AudioSignalFlow(top), 'flow with an invalid connection')
            c.nontrivial()
            return
    elif kind == 3:
        # something that is not connected
        k = c.draw(3)
        extra = rcl.Add(ctx, 'extra', top, 1, c.range(0, 1) if k else 1)
        if k:
            sp = extra.audioPort('out')
            check(rrl.checkConnectionIntegrity(top)[0] is False, 'unconnected port accepted')
        must_throw(lambda: rrl.AudioSignalFlow(top), 'flow with unconnected channels')
        del extra
        if k:
            del sp
        gc.collect()
    flow = rrl.AudioSignalFlow(top)
    model = Model(n, period)
    si, so = port_slices(flow, n)
    step(c, flow, n, model, si, so)
    if kind == 4:
        lins = [k for k, m in sinks(top, model) if not any(mm.n['delay'] for kk, mm in sinks(top, model))]
        if lins:
            # exceptions in a component reach the caller, and the flow can be used afterwards
            for k, m in sinks(top, model):
                k.spec['ramp'] = 0
            bad = c.pick(lins)
            bad.fail_at = bad.n
            e = None
            try:
                flow.process(np.zeros((flow.numberOfCaptureChannels, period), np.float32))
            except Exception as x:
                e = x
            check(isinstance(e, (ValueError, RuntimeError, Boom)), 'exception in a component: %r' % e)
            check('block' in str(e) and bad.spec['name'] in str(e), 'message of the exception is lost: %s' % e)
            del e
            bad.fail_at = None
            for _ in range(2):
                step(c, flow, n, model, si, so)
            c.nontrivial()
        must_throw(lambda: top.inp[0].channel(n['ins'][0][1]), 'channel index out of range')
        must_throw(lambda: top.inp[0][n['ins'][0][1] + 5], 'channel index out of range')
        must_throw(lambda: setattr(top.inp[0], 'width', 7), 'width changed in a running flow')
        ks = [k for k, m in sinks(top, model) if k.out]
        if ks:
            p = ks[0].out[0]
            w = ks[0].spec['outs'][0][1]
            for a in (np.zeros((w + 1, period)), np.zeros((w, period + 1)), np.zeros(w * period), np.zeros((w, period, 1))):
                must_throw(lambda: p.set(a), 'array %s for %d x %d' % (a.shape, w, period))
            must_throw(lambda: p.channel(w), 'channel index out of range')
    else:
        c.nontrivial()
        step(c, flow, n, model, si, so)


def walk(comp, n):
    yield comp, n
    for k, m in zip(getattr(comp, 'kids', []), n.get('kids', [])):
        yield from walk(k, m['node'])


def walk_ports(comp):
    for p in comp.audioPorts:
        yield p
    for k in getattr(comp, 'kids', []):
        yield from walk_ports(k)


def bad_component(c, ctx, top):
    r = pml.SignalRoutingParameter()
    r.addRouting(3, 0)
    k = c.draw(7)
    if k == 0:
        f = lambda: rcl.GainMatrix(ctx, 'bad', top, 2, 3, 0, efl.BasicMatrixFloat(2, 3), False)
    elif k == 1:
        f = lambda: rcl.GainMatrix(ctx, 'bad', top, 2, 3, 0, np.zeros((2, 3), np.float32), False)
    elif k == 2:
        f = lambda: rcl.SignalRouting(ctx, 'bad', top, 2, 2, r, False)
    elif k == 3:
        f = lambda: rcl.DelayVector(ctx, 'bad', top, 2, interpolationType='no such interpolation', initialDelay=0.0, initialGain=1.0)
    elif k == 4:
        f = lambda: rcl.FirFilterMatrix(ctx, 'bad', top, numberOfInputs=1, numberOfOutputs=1, filterLength=4, maxFilters=1, maxRoutings=1,
                                        fftImplementation='no such transform')
    elif k == 5:
        def f():
            class Broken(visr.AtomicComponent):
                def __init__(self):
                    super().__init__(ctx, 'bad', top)
                    self.p = visr.AudioInput('x', self, visr.AudioSampleType.floatId, 1)
                    raise Boom('no')
            Broken()
    else:
        def f():
            class Broken(visr.CompositeComponent):
                def __init__(self):
                    super().__init__(ctx, 'bad', top)
                    self.p = visr.AudioInputFloat('x', self, 2)
                    self.q = rcl.Add(ctx, 'inner', self, 2, 1)
                    self.audioConnection(self.p, self.q.audioPort('in0'))
                    self.audioConnection('this', 'x', [0], 'nobody', 'in', [0])
            Broken()
    c.label('bad component %d' % k)
    must_throw(f, 'component with invalid arguments %d' % k)


def bad_connection(c, top, n):
    comps = [(x, k) for x, k in walk(top, n) if k['kind'] == 'comp']
    comp, k = c.pick(comps)
    dsts = [(kid.audioPort(nm), t, w) for kid, kk in zip(comp.kids, k['kids']) for nm, (t, w) in zip(kk['node']['in'], kk['node']['ins'])]
    dsts += [(p, t, w) for p, (t, w) in zip(comp.out, k['outs'])]
    srcs = [(kid.audioPort(nm), t, w) for kid, kk in zip(comp.kids, k['kids']) for nm, (t, w) in zip(kk['node']['out'], kk['node']['outs'])]
    srcs += [(p, t, w) for p, (t, w) in zip(comp.inp, k['ins'])]
    if not dsts or not srcs:
        comp, k = top, n
        return lambda: comp.audioConnection('this', 'i0', visr.ChannelList([0]), 'nobody', 'x', visr.ChannelList([0]))
    s, st, sw = c.pick(srcs)
    d, dt, dw = c.pick(dsts)
    mode = c.draw(8)
    c.label('bad connection %d' % mode)
    if mode == 0:
        return lambda: comp.audioConnection(s, [sw], d, [0])
    if mode == 1:
        return lambda: comp.audioConnection(s, [0] if sw else [1], d, [dw])
    if mode == 2 and sw and dw:
        return lambda: comp.audioConnection(s, [0, 0], d, [0])
    if mode == 3 and dw and sw and st == dt:
        return lambda: comp.audioConnection(s, [sw - 1], d, [dw - 1])  # second source of a channel
    if mode == 4 and sw and dw:
        return lambda: comp.audioConnection(d, [0], s, [0])
    if mode == 5 and sw != dw:
        return lambda: comp.audioConnection(s, d)
    if mode == 6:
        oth = [(a, t, w) for a, t, w in srcs if t != dt and w]
        if oth and dw:
            a = c.pick(oth)[0]
            return lambda: comp.audioConnection(a, [0], d, [0])
    if mode == 7:
        return lambda: comp.audioConnection('', 'unknown', visr.ChannelList([0]), '', 'unknown2', visr.ChannelList([0]))
    return lambda: comp.audioConnection(s, [10000], d, [0])


# ---- lifetime ------------------------------------------------------------------------------------------------------------

def lifetime(c):
    """Objects obtained from components and flows may be kept and dropped in any order."""
    period = c.range(1, 6)
    ctx = visr.SignalFlowContext(period, 48000)
    n = gen_composite(c, 0, 'top', [('Float', c.range(1, 3))], [c.range(2, 8)], period)
    env = {'top': Comp(ctx, 'top', None, n, c)}
    del ctx
    model = Model(n, period)
    names = ['top']
    si = so = None
    flowkeys = []

    def add(k, v):
        k = '%s%d' % (k, len(names))
        names.append(k)
        env[k] = v
        return k

    usable = True  # the outermost component still refers to its parts
    for _ in range(c.range(4, 25)):
        op = c.draw(14)
        comps = [k for k in env if isinstance(env[k], (visr.Component,))]
        try:
            if op == 0 and comps:
                x = env[c.pick(comps)]
                add('it', iter(x.audioPorts))
            elif op == 1 and comps:
                ps = list(env[c.pick(comps)].audioPorts)
                if ps:
                    add('port', c.pick(ps))
            elif op == 2:
                xs = [env[k] for k in comps if isinstance(env[k], Comp)]
                if xs:
                    x = c.pick(xs)
                    add('it', c.pick([x.components, x.audioConnections, x.parameterConnections])())
            elif op == 3:
                xs = [env[k] for k in comps if isinstance(env[k], Comp)]
                if xs:
                    ks = [k for k in c.pick(xs).components() if own(k)]  # without parts of the flow
                    if ks:
                        add('kid', c.pick(ks))
            elif op == 4 and comps:
                add('time', env[c.pick(comps)].time())
            elif op == 5 and 'top' in env and not any(k.startswith(('flow', 'mutex', 'guard')) for k in env):
                # a component can be used again after the flow does not exist any more
                for k in [k for k in env if k.startswith('it')]:
                    del env[k]  # the flow adds parts to the components
                gc.collect()
                flowkeys.clear()
                f = rrl.AudioSignalFlow(env['top'])
                si, so = port_slices(f, n)
                flowkeys.append(add('flow', f))
                del f
            elif op == 6:
                for k in list(env):
                    if k.startswith('it'):
                        v = next(env[k], None)
                        if v is not None and own(v):
                            add('obj', v)
                            del v
            elif op in (7, 8) and len(env) > 1:
                k = c.pick(sorted(env))
                env.pop(k)
                if k in flowkeys:
                    # the ports refer to the samples of the flow that has been removed
                    flowkeys[:] = ['gone']
                    for k in [k for k in env if k.startswith('it')]:
                        del env[k]
            elif op == 9:
                gc.collect()
            elif op == 10:
                for k in flowkeys:
                    if k in env:
                        # components belong to their composite, whether or not Python variables refer to it
                        step(c, env[k], n, model, si, so)
                        c.nontrivial()
            elif op == 11:
                for k in flowkeys:
                    if k in env:
                        add('mutex', env[k].parameterExchangeMutex())
                        add('guard', rrl.AudioSignalFlow.ParameterExchangeMutexGuard(env[k] if c.flag() else env[names[-1]]))
            elif op == 12:
                for k in sorted(env):
                    if isinstance(env[k], rrl.AudioSignalFlow.ParameterExchangeMutexGuard):
                        with env[k]:
                            pass
                    elif isinstance(env[k], rrl.AudioSignalFlow.ParameterExchangeMutex):
                        env[k].lock()
                        env[k].unlock()
            else:
                for k in sorted(env):
                    v = env[k]
                    if isinstance(v, visr.AudioPortBase):
                        v.name, v.width, v.sampleType, v.direction, v.initialised
                        quiet(lambda: v.fullName)
                        if 'gone' not in flowkeys:
                            quiet(lambda: np.array(v.data() if hasattr(v, 'data') else 0).sum())
                    elif isinstance(v, visr.Time):
                        v.sampleCount, v.blockCount
                    elif isinstance(v, visr.Component):
                        check(v.name and v.fullName and v.period() == period and v.samplingFrequency() == 48000, 'component')
                        quiet(lambda: [p.name for p in v.audioPorts])
                    elif isinstance(v, visr.AudioConnection) and 'top' in env:
                        quiet(lambda: (str(v), list(v.sendIndices)))
                    v = None
        finally:
            x = v = ks = ps = xs = None
        c.label('op %d' % op)
    for k in sorted(env, key=lambda k: c.draw(1000)):
        del env[k]
        if c.chance(30):
            gc.collect()
    gc.collect()
    c.note('%d objects' % len(names))


def own(x):
    """Not a routing component that belongs to a flow and ends with it."""
    return type(x) not in (visr.AtomicComponent, visr.Component)


def quiet(f):
    try:
        f()
    except Exception:
        pass


if __name__ == '__main__':
    pbt.run({'rule': 'flows with at least four components and outputs; arrays with varying samples; at least two blocks through a '
                     'wrapper; at least two components and values in a chain of parameters; invalid requests made; flows processed '
                     'after other objects were dropped',
             'subs': [('graphs', graphs, 2500, 40000), ('layouts', layouts, 3000, 40000), ('flexible', flexible, 1500, 20000),
                      ('params', params, 2500, 40000), ('faults', faults, 2000, 30000), ('lifetime', lifetime, 2000, 40000)]})
