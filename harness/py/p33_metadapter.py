"""P33: the metadata adapter transforms object scenes exactly as its configuration describes."""
import contextlib, copy, io, json, math, os, random, shutil, struct, sys, tempfile, time, warnings
_shift = [0.0]
_mono, _wall, _perf = time.monotonic, time.time, time.perf_counter
time.monotonic = lambda: _mono() + _shift[0]
time.time = lambda: _wall() + _shift[0]
time.perf_counter = lambda: _perf() + _shift[0]
sys.path.insert(0, os.path.join(os.environ.get('VERIF_SRC', '/repo'), 'src', 'python', 'packages'))
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
import xml.etree.ElementTree as ET
import pbt
from pbt import check, must_throw, must_not_throw
import visr, efl, rbbl, pml, objectmodel, rrl
_out = io.StringIO()
with contextlib.redirect_stdout(_out):
    import metadapter

POINTLIKE = ('point', 'plane', 'channel', 'pointdiffuse', 'pointreverb', 'diffuse')


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='p33_')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def file(self, root, name='config.xml'):
        p = os.path.join(self.d, name)
        ET.ElementTree(root).write(p)
        return p


@contextlib.contextmanager
def captured():
    """standard output of the code under test"""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


# ---------------------------------------------------------------- objects
def number(c, v):
    """numbers may arrive as numbers or as strings"""
    return str(v) if c.chance(30) else v


def val(c, lo=-10, hi=10):
    return c.pick([0, 1, -1, 2.5, -0.25]) if c.chance(25) and lo < 0 else round(c.real(lo, hi), 4)


LIBRARY = [False]   # whether objects have to be readable by the library


def anyObject(c, oid=None):
    full = LIBRARY[0]
    t = c.pick(['point', 'point', 'plane', 'pointdiffuse', 'channel', 'diffuse', 'pointreverb']) if not full else c.pick(['point', 'plane', 'pointdiffuse', 'channel', 'diffuse'])
    oid = c.range(0, 9) if oid is None else oid
    o = {'id': number(c, oid), 'type': t, 'group': number(c, c.range(0, 4)), 'level': number(c, round(c.real(0, 4), 4)),
         'priority': number(c, c.range(0, 5)), 'channels': str(c.range(0, 30))}
    if t == 'plane':
        o['direction'] = {'az': number(c, val(c, -400, 400)), 'el': number(c, val(c, -89, 89)), 'refdist': number(c, round(c.real(0.1, 20), 3))}
    elif t in ('point', 'pointdiffuse', 'pointreverb'):
        if c.chance(60):
            o['position'] = {k: number(c, val(c)) for k in 'xyz'}
        else:
            o['position'] = {'az': number(c, val(c, -180, 180)), 'el': number(c, val(c, -89, 89)), 'radius': number(c, round(c.real(0.1, 20), 3))}
    elif t == 'channel':
        o['outputChannels'] = 'M+000'
    if t == 'pointdiffuse':
        o['diffuseness'] = number(c, round(c.real(0, 1), 3))
    if t == 'pointreverb':
        o['room'] = {'ereflect': [], 'lreverb': {'delay': '0.1', 'attacktime': ['0.1'], 'decayconst': ['1'], 'level': ['0']}}
    if c.chance(20):
        o['note'] = {'text': 'n%d' % c.range(0, 99), 'list': [1, [2, {'x': None}]]}
    return o


# ---------------------------------------------------------------- geometry of the model
def sph(x, y, z):
    return math.sqrt(x * x + y * y + z * z), math.degrees(math.atan2(y, x)), math.degrees(math.atan2(z, math.hypot(x, y)))


def cart(r, az, el):
    az, el = math.radians(az), math.radians(el)
    return r * math.cos(az) * math.cos(el), r * math.sin(az) * math.cos(el), r * math.sin(el)


def lin(db):
    return 10.0 ** (db / 20.0)


# ---------------------------------------------------------------- model nodes
class Node:
    """one element of a configuration: an XML element, a transformation of object lists and a set of runtime parameters"""
    name = None
    prints = False

    def run(self, objs, log):
        return objs

    def set(self, key, values):
        return False

    def keys(self):
        return []

    def walk(self):
        yield self


def flt(x):
    return float(x)


def yes(c):
    b = c.flag()
    return b, (c.pick(['true', '1', 'yes', 'True']) if b else c.pick(['false', '0', 'no', 'off']))


class Volume(Node):
    def __init__(self, c):
        self.db = round(c.real(-40, 12), 3)

    def xml(self):
        return ET.Element('processor', {'type': 'ChangeVolume', 'name': self.name, 'volumeAdjust': str(self.db0)})

    def start(self):
        self.db0 = self.db

    def run(self, objs, log):
        for o in objs:
            o['level'] = flt(o['level']) * lin(self.db)
        return objs

    def keys(self):
        return ['volume']

    def set(self, key, v):
        if key == 'volume' and len(v) == 1 and isinstance(v[0], float):
            self.db = v[0]


class Grouped(Node):
    TYPE, ATTR = None, None

    def __init__(self, c):
        self.groups = {}
        ids = list(range(0, 10))
        random.Random(c.seed()).shuffle(ids)
        for i in range(c.size(1, 3)):
            self.groups['g%d' % i] = [sorted(ids.pop() for _ in range(c.size(0, 3))), self.value(c)]

    def xml(self):
        e = ET.Element('processor', {'type': self.TYPE, 'name': self.name})
        for k, (ids, _) in self.groups.items():
            ET.SubElement(e, 'group', {'name': k, 'objectIds': ' '.join(map(str, ids)), self.ATTR: str(self.first[k])})
        return e

    def start(self):
        self.first = {k: v[1] for k, v in self.groups.items()}

    def keys(self):
        return list(self.groups)

    def set(self, key, v):
        if key in self.groups and len(v) == 1 and self.accepts(v[0]):
            self.groups[key][1] = float(v[0])

    def accepts(self, x):
        return isinstance(x, float)

    def run(self, objs, log):
        for o in objs:
            for ids, value in self.groups.values():
                if int(o['id']) in ids:
                    self.apply(o, value)
        return objs


class GroupVolume(Grouped):
    TYPE, ATTR = 'GroupVolume', 'initialVolume'

    def value(self, c):
        return round(c.real(-40, 12), 2)

    def apply(self, o, v):
        o['level'] = flt(o['level']) * lin(v)


class GroupRadius(Grouped):
    TYPE, ATTR = 'GroupAdaptRadius', 'initialAdjust'

    def value(self, c):
        return round(c.real(0.1, 3), 2)

    def accepts(self, x):
        return isinstance(x, (int, float))

    def apply(self, o, v):
        if o['type'] == 'plane':
            o['direction']['refdist'] = flt(o['direction']['refdist']) * v
        elif o['type'].startswith('point'):
            for k in (('x', 'y', 'z') if 'x' in o['position'] else ('radius',)):
                o['position'][k] = flt(o['position'][k]) * v


class Spread(Grouped):
    TYPE, ATTR = 'Spread', 'initialSpread'

    def value(self, c):
        return round(c.real(0, 2), 2)

    @staticmethod
    def wrap(a):
        a = a % 360
        return a - 360 if a > 180 else a

    def apply(self, o, v):
        if o['type'] == 'plane':
            d = o['direction']
            o['direction'] = {'az': self.wrap(flt(d['az'])) * v, 'el': self.wrap(flt(d['el'])) * v, 'refdist': flt(d['refdist'])}
        elif o['type'] == 'point':
            p = o['position']
            if 'x' in p:
                r, az, el = sph(flt(p['x']), flt(p['y']), flt(p['z']))
                x, y, z = cart(r, self.wrap(az) * v, self.wrap(el) * v)
                o['position'] = {'x': x, 'y': y, 'z': z}
            else:
                o['position'] = {'az': self.wrap(flt(p['az'])) * v, 'el': self.wrap(flt(p['el'])) * v, 'radius': flt(p['radius'])}


class Additional(Node):
    def __init__(self, c):
        self.objs = [anyObject(c, oid) for oid in sorted({c.range(0, 11) for _ in range(c.size(0, 3))}, reverse=c.flag())]
        self.type = 'AddObjects'

    def objectXml(self, e):
        for o in self.objs:
            data = json.dumps(o)
            ET.SubElement(e, 'object', {'data': data.replace('"', "'")})
        return e

    def xml(self):
        return self.objectXml(ET.Element('processor', {'type': 'AddObjects', 'name': self.name}))

    def run(self, objs, log):
        mine = {int(o['id']) for o in self.objs}
        return copy.deepcopy(self.objs) + [o for o in objs if int(o['id']) not in mine]


class Position(Node):
    def __init__(self, c):
        self.id = c.range(0, 9)
        self.active, self.text = yes(c)
        self.p = [val(c) for _ in range(3)]

    def start(self):
        self.first = (self.id, list(self.p))

    def xml(self):
        i, p = self.first
        return ET.Element('processor', {'type': 'AdaptPosition', 'name': self.name, 'objectID': str(i), 'active': self.text,
                                        'x': str(p[0]), 'y': str(p[1]), 'height': str(p[2])})

    def run(self, objs, log):
        for o in objs:
            if self.active and int(o['id']) == self.id:
                if o['type'] == 'plane':
                    r, az, el = sph(*self.p)
                    o['direction'] = {'az': az, 'el': el, 'refdist': r}
                else:
                    o['position'] = dict(zip('xyz', map(float, self.p)))
        return objs

    def keys(self):
        return ['xy', 'active', 'id', 'height']

    def set(self, key, v):
        if key == 'xy' and len(v) == 2:
            self.p[1], self.p[0] = float(v[0]), float(v[1])
        elif len(v) == 1:
            if key == 'active':
                self.active = bool(v[0])
            elif key == 'id':
                self.id = int(v[0])
            elif key == 'height':
                self.p[2] = float(v[0])


class Diffuseness(Node):
    def __init__(self, c):
        self.given = [c.chance(80) for _ in range(3)]
        a, self.text = yes(c)
        self.id = c.range(0, 9) if self.given[0] else 0
        self.active = a if self.given[1] else False
        self.diffuse = round(c.real(0, 1), 3) if self.given[2] else 0

    def start(self):
        self.first = (self.id, self.diffuse)

    def xml(self):
        e = ET.Element('processor', {'type': 'AdaptDiffuseness', 'name': self.name})
        for g, k, v in zip(self.given, ('id', 'active', 'diffuse'), (self.first[0], self.text, self.first[1])):
            if g:
                e.set(k, str(v))
        return e

    def run(self, objs, log):
        for o in objs:
            if self.active and int(o['id']) == self.id and o['type'] == 'pointdiffuse':
                o['diffuseness'] = self.diffuse
        return objs

    def keys(self):
        return ['diffuse', 'active', 'id']

    def set(self, key, v):
        if len(v) == 1:
            if key == 'diffuse':
                self.diffuse = float(v[0])
            elif key == 'active':
                self.active = bool(v[0])
            elif key == 'id':
                self.id = int(v[0])


class Switch(Node):
    TYPE = None

    def __init__(self, c):
        self.active, self.text = yes(c)

    def xml(self):
        return ET.Element('processor', {'type': self.TYPE, 'name': self.name, 'active': self.text})

    def keys(self):
        return ['active']

    def set(self, key, v):
        if key == 'active' and len(v) == 1:
            self.active = bool(v[0])

    def run(self, objs, log):
        if self.active:
            for o in objs:
                self.apply(o)
        return objs


class Compress(Switch):
    def __init__(self, c):
        Switch.__init__(self, c)
        self.TYPE = c.pick(['CompressAbove', 'CompressBelow', 'CompressHeight'])

    def hit(self, h):
        return {'CompressAbove': h > 0, 'CompressBelow': h < 0, 'CompressHeight': True}[self.TYPE]

    def apply(self, o):
        if o['type'] == 'plane':
            if self.hit(flt(o['direction']['el'])):
                o['direction']['el'] = 0.0
        elif o['type'].startswith('point'):
            p = o['position']
            if 'x' in p:
                if self.hit(flt(p['z'])):
                    r, az, _ = sph(flt(p['x']), flt(p['y']), flt(p['z']))
                    o['position'] = dict(zip('xyz', cart(r, az, 0.0)))
            elif self.hit(flt(p['el'])):
                p['el'] = 0.0


class Nuendo(Switch):
    TYPE = 'NuendoHeightFix'

    def apply(self, o):
        t = o['type']
        if t == 'plane':
            d = o['direction']
            p = cart(flt(d['refdist']), flt(d['az']), flt(d['el']))
        elif t.startswith('point'):
            d = o['position']
            p = [flt(d[k]) for k in 'xyz'] if 'x' in d else cart(flt(d['radius']), flt(d['az']), flt(d['el']))
        else:
            return
        x, y, z = p
        z = 2 * (z - 1) if z >= 1 else (z - 1) * 2.0 / 3.0
        r, az, el = sph(x, y, z)
        if t == 'plane':
            o['direction'] = {'az': az, 'el': el, 'refdist': r}
        elif 'x' in d:
            o['position'] = {'x': x, 'y': y, 'z': z}
        else:
            o['position'] = {'az': az, 'el': el, 'radius': r}


class Attenuate(Switch):
    TYPE = 'AttenuateAction'

    def xml(self):
        e = Switch.xml(self)
        e.set('objectID', '1 2 3')
        return e

    def apply(self, o):
        if int(o['group']) == 3:
            o['level'] = flt(o['level']) * 0.5


class GlobalEq(Node):
    def __init__(self, c):
        self.given = {k: v for k, v in (('on', c.range(0, 1)), ('lowfreq', round(c.real(20, 900), 2)), ('highfreq', round(c.real(1000, 9000), 2))) if c.chance(60)}
        self.v = {'on': 1, 'lowfreq': 200.0, 'highfreq': 2000.0, 'lowgain': 0.0, 'highgain': 0.0}
        self.v.update(self.given)

    def xml(self):
        e = ET.Element('processor', {'type': 'GlobalEQ', 'name': self.name})
        for k, v in self.given.items():
            e.set(k, str(v))
        return e

    def run(self, objs, log):
        v = self.v
        if v['on']:
            for o in objs:
                o['eq'] = [{'type': 'lowshelf', 'f': v['lowfreq'], 'q': 1.0, 'gain': v['lowgain']},
                           {'type': 'highshelf', 'f': v['highfreq'], 'q': 1.0, 'gain': v['highgain']}]
        return objs

    def keys(self):
        return ['lowgain', 'highgain', 'lowfreq', 'highfreq', 'on']

    def set(self, key, v):
        if key in self.v and len(v) >= 1:
            if key != 'on' or v[0] in (0, 1):
                self.v[key] = v[0]


class FakeGroups(Node):
    """only the programme without an effect is generated, plus switching to an unknown one"""

    def __init__(self, c):
        pass

    def xml(self):
        return ET.Element('processor', {'type': 'FakeGroups', 'name': self.name})


class Broken(Node):
    """a processor that cannot be created is skipped"""

    def __init__(self, c):
        self.kind = c.pick(['unknown', 'argument', 'value'])

    def xml(self):
        if self.kind == 'unknown':
            return ET.Element('processor', {'type': 'NoSuchThing', 'name': self.name})
        if self.kind == 'argument':
            return ET.Element('processor', {'type': 'ChangeVolume', 'name': self.name})
        return ET.Element('processor', {'type': 'CompressAbove', 'name': self.name, 'active': 'perhaps'})


SIMPLE = [Volume, Volume, GroupVolume, GroupRadius, Spread, Additional, Position, Diffuseness, Compress, Nuendo, Attenuate, GlobalEq, FakeGroups, Broken]


class Chain(Node):
    def __init__(self, kids):
        self.kids = kids

    def run(self, objs, log):
        for k in self.kids:
            objs = k.run(objs, log)
        return objs

    def walk(self):
        for k in self.kids:
            yield from k.walk()

    def xmls(self):
        return [k.xml() for k in self.kids]


class Sequence(Chain):
    def xml(self):
        e = ET.Element('sequence')
        e.extend(self.xmls())
        return e


def merge(lists):
    seen, out = set(), []
    for l in lists:
        for o in l:
            if int(o['id']) not in seen:
                seen.add(int(o['id']))
                out.append(o)
    return out


class Select:
    """condition: which branches an object goes to"""

    def __init__(self, c, branches, gen):
        self.name = gen.name(c)
        self.branches = list(branches)
        self.order = list(branches)
        gen.rng.shuffle(self.order)
        self.rules = {}
        self.default = self.order[-1] if c.chance(50) else None
        for b in self.order:
            if b == self.default:
                continue
            self.rules[b] = '*' if c.chance(20) else sorted({c.range(0, 4) for _ in range(c.size(1, 3))})

    def xml(self, c=None):
        e = ET.Element('condition', {'type': 'SelectGroup', 'name': self.name})
        for b in self.order:
            if b != self.default:
                r = self.rules[b]
                ET.SubElement(e, 'group', {'branch': b, 'groupIds': r if r == '*' else (', ' if len(b) % 2 else ',').join(map(str, r))})
        if self.default is not None:
            ET.SubElement(e, 'default', {'branch': self.default})
        return e

    def split(self, objs):
        out = {b: [] for b in self.branches}
        for o in objs:
            g = int(o['group'])
            named = any(r != '*' and g in r for r in self.rules.values())
            for b, r in self.rules.items():
                if r == '*' or g in r:
                    out[b].append(copy.deepcopy(o))
            if self.default is not None and not named:
                out[self.default].append(copy.deepcopy(o))
        return out


class Conditional(Node):
    def __init__(self, c, depth, gen):
        n = c.size(1, 3)
        self.ids = ['%s%d' % (c.pick(['b', 'branch', 'x']), i) for i in range(n)]
        self.cond = Select(c, self.ids, gen)
        self.branches = {b: gen.chain(c, depth, 0, 2) for b in self.ids}
        self.order = list(self.ids)
        gen.rng.shuffle(self.order)
        self.hasMerge = n > 1 or c.flag()
        self.mergeName = gen.name(c)

    def xml(self):
        e = ET.Element('conditional')
        parts = [self.cond.xml()]
        for b in self.ids:
            x = ET.Element('branch', {'id': b})
            x.extend(self.branches[b].xmls())
            parts.append(x)
        if self.hasMerge:
            parts.append(ET.Element('merge', {'type': 'BranchOrderMerge', 'name': self.mergeName, 'order': ','.join(self.order)}))
        e.extend(parts)
        return e

    def run(self, objs, log):
        parts = self.cond.split(objs)
        done = {b: self.branches[b].run(parts[b], log) for b in self.ids}
        return merge([done[b] for b in self.order]) if self.hasMerge else done[self.ids[0]]

    def walk(self):
        for b in self.branches.values():
            yield from b.walk()


class SourceMerge(Node):
    def __init__(self, c, depth, gen):
        self.source = Additional(c)
        self.sourceName, self.mergeName = gen.name(c), gen.name(c)
        self.chain = gen.chain(c, depth, 0, 2)
        self.first = c.flag()

    def xml(self):
        e = ET.Element('sourcemerge', {'throughbranch': 'thru', 'sourcebranch': 'src'})
        s = ET.SubElement(e, 'source', {'type': 'StaticSceneSource', 'name': self.sourceName})
        self.source.objectXml(s)
        e.extend(self.chain.xmls())
        ET.SubElement(e, 'merge', {'type': 'BranchOrderMerge', 'name': self.mergeName, 'order': 'src,thru' if self.first else 'thru,src'})
        return e

    def run(self, objs, log):
        src = self.chain.run(copy.deepcopy(self.source.objs), log)
        return merge([src, objs] if self.first else [objs, src])

    def walk(self):
        yield from self.chain.walk()


class SplitSink(Node):
    def __init__(self, c, depth, gen):
        self.cond = Select(c, ['a', 'bb'], gen)
        self.through = c.pick(['a', 'bb'])
        self.sink = 'bb' if self.through == 'a' else 'a'
        self.sinkName = gen.name(c)
        self.chain = gen.chain(c, depth, 0, 2)

    def xml(self):
        e = ET.Element('splitsink', {'throughbranch': self.through, 'sinkbranch': self.sink})
        e.append(self.cond.xml())
        e.extend(self.chain.xmls())
        ET.SubElement(e, 'sink', {'type': 'PrintSceneProcessor', 'name': self.sinkName})
        return e

    def run(self, objs, log):
        parts = self.cond.split(objs)
        for o in sorted(self.chain.run(parts[self.sink], log), key=lambda o: int(o['id'])):
            log.append(int(o['id']))
        return parts[self.through]

    def walk(self):
        yield from self.chain.walk()


class Generator:
    def __init__(self, c):
        self.rng = random.Random(c.seed())
        self.count = 0
        self.prefix = c.pick(['p', 'proc_', 'Vol ume'])

    def name(self, c):
        self.count += 1
        return '%s%d' % (self.prefix, self.count)

    def node(self, c, depth):
        k = c.weighted([5, 1, 2, 1, 1]) if depth > 0 else 0
        if k == 0:
            n = c.pick(SIMPLE)(c)
        elif k == 1:
            n = Sequence(self.chain(c, depth - 1, 0, 3).kids)
        elif k == 2:
            n = Conditional(c, depth - 1, self)
        elif k == 3:
            n = SourceMerge(c, depth - 1, self)
        else:
            n = SplitSink(c, depth - 1, self)
        n.name = self.name(c)
        if hasattr(n, 'start'):
            n.start()
        return n

    def chain(self, c, depth, lo, hi):
        return Chain([self.node(c, depth) for _ in range(c.size(lo, hi))])


def rootXml(chain, tag='metadapter'):
    r = ET.Element(tag)
    r.extend(chain.xmls())
    return r


# ---------------------------------------------------------------- comparison
def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, bool) or a is None or isinstance(b, bool) or b is None:
        return a == b
    try:
        x, y = float(a), float(b)
        return abs(x - y) <= 1e-7 + 1e-7 * abs(y)
    except (TypeError, ValueError):
        return a == b


def plainId(o):
    return int(o['id'])


def compare(got, want, what):
    check(isinstance(got, list), '%s: result is a %s' % (what, type(got).__name__))
    g, w = sorted(got, key=plainId), sorted(want, key=plainId)
    check([plainId(o) for o in g] == [plainId(o) for o in w], '%s: objects %r, expected %r' % (what, [plainId(o) for o in g], [plainId(o) for o in w]))
    for a, b in zip(g, w):
        check(same(a, b), '%s: object\n  %r\nexpected\n  %r' % (what, a, b))


# ---------------------------------------------------------------- control messages
def oscString(s):
    b = s.encode() + b'\0'
    return b + b'\0' * (-len(b) % 4)


def osc(address, values):
    tags, data = ',', b''
    for v in values:
        if isinstance(v, float):
            tags += 'f'
            data += struct.pack('>f', v)
        elif isinstance(v, int):
            tags += 'i'
            data += struct.pack('>i', v)
        else:
            tags += 's'
            data += oscString(v)
    return oscString(address) + oscString(tags) + data


def f32(v):
    return struct.unpack('>f', struct.pack('>f', v))[0] if isinstance(v, float) else v


class Controls:
    """generates control messages and applies them to the model"""

    def __init__(self, procs):
        self.procs = {p.name: p for p in procs if not isinstance(p, Broken)}

    def one(self, c):
        name = c.pick(sorted(self.procs)) if self.procs and not c.chance(10) else 'nobody'
        p = self.procs.get(name)
        keys = p.keys() if p else []
        key = c.pick(keys) if keys and not c.chance(10) else 'nothing'
        n = 2 if key == 'xy' else 1
        if c.chance(10):
            n = 3 - n
        if key in ('active', 'on'):
            vals = [c.range(0, 1) for _ in range(n)]
        elif key == 'id':
            vals = [c.range(0, 9) for _ in range(n)]
        else:
            vals = [c.pick([0.0, 1.0, -6.0, 0.5]) if c.chance(30) else round(c.real(0, 2), 3) for _ in range(n)]
            if c.chance(10):
                vals = [c.range(0, 3) for _ in range(n)]
        return name, key, vals

    def apply(self, name, key, vals):
        p = self.procs.get(name)
        if p is not None:
            p.set(key, vals)

    def oscMessage(self, c):
        if c.chance(8):
            return c.pick([b'', b'abc', b'/x', b'/vol/volume', osc('/nobody', [1.0]), b'\xff\xfe\x00\x01', osc('nothing', [])])
        name, key, vals = self.one(c)
        vals = [f32(v) for v in vals]
        self.apply(name, key, vals)
        return osc('/%s/%s' % (name, key), vals)

    def jsonMessage(self, c):
        if c.chance(8):
            return c.pick(['', '{', '5', '"text"', '[[]]', '{"p1":3}', 'null', '[1]', '{"nobody":{"k":[1]}}'])
        msgs = []
        for _ in range(c.size(1, 3)):
            name, key, vals = self.one(c)
            self.apply(name, key, vals)
            msgs.append((name, key, vals))
        if len(msgs) == 1 and c.flag():
            n, k, v = msgs[0]
            return json.dumps({n: {k: v}})
        if c.flag():
            return json.dumps([{n: c.pick([{k: v}, [{k: v}]])} for n, k, v in msgs])
        grouped = {}
        # one dictionary: processors in the order of their first message
        ordered = []
        for n, k, v in msgs:
            if n not in grouped:
                grouped[n] = []
                ordered.append(n)
            grouped[n].append({k: v})
        return json.dumps(grouped)


class Scene:
    """the model's object store"""

    def __init__(self, c):
        self.objs = {}

    def message(self, c):
        new = [anyObject(c) for _ in range(c.size(0, 4))]
        for o in new:
            self.objs[int(o['id'])] = copy.deepcopy(o)
        return json.dumps({'objects': new})

    def list(self):
        return [copy.deepcopy(o) for o in self.objs.values()]


def expected(chain, scene):
    log = []
    return chain.run(scene.list(), log), log


def printedIds(text):
    """ids of the objects printed by the sinks"""
    out = []
    for line in text.splitlines():
        if line.startswith('{') and "'id'" in line:
            import ast
            try:
                out.append(int(ast.literal_eval(line.replace('np.float64(', '(')) ['id']))
            except Exception:
                out.append(int(line.split("'id':")[1].split(',')[0].strip(" '}")))
    return out


def subTree(c):
    gen = Generator(c)
    chain = gen.chain(c, 2, 0, 4)
    always = not c.chance(25)
    with Scratch() as s, captured():
        path = s.file(rootXml(chain, c.pick(['metadapter', 'metadataadapter']) if c.chance(10) else 'metadapter'))
        engine = must_not_throw(lambda: metadapter.Engine(path, always) if not always or c.flag() else metadapter.Engine(path), 'valid configuration')
    procs = list(chain.walk())
    controls = Controls(procs)
    scene = Scene(c)
    calls = c.wide(1, 6, 40)
    c.label('processors %s' % (min(len(procs), 8)))
    for p in procs:
        c.label('type %s' % type(p).__name__)
    c.note('configuration', ET.tostring(rootXml(chain)).decode()[:1500])
    kept = None
    nonempty = False
    for t in range(calls):
        objMsgs = [scene.message(c) for _ in range(c.size(0, 2))]
        oscMsgs = [controls.oscMessage(c) for _ in range(c.weighted([5, 3, 1]))]
        # control data in one call is applied OSC first, then JSON
        jsonMsgs = [controls.jsonMessage(c) for _ in range(c.weighted([5, 3, 1]))]
        want, log = expected(chain, scene)
        with captured() as buf:
            if not jsonMsgs and c.flag():
                got = must_not_throw(lambda: engine.process(objMsgs, oscMsgs), 'processing')
            else:
                got = must_not_throw(lambda: engine.process(objMsgs, oscMsgs, jsonMsgs), 'processing')
        if not always and not (objMsgs or oscMsgs or jsonMsgs):
            check(got is None, 'result without any input: %r' % (got,))
            continue
        compare(got, want, 'call %d' % t)
        check(printedIds(buf.getvalue()) == log, 'objects printed by sinks: %r, expected %r' % (printedIds(buf.getvalue()), log))
        nonempty |= len(want) > 0
        must_not_throw(lambda: json.dumps(got), 'encoding of the result')
        if kept is not None:
            check(kept[0] == kept[1], 'a result returned earlier has been changed by a later call')
        # results belong to the caller: changing them has no influence
        kept = (got, copy.deepcopy(got))
        if c.chance(40):
            for o in got:
                o['level'] = 99
                o.get('position', {})['x'] = 1e9
                o.get('direction', {})['az'] = 1e9
                for e in o.get('eq', []):
                    e['f'] = -1
                o['group'] = 77
            del got[len(got) // 2:]
            kept = None
    if nonempty and len(procs) > 0 and calls > 1:
        c.nontrivial()


# ---------------------------------------------------------------- programmes
def subGroups(c):
    with Scratch() as s, captured():
        engine = metadapter.Engine(s.file(ET.fromstring('<metadapter><processor type="FakeGroups" name="f"/></metadapter>')))
    ids = list(range(c.size(1, 39)))
    random.Random(c.seed()).shuffle(ids)
    objs = [anyObject(c, i) for i in ids]
    prog = c.pick(['Forest', 'Frame', 'None'])
    with captured():
        first = must_not_throw(lambda: engine.process([json.dumps({'objects': objs})], []), 'processing')
        compare(first, objs, 'no programme')
        got = must_not_throw(lambda: engine.process([], [], [json.dumps({'f': {'programme': [prog]}})]), 'processing')
    if prog != 'None':
        check(all(int(o['group']) in range(1, 6) for o in got), 'groups %r' % [o['group'] for o in got])
        check(int(got[0]['group']) == 1, 'first object in group %r' % got[0]['group'])
        by = {plainId(o): o['group'] for o in got}
        objs = [dict(o, group=by[plainId(o)]) for o in objs]
        c.nontrivial()
    compare(got, objs, 'programme %s' % prog)


# ---------------------------------------------------------------- timeout
def subTimeout(c):
    limit = c.pick([20.0, 60.0, 1000.0])
    gen = Generator(c)
    chain = gen.chain(c, 1, 0, 2)
    with Scratch() as s, captured():
        engine = metadapter.Engine(s.file(rootXml(chain)), objectTimeoutSeconds=limit)
    scene = Scene(c)
    stamp = {}
    _shift[0] = 0.0
    base = _mono()
    dropped = False
    try:
        for t in range(c.size(2, 7)):
            _shift[0] += c.pick([0.0, 0.31, 0.73, 1.37]) * limit
            now = _shift[0]
            for k in [k for k, v in stamp.items() if now - v > limit]:
                del stamp[k], scene.objs[k]
                dropped = True
            if _mono() - base > 0.02 * limit:   # the machine is too slow for this case
                return
            msgs = []
            for _ in range(c.size(0, 1)):
                before = dict(scene.objs)
                m = scene.message(c)
                for o in json.loads(m)['objects']:
                    stamp[int(o['id'])] = now
                msgs.append(m)
            again = [k for k in scene.objs if c.chance(25)]
            if again:   # the same contents once more keep an object alive
                msgs.append(json.dumps({'objects': [scene.objs[k] for k in again]}))
                for k in again:
                    stamp[k] = now
            want, _ = expected(chain, scene)
            with captured():
                got = must_not_throw(lambda: engine.process(msgs, []), 'processing')
            compare(got, want, 'call %d at %.3f s' % (t, now))
    finally:
        _shift[0] = 0.0
    if dropped:
        c.nontrivial()


# ---------------------------------------------------------------- invalid configurations
def subConfig(c):
    gen = Generator(c)
    chain = gen.chain(c, 1, 0, 2)
    kind = c.pick(['missing', 'malformed', 'root', 'duplicate', 'noType', 'element', 'noCondition', 'twoConditions', 'noBranch', 'branchNames',
                   'mergeNames', 'noMerge', 'twoMerges', 'noOrder', 'condType', 'mergeType', 'sourceType', 'sinkType', 'noSource', 'sourceLate',
                   'mergeEarly', 'noSink', 'sinkBranches', 'throughName', 'sourceName', 'threeBranches', 'twoDefaults', 'groupIds'])
    c.label('fault %s' % kind)
    bad, text = None, None
    cond = Conditional(c, 0, gen)
    cx = cond.xml()
    branches = cx.findall('branch')
    cn, mg = cx.find('condition'), cx.find('merge')
    sm = SourceMerge(c, 0, gen).xml()
    sk = SplitSink(c, 0, gen).xml()
    if kind == 'duplicate':
        a, b = Volume(c), Compress(c)
        a.name = b.name = 'same'
        a.start()
        bad = ET.Element('sequence')
        bad.extend([a.xml(), b.xml()])
    elif kind == 'noType':
        bad = ET.Element('processor', {'name': 'x'})
    elif kind == 'element':
        bad = ET.Element(c.pick(['procesor', 'branch', 'merge', 'object', 'Sequence']), {'name': 'x'})
    elif kind == 'noCondition':
        cx.remove(cn)
        bad = cx
    elif kind == 'twoConditions':
        cx.append(copy.deepcopy(cn))
        bad = cx
    elif kind == 'noBranch':
        for b in branches:
            cx.remove(b)
        bad = cx
    elif kind == 'branchNames':
        c.pick(branches).set('id', 'other')
        bad = cx
    elif kind == 'mergeNames':
        if mg is None:
            mg = ET.SubElement(cx, 'merge', {'type': 'BranchOrderMerge', 'name': 'm'})
        mg.set('order', c.pick([','.join(cond.order) + ',more', ','.join(cond.order[1:] + ['odd']), 'none']))
        bad = cx
    elif kind == 'noMerge':
        if len(branches) < 2:
            return
        cx.remove(mg)
        bad = cx
    elif kind == 'twoMerges':
        if mg is None:
            return
        cx.append(copy.deepcopy(mg))
        bad = cx
    elif kind == 'noOrder':
        if mg is None:
            return
        del mg.attrib['order']
        bad = cx
    elif kind == 'condType':
        cn.set('type', 'Nothing')
        bad = cx
    elif kind == 'mergeType':
        if mg is None:
            return
        mg.set('type', 'Nothing')
        bad = cx
    elif kind == 'sourceType':
        sm.find('source').set('type', 'Nothing')
        bad = sm
    elif kind == 'sinkType':
        sk.find('sink').set('type', 'Nothing')
        bad = sk
    elif kind == 'noSource':
        sm.remove(sm.find(c.pick(['source', 'merge'])))
        bad = sm
    elif kind == 'sourceLate':
        v = Volume(c)
        v.name = 'late'
        v.start()
        sm.insert(0, v.xml())
        bad = sm
    elif kind == 'mergeEarly':
        v = Volume(c)
        v.name = 'late'
        v.start()
        (sm if c.flag() else sk).append(v.xml())
        bad = sm if sm.find('processor') is not None and list(sm)[-1].tag == 'processor' else sk
    elif kind == 'noSink':
        sk.remove(sk.find(c.pick(['sink', 'condition'])))
        bad = sk
    elif kind == 'sinkBranches':
        ET.SubElement(sk.find('condition'), 'group', {'branch': 'third', 'groupIds': '9'})
        bad = sk
    elif kind == 'throughName':
        x = c.pick([sm, sk])
        if c.flag():
            x.set('throughbranch', 'unknown')
        else:
            del x.attrib['throughbranch']
        bad = x
    elif kind == 'sourceName':
        if c.flag():
            sm.set('sourcebranch', 'unknown')
            bad = sm
        else:
            sk.set('sinkbranch', 'unknown')
            bad = sk
    elif kind == 'threeBranches':
        sm.find('merge').set('order', 'src,thru,third')
        bad = sm
    elif kind == 'twoDefaults':
        for _ in range(3):
            ET.SubElement(cn, 'default', {'branch': 'd'})
        bad = cx
    elif kind == 'groupIds':
        g = cn.find('group')
        if g is None:
            return
        g.set('groupIds', c.pick(['one', '1;2', '', '1,,2', '*,1']))
        bad = cx
    with Scratch() as s:
        if kind == 'missing':
            path = os.path.join(s.d, 'none.xml')
        elif kind == 'malformed':
            path = os.path.join(s.d, 'config.xml')
            whole = ET.tostring(rootXml(chain))
            with open(path, 'wb') as f:
                f.write(c.pick([b'', whole[:-3], whole + b'<', b'text']) if len(whole) > 16 else b'<')
        elif kind == 'root':
            path = s.file(rootXml(chain, c.pick(['metadapt', 'Metadapter', 'sequence', 'processor'])))
        else:
            where = c.pick(['top', 'sequence', 'branch', 'source'])
            r = rootXml(chain)
            if where == 'top':
                r.insert(c.range(0, len(r)), bad)
            elif where == 'sequence':
                ET.SubElement(r, 'sequence').append(bad)
            elif where == 'branch':
                q = ET.SubElement(r, 'conditional')
                k = ET.SubElement(q, 'condition', {'type': 'SelectGroup', 'name': 'outerCondition'})
                ET.SubElement(k, 'group', {'branch': 'o', 'groupIds': '*'})
                ET.SubElement(q, 'branch', {'id': 'o'}).append(bad)
            else:
                q = SourceMerge(c, 0, gen).xml()
                q.insert(1, bad)
                r.append(q)
            c.label('where %s' % where)
            c.note('configuration', ET.tostring(r).decode()[:1500])
            path = s.file(r)
        with captured():
            must_throw(lambda: metadapter.Engine(path), 'configuration with fault "%s"' % kind, (ValueError, RuntimeError, KeyError, SyntaxError))
    c.nontrivial()


# ---------------------------------------------------------------- the component
def subComponent(c):
    LIBRARY[0] = True
    try:
        component(c)
    finally:
        LIBRARY[0] = False


def component(c):
    from metadapter.visrintegration import Component
    gen = Generator(c)
    chain = gen.chain(c, 1, 0, 3)
    objIn, objOut, always = c.flag(), c.chance(30), not c.chance(40)
    useOsc, useJson = c.flag(), c.flag()
    c.label('ports %d%d%d%d' % (objIn, objOut, useOsc, useJson))
    procs = list(chain.walk())
    controls = Controls(procs)
    ctx = visr.SignalFlowContext(8, 48000)
    with Scratch() as s, captured():
        path = s.file(rootXml(chain))
        comp = must_not_throw(lambda: Component(ctx, 'meta', None, path, objectVectorInput=objIn, objectVectorOutput=objOut, oscControlPort=useOsc,
                                                jsonControlPort=useJson, alwaysProcess=always), 'component')
        flow = must_not_throw(lambda: rrl.AudioSignalFlow(comp), 'flow')
    inp = flow.parameterReceivePort('objectIn')
    out = flow.parameterSendPort('objectOut')
    if not useOsc:
        must_throw(lambda: flow.parameterReceivePort('oscControlIn'), 'port that is not requested')
    if not useJson:
        must_throw(lambda: flow.parameterReceivePort('jsonControlIn'), 'port that is not requested')
    scene = Scene(c)
    for t in range(c.size(1, 5)):
        changed = False
        if objIn:
            if c.chance(70):
                objs = {}
                for _ in range(c.size(0, 4)):
                    o = anyObject(c)
                    objs[int(o['id'])] = o
                ov = pml.ObjectVector(pml.EmptyParameterConfig())
                ov.updateFromJson(json.dumps({'objects': list(objs.values())}))
                for o in json.loads(ov.writeJson())['objects']:
                    scene.objs[int(o['id'])] = o
                data = inp.data()
                data.clear()
                data.updateFromJson(json.dumps({'objects': list(objs.values())}))
                inp.swapBuffers()
                changed = True
        else:
            for _ in range(c.size(0, 2)):
                inp.enqueue(pml.StringParameter(scene.message(c)))
                changed = True
        oscs, jsons = [], []
        if useOsc:
            for _ in range(c.size(0, 2)):
                flow.parameterReceivePort('oscControlIn').enqueue(pml.StringParameter(controls.oscMessage(c)))
                changed = True
        if useJson:
            for _ in range(c.size(0, 2)):
                flow.parameterReceivePort('jsonControlIn').enqueue(pml.StringParameter(controls.jsonMessage(c)))
                changed = True
        want, log = expected(chain, scene)
        with captured() as buf:
            must_not_throw(lambda: flow.process(), 'processing')
        due = always or changed
        if objOut:
            check(out.changed() == due, 'output %s, expected %s' % ('changed' if out.changed() else 'unchanged', due))
            out.resetChanged()
            if not due:
                continue
            ref = pml.ObjectVector(pml.EmptyParameterConfig())
            ref.updateFromJson(json.dumps({'objects': want}))
            compare(json.loads(out.data().writeJson())['objects'] or [], json.loads(ref.writeJson())['objects'] or [], 'iteration %d' % t)
        else:
            check(out.empty() == (not due), 'output message %s, expected %s' % (not out.empty(), due))
            if not due:
                continue
            msg = out.front().str
            out.pop()
            check(out.empty(), 'more than one output message')
            got = must_not_throw(lambda: json.loads(msg), 'decoding the output message')
            check(list(got) == ['objects'], 'output message %r' % msg[:100])
            compare(got['objects'], want, 'iteration %d' % t)
            ov = pml.ObjectVector(pml.EmptyParameterConfig())
            must_not_throw(lambda: ov.updateFromJson(msg), 'the library reads the output message')
            check(ov.size == len(want), 'the library reads %d objects from the output message, expected %d' % (ov.size, len(want)))
        check(printedIds(buf.getvalue()) == log, 'objects printed by sinks')
    if procs:
        c.nontrivial()


if __name__ == '__main__':
    pbt.run({'rule': 'configurations with at least one processor and a non-empty scene processed in several calls; timeouts that removed objects; every configuration with a fault',
             'subs': [('tree', subTree, 1500, 20000), ('groups', subGroups, 100, 500), ('timeout', subTimeout, 900, 9000), ('config', subConfig, 600, 6000), ('component', subComponent, 300, 3000)]})
