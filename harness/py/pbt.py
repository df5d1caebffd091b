"""Property-based testing engine for the Python side; same ideas, files and command
line as harness/pbt.cpp: every case is a function of a choice tape, cases run in
forked workers (a crash of the extension modules is a failing case), failures are
replayed, shrunk and written as a replay file."""
import hashlib, json, mmap, os, random, signal as _signal, struct, sys, time, traceback

MAXTAPE = 1 << 16
MSG = 1 << 14
_HDR = struct.Struct('<QQQQQ')  # case index, sub, tape length, busy, cpu ms at start
_TAPE0 = 64
_MSG0 = _TAPE0 + 8 * MAXTAPE
_NOTE0 = _MSG0 + MSG
_SIZE = _NOTE0 + MSG


class Failure(Exception):
    pass


def fail(msg):
    raise Failure(msg)


def check(cond, msg):
    if not cond:
        raise Failure(msg() if callable(msg) else str(msg))


class Case:
    def __init__(self, rnd, tape, shared):
        self._r, self._in, self._sh = rnd, tape, shared
        self._n = 0
        self.is_nontrivial = False
        self.notes = []
        self.labels = {}
        self.tape = []

    # choices; 0 is always the simplest one
    def draw(self, bound):
        bound = max(1, int(bound))
        if self._in is not None:
            v = self._in[self._n] % bound if self._n < len(self._in) else 0
        else:
            v = self._r.randrange(bound)
        if self._n < MAXTAPE:
            struct.pack_into('<Q', self._sh, _TAPE0 + 8 * self._n, v)
            self._n += 1
            struct.pack_into('<Q', self._sh, 16, self._n)
        else:
            v = 0
        return v

    def range(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    size = range

    def wide(self, lo, hi, most):
        """usually within [lo, hi], now and then up to most"""
        return self.size(lo, most) if self.chance(5) else self.size(lo, hi)

    def chance(self, pct):
        return self.draw(100) >= 100 - pct

    def flag(self):
        return self.draw(2) == 1

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, w):
        r = self.draw(sum(w))
        for i, x in enumerate(w):
            if r < x:
                return i
            r -= x
        return 0

    def real(self, lo, hi):
        r = self.draw(1100001)
        if r <= 1000000:
            return lo + (hi - lo) * (r / 1000000.0)
        k = r % 4
        if k == 0:
            return float(lo)
        if k == 1:
            return float(hi)
        if k == 2:
            return 1.0 if lo <= 1 <= hi else (lo + hi) / 2.0
        return 0.0 if lo <= 0 <= hi else (lo + hi) / 2.0

    def sym(self, mag):
        r = self.draw(2200001)
        if r > 2000000:
            one = 1.0 if mag >= 1 else mag / 2.0
            return (0.0, float(mag), -float(mag), one, -one)[r % 5]
        v = ((r + 1) // 2) / 1000000.0
        return (v if r & 1 else -v) * mag

    def seed(self):
        return self.draw(1 << 30)

    def rng(self):
        """numpy generator seeded from one draw (bulk data)"""
        import numpy as np
        return np.random.default_rng(self.seed())

    # reporting
    def label(self, s):
        self.labels[s] = self.labels.get(s, 0) + 1

    def note(self, *a):
        self.notes.append(' '.join(str(x) for x in a))

    def nontrivial(self):
        self.is_nontrivial = True
        self.flush_note()

    def note_str(self):
        return ' '.join(self.notes)

    def flush_note(self):
        _put(self._sh, _NOTE0, self.note_str())


def must_throw(f, what, kinds=(Exception,)):
    """the call must raise a regular Python exception"""
    try:
        f()
    except Failure:
        raise
    except kinds as e:
        return e
    fail('expected an error, but the call succeeded: ' + what)


def must_not_throw(f, what):
    try:
        return f()
    except Failure:
        raise
    except Exception as e:
        fail('unexpected error in %s: %s: %s' % (what, type(e).__name__, e))


def _put(sh, off, s):
    b = s.encode('utf-8', 'replace')[:MSG - 1] + b'\0'
    sh[off:off + len(b)] = b


def _get(sh, off):
    b = bytes(sh[off:off + MSG])
    return b[:b.find(b'\0')].decode('utf-8', 'replace')


def _tape(sh):
    n = min(struct.unpack_from('<Q', sh, 16)[0], MAXTAPE)
    return list(struct.unpack_from('<%dQ' % n, sh, _TAPE0))


def _cpu(pid):
    try:
        s = open('/proc/%d/stat' % pid).read()
        f = s[s.rfind(')') + 2:].split()
        return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
    except OSError:
        return 0.0


def _redirect(path):
    fd = os.open(path, os.O_CREAT | os.O_RDWR | os.O_TRUNC | os.O_APPEND, 0o644)
    sys.stdout.flush()
    sys.stderr.flush()
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)


class Engine:
    def __init__(self, spec, argv):
        self.spec = spec
        o = {'--property': 'P00', '--tier': 'quick', '--seed': '1', '--out': '.', '--replay': '', '--sub': '',
             '--wall': '60', '--scale': '1', '--jobs': str(min(16, os.cpu_count() or 1))}
        i = 1
        while i + 1 < len(argv):
            o[argv[i]] = argv[i + 1]
            i += 2
        self.prop, self.tier, self.out, self.replay, self.only = (o['--property'], o['--tier'], o['--out'], o['--replay'],
                                                                  o['--sub'])
        self.seed, self.wall, self.scale, self.jobs = int(o['--seed']), float(o['--wall']), float(o['--scale']), int(o['--jobs'])
        self.subs = spec['subs']
        self.names = [s[0] for s in self.subs]
        self.hang = spec.get('hang_cpu_seconds', 60.0)

    def exec_case(self, sh, sub, idx, rnd, tape):
        _HDR.pack_into(sh, 0, idx, sub, 0, 0, int(time.process_time() * 1000))
        _put(sh, _MSG0, '')
        _put(sh, _NOTE0, '')
        struct.pack_into('<Q', sh, 24, 1)
        c = Case(rnd, tape, sh)
        ok = False
        try:
            self.subs[sub][1](c)
            ok = True
        except Failure as e:
            _put(sh, _MSG0, str(e))
        except Exception as e:
            _put(sh, _MSG0, 'unexpected exception: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2500:]))
        c.flush_note()
        struct.pack_into('<Q', sh, 24, 0)
        return ok, c

    def run_tape(self, sub, tape, sh):
        log = os.path.join(self.out, 'replay.log')
        struct.pack_into('<Q', sh, 16, 0)
        _put(sh, _MSG0, '')
        _put(sh, _NOTE0, '')
        pid = os.fork()
        if pid == 0:
            try:
                _redirect(log)
                ok, _ = self.exec_case(sh, sub, 0, None, tape)
                sys.stdout.flush()
                os._exit(0 if ok else 42)
            finally:
                os._exit(43)
        hang = False
        while True:
            q, st = os.waitpid(pid, os.WNOHANG)
            if q == pid:
                break
            if _cpu(pid) > self.hang + 5:
                hang = True
                os.kill(pid, _signal.SIGKILL)
                os.waitpid(pid, 0)
                break
            time.sleep(0.0005)
        r = {'failed': True, 'kind': '', 'msg': '', 'note': _get(sh, _NOTE0), 'err': '', 'tape': _tape(sh)}
        if hang:
            r.update(kind='hang', msg='case used more than the allowed CPU time')
        elif os.WIFSIGNALED(st):
            r.update(kind='signal', msg='terminated by signal %d' % os.WTERMSIG(st), err=self.tail(log))
        elif os.WEXITSTATUS(st) == 42:
            r.update(kind='oracle', msg=_get(sh, _MSG0))
        elif os.WEXITSTATUS(st):
            r.update(kind='abort', msg='process ended with status %d' % os.WEXITSTATUS(st), err=self.tail(log))
        else:
            r['failed'] = False
        return r

    @staticmethod
    def tail(path, n=4000):
        try:
            d = open(path, 'rb').read()
            i = d.rfind(b'ERROR: AddressSanitizer')
            return (d[i:i + n] if i >= 0 else d[-n:]).decode('utf-8', 'replace')
        except OSError:
            return ''

    def shrink(self, f, sh, budget):
        t0 = time.monotonic()
        st = {'tries': 0}
        limit = 4 if f['res']['kind'] == 'hang' else 1500

        def over():
            return st['tries'] >= limit or time.monotonic() - t0 > budget

        def attempt(cand):
            if over():
                return False
            st['tries'] += 1
            r = self.run_tape(f['sub'], cand, sh)
            if r['failed'] and r['kind'] == f['res']['kind']:
                used = r['tape'][:len(cand)]
                f['tape'], f['res'] = used, r
                return True
            return False
        progress = True
        while progress and not over():
            progress = False
            ln = max(1, len(f['tape']) // 2)
            while ln >= 1:
                p = 0
                while p + ln <= len(f['tape']):
                    if attempt(f['tape'][:p] + f['tape'][p + ln:]):
                        progress = True
                    else:
                        p += ln
                    if over():
                        return
                if ln == 1:
                    break
                ln //= 2
            i = 0
            while i < len(f['tape']):
                if f['tape'][i]:
                    if attempt(f['tape'][:i] + [0] + f['tape'][i + 1:]):
                        progress = True
                    else:
                        lo, hi = 0, f['tape'][i]
                        while hi - lo > 1 and i < len(f['tape']):
                            mid = (lo + hi) // 2
                            if attempt(f['tape'][:i] + [mid] + f['tape'][i + 1:]):
                                progress, hi = True, mid
                            else:
                                lo = mid
                            if over():
                                return
                i += 1

    def rnd(self, sub, idx):
        return random.Random('%d/%s/%d' % (self.seed, self.names[sub], idx))

    def do_replay(self):
        sub, tape = None, []
        seq = None
        for line in open(self.replay):
            k = line.split()
            if not k:
                continue
            if k[0] == 'sub':
                sub = k[1]
            elif k[0] == 'tape':
                tape = [int(x) for x in k[2:]]
            elif k[0] == 'sequence':
                seq = [int(x) for x in k[1:4]] + [k[4], float(k[5]), k[6]]
            elif k[0] == 'fails-at':
                sub, idx = k[1], int(k[2])
        if sub not in self.names:
            print('replay: unknown sub-check', sub)
            return 2
        if seq is None:
            sh = mmap.mmap(-1, _SIZE)
            r = self.run_tape(self.names.index(sub), tape, sh)
            print('case:', r['note'])
            print('FAILED: %s\n%s' % (r['msg'], r['err']) if r['failed'] else 'passed')
            bad = r['failed']
        else:
            self.seed, w, self.jobs, self.tier, self.scale = seq[:5]
            self.only = '' if seq[5] == '-' else seq[5]
            bad = self.run_sequence(self.order(), w, self.names.index(sub), idx)
            print('FAILED' if bad else 'passed')
        if bad:
            print('VIOLATION property=%s replay=%s' % (self.prop, self.replay))
        return 1 if bad else 0

    def order(self):
        o = []
        for s, (name, fn, quick, thorough) in enumerate(self.subs):
            if self.only and name != self.only:
                continue
            n = thorough if self.tier == 'thorough' else quick
            n = max(1 if n else 0, int(n * self.scale))
            o += [((i + 0.5) / n, s, i) for i in range(n)]
        o.sort(key=lambda t: t[0])
        return [(s, i) for _, s, i in o]

    def run_sequence(self, order, w, sub, idx):
        sh = mmap.mmap(-1, _SIZE)
        pid = os.fork()
        if pid == 0:
            try:
                _redirect(os.path.join(self.out, 'sequence.log'))
                for s, i in order[w::self.jobs]:
                    ok, _ = self.exec_case(sh, s, i, self.rnd(s, i), None)
                    if not ok:
                        os._exit(42)
                    if (s, i) == (sub, idx):
                        break
                os._exit(0)
            finally:
                os._exit(43)
        _, st = os.waitpid(pid, 0)
        i, s = struct.unpack_from('<QQ', sh, 0)
        return st != 0 and (s, i) == (sub, idx)

    def run(self):
        if self.replay:
            return self.do_replay()
        t0 = time.monotonic()
        order = self.order()
        shs, pids = [], {}
        for w in range(self.jobs):
            sh = mmap.mmap(-1, _SIZE)
            shs.append(sh)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                rc = 43
                try:
                    rc = self.worker(w, sh, order, t0)
                finally:
                    try:
                        sys.stdout.flush()
                    except Exception:
                        pass
                    os._exit(rc)
            pids[pid] = w
        found, trouble = None, ''

        def collect(w, kind, msg):
            i, s = struct.unpack_from('<QQ', shs[w], 0)
            err = '' if kind == 'oracle' else self.tail(os.path.join(self.out, 'worker%d.log' % w))
            return {'w': w, 'sub': s, 'idx': i, 'tape': _tape(shs[w]),
                    'res': {'kind': kind, 'msg': msg, 'note': _get(shs[w], _NOTE0), 'err': err}}
        while pids and not found:
            for pid, w in list(pids.items()):
                q, st = os.waitpid(pid, os.WNOHANG)
                if q == pid:
                    del pids[pid]
                    if os.WIFSIGNALED(st):
                        if os.WTERMSIG(st) == _signal.SIGKILL:
                            trouble = 'a worker was killed from outside'
                        else:
                            found = found or collect(w, 'signal', 'terminated by signal %d' % os.WTERMSIG(st))
                    elif os.WEXITSTATUS(st) == 42:
                        found = found or collect(w, 'oracle', _get(shs[w], _MSG0))
                    elif os.WEXITSTATUS(st):
                        found = found or collect(w, 'abort', 'process ended with status %d' % os.WEXITSTATUS(st))
                else:
                    i, s, n, busy, ms = _HDR.unpack_from(shs[w], 0)
                    if busy and _cpu(pid) - ms / 1000.0 > self.hang and _HDR.unpack_from(shs[w], 0)[0] == i:
                        os.kill(pid, _signal.SIGKILL)
                        os.waitpid(pid, 0)
                        del pids[pid]
                        found = found or collect(w, 'hang', 'case used more than the allowed CPU time')
            time.sleep(0.005)
        for pid in pids:
            os.kill(pid, _signal.SIGKILL)
            os.waitpid(pid, 0)
        rc = violations = 0
        if found:
            sh = mmap.mmap(-1, _SIZE)
            name = self.names[found['sub']]
            path = os.path.join(self.out, '%s-%s.replay' % (self.prop, name))
            solid, first = True, None
            for _ in range(1 if found['res']['kind'] == 'hang' else 3):
                r = self.run_tape(found['sub'], found['tape'], sh)
                if not r['failed']:
                    solid = False
                    break
                first = r
            if solid:
                found['res'] = first
                self.shrink(found, sh, 60 if self.tier == 'thorough' else 25)
                res = found['res']
                with open(path, 'w') as o:
                    o.write('property %s\nsub %s\nseed %d\ncase %d\ntape %d %s\n' % (
                        self.prop, name, self.seed, found['idx'], len(found['tape']), ' '.join(map(str, found['tape']))))
                    for tag, s in (('kind', res['kind']), ('message', res['msg']), ('case', res['note']), ('stderr', res['err'])):
                        for l in s.splitlines():
                            o.write('# %s: %s\n' % (tag, l))
                print('sub-check %s case %d: %s: %s' % (name, found['idx'], res['kind'], res['msg']))
                print('minimal case:', res['note'])
                if res['err']:
                    print(res['err'][:3000])
                rc = 1
            else:
                res = found['res']
                print('note: case %d of %s did not fail in isolation: %s' % (found['idx'], name, res['msg']))
                if all(self.run_sequence(order, found['w'], found['sub'], found['idx']) for _ in range(2)):
                    with open(path, 'w') as o:
                        o.write('property %s\nsequence %d %d %d %s %g %s\nfails-at %s %d\n' % (
                            self.prop, self.seed, found['w'], self.jobs, self.tier, self.scale, self.only or '-', name, found['idx']))
                        for l in (res['msg'] + '\n' + res['note']).splitlines():
                            o.write('# ' + l + '\n')
                    print('sub-check %s case %d (only after the preceding cases in the same process): %s: %s' % (
                        name, found['idx'], res['kind'], res['msg']))
                    rc = 1
                else:
                    trouble = 'non-reproducible failure (not reported as violation): ' + res['msg']
            if rc:
                violations = 1
                print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
        ev = nt = 0
        hashes, labels, per, samples = set(), {}, {}, []
        for w in range(self.jobs):
            try:
                d = json.load(open(os.path.join(self.out, 'stats%d' % w)))
            except (OSError, ValueError):
                continue
            ev += d['evals']
            nt += d['nontriv']
            hashes.update(d['hashes'])
            for k, v in d['labels'].items():
                labels[k] = labels.get(k, 0) + v
            for k, v in d['per'].items():
                per[k] = per.get(k, 0) + v
            samples += d['samples']
        random.Random(1).shuffle(samples)
        json.dump({'evaluations': ev, 'planned': len(order), 'nontrivial': nt, 'distinct_nontrivial': len(hashes),
                   'rule': self.spec['rule'], 'samples': samples[:8], 'labels': dict(sorted(labels.items())), 'subs': per,
                   'assumptions': self.spec.get('assumptions', []), 'violations': violations, 'trouble': trouble,
                   'wall_s': time.monotonic() - t0}, open(os.path.join(self.out, 'result.json'), 'w'))
        print('%s %s seed=%d: %d/%d cases, %d distinct non-trivial, %.1f s%s' % (
            self.prop, self.tier, self.seed, ev, len(order), len(hashes), time.monotonic() - t0,
            ' [%s]' % trouble if trouble else ''), flush=True)
        return rc

    def worker(self, w, sh, order, t0):
        log = os.path.join(self.out, 'worker%d.log' % w)
        _redirect(log)
        ev = nt = 0
        hashes, labels, per, samples = set(), {}, {}, []
        rc = 0
        for s, i in order[w::self.jobs]:
            if time.monotonic() - t0 > self.wall:
                break
            if os.lseek(1, 0, os.SEEK_END) > 1 << 20:
                os.ftruncate(1, 0)
            ok, c = self.exec_case(sh, s, i, self.rnd(s, i), None)
            ev += 1
            per[self.names[s]] = per.get(self.names[s], 0) + 1
            for k, v in c.labels.items():
                labels[k] = labels.get(k, 0) + v
            if not ok:
                rc = 42
                break
            if c.is_nontrivial:
                nt += 1
                hashes.add(hashlib.md5(repr((s, _tape(sh))).encode()).hexdigest()[:16])
                if len(samples) < 4:
                    samples.append((self.names[s] + ': ' + c.note_str()).replace('\n', ' ')[:600])
        json.dump({'evals': ev, 'nontriv': nt, 'hashes': sorted(hashes), 'labels': labels, 'per': per, 'samples': samples},
                  open(os.path.join(self.out, 'stats%d' % w), 'w'))
        return rc


def run(spec):
    """spec: rule, subs [(name, fn, quick, thorough)], optional assumptions, hang_cpu_seconds"""
    sys.exit(Engine(spec, sys.argv).run())
