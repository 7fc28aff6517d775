"""Client of the simulator process."""
import os, subprocess, sys, threading
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SIM_REPO', '/repo')
OUT = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))


def hx(s):
    if isinstance(s, str):
        s = s.encode('utf-8')
    return s.hex()


class Result:
    __slots__ = ('status', 'lines', 'err', 'end', 'stat', 'files', 'raw')

    def __init__(self, status, log, err):
        self.status = status
        self.err = err
        self.raw = log
        self.lines = log.decode('latin-1').split('\n')
        if self.lines and self.lines[-1] == '':
            self.lines.pop()
        self.end = None
        self.stat = {}
        self.files = {}
        for l in self.lines[-60:]:
            if l.startswith('END '):
                self.end = l[4:]
            elif l.startswith('STAT '):
                for kv in l[5:].split():
                    k, v = kv.split('=')
                    self.stat[k] = int(v)
        for l in self.lines:
            if l.startswith('F '):
                _, p, *h = l.split(' ')
                self.files[p] = bytes.fromhex(h[0]) if h and h[0] else b''

    @property
    def crashed(self):
        return self.end is None

    def crash_kind(self):
        """a stable one-line description of an abnormal end"""
        if not self.crashed:
            return None
        e = self.err.decode('latin-1')
        st = self.status
        sig = st & 0x7f
        kind = 'signal %d' % sig if sig else 'exit %d' % (st >> 8)
        frames = []
        for l in e.split('\n'):
            if 'ERROR: AddressSanitizer' in l:
                kind = 'asan ' + l.split('AddressSanitizer:')[1].split()[0]
            ls = l.strip()
            if ls.startswith('#') and ' in ' in ls and len(frames) < 6:
                frames.append(ls.split(' in ')[1].split()[0])
            elif frames and not ls:
                break
        if 'Assertion' in e:
            kind += ' assertion'
        return kind + (' in ' + ' < '.join(frames) if frames else '')

    def tag(self, *tags):
        return [l for l in self.lines if l.split(' ', 1)[0] in tags]

    def fired(self):
        return [l[2:] for l in self.lines if l.startswith('! ')]


class Sim:
    def __init__(self, variant='compact'):
        self.variant = variant
        self.p = None
        self.runs = 0

    def start(self):
        env = {}        # (the environment lies on the simulated stack)
        env['ASAN_OPTIONS'] = ('detect_leaks=0:allocator_may_return_null=1:'
                               'detect_stack_use_after_return=0:'
                               'handle_segv=1:use_sigaltstack=1:'
                               'quarantine_size_mb=16')
        env['LC_ALL'] = 'C'
        self.p = subprocess.Popen(
            [os.path.join(OUT, self.variant, 'sim'), os.path.join(REPO, 'lib')],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
            stderr=subprocess.DEVNULL)

    def run(self, scen):
        if self.p is None or self.p.poll() is not None:
            self.start()
        b = scen.encode('latin-1') if isinstance(scen, str) else scen
        self.p.stdin.write(b'%d\n' % len(b) + b)
        self.p.stdin.flush()
        h = self.p.stdout.readline()
        if not h:
            self.p = None
            raise RuntimeError('simulator died')
        st, n, m = map(int, h.split())
        log = self.p.stdout.read(n)
        err = self.p.stdout.read(m)
        self.runs += 1
        return Result(st, log, err)

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None


_sims = {}


def sim(variant):
    s = _sims.get((os.getpid(), variant))
    if s is None:
        s = _sims[(os.getpid(), variant)] = Sim(variant)
    return s


def reset():
    """start the simulator anew at its next use"""
    for k in list(_sims):
        if k[0] == os.getpid():
            p = _sims.pop(k).p
            if p:
                p.kill()
                p.wait()
