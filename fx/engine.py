"""Building /repo's crate, generating code for a corpus, compiling and running the harness.  Everything is rebuilt
from /repo's working tree; nothing is cached across different source contents."""
import fcntl, hashlib, json, os, random, re, select, shutil, subprocess, sys, tempfile, time
sys.setrecursionlimit(100000)
from model import *
import rustgen

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(ROOT, '.work')
TGT = os.path.join(WORK, 'target')
REPO = '/repo'
NCPU = os.cpu_count() or 4


RLIB = None


class Broken(Exception):
    """the machinery could not run (never a verdict)"""


def env():
    e = dict(os.environ)
    e['CARGO_TARGET_DIR'] = TGT
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('RUSTFLAGS', None)
    return e


def source_hash():
    h = hashlib.sha256()
    files = []
    for top in ('src', 'Cargo.toml', 'Cargo.lock', 'build.rs'):
        p = os.path.join(REPO, top)
        if os.path.isdir(p):
            for d, _, fs in os.walk(p):
                files += [os.path.join(d, f) for f in fs]
        elif os.path.exists(p):
            files.append(p)
    for f in sorted(files):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()


def build(bins=('fxgen',)):
    """(re)builds the drivers and the crate from /repo's tree; returns {bin: path}"""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(WORK, 'built')
        h = source_hash()
        fp = os.path.join(TGT, 'debug', '.fingerprint')
        if (not os.path.exists(stamp) or open(stamp).read() != h) and os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(('fastxdr-', 'drv-')):
                    shutil.rmtree(os.path.join(fp, d))
        out = {}
        for b in bins:
            cmd = ['cargo', 'build', '--offline', '-q', '--bin', b, '--message-format', 'json-diagnostic-short']
            r = subprocess.run(cmd, cwd=os.path.join(ROOT, 'drv'), env=env(), capture_output=True, text=True)
            if r.returncode:
                raise Broken('cannot build %s:\n%s' % (b, r.stderr[-3000:] + r.stdout[-3000:]))
            for l in r.stdout.splitlines():
                if '"fastxdr"' in l and '.rlib' in l:
                    d = json.loads(l)
                    if d.get('reason') == 'compiler-artifact' and d['target']['name'] == 'fastxdr':
                        global RLIB
                        RLIB = [f for f in d['filenames'] if f.endswith('.rlib')][0]
            out[b] = os.path.join(TGT, 'debug', b)
        if 'fastxdr' in bins:
            out['fastxdr'] = os.path.join(TGT, 'debug', 'fastxdr')
        open(stamp, 'w').write(h)
    return out


def cli():
    """the fastxdr binary built from the working tree"""
    r = subprocess.run(['cargo', 'build', '--offline', '-q', '--bin', 'fastxdr'], cwd=REPO, env=dict(env(), CARGO_TARGET_DIR=os.path.join(WORK, 'cli')),
                       capture_output=True, text=True)
    if r.returncode:
        raise Broken('cannot build the CLI: ' + r.stderr[-2000:])
    return os.path.join(WORK, 'cli', 'debug', 'fastxdr')


class Proc:
    """line protocol process with a timeout per line; restarts after death"""

    def __init__(self, exe, timeout=20, mem_kb=8 << 20):
        self.exe, self.timeout, self.mem, self.p = exe, timeout, mem_kb, None

    def start(self):
        self.p = subprocess.Popen(['bash', '-c', 'ulimit -v %d; ulimit -c 0; exec "$0"' % self.mem, self.exe], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        self.buf = b''

    def ask(self, line):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(line.encode() + b'\n')
        except BrokenPipeError:
            pass
        t = time.time() + self.timeout
        while b'\n' not in self.buf:
            left = t - time.time()
            if left <= 0:
                self.p.kill()
                self.p.wait()
                self.p = None
                return 'timeout'
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                c = os.read(self.p.stdout.fileno(), 1 << 16)
                if not c:
                    rc = self.p.wait()
                    self.p = None
                    return 'died %d' % rc
                self.buf += c
        l, self.buf = self.buf.split(b'\n', 1)
        return l.decode()

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None


class Gen:
    def __init__(self, exe, tmp):
        self.proc, self.tmp, self.n = Proc(exe), tmp, 0

    def run(self, text, mode='gen'):
        """(status, message, generated text)"""
        i = os.path.join(self.tmp, 'in.x')
        o = os.path.join(self.tmp, 'out.rs')
        with open(i, 'w', newline='') as f:
            f.write(text)
        if os.path.exists(o):
            os.unlink(o)
        m = self.proc.ask('%s %s %s' % (mode, i, o))
        st, _, msg = m.partition(' ')
        return st, msg, (open(o, newline='').read() if st == 'ok' and os.path.exists(o) else None)


def tmpdir():
    os.makedirs(WORK, exist_ok=True)
    return tempfile.mkdtemp(prefix='run-', dir=WORK)


class Compiled:
    """the harness for a list of specs: compiled shards able to answer decode requests"""

    def __init__(self, specs, tmp, gen_exe, derive=False, traits=True, texts=None):
        self.tmp = tmp
        self.failures = {}   # spec id -> reason (generation or compile failure)
        self.specs = {}
        self.shard_of = {}
        self.exes = []
        g = Gen(gen_exe, tmp)
        ok = []
        for sp in specs:
            st, msg, text = g.run(texts[sp.id] if texts else sp.render(), 'derive' if derive else 'gen')
            if st != 'ok':
                self.failures[sp.id] = 'generate: %s %s' % (st, msg)
                continue
            p = os.path.join(tmp, 'm_%s.rs' % sp.id)
            open(p, 'w').write(text)
            ok.append((sp, p))
        g.proc.close()
        self.gen_text = {sp.id: p for sp, p in ok}
        self.specs = {sp.id: sp for sp, _ in ok}
        for sp, _ in ok:
            sp.freeze()
        # balance by size of text
        shards = [[] for _ in range(min(NCPU, max(1, len(ok))))]
        load = [0] * len(shards)
        for sp, p in sorted(ok, key=lambda t: -os.path.getsize(t[1])):
            i = load.index(min(load))
            shards[i].append((sp, p))
            load[i] += os.path.getsize(p) - 8000
        procs = []
        self.shards = shards
        pend = [(i, s) for i, s in enumerate(shards) if s]
        while pend:
            procs = [(i, s, self._rustc(i, s, traits)) for i, s in pend]
            pend = []
            for i, s, pr in procs:
                _, err = pr.communicate()
                if pr.returncode == 0:
                    self.exes.append((os.path.join(tmp, 'h%d' % i), [sp.id for sp, _ in s]))
                    for sp, _ in s:
                        self.shard_of[sp.id] = os.path.join(tmp, 'h%d' % i)
                    continue
                bad = self._blame(s, err, i)
                if not bad:
                    raise Broken('harness does not compile:\n' + err[-3000:])
                for sid, why in bad.items():
                    self.failures[sid] = 'rustc: ' + why
                rest = [(sp, p) for sp, p in s if sp.id not in bad]
                if rest:
                    pend.append((i, rest))

    def _rustc(self, i, shard, traits):
        src = os.path.join(self.tmp, 'h%d.rs' % i)
        mods = [(sp.id, rustgen.module(sp, sp.id, p, traits)) for sp, p in shard]
        text = rustgen.main_rs(mods)
        open(src, 'w').write(text)
        # remember the line ranges, to attribute errors in the accessor code
        self._lines = getattr(self, '_lines', {})
        ranges, ln = [], 1
        pos = 0
        for sid, t in mods:
            k = text.index(t, pos)
            a = text.count('\n', 0, k) + 1
            ranges.append((sid, a, a + t.count('\n')))
            pos = k
        self._lines[i] = ranges
        cmd = ['rustc', '--edition', '2021', '--cap-lints', 'allow', '-C', 'debuginfo=0', '-C', 'opt-level=0', '-C', 'debug-assertions=on', '-C', 'overflow-checks=on',
               '--error-format', 'json', '--extern', 'fastxdr=' + RLIB,
               '-L', 'dependency=' + os.path.join(TGT, 'debug', 'deps'), '-o', os.path.join(self.tmp, 'h%d' % i), src]
        return subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)

    def _blame(self, shard, err, i):
        bad = {}
        paths = {p: sp.id for sp, p in shard}
        for l in err.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level') != 'error':
                continue
            def spans(d):
                for s in d.get('spans', []):
                    yield s
                    e = s.get('expansion')
                    while e:
                        yield e['span']
                        e = e['span'].get('expansion')
                for c in d.get('children', []):
                    yield from spans(c)
            for s in sorted(spans(d), key=lambda s: not s.get('is_primary')):
                f = s['file_name']
                if f in paths:
                    bad.setdefault(paths[f], '%s (line %d)' % (d['message'], s['line_start']))
                    break
                hit = [sid for sid, a, b in self._lines[i] if f.endswith('h%d.rs' % i) and a <= s['line_start'] <= b]
                if hit:
                    bad.setdefault(hit[0], '%s [accessor]' % d['message'])
                    break
        return bad

    def run(self, reqs, timeout=120, mem_kb=4 << 20):
        """reqs: list of (spec id, type, pre, data, suf) -> list of results (A, B) or ('died rc',)*2"""
        by = {}
        for k, q in enumerate(reqs):
            by.setdefault(self.shard_of[q[0]], []).append(k)
        res = [None] * len(reqs)
        hx = lambda b: b.hex() or '-'
        todo = {}
        procs = []
        for exe, ks in by.items():
            todo[exe] = ks
        while todo:
            procs = []
            for exe, ks in todo.items():
                f = tempfile.NamedTemporaryFile('w', dir=self.tmp, delete=False)
                for k in ks:
                    s, t, a, b, c = reqs[k]
                    f.write('%d %s %s %s %s %s\n' % (k, s, t, hx(a), hx(b), hx(c)))
                f.close()
                o = f.name + '.out'
                p = subprocess.Popen(['bash', '-c', 'ulimit -v %d; ulimit -c 0; exec timeout -s KILL %d "$0" < %s > %s' % (mem_kb, timeout, f.name, o), exe],
                                     stderr=subprocess.DEVNULL)
                procs.append((exe, ks, p, o))
            todo = {}
            for exe, ks, p, o in procs:
                p.wait()
                got = 0
                for l in open(o, errors='replace'):
                    if not l.endswith('\n'):
                        break
                    i, a, b = l.rstrip('\n').split('|')
                    res[int(i)] = (a, b)
                    got += 1
                if got < len(ks):
                    # the first unanswered request ended the process
                    k = ks[got]
                    res[k] = ('died;%d' % p.returncode,) * 2
                    if ks[got + 1:]:
                        todo[exe] = ks[got + 1:]
        return res
