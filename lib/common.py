import concurrent.futures as cf, contextlib, fcntl, hashlib, json, os, random, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
RUNTIME_C = os.path.join(REPO, 'tests', 'c')
RUNTIME_CPP = os.path.join(REPO, 'tests', 'cpp')
RUNTIME_RS = os.path.join(REPO, 'tests', 'src', 'object')
JOBS = os.cpu_count() or 4


def env():
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
             CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0', CARGO_PROFILE_DEV_DEBUG='0',
             RUST_BACKTRACE='0')
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    for k in ('CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CFLAGS',
              'CXXFLAGS', 'LD_LIBRARY_PATH', 'MAKEFLAGS'):
        e.pop(k, None)
    return e


ENV = env()


class BuildError(Exception):
    pass


@contextlib.contextmanager
def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + '.lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def not_searching(seconds):
    """Time spent on building does not count against the search budget."""
    for c in Check.live:
        c.t0 += seconds
        c.build_s += seconds


def build_idlc(release=False):
    """Builds idlc from /repo's working tree; returns the binary's path."""
    tgt = os.path.join(BUILD, 'target')
    cmd = ['cargo', 'build', '--offline', '-p', 'idlc', '--bin', 'idlc', '--manifest-path',
           os.path.join(REPO, 'Cargo.toml'), '--target-dir', tgt]
    if release:
        cmd.append('--release')
    t = time.time()
    with lock('cargo'):
        r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('idlc does not build:\n' + r.stdout[-4000:])
    not_searching(time.time() - t)
    return os.path.join(tgt, 'release' if release else 'debug', 'idlc')


def run(cmd, timeout=60, cwd=None, stdin=None, text=True, env_=None, mem_gb=None, stack_mb=None):
    """-> (rc, stdout, stderr); rc is -signal on a signal and 'timeout' on expiry."""
    def pre():
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
        if stack_mb:
            hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
            want = stack_mb << 20
            resource.setrlimit(resource.RLIMIT_STACK, (want if hard < 0 else min(want, hard), hard))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    kw = dict(text=True, errors='replace') if text else {}
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         cwd=cwd, env=env_ or ENV, preexec_fn=pre, **kw)
    try:
        o, e = p.communicate(stdin, timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        with contextlib.suppress(ProcessLookupError):
            os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return 'timeout', o, e


BACKENDS = ('c', 'cs', 'cpp', 'cpps', 'rust', 'java')
FLAGS = {'c': [], 'cs': ['--skel'], 'cpp': ['--cpp'], 'cpps': ['--cpp', '--skel'], 'rust': ['--rust'],
         'java': ['--java'], 'cn': ['--no-typed-objects'], 'csn': ['--no-typed-objects', '--skel']}


def out_name(stem, be):
    return {'c': stem + '.h', 'cn': stem + '.h', 'cs': stem + '_invoke.h', 'csn': stem + '_invoke.h',
            'cpp': stem + '.hpp', 'cpps': stem + '_invoke.hpp'}.get(be)


def idlc(binary, path, be, out, inc=(), extra=(), cwd=None, timeout=60, mem_gb=8):
    """out: directory (file name is derived) or a full file name for C/C++"""
    if be not in ('rust', 'java') and os.path.isdir(out):
        out = os.path.join(out, out_name(os.path.splitext(os.path.basename(path))[0], be))
    cmd = [binary, path, '-o', out] + FLAGS[be] + list(extra)
    for i in inc:
        cmd += ['-I', i]
    return run(cmd, cwd=cwd, timeout=timeout, mem_gb=mem_gb)


STUBS_OF = {'cs': 'c', 'csn': 'cn', 'cpps': 'cpp'}     # a skeleton header lies beside the stub header it includes


def gen_all(binary, fs, src, dst, backends, extra=()):
    """Compiles every file of the set with every backend into dst/<backend>/ (skeletons beside their stubs); returns [] or error list."""
    jobs = []
    for be in backends:
        os.makedirs(os.path.join(dst, be), exist_ok=True)
        for f in fs.files:
            out = os.path.join(dst, STUBS_OF.get(be, be))
            if out_name('', be):         # headers are laid out like the IDL files they include
                out = os.path.join(out, out_name(os.path.splitext(f.path)[0], be))
                os.makedirs(os.path.dirname(out), exist_ok=True)
            jobs.append((os.path.join(src, f.path), be, out))
    incs = [os.path.join(src, d) for d in fs.incdirs]
    errs = []
    for j, r in zip(jobs, pmap(lambda j: idlc(binary, j[0], j[1], j[2], incs, extra), jobs)):
        if r[0] != 0:
            errs.append((os.path.relpath(j[0], src), j[1], r[0], r[2][-600:]))
    return errs


def hdr_dirs(fs, d, bes):
    """-I options for the headers generated by gen_all"""
    r = []
    for b in sorted({STUBS_OF.get(b, b) for b in bes}):
        for x in ['.'] + list(fs.incdirs):
            p = os.path.normpath(os.path.join(d, b, x))
            if p not in r:
                r += ['-I', p]
    return r


def pmap(f, xs, n=JOBS):
    xs = list(xs)
    if len(xs) <= 1:
        return [f(x) for x in xs]
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


def scratch(prefix='v'):
    base = os.path.join(BUILD, 'scratch', str(os.getpid()))
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix=prefix, dir=base)


@contextlib.contextmanager
def scratchdir(prefix='v'):
    d = scratch(prefix)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tree_snapshot(root):
    r = {}
    for d, ds, fs in os.walk(root):
        for f in fs + [x for x in ds if os.path.islink(os.path.join(d, x))]:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                r[rel] = ('link', os.readlink(p))
            else:
                r[rel] = open(p, 'rb').read()
        for x in ds:
            r[os.path.relpath(os.path.join(d, x), root) + '/'] = 'dir'
    return r


class Check:
    live = []

    def __init__(self, prop, level='exploration'):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.quick = self.tier != 'thorough'
        self.t0 = time.time()
        self.build_s = 0
        Check.live.append(self)
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.viol = {}
        self.known_seen = {}
        self.rng = random.Random('%s/%d/%s' % (prop, self.seed, self.tier))
        self.known = [k for k in load_known() if k['property'] == prop and k.get('status') == 'open']

    def budget(self, quick, thorough):
        """wall seconds left in the tier's budget (from process start)"""
        return (quick if self.quick else thorough) - (time.time() - self.t0)

    def case(self, key, nontrivial=True, sample=None, n=1):
        self.evals += n
        if nontrivial:
            k = hashlib.sha1(key.encode() if isinstance(key, str) else key).digest()[:10]
            if k not in self.distinct:
                self.distinct.add(k)
                if sample is not None and len(self.samples) < 6:
                    self.samples.append(sample)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def violation(self, sig, msg, replay):
        """sig: stable signature; one report per signature"""
        for k in self.known:
            if k['sig'] == sig:
                self.known_seen[sig] = k
                return False
        if sig in self.viol:
            return True
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps([sig, replay], sort_keys=True, default=str).encode()).hexdigest()[:10]
        p = os.path.join(d, '%s-%s.json' % (self.prop, h))
        with open(p, 'w') as f:
            json.dump({'property': self.prop, 'sig': sig, 'message': msg, 'seed': self.seed, 'replay': replay}, f, indent=1,
                      default=str)
        self.viol[sig] = p
        print('# %s: %s' % (sig, msg[:2000]))
        print('VIOLATION property=%s replay=%s' % (self.prop, p), flush=True)
        return True

    def known_probe(self, sig, failing):
        """Result of re-running the fixed input of a recorded finding."""
        for k in self.known:
            if k['sig'] == sig and failing:
                self.known_seen[sig] = k
                return True
        return False

    def finish(self, rule):
        for sig, k in sorted(self.known_seen.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        ev = {'property': self.prop, 'tier': 'quick' if self.quick else 'thorough', 'seed': self.seed, 'level': self.level,
              'coverage': {'evaluations': self.evals, 'distinct_nontrivial': len(self.distinct), 'rule': rule,
                           'samples': self.samples or ['(none)'], **self.extra},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0 + self.build_s, 2), 'build_s': round(self.build_s, 2), 'violations': len(self.viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %.1f s' % (
            self.prop, self.tier, self.seed, self.evals, len(self.distinct), len(self.viol), time.time() - self.t0))
        if not self.evals and not self.viol:
            print('ERROR: nothing was checked')
            return 2
        return 1 if self.viol else 0


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []


# ------------------------------------------------------------------ process fan-out
class Case:
    """one generated case as reported by a worker; viol = (sig, message, data the parent shrinks/replays)"""
    __slots__ = ('key', 'nontrivial', 'sample', 'counts', 'viol', 'maxima', 'add', 'n')

    def __init__(self, key, nontrivial=True, sample=None, counts=(), viol=None, maxima=None):
        self.key = hashlib.sha1(key.encode() if isinstance(key, str) else key).digest()[:10]
        self.nontrivial, self.sample, self.counts, self.viol, self.maxima = nontrivial, sample, list(counts), viol, maxima or {}
        self.add, self.n = {}, 1


def _fan_worker(a):
    fn, seed, w, t_end, nmax, args = a
    sys.setrecursionlimit(20000)
    rng = random.Random('%s/%d' % (seed, w))
    out, n, sigs, first = [], 0, set(), True
    try:
        while n < nmax and time.time() < t_end and len(sigs) < 3:
            for cs in fn(rng, *args):
                n += 1
                if len(out) > 12:
                    cs.sample = None
                if cs.viol:
                    if cs.viol[0] in sigs:
                        cs.viol = None
                    else:
                        sigs.add(cs.viol[0])
                out.append(cs)
    finally:
        shutil.rmtree(os.path.join(BUILD, 'scratch', str(os.getpid())), ignore_errors=True)
    return out


def fan(c, fn, quick_s, thorough_s, nmax, args=(), salt=''):
    """Runs fn(rng, *args) -> [Case] repeatedly in JOBS processes until the tier's budget (wall seconds since the check
    started) or the quick case cap is used up; merges the counts and returns the violations, one per signature."""
    import multiprocessing as mp
    t_end = c.t0 + (quick_s if c.quick else thorough_s)
    seed = '%s/%d/%s/%s' % (c.prop, c.seed, c.tier, salt)
    per = max(1, nmax // JOBS) if c.quick else 10 ** 9
    with mp.get_context('fork').Pool(JOBS) as pool:
        res = pool.map(_fan_worker, [(fn, seed, w, t_end, per, args) for w in range(JOBS)], chunksize=1)
    viols = {}
    for out in res:
        for cs in out:
            c.evals += cs.n
            for k, v in cs.add.items():
                c.count(k, v)
            if cs.nontrivial and cs.key not in c.distinct:
                c.distinct.add(cs.key)
                if cs.sample is not None and len(c.samples) < 8:
                    c.samples.append(cs.sample)
            for k in cs.counts:
                c.count(k)
            for k, v in cs.maxima.items():
                c.extra[k] = max(c.extra.get(k, 0), v)
            if cs.viol and cs.viol[0] not in viols:
                viols[cs.viol[0]] = cs.viol
    return list(viols.values())
