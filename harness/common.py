"""Shared plumbing of the checks: environment, TLC runs, evidence, verdicts."""
import os, sys, json, time, subprocess, tempfile, shutil, signal, re, random, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
if os.path.join(REPO, 'src') not in sys.path:
    sys.path.insert(0, os.path.join(REPO, 'src'))
warnings.simplefilter('ignore')


class OpTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise OpTimeout()


class limit:
    """Bound one call into the library, so that an endless loop becomes an observation."""
    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class quiet:
    """Silence what the library prints."""
    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = open(os.devnull, 'w')

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.o
        return False


class Run:
    """One check run: collects coverage and violations, writes the evidence."""
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.extra = {}
        self.assumptions = []
        self.known = []
        self.work = tempfile.mkdtemp(prefix='ctl-%s-' % prop)
        self.rng = random.Random('%s/%s' % (prop, self.seed))

    @property
    def quick(self):
        return self.tier != 'thorough'

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def elapsed(self):
        return time.time() - self.t0

    def path(self, name):
        return os.path.join(self.work, name)

    def sample(self, obj):
        if len(self.samples) < 4:
            self.samples.append(obj)

    def violate(self, what, detail):
        """Record a violation; detail (JSON-able) is the replay."""
        self.violations.append((what, detail))

    def finish(self):
        known = load_known(self.prop)
        news = []
        for what, detail in self.violations:
            key = detail.get('key', what) if isinstance(detail, dict) else what
            hit = [k for k in known if k['key'] == key]
            if hit:
                self.known.append(hit[0])
            else:
                news.append((what, detail))
        for k in {k['key']: k for k in self.known}.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        os.makedirs(EVID, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples or ['none'])
        cov.update(self.extra)
        ev = dict(property=self.prop, tier='thorough' if not self.quick else 'quick', seed=self.seed,
                  level='model_checking', coverage=cov, assumptions=self.assumptions,
                  wall_s=round(self.elapsed(), 2), violations=len(news))
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        code = 0
        if news:
            code = 1
            rdir = os.path.join(EVID, 'replay')
            os.makedirs(rdir, exist_ok=True)
            for i, (what, detail) in enumerate(news[:5]):
                rp = os.path.join(rdir, '%s-%d.json' % (self.prop, i))
                with open(rp, 'w') as f:
                    json.dump(dict(property=self.prop, what=what, detail=detail), f, indent=1, default=str)
                print('VIOLATION property=%s replay=%s' % (self.prop, rp))
                print('  ' + str(what)[:300])
        shutil.rmtree(self.work, ignore_errors=True)
        print('%s %s: %d violation(s), %d states, %d traces, %.1f s' %
              (self.prop, self.tier, len(news), self.states, self.traces, self.elapsed()))
        return code


def load_known(prop):
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                res.append(dict(key=m.group(2), what=m.group(3)))
    return res


class TlcError(Exception):
    pass


def tlc(module, cfg=None, env=None, args=(), workers=8, timeout=800, heap='6g', metadir=None):
    """Run TLC on a module of /verif/spec; returns (stdout, generated, distinct)."""
    md = tempfile.mkdtemp(prefix='tlc-')
    e = dict(os.environ)
    if env:
        e.update(env)
    cmd = ['timeout', str(timeout), 'java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss32m', '-DTLA-Library=' + SPEC,
           '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', md, '-noGenerateSpecTE',
           '-config', os.path.join(SPEC, (cfg or module) + '.cfg')] + list(args) + [os.path.join(SPEC, module + '.tla')]
    p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', cwd=md)
    shutil.rmtree(md, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', p.stdout)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return p.stdout, gen, dist, p.returncode


def tlc_tail(out, n=25):
    return '\n'.join(out.strip().splitlines()[-n:])


def tlc_values(out, tag):
    """The tuples printed by PrintT(<<"tag", ...>>), one per line, parsed."""
    res = []
    for line in re.findall(r'<<\s*"%s".*?>>' % tag, out, re.S):
        body = line[2:-2].strip()
        res.append(json.loads('[' + body.replace('TRUE', 'true').replace('FALSE', 'false') + ']')[1:])
    return res


def validate(run, module, traces, label=None, cfg=None, env=None, chunk=None, timeout=800):
    """Check recorded traces against a trace specification; report every rejected trace."""
    if not traces:
        return 0
    f = run.path('%s-%d.json' % (module, run.states))
    with open(f, 'w') as h:
        json.dump(traces, h)
    e = dict(TRACES=f)
    if env:
        e.update(env)
    out, gen, dist, rc = tlc(module, cfg=cfg, env=e, timeout=timeout)
    ok = {v[0] for v in tlc_values(out, 'TRACE-OK')}
    bad = {v[0]: v for v in tlc_values(out, 'TRACE-BAD')}
    if len(ok) + len(bad) != len(traces) or rc not in (0,):
        keep = os.path.join(tempfile.gettempdir(), 'tlc-fail-%s.json' % run.prop)
        shutil.copy(f, keep)
        raise TlcError('%s: %d ok, %d bad of %d traces, rc %d (traces in %s)\n%s' %
                       (module, len(ok), len(bad), len(traces), rc, keep, tlc_tail(out, 40)))
    run.states += dist
    run.transitions += max(dist - len(traces), 0)
    run.traces += len(ok)
    for i, v in sorted(bad.items()):
        tr = traces[i - 1]
        run.violate('%s: step %s (%s): %s' % (label or module, v[1], v[2], v[3]),
                    dict(spec=module, step=v[1], op=v[2], clause=v[3], events=tr[:v[1]]))
    return len(bad)
