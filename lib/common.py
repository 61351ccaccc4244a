"""Shared machinery: building the driver from /repo, running it, running TLC."""
import base64, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build' if REPO == '/repo' else 'build-' + re.sub(r'\W', '_', REPO))
REPLAYS = os.path.join(VERIF, 'replays')
TLAJAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 1)


class Hang(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', HOME=e.get('HOME') or '/root')
    e.pop('GOWORK', None)
    return e


def b64(b):
    return base64.b64encode(b).decode()


def build(name, extra=None, race=False, pkg='verifprobe', src='driver'):
    """Build /verif/<src>/*.go as a main package inside the module of REPO."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, name)
    rep = {}
    d = os.path.join(VERIF, src)
    for f in sorted(os.listdir(d)):
        if f.endswith('.go'):
            rep[os.path.join(REPO, pkg, f)] = os.path.join(d, f)
    for k, v in (extra or {}).items():
        rep[os.path.join(REPO, k)] = v
    ov = out + '.overlay.json'
    with open(ov, 'w') as f:
        json.dump({'Replace': rep}, f)
    cmd = ['go', 'build', '-overlay', ov, '-o', out] + (['-race'] if race else []) + ['./' + pkg]
    r = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout + r.stderr)
        raise SystemExit('cannot build the driver from %s' % REPO)
    return out


class Driver:
    """Batch client of the driver: a list of requests in, a list of answers out."""

    def __init__(self, binary, timeout=300):
        self.binary = binary
        self.timeout = timeout

    def run(self, reqs, timeout=None, shards=1):
        if shards > 1 and len(reqs) > 64:
            raise ValueError
        data = ''.join(json.dumps(r) + '\n' for r in reqs)
        p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, text=True)
        try:
            out, err = p.communicate(data, timeout=timeout or self.timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            lines = [l for l in (out or '').split('\n') if l]
            n = max(0, len(lines) - 1)
            raise Hang(reqs[min(n, len(reqs) - 1)], n)
        ans = [json.loads(l) for l in out.split('\n') if l]
        if p.returncode != 0 or len(ans) != len(reqs):
            # the process died (a fatal error cannot be recovered from)
            e = Hang(reqs[min(len(ans), len(reqs) - 1)], len(ans))
            e.stderr = err[-2000:]
            raise e
        return ans


def tlc(module, cfg_text, env=None, workers=NCPU, heap='8g', stack='256m', timeout=800, extra=(), cwd=None):
    """Run TLC on /verif/spec/<module>.tla with the given configuration text."""
    d = tempfile.mkdtemp(prefix='vtlc-')
    try:
        cfg = os.path.join(d, module + '.cfg')
        with open(cfg, 'w') as f:
            f.write(cfg_text)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-Djava.io.tmpdir=' + d, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xmx' + heap, '-Xss' + stack, '-cp', TLAJAR,
               '-DTLA-Library=' + SPEC, 'tlc2.TLC', '-workers', str(workers), '-nowarning', '-noGenerateSpecTE',
               '-metadir', os.path.join(d, 'meta'), '-config', cfg] + list(extra) + [os.path.join(SPEC, module + '.tla')]
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tlc_states(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def codepoints(texts):
    s = set()
    for t in texts:
        if any(b >= 128 for b in t):
            for c in t.decode('utf-8', 'ignore'):
                if ord(c) >= 128:
                    s.add(ord(c))
    return sorted(s)
