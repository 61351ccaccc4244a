"""Pipeline: inputs -> real code -> trace -> TLC (TraceScan) -> mismatches."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import common as C


def tla_lic(l):
    return {'id': l['id'], 'type': l['type'], 'lre': list(l['lre']), 'url': list(l['url'])}


def req_new(k, lics):
    return {'op': 'new', 'set': k, 'lics': [{'id': l['id'], 'type': l['type'], 'lre': C.b64(l['lre']),
                                           'url': C.b64(l['url'])} for l in lics]}


class Batch:
    """Sets of licenses with texts, and what the real code did with them."""

    def __init__(self):
        self.sets = []      # [lics]
        self.cases = []     # [(set index, text)]
        self.setobs = []
        self.obs = []

    def add(self, lics, texts):
        self.sets.append(lics)
        k = len(self.sets) - 1
        for t in texts:
            self.cases.append((k, t))
        return self

    def run(self, binary, per=4000):
        """Run everything in the real code, in several processes side by side."""
        bys = {}
        for n, (k, t) in enumerate(self.cases):
            bys.setdefault(k, []).append(n)
        self.setobs = [None] * len(self.sets)
        self.obs = [None] * len(self.cases)
        # group sets into jobs
        jobs, cur, size = [], [], 0
        for k in range(len(self.sets)):
            cur.append(k)
            size += 1 + len(bys.get(k, []))
            if size >= per:
                jobs.append(cur)
                cur, size = [], 0
        if cur:
            jobs.append(cur)

        def job(ks):
            reqs, where = [], []
            for k in ks:
                reqs.append(req_new(k, self.sets[k]))
                where.append(('s', k))
                for n in bys.get(k, []):
                    reqs.append({'op': 'scan', 'set': k, 'text': C.b64(self.cases[n][1])})
                    where.append(('c', n))
                reqs.append({'op': 'drop', 'set': k})
                where.append(('d', k))
            try:
                ans = C.Driver(binary, timeout=240).run(reqs)
            except C.Hang as h:
                n = h.args[1]
                n = min(n, len(where) - 1)
                # keep going one set at a time to isolate the request that never answers
                if len(ks) > 1:
                    for k in ks:
                        job_one(k)
                    return
                raise
            self._put(where, ans)

        def job_one(k):
            reqs, where = [req_new(k, self.sets[k])], [('s', k)]
            for n in bys.get(k, []):
                reqs.append({'op': 'scan', 'set': k, 'text': C.b64(self.cases[n][1])})
                where.append(('c', n))
            dead = 0
            while reqs:
                try:
                    ans = C.Driver(binary, timeout=20).run(reqs)
                    self._put(where, ans)
                    return
                except C.Hang as h:
                    n = min(h.args[1], len(where) - 1)
                    bad = {'panic': 'no answer (hang or crash)', 'm': [], 'pm': [0, 0]}
                    kind, key = where[n]
                    if kind == 's':
                        self.setobs[key] = bad
                        for w in where[n + 1:]:
                            self.obs[w[1]] = {'err': 'no scanner', 'm': [], 'pm': [0, 0]}
                        return
                    self.obs[key] = bad
                    dead += 1
                    del reqs[n], where[n]
                    if dead >= 3:
                        for w in where:
                            if w[0] == 'c' and self.obs[w[1]] is None:
                                self.obs[w[1]] = {'err': 'skipped', 'm': [], 'pm': [0, 0]}
                            if w[0] == 's' and self.setobs[w[1]] is None:
                                self.setobs[w[1]] = {'m': [], 'pm': [0, 0]}
                        return

        try:
            with ThreadPoolExecutor(C.NCPU) as ex:
                list(ex.map(job, jobs))
        except C.Hang:
            for ks in jobs:
                for k in ks:
                    if self.setobs[k] is None:
                        job_one(k)
        return self

    def _put(self, where, ans):
        for (kind, key), a in zip(where, ans):
            if kind == 's':
                self.setobs[key] = a
            elif kind == 'c':
                self.obs[key] = a

    # ------------------------------------------------------------ to TLC
    def trace(self, path, cases):
        used = sorted({self.cases[n][0] for n in cases} | getattr(self, '_lone', set()))
        ren = {k: j + 1 for j, k in enumerate(used)}
        sets = [{'lics': [tla_lic(l) for l in self.sets[k]], 'err': bool(self.setobs[k].get('err')),
                 'panic': bool(self.setobs[k].get('panic'))} for k in used]
        cs = []
        for n in cases:
            k, t = self.cases[n]
            a = self.obs[n]
            cs.append({'set': ren[k], 'text': list(t), 'panic': bool(a.get('panic')), 'pm': a['pm'],
                       'm': [{'id': m['id'], 'type': m['type'], 's': m['s'], 'e': m['e'], 'url': m['url']}
                             for m in (a.get('m') or [])]})
        with open(path, 'w') as f:
            json.dump({'sets': sets, 'cases': cs}, f, separators=(',', ':'))
        return used

    def check(self, binary, props, chunk=6000, procs=4, workers=2, timeout=850, module='TraceScan'):
        """Validate every recorded set and case; returns (mismatches, stats)."""
        cps = C.codepoints([t for _, t in self.cases] + [l['lre'] for s in self.sets for l in s] +
                           [l['url'] for s in self.sets for l in s])
        utab = C.Driver(binary).run([{'op': 'utab', 'runes': cps or [233]}])[0]
        # split by set so that each chunk has few kits
        order = sorted(range(len(self.cases)), key=lambda n: self.cases[n][0])
        chunks = []
        cur, size, seen = [], 0, set()
        for n in order:
            if size >= chunk:
                chunks.append(cur)
                cur, size = [], 0
            cur.append(n)
            size += 1
        if cur:
            chunks.append(cur)
        lone = set(range(len(self.sets))) - {k for k, _ in self.cases}
        if lone and not chunks:
            chunks = [[]]
        d = tempfile.mkdtemp(prefix='vtrace-')
        with open(os.path.join(d, 'utab.json'), 'w') as f:
            json.dump(utab, f)
        bad, states, trans, validated, setsdone = [], 0, 0, 0, 0

        def one(j):
            path = os.path.join(d, 't%d.json' % j)
            b = self
            sub = Batch()
            sub.sets, sub.setobs, sub.cases, sub.obs = b.sets, b.setobs, b.cases, b.obs
            if j == 0:
                sub._lone = lone
            used = sub.trace(path, chunks[j])
            lanes = max(1, min(64, (len(used) + len(chunks[j])) // 4))
            cfg = ('CONSTANTS Lanes = %d\n Props = {%s}\n UClass <- UT\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
                   % (lanes, ', '.join('"%s"' % p for p in props)))
            rc, out, err = C.tlc(module, cfg, {'TRACE': path, 'UTAB': os.path.join(d, 'utab.json')}, workers=workers, heap='4g', timeout=timeout)
            os.unlink(path)
            return j, used, rc, out, err

        try:
            with ThreadPoolExecutor(procs) as ex:
                for j, used, rc, out, err in ex.map(one, range(len(chunks))):
                    if rc != 0 or 'Model checking completed. No error' not in out:
                        sys.stderr.write(out[-3000:] + err[-2000:])
                        raise SystemExit('TLC failed on a trace (exit %d)' % rc)
                    g, dd = C.tlc_states(out)
                    lanes = max(1, min(64, (len(used) + len(chunks[j])) // 4))
                    if dd != lanes + len(used) + len(chunks[j]):
                        raise SystemExit('TLC did not replay every event: %d states, %d expected' %
                                         (dd, lanes + len(used) + len(chunks[j])))
                    states += dd
                    trans += g - lanes
                    validated += len(chunks[j])
                    setsdone += len(used)
                    for m in parse_mismatch(out):
                        kind, prop, idx, detail = m
                        if kind == 'set':
                            bad.append((prop, 'set', used[idx - 1], detail))
                        else:
                            bad.append((prop, 'case', chunks[j][idx - 1], detail))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return bad, {'states': states, 'transitions': trans, 'cases': validated, 'sets': setsdone}


def parse_mismatch(out):
    # TLC pretty-prints a long tuple over several lines
    res = []
    for m in re.finditer(r'<<\s*"MISMATCH",\s*"(\w+)",\s*"(\w+)",\s*(\d+),(.*?)\n(?=<<\s*"MISMATCH"|[A-Z][a-z]|Model|\Z)',
                         out + '\nEnd', re.S):
        prop, kind, idx, rest = m.groups()
        res.append((kind, prop, int(idx), re.sub(r'\s+', ' ', rest.strip())[:600]))
    return res
