"""P13: any overlap of calls gives what each call gives alone; no race, no deadlock."""
import base64, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import common as C, inputs, mc, scan, historyprop
from gen import mk, enc
import gen as G


def schedules(np, nc):
    rc, out, err = C.tlc('ConcGen', 'CONSTANTS Procs <- GProcs\n Prog <- GProg\n Steps = 2\n NP = %d\n NC = %d\n AllLazy = TRUE\nSPECIFICATION GSpec\n'
                         'INVARIANTS Printed InitOnce OneBuilder NoEarlyUse AsAlone\nPROPERTY Stable\nCHECK_DEADLOCK FALSE\n' % (np, nc))
    if rc != 0:
        sys.stderr.write(out[-2000:] + err[-1000:])
        raise SystemExit('TLC failed on ConcGen (exit %d)' % rc)
    hs = {m for m in re.findall(r'^"H (\[.*\])"$', out, re.M)}
    return [[[1 if w == 'b' else 2, g] for w, g in json.loads(json.loads('"' + m + '"'))] for m in sorted(hs)], C.tlc_states(out)


def model(chk):
    for np, nc, mixed in ([(3, 2, True), (4, 1, False)] if chk.quick else [(3, 2, True), (3, 3, True), (4, 2, True), (5, 1, False)]):
        inv = ['InitOnce', 'OneBuilder', 'NoEarlyUse', 'AsAlone']
        chk.model(mc.run('MCConc', 'CONSTANTS Procs <- GProcs\n Prog <- GProg\n Steps = 2\n NP = %d\n NC = %d\n Mixed = %s\nSPECIFICATION Spec\nINVARIANTS %s\n'
                         'PROPERTIES Stable AllReturn\nCHECK_DEADLOCK FALSE\n' % (np, nc, 'TRUE' if mixed else 'FALSE', ' '.join(inv)), {},
                         {'module': 'MCConc', 'goroutines': np, 'calls': nc, 'invariants': inv, 'properties': ['Stable', 'AllReturn (liveness)']}))


class World:
    """License sets, texts, and what each call answers when it is made alone."""

    def __init__(self, binary, rng):
        self.binary = binary
        self.sets, self.texts = historyprop.base_pool(rng)
        ok = lambda l: not C.Driver(binary).run([scan.req_new(0, l)])[0].get('err')
        lst = [dict(x, lre=base64.b64decode(x['lre'] or ''), url=base64.b64decode(x['url'] or '')) for x in C.Driver(binary).run([{'op': 'list'}])[0] or []]
        for l, t in [historyprop.rich_pool(rng, ok)] + ([historyprop.builtin_pool(rng, lst)] if lst else []):
            self.sets += l
            self.texts += t
        vocab = rng.sample(G.WORDS, 10)
        pats = [G.license_pat(rng, vocab, depth=2, size=4, pw=0.1) for _ in range(6)]
        good = []
        for p in pats:
            l = mk('G%d' % len(good), G.P.show(p, rng))
            if ok([l]):
                good.append((l, p))
        if good:
            self.sets.append([l for l, _ in good])
            for _ in range(4):
                self.texts.append(b'\n'.join(enc(' '.join(G.P.sample(p, rng, vocab))) for _, p in rng.sample(good, min(3, len(good)))))
        # every kind of markup, mark and URL; every kind of damage
        self.marked = []
        for _ in range(6):
            self.marked.append(len(self.texts))
            fs = rng.sample(inputs.FORMS, len(inputs.FORMS) // 3) + rng.sample(inputs.URLTEXTS, 4) + ['aa bb cc dd', 'http://a.org/b', MIT[300:480].decode()]
            rng.shuffle(fs)
            self.texts.append(enc(rng.choice([' ', '\n', ' zz ']).join(fs)))
        if good:
            self.texts.append(inputs.mixed_text(rng, [p for _, p in good], vocab, 12, 0.3))
        self.texts.append(' '.join(inputs.damage(rng, MIT.decode().split(), vocab, 15)).encode())
        self.texts.append(MIT)
        self.texts.append(MIT[:400] + b' http://www.apache.org/licenses/LICENSE-2.0 ' + MIT)
        self.key, self.alone = {}, {}

    def num(self, a):
        s = json.dumps([a.get('m') or [], a.get('pf'), a.get('err'), a.get('panic')], sort_keys=True)
        return self.key.setdefault(s, len(self.key) + 1)

    def want(self, calls):
        """Numbers of the answers of the calls, each made alone (a fresh process per call)."""
        need = sorted({json.dumps(c, sort_keys=True) for c in calls} - set(self.alone))

        def one(c):
            return self.raw({'sessions': [{'progs': [[json.loads(c)]], 'sched': []}]})[0]
        with ThreadPoolExecutor(C.NCPU) as ex:
            for c, out in zip(need, ex.map(one, need)):
                if out is None or 'unknown call' in (out[0][0][0].get('panic') or ''):
                    raise SystemExit('the call %s made alone gave no answer' % c)
                self.alone[c] = self.num(out[0][0][0])

    def raw(self, req, binary=None, timeout=240, env=None):
        base = {'op': 'conc', 'sets': [historyprop.jl(l) for l in self.sets], 'texts': [C.b64(t) for t in self.texts]}
        p = subprocess.Popen([binary or self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                             env=dict(os.environ, **(env or {})))
        try:
            out, err = p.communicate(json.dumps(dict(base, **req)) + '\n', timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return None, 'no answer within %d s' % timeout, 0
        lines = [l for l in out.split('\n') if l]
        return (json.loads(lines[0]) if lines else None), err, p.returncode


def call(rng, w, lazy):
    if lazy:
        return {'k': 'b', 's': 0, 't': rng.randrange(len(w.texts))}
    k = rng.choice(['s', 's', 's', 'n', 'l', 't'])
    if k == 't':
        return {'k': k, 's': 0, 't': rng.choice([0, 2, 6, 128, 255, 1 << 40, rng.getrandbits(9)])}
    t = rng.choice(w.marked) if rng.random() < 0.25 else rng.randrange(len(w.texts))
    return {'k': k, 's': rng.randrange(len(w.sets)) if k != 'l' else 0, 't': t if k != 'l' else 0}


def session(rng, w, np, nc, sched, plazy):
    return {'progs': [[call(rng, w, rng.random() < plazy) for _ in range(nc)] for _ in range(np)], 'sched': sched}


def events(w, ses, got):
    """The session as TraceConc reads it."""
    progs = [[{'lazy': c['k'] == 'b', 'op': w.alone[json.dumps(c, sort_keys=True)]} for c in p] for p in ses['progs']]
    ev, at = [], [0] * len(progs)
    sched = ses['sched'] or [[x, g + 1] for g, p in enumerate(ses['progs']) for _ in p for x in (1, 2)]
    for x, g in sched:
        if x == 1:
            ev.append([1, g, 0])
        else:
            a = got[g - 1][at[g - 1]] if at[g - 1] < len(got[g - 1] or []) else {'panic': 'none'}
            ev.append([2, g, w.num(a)])
            at[g - 1] += 1
    return {'progs': progs, 'ev': ev}


def validate(traces, chk=None):
    d = tempfile.mkdtemp(prefix='vconc-')
    bad = []
    try:
        n = max(1, (len(traces) + 3) // 4)

        def one(i):
            ts = traces[i:i + n]
            path = os.path.join(d, '%d.json' % i)
            with open(path, 'w') as f:
                json.dump(ts, f)
            rc, out, err = C.tlc('TraceConc', 'CONSTANTS Procs <- TProcs\n Prog <- TProg\n Steps = 1\n MaxProcs = %d\nSPECIFICATION TSpec\nINVARIANTS Accepted InitOnce NoEarlyUse\n'
                                 'CHECK_DEADLOCK FALSE\n' % max(len(t['progs']) for t in ts), {'TRACE': path}, workers=2, heap='6g')
            if rc != 0:
                sys.stderr.write(out[-3000:] + err[-2000:])
                raise SystemExit('TLC failed on sessions (exit %d)' % rc)
            ok = {int(x) for x in re.findall(r'<<"ACCEPTED", (\d+)>>', out)}
            return [i + k for k in range(len(ts)) if k + 1 not in ok], C.tlc_states(out)
        with ThreadPoolExecutor(4) as ex:
            for b, (g, dd) in ex.map(one, range(0, len(traces), n)):
                bad += b
                if chk:
                    chk.validated({'states': dd, 'transitions': g}, 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad


RACE = re.compile(r'WARNING: DATA RACE(.*?)==================', re.S)


def run(chk, w, groups, binary=None, race=False):
    """groups: lists of sessions, each list in a process of its own."""
    w.want([c for g in groups for s in g for p in s['progs'] for c in p])
    env = {'GORACE': 'halt_on_error=0 exitcode=66'} if race else {}
    with ThreadPoolExecutor(C.NCPU) as ex:
        outs = list(ex.map(lambda g: w.raw({'sessions': g}, binary=binary, env=env), groups))
    traces, back = [], []
    for g, (out, err, rc) in zip(groups, outs):
        if race and 'WARNING: DATA RACE' in err:
            m = RACE.search(err)
            chk.violation({'kind': 'conc', 'sessions': g, 'session': {'seed': chk.seed, 'tier': chk.tier}, 'race': (m.group(1) if m else err)[:3000]},
                          'data race: ' + re.sub(r'\s+', ' ', (m.group(1) if m else err))[:600])
            continue
        if out is None or rc != 0 or len(out) != len(g):
            # once more, alone and with more time
            out, err, rc = w.raw({'sessions': g}, binary=binary, env=env, timeout=400)
            if out is None or rc != 0 or len(out) != len(g):
                chk.violation({'kind': 'conc', 'sessions': g, 'session': {'seed': chk.seed, 'tier': chk.tier}, 'stderr': err[-3000:]},
                              'a session of %d goroutines ended with %s' % (len(g[0]['progs']), (out and out[-1]) or err[-400:]))
                continue
        for s, o in zip(g, out):
            traces.append(events(w, s, o))
            back.append((g, s, o))
    bad = validate(traces, chk)
    chk.traces += len(traces)
    chk.notes['sessions'] = chk.notes.get('sessions', 0) + len(traces)
    chk.notes['calls'] = chk.notes.get('calls', 0) + sum(len(t['ev']) for t in traces) // 2
    if traces:
        chk.sample({'calls': back[len(back) // 2][1]['progs'][:3], 'order': back[len(back) // 2][1]['sched'][:12]})
    for i in bad[:3]:
        g, s, o = back[i]
        wrong = [(c, a) for p, q in zip(s['progs'], o) for c, a in zip(p, q) if w.alone[json.dumps(c, sort_keys=True)] != w.num(a)]
        chk.violation({'kind': 'conc', 'sessions': g, 'answers': o, 'session': {'seed': chk.seed, 'tier': chk.tier}},
                      'in a session of %d goroutines (order %s) a call did not answer what it answers alone: %s' % (len(s['progs']), s['sched'][:20], wrong[:2]))


def main(chk):
    binary = C.build('vdriver')
    racy = C.build('vdriver-race', race=True)
    model(chk)
    rng = random.Random('P13/%d' % chk.seed)
    w = World(binary, rng)
    small = schedules(3, 1)[0] + schedules(2, 2)[0]
    big, (g, d) = schedules(3, 2)
    chk.model({'module': 'ConcGen', 'goroutines': 3, 'calls': 2, 'orders of calls and returns': len(big), 'states': d, 'transitions': g})
    dims = lambda s: (max(x[1] for x in s), sum(1 for x in s if x[0] == 1) // max(x[1] for x in s))
    rounds = 0
    while True:
        k = 1 if chk.quick else 3
        # first use of the built-in set under every small overlap: a fresh process each
        first = [s for s in rng.sample(small, min(len(small), 40 * k)) + rng.sample(big, 8 * k)]
        run(chk, w, [[session(rng, w, *dims(s), s, 0.85)] for s in first] +
            [[session(rng, w, 8, 2, [], 0.8)] for _ in range(8 * k)])
        # custom scanners: every small overlap and many larger ones, then free running
        ses = [session(rng, w, *dims(s), s, 0) for s in small + rng.sample(big, 1200 * k)]
        ses += [session(rng, w, 8, 40, [], 0) for _ in range(30 * k)]
        per = len(ses) // 8 + 1
        run(chk, w, [ses[i:i + per] for i in range(0, len(ses), per)])
        # under the race detector
        races = [[session(rng, w, 6, 2, [], 0.7)] + [session(rng, w, *dims(s), s, 0.3) for s in rng.sample(small + big, 25)] +
                 [session(rng, w, 6, 15, [], 0.2) for _ in range(4)] for _ in range(6 * k)]
        races += [[session(rng, w, *dims(s), s, 1)] for s in rng.sample(small, 2 * k)]
        run(chk, w, races, binary=racy, race=True)
        rounds += 1
        if chk.quick or chk.violations or chk.elapsed() > 420:
            break
    chk.notes['rounds'] = rounds
    chk.assume += ['overlaps are enforced at calls and returns; inside the calls the Go scheduler chooses', 'the Go race detector reports only real races']


MIT = b'''Copyright (c) 2019 Somebody

Permission is hereby granted, free of charge, to any person obtaining a copy of this software and associated documentation files (the "Software"), to deal in the Software without restriction, including without limitation the rights to use, copy, modify, merge, publish, distribute, sublicense, and/or sell copies of the Software, and to permit persons to whom the Software is furnished to do so, subject to the following conditions:

The above copyright notice and this permission notice shall be included in all copies or substantial portions of the Software.

THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
'''
