"""P14: histories generated from the specification, carried out by the real code, and validated."""
import base64, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import common as C, gen, inputs, mc, scan
from gen import mk, enc


def cousin(rng, l, others):
    """The list with a little changed in each entry: what is remembered of the one is wrong for the other."""
    out = []
    for x in l:
        y = dict(x)
        f = rng.choice(['type', 'type', 'id', 'url', 'lre', None])
        if f == 'type':
            y['type'] = x['type'] ^ 64 or 2
        elif f == 'id':
            y['id'] = x['id'].lower() if x['id'] != x['id'].lower() else x['id'] + 'x'
        elif f == 'url' and x['lre']:
            y['url'] = rng.choice([b'a.org/b', b'b.com/c', b'c.net/d', b''])
        elif f == 'lre' and x['lre']:
            y['lre'] = x['lre'] + rng.choice([b' zz', b' aa', b'\n((zz))??\nbb'])
        out.append(y)
    return out if out not in others else cousin(rng, l, others)


def base_pool(rng):
    """Contents of license lists (all usable) and of texts, built to interfere if anything is shared."""
    u = ['a.org/b', 'b.com/c']
    lists = [
        [mk('A', 'aa bb', u[0], 2), mk('B', 'cc dd\n((ee))??\n', '', 4), mk('U', '', u[1], 8)],
        [mk('C', 'aa bb cc', '', 16), mk('A', 'dd ee', u[1], 32), mk('V', '', u[0], 64)],
        [mk('B', 'aa bb __2__ bb', u[0], 128), mk('U', 'cc dd', '', 6)],
        [mk('A', 'zz yy', '', 2)],
    ]
    for j in (0, 1):
        lists.append(cousin(rng, lists[j], lists))
    words = ['aa', 'bb', 'cc', 'dd', 'ee', 'zz', 'yy', '(c)', 'http://a.org/b', 'http://b.com/c', 'x', 'Copyright', 'abcd', 'newword', 'other']
    texts = [b'aa bb cc dd ee http://a.org/b', b'zz yy aa bb x bb http://b.com/c dd ee', b'']
    while len(texts) < 6:
        t = enc(' '.join(rng.choice(words) for _ in range(rng.randint(1, 14))))
        if t not in texts:
            texts.append(t)
    return lists, texts


ACC = str.maketrans('aeiou', 'áéíóú')


def related(rng, t):
    """Texts that something remembered about t might be mistaken for."""
    s = t.decode('utf-8', 'replace')
    out = [s.upper(), s.lower(), s[:-1], s[1:], s + ' zz', s[:len(s) // 2], s[::-1], s.translate(ACC), s.replace('(c)', '&copy;'), s + s, ' ' + s, s + '\n',
           s.replace(' ', '\n'), s.replace('http:', 'https:'), s.replace('http', 'HTTP'), s + '/x', s + '/', s.replace('.org/', '.org/x/'), s.swapcase()]
    for _ in range(6):           # same length
        if s:
            i = rng.randrange(len(s))
            out.append(s[:i] + rng.choice('abcdexyz019 ') + s[i + 1:])
    return [enc(x) for x in out]


def fill(rng, seeds, n):
    texts = []
    for t in seeds:
        if t not in texts:
            texts.append(t)
    while len(texts) < n:
        t = rng.choice(related(rng, rng.choice(texts[:4])))
        if t not in texts:
            texts.append(t)
    return texts


def rich_pool(rng, ok):
    """Lists and texts as in the other checks; ok(lists) says which are accepted."""
    lists = []
    vocab = rng.choice([gen.SMALL, rng.sample(gen.WORDS, 9)])
    pats = [gen.license_pat(rng, vocab, depth=2, size=3, pw=0.08) for _ in range(5)]
    while len(lists) < 6:
        if len(lists) >= 3:
            l = cousin(rng, rng.choice(lists[:3]), lists)
            if ok(l):
                lists.append(l)
            continue
        ps = rng.sample(pats, rng.randint(1, 3))
        l = inputs.entries(rng, [mk('L%d' % rng.randint(0, 3), gen.P.show(p, rng), typ=2 << rng.randint(0, 5)) for p in ps])
        if l not in lists and ok(l):
            lists.append(l)
        elif rng.random() < 0.05:
            pats = [gen.license_pat(rng, vocab, depth=2, size=3, pw=0.08) for _ in range(5)]
    seeds = [inputs.mixed_text(rng, pats, vocab, 3, 0.1)[:400] for _ in range(2)] + [enc(' '.join(gen.P.sample(pats[0], rng, vocab)) + ' http://a.org/b')]
    return lists, fill(rng, seeds, 10)


def builtin_pool(rng, lst):
    """Licenses and URLs of the built-in set, in it and in lists of the caller."""
    td = os.path.join(C.REPO, 'testdata')
    files = sorted(f for f in os.listdir(td) if 100 < os.path.getsize(os.path.join(td, f)) < 2500) if os.path.isdir(td) else []
    seeds = [open(os.path.join(td, f), 'rb').read() for f in rng.sample(files, min(2, len(files)))]
    urls = [x['url'] for x in lst if x['url']]
    u = rng.choice([x for x in urls if b'creativecommons' in x] or urls)
    v = rng.choice(urls)
    seeds += [b'http://' + u, b'see https://' + v + b'/ for more', b'HTTP://' + u.upper(), b'http://' + u + b'/de', b'http://' + u + b'/de/fr', b'http://' + u + b'/legalcode', b'http://' + u[:-1]]
    small = [x for x in lst if x['lre'] and len(x['lre']) < 1500]
    lists = []
    for _ in range(3):
        lists.append([dict(x, type=rng.choice([x['type'], 4])) for x in rng.sample(small, 3)] + [mk('U', b'', u, 8)])
    lists.append([mk('Z', 'permission is hereby', '', 2), mk('V', b'', v, 16)])
    for j in (0, 3):
        lists.append(cousin(rng, lists[j], lists))
    return lists, fill(rng, seeds, 12)


def behaviours(cfg, extra=(), timeout=300):
    rc, out, err = C.tlc('HistoryGen', cfg, {}, workers=1 if extra else 4, timeout=timeout, extra=extra)
    if rc != 0:
        sys.stderr.write(out[-2000:] + err[-1000:])
        raise SystemExit('TLC failed to generate histories (exit %d)' % rc)
    hs = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"H (\[.*\])"$', out, re.M)]
    return hs, C.tlc_states(out)


def cfg(nl, lv, nt, tv, nk, nr, depth, narrow=False):
    return ('CONSTANTS Narrow = %s NL = %d LV = %d NT = %d TV = %d NK = %d NR = %d Depth = %d\nSPECIFICATION GSpec\nINVARIANT Printed\nCHECK_DEADLOCK FALSE\n'
            % (str(narrow).upper(), nl, lv, nt, tv, nk, nr, depth))


def ops(h):
    return [{'op': o, 'a': a, 'b': b} for o, a, b in h]


def jl(l):
    return [{'id': x['id'], 'type': x['type'], 'lre': C.b64(x['lre']), 'url': C.b64(x['url'])} for x in l]


class Pool:
    def __init__(self, chk, binary, lists, texts):
        self.lists, self.texts = lists, texts
        self.hash = C.Driver(binary).run([{'op': 'listhash'}])[0]
        B = scan.Batch()
        for l in self.lists:
            B.add(l, self.texts)
        self.session = {'lists': [jl(l) for l in lists], 'texts': [C.b64(t) for t in texts]}
        # each answer from a process that did nothing else before
        self.key = {}
        self.right = []
        fresh = []
        with ThreadPoolExecutor(C.NCPU) as ex:
            reqs = [[{'op': 'builtin', 'text': C.b64(t)}] for t in self.texts]
            for l in self.lists:
                reqs += [[scan.req_new(0, l), {'op': 'scan', 'set': 0, 'text': C.b64(t)}] for t in self.texts]
            fresh = list(ex.map(lambda r: C.Driver(binary).run(r)[-1], reqs))
        k = len(self.texts)
        self.right = [[self.num(a) for a in fresh[j * k:(j + 1) * k]] for j in range(len(self.lists) + 1)]
        # the answers with custom lists are what the specification of Scan says
        B.setobs = [{'m': [], 'pm': [0, 0]} for _ in self.lists]
        B.obs = fresh[k:]
        self.bad, st = B.check(binary, ['ALL'])
        chk.validated(st, st['cases'])

    def num(self, a):
        s = json.dumps([a.get('m') or [], a.get('pf'), a.get('err'), a.get('panic')], sort_keys=True)
        return self.key.setdefault(s, len(self.key) + 1)


def carry_out(binary, pool, hs, nl, nt, nk, procs=1):
    """Run histories in the real code: one process for all, or one each (procs > 1)."""
    base = {'op': 'hist', 'lists': [jl(l) for l in pool.lists], 'texts': [C.b64(t) for t in pool.texts], 'nl': nl, 'nt': nt, 'nk': nk}

    def run(part):
        return C.Driver(binary, timeout=200).run([dict(base, runs=[ops(h) for h in part])])[0]
    if procs == 1:
        n = max(1, (len(hs) + 7) // 8)
        parts = [hs[i:i + n] for i in range(0, len(hs), n)]
    else:
        parts = [[h] for h in hs]
    with ThreadPoolExecutor(C.NCPU) as ex:
        return [s for r in ex.map(run, parts) for s in r]


def trace(pool, h, states):
    ev = []
    for (o, a, b), s in zip(h, states):
        res = []
        for r, own in zip(s['res'] or [], s['own'] or []):
            res.append((0 if not r.get('err') else -1) if own else pool.num(r))
        if s.get('panic') or s.get('err'):
            res.append(-2)
        if s.get('hash') and s['hash'] != pool.hash:
            res.append(-3)
        ev.append({'op': o, 'a': a, 'b': b, 'lists': s['lists'], 'texts': s['texts'], 'bl': s['bl'], 'res': res})
    return ev


def validate(pool, traces, nl, nt, nk, nr, chk=None):
    d = tempfile.mkdtemp(prefix='vhist-')
    bad = []
    try:
        n = max(1, (len(traces) + 3) // 4)
        chunks = [(i, traces[i:i + n]) for i in range(0, len(traces), n)]

        def one(x):
            i, ts = x
            path = os.path.join(d, '%d.json' % i)
            with open(path, 'w') as f:
                json.dump({'histories': ts, 'right': pool.right}, f)
            rc, out, err = C.tlc('TraceHistory', 'CONSTANTS NL = %d LV = %d NT = %d TV = %d NK = %d NR = %d\nSPECIFICATION TSpec\nPROPERTY Independent\nCHECK_DEADLOCK FALSE\n'
                                 % (nl, len(pool.lists), nt, len(pool.texts), nk, nr), {'TRACE': path}, workers=2, heap='4g')
            if rc != 0 or 'Model checking completed. No error' not in out:
                sys.stderr.write(out[-3000:] + err[-2000:])
                raise SystemExit('TLC failed on histories (exit %d)' % rc)
            g, dd = C.tlc_states(out)
            mis = [(m[0], m[1]) for m in ((int(a) - 1 + i, int(b)) for a, b in
                   re.findall(r'<<"MISMATCH", "P14", "case", (\d+), (\d+)>>', out))]
            want = sum(len(t) + 1 for t in ts) if not mis else None
            if want is not None and dd != want:
                raise SystemExit('TLC did not replay every event: %d states, %d expected' % (dd, want))
            return mis, dd, g
        with ThreadPoolExecutor(4) as ex:
            for mis, dd, g in ex.map(one, chunks):
                bad += mis
                if chk:
                    chk.validated({'states': dd, 'transitions': g}, 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad


def main(chk):
    binary = C.build('vdriver')
    rng = random.Random('P14/%d' % chk.seed)
    # the specification itself: every behaviour of a small instance has the properties
    info = mc.run('History', 'CONSTANTS NL = 1 LV = 2 NT = 1 TV = 2 NK = 2 NR = 3\nINIT Init\nNEXT Next\nPROPERTY Independent\nCHECK_DEADLOCK FALSE\n', {},
                  {'module': 'History', 'properties': ['Independent']})
    chk.model(info)
    pool = Pool(chk, binary, *base_pool(rng))
    # every history of a small instance; longer ones by simulation
    jobs = [(pool, 1, 2, 1, 2, 2, 3, 4, False, None)]
    nsim = 1500 if chk.quick else 12000
    for j, depth in enumerate([10, 20] if chk.quick else [10, 20, 40, 80]):
        jobs.append((pool, 2, len(pool.lists), 2, len(pool.texts), 3, 6, depth, False, nsim))
    lst = [dict(x, lre=base64.b64decode(x['lre'] or ''), url=base64.b64decode(x['url'] or '')) for x in C.Driver(binary).run([{'op': 'list'}])[0] or []]

    def ok(l):
        return not C.Driver(binary).run([scan.req_new(0, l)])[0].get('err')
    for j in range(4 if chk.quick else 20):
        p = Pool(chk, binary, *(builtin_pool(rng, lst) if j % 2 and lst else rich_pool(rng, ok)))
        jobs.append((p, 2, len(p.lists), 3, len(p.texts), 3, 5, 30, True, 250 if chk.quick else 1000))
        jobs.append((p, 2, len(p.lists), 2, len(p.texts), 2, 4, 300, True, 8 if chk.quick else 30))
    jobs = [j + (n,) for n, j in enumerate(jobs)]
    if not chk.quick:
        jobs += [j[:-1] + (j[-1] + 100 * k,) for k in range(1, 4) for j in jobs[1:]]
    with ThreadPoolExecutor(C.NCPU) as ex:      # generated side by side
        made = list(ex.map(lambda j: behaviours(cfg(j[1], j[2], j[3], j[4], j[5], j[6], j[7], j[8]),
                                                () if j[9] is None else ('-simulate', 'num=%d' % j[9], '-depth', str(j[7] + 1), '-seed', str(chk.seed * 1000 + j[10])))[0], jobs))
    for (p, nl, lv, nt, tv, nk, nr, depth, narrow, num, n), hs in zip(jobs, made):
        if chk.violations or chk.elapsed() > 800:
            break
        if num:
            # in simulation every last step of a behaviour is printed: keep one
            byp = {}
            for h in hs:
                byp.setdefault(json.dumps(h[:-1]), []).append(h)
            hs = [rng.choice(byp[k]) for k in sorted(byp)]
        if not hs:
            raise SystemExit('no histories generated')
        process(chk, binary, p, hs, nl, nt, nk, nr)
        chk.log(len(hs), 'histories of', depth, 'steps')
        # the same where the order of first use matters: a fresh process each
        early = [h for h in hs if any(o == 'scanb' for o, _, _ in h) and any(o in ('editb', 'builtin') for o, _, _ in h)]
        early.sort(key=lambda h: min([i for i, x in enumerate(h) if x[0] == 'editb'] + [99]) > min(i for i, x in enumerate(h) if x[0] == 'scanb'))
        pick = early[:len(early) // 3 + 1]
        rng.shuffle(pick)
        if depth < 100 and (p is pool or not chk.quick or n % 4 == 1):
            process(chk, binary, p, pick[:(16 if p is pool else 4) if chk.quick else 40], nl, nt, nk, nr, procs=C.NCPU)
    chk.assume += ['a fresh process answers what Scan answers for these arguments alone', 'effects are visible in the lists, texts (with spare capacity behind them), results and later answers']


def process(chk, binary, pool, hs, nl, nt, nk, nr, procs=1):
    if not hs:
        return
    try:
        st = carry_out(binary, pool, hs, nl, nt, nk, procs)
    except C.Hang as h:
        for one in hs[:400]:
            try:
                carry_out(binary, pool, [one], nl, nt, nk, 2)
            except C.Hang:
                chk.violation({'kind': 'history', 'history': one, 'pool': pool.session, 'nl': nl, 'nt': nt, 'nk': nk, 'session': {'seed': chk.seed, 'tier': chk.tier}}, 'no answer from history %s' % one)
                return
        chk.violation({'kind': 'history', 'history': hs[0], 'pool': pool.session, 'nl': nl, 'nt': nt, 'nk': nk, 'session': {'seed': chk.seed, 'tier': chk.tier}}, 'the process running %d histories died: %s' % (len(hs), getattr(h, 'stderr', '')[-500:]))
        return
    traces = [trace(pool, h, s) for h, s in zip(hs, st)]
    bad = validate(pool, traces, nl, nt, nk, nr, chk)
    chk.traces += len(traces)
    chk.notes['calls'] = chk.notes.get('calls', 0) + sum(len(t) for t in traces)
    chk.sample({'history': hs[len(hs) // 2], 'final': traces[len(hs) // 2][-1]})
    for i, step in bad[:3]:
        ev = traces[i][step - 1]
        chk.violation({'kind': 'history', 'history': hs[i], 'step': step, 'event': ev, 'state': st[i][step - 1], 'lists': len(pool.lists), 'texts': len(pool.texts),
                       'pool': pool.session, 'nl': nl, 'nt': nt, 'nk': nk, 'session': {'seed': chk.seed, 'tier': chk.tier}}, 'history %s: after step %d the state is %s, which the specification does not allow' % (hs[i], step, ev))
