"""P18: documents of any size, put together from texts and foreign words."""
import json, os, random, re, shutil, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import common as C, gen as G, inputs, scan, scanprops, builtin
from gen import P, mk, enc

ALPHABETS = ['zkvw', 'qjxz', 'жщъы', '漢字語文', 'აბგდე']
TD = os.path.join(C.REPO, 'testdata')


def words_of(rng, al, n, longest=12):
    return [''.join(rng.choice(al) for _ in range(rng.randint(2, longest))) for _ in range(n)]


def foreign(rng, al, n):
    """Pieces of about n words (more, not fewer)."""
    r = rng.random()
    if n < 5000 and r < 0.1:
        return [{'kind': 'words', 't': enc(''.join(w + rng.choice([' ', '\n', ', ', ' - ']) for w in words_of(rng, al, n)) + ' '), 'n': 1}]
    k = rng.choice([1, 3, 17])
    unit = ''.join(w + rng.choice([' ', ' ', '\n', '. ', ', ']) for w in words_of(rng, al, k, 4 if n > 10 ** 5 else 12)).rstrip(',.')
    unit = unit.rstrip() + rng.choice([' ', ' ', '\n'])
    out = [{'kind': 'words', 't': enc(unit), 'n': n // k + 1}]
    if r > 0.7:
        out.insert(rng.randint(0, 1), {'kind': 'gap', 't': rng.choice([b'\n', b' ', b'* ', b'. ']), 'n': rng.choice([1, 100, 5000, 70000, 1100000])})
    if r > 0.85:
        out.insert(rng.randint(0, 1), {'kind': 'long', 't': enc(rng.choice(al)), 'n': rng.choice([100, 1000, 4097, 70000, 1200000])})
    return out


def clean(t):
    """No markup, lines of its own."""
    t = re.sub(rb'[<&{\]]', b' ', t)
    return b'\n' + t.strip(b'\n') + b'\n'


def small_sets(rng, n):
    for _ in range(n):
        vocab = [w for w in rng.choice([G.SMALL, rng.sample(G.WORDS, 7), rng.sample(G.WORDS, 14)])]
        pats = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            pats.append(G.license_pat(rng, vocab, depth=2, size=4, pw=0.1) + [('w', rng.choice(vocab))])
        lics = inputs.entries(rng, [mk('L%d' % i, P.show(p, rng), typ=2 << (i % 6)) for i, p in enumerate(pats)])
        used = set(''.join(vocab).lower()) | set('copyrighthttp0123456789')
        als = [a for a in ALPHABETS if not used & set(a)]
        yield lics, pats, vocab, rng.choice(als)


LENGTHS = [51, 51, 60, 64, 100, 127, 200, 256, 500, 1000, 1024, 3000, 4096, 8192, 10001, 16384, 20002, 33000, 40000, 65536, 70000, 100003, 131073, 262145]
HUGE = [1050000, 1100000]


def build_docs(rng, nsets, ndocs, nhuge):
    sets, texts, docs = [], [], []
    for lics, pats, vocab, al in small_sets(rng, nsets):
        skip = max([sum(int(x) for x in re.findall(rb'__(\d+)__', l['lre'])) for l in lics] + [51])
        s = len(sets)
        sets.append(lics)
        ts = [clean(inputs.mixed_text(rng, pats, vocab, rng.randint(1, 3), 0)) for _ in range(4)]
        # a text with certainly something in it
        ts += [clean(enc(' '.join(P.sample(rng.choice(pats), rng, vocab)))) for _ in range(2)]
        n0 = len(texts)
        texts += [(s, t) for t in ts]
        for _ in range(ndocs):
            sizes = [rng.choice(LENGTHS) for _ in range(rng.choice([1, 2, 2, 3]))]
            docs.append((s, doc(rng, al, sizes, skip, range(n0, len(texts)))))
    for i in range(nhuge):
        s, d = docs[i * len(docs) // nhuge]
        al = None
        h = rng.choice(HUGE)
        d = list(d)
        for p in d:
            if not isinstance(p, int) and p['kind'] == 'words' and h:
                d[d.index(p)] = dict(p, n=h // max(1, len(p['t'].split())) + 1)
                h = 0
        docs[i * len(docs) // nhuge] = (s, d)
    return sets, texts, docs


def doc(rng, al, sizes, skip, choice):
    d = []
    if rng.random() < 0.3:
        d.append(rng.choice(choice))
    for n in sizes:
        d += foreign(rng, al, max(n, skip + 1))
        if rng.random() < 0.95:
            d.append(rng.choice(choice))
    return d


def main(chk):
    binary = C.build('vdriver')
    scanprops.main(chk)
    if chk.violations:
        return
    r = 0
    while True:
        t = chk.elapsed()
        one(chk, binary, random.Random('P18c/%d/%d' % (chk.seed, r)), 30 if chk.quick else 80, 5, 3 if chk.quick else 10)
        if r == 0:
            with_builtin(chk, binary, random.Random('P18b/%d' % chk.seed), 24 if chk.quick else 120)
        r += 1
        if chk.quick or chk.violations or chk.elapsed() + 2 * (chk.elapsed() - t) > 840:
            break


def one(chk, binary, rng, nsets, ndocs, nhuge):
    sets, texts, docs = build_docs(rng, nsets, ndocs, nhuge)
    # the texts alone, against the specification
    B = scan.Batch()
    for k, l in enumerate(sets):
        B.add(l, [t for s, t in texts if s == k])
    scanprops.batch(chk, B, binary)
    usable = [not o.get('err') and not o.get('panic') for o in B.setobs]
    alone = B.obs
    docs = [(s, d) for s, d in docs if usable[s]]
    reqs = {}
    for s, d in docs:
        reqs.setdefault(s, []).append(d)
    ans = {}

    def job(s):
        rq = [scan.req_new(0, sets[s])] + [{'op': 'doc', 'set': 0, 'parts': parts(texts, d)} for d in reqs[s]]
        try:
            ans[s] = C.Driver(binary, timeout=120).run(rq)[1:]
        except C.Hang as h:
            n = h.args[1] - 1
            ans[s] = [{'panic': 'no answer (hang or crash)', 'm': [], 'pm': [0, 0]} if i == n else None for i in range(len(reqs[s]))]
    with ThreadPoolExecutor(C.NCPU) as ex:
        list(ex.map(job, reqs))
    cases = []
    for s in reqs:
        lres = [list(l['lre']) for l in sets[s] if l['lre']]
        for d, a in zip(reqs[s], ans[s]):
            if a is not None:
                cases.append((s, d, a, {'lres': lres, 'letters': [], 'skip': 0}))
    judge(chk, binary, texts, alone, cases, sets)


def parts(texts, d):
    out = []
    for p in d:
        if isinstance(p, int):
            out.append({'t': C.b64(texts[p][1]), 'n': 1})
        else:
            out.append({'t': C.b64(p['t']), 'n': p['n']})
            if p['kind'] == 'long':
                out.append({'t': C.b64(b'\n'), 'n': 1})
    return out


def pieces(texts, alone, d):
    out = []
    for p in d:
        if isinstance(p, int):
            out.append({'kind': 'text', 't': list(texts[p][1]), 'n': 1,
                        'm': [{'id': m['id'], 'type': m['type'], 's': m['s'], 'e': m['e'], 'url': m['url']} for m in alone[p].get('m') or []]})
        else:
            out.append({'kind': p['kind'], 't': list(p['t']), 'n': p['n'], 'm': []})
    return out


def judge(chk, binary, texts, alone, cases, sets):
    cps = C.codepoints([t for _, t in texts] + [p['t'] for _, d, _, _ in cases for p in d if not isinstance(p, int)] + [l['lre'] for s in sets for l in s])
    d0 = tempfile.mkdtemp(prefix='vctx-')
    try:
        with open(os.path.join(d0, 'u.json'), 'w') as f:
            json.dump(C.Driver(binary).run([{'op': 'utab', 'runes': cps or [233]}])[0], f)
        lanes = [list(range(j, len(cases), C.NCPU)) for j in range(C.NCPU)]

        def run(j):
            if not lanes[j]:
                return None
            path = os.path.join(d0, '%d.json' % j)
            with open(path, 'w') as f:
                json.dump({'docs': [dict(cases[k][3], pieces=pieces(texts, alone, cases[k][1]), panic=bool(cases[k][2].get('panic')), pm=cases[k][2]['pm'],
                                         m=[{'id': m['id'], 'type': m['type'], 's': m['s'], 'e': m['e'], 'url': m['url']} for m in cases[k][2].get('m') or []])
                                    for k in lanes[j]]}, f, separators=(',', ':'))
            return C.tlc('TraceContext', 'CONSTANTS UClass <- UT\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', {'TRACE': path, 'UTAB': os.path.join(d0, 'u.json')}, workers=1, heap='3g')
        bad = []
        with ThreadPoolExecutor(C.NCPU) as ex:
            for ks, r in zip(lanes, ex.map(run, range(C.NCPU))):
                if r is None:
                    continue
                rc, out, err = r
                if rc != 0 or 'Model checking completed. No error' not in out or C.tlc_states(out)[1] != len(ks) + 1:
                    sys.stderr.write(out[-3000:] + err[-1000:])
                    raise SystemExit('TLC failed on documents (exit %d)' % rc)
                if 'OUTSIDE' in out:
                    raise SystemExit('a document outside the property was generated: %s' % re.findall(r'<<"OUTSIDE", \d+>>', out))
                chk.validated({'states': len(ks) + 1, 'transitions': len(ks)}, len(ks))
                bad += [(ks[idx - 1], detail) for _, _, idx, detail in scan.parse_mismatch(out)]
    finally:
        shutil.rmtree(d0, ignore_errors=True)
    chk.notes['documents'] = chk.notes.get('documents', 0) + len(cases)
    chk.notes['documents_with_matches'] = chk.notes.get('documents_with_matches', 0) + sum(1 for c in cases if c[2].get('m'))
    chk.log(len(cases), 'documents')
    for k, detail in bad[:5]:
        s, d, a, _ = cases[k]
        rec = {'kind': 'doc', 'lics': [dict(l, lre=C.b64(l['lre']), url=C.b64(l['url'])) for l in sets[s]] if s >= 0 else None,
               'parts': parts(texts, d), 'alone': [[C.b64(texts[p][1]), alone[p]] for p in d if isinstance(p, int)], 'observed': a, 'expected': detail}
        rec['session'] = {'seed': chk.seed, 'tier': chk.tier}
        chk.violation(rec, 'document of %s: Scan = %s; alone: %s' % (detail, json.dumps(a)[:400], json.dumps([alone[p] for p in d if isinstance(p, int)])[:400]))


def with_builtin(chk, binary, rng, n):
    """The same with the built-in licenses: texts of testdata and licenses."""
    lst = C.Driver(binary).run([{'op': 'list'}])[0] or []
    import base64
    lres = [base64.b64decode(x['lre'] or '') for x in lst]
    alltext = ''.join(l.decode('utf-8', 'replace') for l in lres)
    letters = sorted(map(ord, set(alltext) | set(alltext.lower()) | set(alltext.upper())))
    skip = max([sum(int(x) for x in re.findall(rb'__(\d+)__', l)) for l in lres] + [51])
    als = [a for a in ['აბგდე', 'ሀለሐመ', 'ԱԲԳԴ'.lower(), 'জঝঞট', 'กขคง'] if not set(map(ord, a)) & set(letters)]
    files = sorted(f for f in os.listdir(TD) if os.path.getsize(os.path.join(TD, f)) < 9000) if os.path.isdir(TD) else []
    if not als or not files:
        return
    texts = [(-1, clean(open(os.path.join(TD, f), 'rb').read())) for f in rng.sample(files, min(len(files), n))]
    docs = []
    for i in range(len(texts)):
        docs.append(doc(rng, rng.choice(als), [rng.choice(LENGTHS) for _ in range(rng.choice([1, 2]))], skip, range(len(texts))))
    ans = [None] * (len(texts) + len(docs))
    rq = [[{'t': C.b64(t), 'n': 1}] for _, t in texts] + [parts(texts, d) for d in docs]

    def job(j):
        idx = list(range(j, len(rq), C.NCPU))
        if not idx:
            return
        try:
            a = C.Driver(binary, timeout=120).run([{'op': 'doc', 'set': -1, 'parts': rq[i]} for i in idx])
        except C.Hang as h:
            a = [{'panic': 'no answer (hang or crash)', 'm': [], 'pm': [0, 0]}] * len(idx)
        for i, x in zip(idx, a):
            ans[i] = x
    with ThreadPoolExecutor(C.NCPU) as ex:
        list(ex.map(job, range(C.NCPU)))
    judge(chk, binary, texts, ans[:len(texts)], [(-1, d, a, {'lres': [], 'letters': letters, 'skip': skip}) for d, a in zip(docs, ans[len(texts):])], [])
