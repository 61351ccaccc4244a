"""P16: the built-in licenses recognize their own sentences."""
import os, random
import common as C, gen as G, builtin, scanprops

TD = os.path.join(C.REPO, 'testdata')
MODES = {'min': {'mode': 'min', 'seed': 0}, 'max': {'mode': 'max', 'seed': 0}}
SEPS = ['\n', '\n', ', ', '. ', '\t', '  ', '\n\n', '; ', '\n * ', '\n# ', '" ', ' "', '\u00a0', '\r\n']


def spread(rng, ws, variants):
    """A layout of words that does not change how they read."""
    out = []
    for k, w in enumerate(ws):
        if k:
            out.append(rng.choice(SEPS).encode() if rng.random() < 0.25 else b' ')
        if variants and rng.random() < 0.3:
            try:
                v = G.same_word(rng, w.decode())
                w = w if v in ('c', 'C') or 'c)' in v.lower() else v.encode()
            except UnicodeDecodeError:
                pass
        elif w.isascii():
            w = G.recase(rng, w.decode()).encode()
        out.append(w)
    return b''.join(out)


def samples(rng, B, said, n, budget):
    """Texts on which the whole specification is run: noisy sentences, sequences of them, files of testdata."""
    texts = []
    files = sorted(os.listdir(TD)) if os.path.isdir(TD) else []
    urls = [x['url'] for x in B.list if x['url']]
    vocab = [w for _, _, ws in rng.sample(said, min(30, len(said))) for w in ws[:50]]
    small = [s for s in said if len(s[2]) < 700] or said
    size = 0
    while size < budget:
        r = rng.random()
        if r < 0.25 and files:
            f = os.path.join(TD, rng.choice(files))
            t = open(f, 'rb').read() if os.path.getsize(f) < 30000 else b''
            if rng.random() < 0.5:
                t = b' '.join(G.enc(x) if isinstance(x, str) else x for x in noise(rng, t.split(), vocab))
        else:
            parts = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                k, m, ws = rng.choice(small if rng.random() < 0.8 else said)
                if rng.random() < 0.7:
                    ws = noise(rng, ws, vocab)
                if rng.random() < 0.2:
                    ws = ws[:rng.randint(0, len(ws))]
                elif rng.random() < 0.1:
                    ws = ws[rng.randint(0, len(ws)):]
                if rng.random() < 0.3:
                    ws = [rng.choice(vocab) for _ in range(rng.randint(1, 60))] + ws
                if rng.random() < 0.2:
                    ws = [b'Copyright', b'1999'] + ws
                t = spread(rng, ws, rng.random() < 0.5)
                if rng.random() < 0.3 and urls:
                    t += b' ' + rng.choice([b'http://', b'https://', b'HTTP://']) + rng.choice(urls) + rng.choice([b'', b'/', b'/legalcode', b'/x', b'.']) + b'\n'
                parts.append(t)
            t = b' '.join(parts)
        texts.append(t)
        size += len(t) + 200
    return texts


def noise(rng, ws, vocab):
    ws = list(ws)
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        if len(ws) < 3:
            break
        i = rng.randrange(len(ws))
        k = rng.choice('drijmmmwsss')
        w = ws[i]
        if k == 'd':
            del ws[i]
        elif k == 'r':
            ws[i] = rng.choice(vocab)
        elif k == 'i':
            ws.insert(i, rng.choice(vocab))
        elif k == 'j' and i + 1 < len(ws):
            ws[i:i + 2] = [w + ws[i + 1]]
        elif k == 'm' and w.isascii():
            ws[i] = G.misspell(rng, w.decode()).encode()
        elif k == 'w' and i + 1 < len(ws):
            ws[i], ws[i + 1] = ws[i + 1], ws[i]
        elif k == 's' and len(w) > 1 and w.isascii():
            j = rng.randint(1, len(w) - 1)
            ws[i:i + 1] = [w[:j], w[j:]]
    return ws


def main(chk):
    binary = C.build('vdriver')
    B = builtin.Builtin(binary)
    try:
        bad = B.parse()
        chk.log('the specification reads', len(B.pats), 'patterns')
        for x in bad:
            chk.violation({'kind': 'session', 'session': {'seed': chk.seed, 'tier': chk.tier}}, 'built-in pattern %s is malformed or cannot be searched for' % x)
        rounds = 0
        while not chk.violations:
            t = chk.elapsed()
            one_round(chk, B, random.Random('P16/%d/%d' % (chk.seed, rounds)), rounds)
            rounds += 1
            if chk.quick or chk.elapsed() + 1.3 * (chk.elapsed() - t) > 760:
                break
        chk.notes.update(rounds=rounds, licenses=len(B.pats))
        chk.validated(B.stats, 0)
    finally:
        B.close()
    chk.assume += ['TLC evaluates the specification correctly', 'the Unicode tables of the Go library are data']


def one_round(chk, B, rng, r):
    def modes(k):
        s = rng.randint(0, 30000)
        m = [{'mode': 'turn', 'seed': 2 * r}, {'mode': 'any', 'seed': s}]
        if r % 2 == 0:
            m.append(MODES['max'] if k % 2 == (r // 2) % 2 else MODES['min'])
        if not chk.quick:
            m += [{'mode': 'turn', 'seed': 2 * r + 1}]
        return m
    said = B.say(modes)
    cases = [{'text': spread(rng, ws, m != 0), 'n': k + 1, 'full': False} for k, m, ws in said]
    cases += [{'text': t, 'n': 0, 'full': True} for t in samples(rng, B, said, 0, 350000 if chk.quick else 1500000)]
    for c, o in zip(cases, B.scan([c['text'] for c in cases])):
        c['obs'] = o
    chk.log('scanned', len(cases))
    bad = B.check(chk.prop, cases)
    chk.traces += len(cases)
    chk.notes['sentences'] = chk.notes.get('sentences', 0) + len(said)
    chk.notes['whole_specification'] = chk.notes.get('whole_specification', 0) + B.agrees
    for c in cases[::max(1, len(cases) // 5)]:
        chk.sample({'license': B.pats[c['n'] - 1]['id'] if c['n'] else None, 'text': c['text'][:200].decode('latin1'), 'result': c['obs']})
    for k, detail in bad[:5]:
        c = cases[k]
        # once more, alone
        o = B.scan([c['text']])[0]
        c2 = dict(c, obs=o)
        again = B.check(chk.prop, [c2])
        chk.violation({'kind': 'builtin', 'text': C.b64(c['text']), 'n': c['n'], 'observed': c['obs'], 'alone': o, 'expected': detail,
                       'session': {'seed': chk.seed, 'tier': chk.tier}},
                      '%sScan(%r) = %s; specification: %s' % ('' if again else '(not when repeated alone) ', c['text'][:300], c['obs'], again[0][1] if again else detail))
