"""P17: package old (the Cover API) against its specification."""
import json, os, random, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import common as C, inputs, mc

WORDS = ('may copy software free license granted of the permission notice use source binary forms with or without modification are permitted '
         'provided that following conditions met redistributions must retain above disclaimer').split()
ODD = ['a', 'i', 'ii', 'viii', 'xv', 's', 'xiv', 'é', 'É', 'İstanbul', 'ſalt', 'K', 'Straße', 'ÀB', 'x\u0301y', '中文', 'ǅ', 'Ω', 'ß', 'ﬁ', 'Ⅳ', 'com', 'org', 'http', 'l', 'q', 'r', '\U0001d400', '\U00010400', 'Ⱥb']
NAMES = ['MIT', 'MIT-0', 'Apache-2.0', 'Apache', 'BSD-3-Clause', 'GPL-2.0', 'AGPL-3.0', 'AGP', 'LGPL-2.1', 'CC-BY-4.0', 'C', 'CCx', 'JSON', 'Json', 'Unlicense', 'Zlib', 'Zli', 'ISC', 'mit', 'X11', '', 'BSD', 'A', 'B', 'Z']
URLS = ['a.org/x', 'creativecommons.org/licenses/by/3.0', 'opensource.org/licenses/mit', 'www.apache.com/licenses', 'b-c.d_e.org/p?q=1#z', 'a.org/x/y', 'com/a', 'x.com/legalcode', 'Upper.org/x', 'a.org', '\u212a.org/k', 'k.org/k', 'thecom/z']
SEPS = [' ', ' ', ' ', '\n', ', ', '. ', '; ', ' - ', ' 12 ', '\t', '/', '\n\n  ', ' (', ') ', ': ', '&amp;', ' &ldquo;', '&RDQUO; ', ' _ ', '\u00a0', ' \ufffd ', '0', '"', '&am;', "'", ' & ', ' <b> ', ' &quot;', ' &lt;b&gt; ', '&nbsp;', '&rsquo;', '&mdash; ', '&#39;', '&LDQUO;', '&Amp;', '&apos;', '&ldquo', '\x00', '\r\n', '\ufeff']


def words(rng, n, voc):
    return [rng.choice(voc) if rng.random() < 0.96 else rng.choice(ODD) for _ in range(n)]


def lictext(rng, voc):
    ws = words(rng, rng.choice([1, 2, 5, 9, 10, 11, 12, 15, 20, 25, 30]), voc)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        k = rng.randint(0, len(ws))
        ws[k:k] = ['___'] * rng.choice([1, 1, 1, 2])
    return ws


def licenses(rng, voc):
    ls = []
    names = rng.sample(NAMES, 6)
    base = [lictext(rng, voc) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.15:      # blanks near the front, one after another
        base[0] = words(rng, rng.randint(1, 3), voc) + ['___'] + words(rng, rng.randint(1, 2), voc) + ['___'] + words(rng, 12, voc)
    for b in list(base):
        if rng.random() < 0.5:   # a relative
            c = list(b)
            for _ in range(rng.randint(0, 3)):
                r = rng.random()
                k = rng.randrange(len(c)) if c else 0
                if r < 0.3:
                    c = c[:k] + words(rng, rng.randint(1, 4), voc) + c[k:]
                elif r < 0.5 and c:
                    del c[k:k + rng.randint(1, 3)]
                elif r < 0.7:
                    c = c[k:] + c[:k]
                elif r < 0.9 and c:
                    c[k] = rng.choice(['___', rng.choice(voc)])
                else:
                    c = c + rng.choice(base)
            base.append(c)
    for k, b in enumerate(base[:6]):
        ls.append({'name': names[k] if rng.random() < 0.99 else names[0], 'text': ' '.join(b), 'url': rng.choice(URLS) if rng.random() < 0.2 else ''})
    for _ in range(rng.choice([0, 0, 1, 3])):
        ls.append({'name': rng.choice(NAMES), 'text': '', 'url': rng.choice(URLS)})
    if rng.random() < 0.03:
        ls = []
    return ls


def url(rng, ls):
    us = [l['url'] for l in ls if l['url']] or URLS
    u = rng.choice(us) if rng.random() < 0.8 else rng.choice(URLS)
    u = rng.choice(['http://', 'https://', 'HTTP://', 'Https://', 'http:/', 'xhttp://', 'http\u017f://', 'ftp://', '']) + u if rng.random() < 0.6 else 'https://' + u
    u += rng.choice(['', '', '/', '/legalcode', '/us/', '/LegalCode/', '//', '.', 'é', '/legalcode/x', '?x', '/a/b', ')', '#', '/\u017f', '&amp;'])
    if rng.random() < 0.2:
        u = rng.choice([u.upper(), u.title(), u.replace('k', '\u212a'), u.replace('s', '\u017f')])
    return u


def text(rng, ls, voc):
    out = []
    texts = [l['text'].split() for l in ls if l['text']] or [['x']]
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4])):
        r = rng.random()
        if r < 0.62:
            ws = list(rng.choice(texts))
            res = []
            for w in ws:
                if w == '___' and rng.random() < 0.75:
                    res += words(rng, rng.choice([0, 1, 1, 2, 3, 5, 8, 9, 20, 68, 69, 70, 71, 72]) if rng.random() < 0.9 else 40, voc)
                    if rng.random() < 0.15:
                        res.append('___')
                else:
                    res.append(w)
            ws = res
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
                k = rng.randint(0, len(ws))
                q = rng.random()
                if q < 0.4:
                    ws[k:k] = words(rng, rng.choice([1, 2, 3, 7, 8, 9, 10]), voc + ['zebra'] * 20)
                elif q < 0.6:
                    del ws[k:k + rng.choice([1, 1, 2, 5])]
                elif q < 0.75:
                    ws = ws[k:]
                elif q < 0.9:
                    ws = ws[:k]
                else:
                    ws[k:k] = ['___']
            out += ws
        elif r < 0.8:
            out += words(rng, rng.choice([0, 1, 3, 8, 12]), voc + ['zebra'])
        else:
            out += words(rng, rng.choice([0, 1, 4]), voc) + [url(rng, ls)]
            if rng.random() < 0.4:
                out += words(rng, rng.choice([0, 1, 3]), voc) + [url(rng, ls)]
    if rng.random() < 0.5:
        return ' '.join(out).encode()
    b = []
    for w in out:
        if rng.random() < 0.1:
            w = w.upper() if rng.random() < 0.5 else w.title()
        b.append(w.encode())
        b.append((rng.choice(SEPS) if rng.random() < 0.3 else ' ').encode())
        if rng.random() < 0.03:
            b.append(rng.choice(['a. ', 'ii) ', 'b: ', 'q) ', 's. ', 'xiv:', 'xv)', '(c) ', 'a ', 'iv.', 'z.', 'viii)', 'xiii) ']).encode())
        if rng.random() < 0.01:
            b.append(rng.choice([b'\xff', b'\xc3', b'\xe4\xb8', b'\xed\xa0\x80', b'\xf0\x9f', b'\x00', b'\xc3\xa9']))
    return b''.join(b)


def options(rng):
    if rng.random() < 0.4:
        return {'min': 0, 'threshold': 0, 'slop': 0}
    return {'min': rng.choice([0, 1, 2, 3, 5, 9, 10, 11, -1]), 'threshold': rng.choice([0, 1, 10, 40, 41, 60, 99, 100, 101, -5]),
            'slop': rng.choice([0, 1, 2, 7, 8, 9, 69, 70, 71, 100, -1])}


def batch(rng, n):
    sets, cases = [], []
    while len(cases) < n:
        voc = rng.sample(WORDS, rng.choice([4, 8, 20]))
        ls = licenses(rng, voc)
        sets.append(ls)
        for l in ls[:4]:
            if l['text']:
                cases.append((len(sets) - 1, l['text'].encode(), {'min': 0, 'threshold': 0, 'slop': 0}))
        o = options(rng)
        for _ in range(10):
            if rng.random() < 0.5:
                o = options(rng)
            t = text(rng, ls, voc)
            if len({l['name'] for l in ls if l['text']}) < sum(1 for l in ls if l['text']):
                t = t[:120]     # equal names: every order of the matches is allowed, and all are tried
            cases.append((len(sets) - 1, t, o))
    return sets, cases


def special(rng, k):
    """Blanks and gaps of exact sizes; every byte; sizes."""
    sets, cases = [], []
    D = {'min': 0, 'threshold': 0, 'slop': 0}
    near = [0, 1, 2, 6, 7, 8, 9, 10, 11, 60, 67, 68, 69, 70, 71, 72, 75, 100]
    V = 'alpha beta gamma delta epsilon zeta eta theta iota kappa lambda mu nu xi omicron pi rho sigma tau upsilon'.split()

    def add(ls, *cs):
        sets.append(ls)
        for t, o in cs:
            cases.append((len(sets) - 1, t if isinstance(t, bytes) else t.encode(), o))

    def opts(slops=(1, 8, 69, 70, 71)):
        return {'min': rng.choice([1, 2, 3, 3, 4, 10]), 'threshold': rng.choice([1, 10, 40]), 'slop': rng.choice(slops)}
    for _ in range(int(30 * k)):
        ws = rng.sample(V, 20)
        a, b, c = ws[:rng.randint(1, 3)], ws[3:3 + rng.randint(2, 11)], ws[14:14 + rng.randint(1, 4)]
        ls = [{'name': 'A', 'text': ' '.join(a + ['___'] + b), 'url': ''}, {'name': 'B', 'text': ' '.join(b + ['___'] + c + b[:1]), 'url': ''},
              {'name': 'C', 'text': ' '.join(a + ['___'] + c + ['___'] + b), 'url': ''}]
        rng.shuffle(ls)
        cs = []
        for _ in range(12):
            x, y = ['zebra'] * rng.choice(near), ['zebra'] * rng.choice(near)
            t = rng.choice([a + x + b, a + x + b + y + c + b[:1], b + x + c + b[:1], a + x + c + y + b, a + x + a + y + b, ['zebra'] + a + x + b + ['zebra'], b[:3] + x + b[3:], a + x + b[:2] + y + b[2:]])
            cs.append((' '.join(t), opts()))
        add(ls[:rng.randint(1, 3)], *cs)
    for _ in range(int(12 * k)):      # gaps within a license
        n = rng.randint(4, 16)
        ls = [{'name': 'A', 'text': ' '.join(V[:n]), 'url': 'a.org/x'}]
        cs = []
        for _ in range(12):
            i = rng.randint(1, n - 1)
            s = rng.choice([1, 2, 7, 8, 9, 20])
            g = max(0, s + rng.choice([-2, -1, 0, 1, 2]))
            cs.append((' '.join(V[:i] + ['zebra'] * g + V[i + rng.choice([0, 0, 1, 2]):n]), {'min': rng.choice([1, 2, 3]), 'threshold': rng.choice([0, 1, 50]), 'slop': s}))
        add(ls, *cs)
    ls = [{'name': 'A', 'text': ' '.join(V[:4]), 'url': 'a.org/x'}, {'name': 'B', 'text': 'copy that___or this now', 'url': ''}]
    tm = [b'zz@alpha beta gamma delta zz', b'alpha@beta gamma delta', b'alpha beta g@mma delta', b'alpha beta gamma delta@', b'@alpha beta gamma delta', b'zz http://a.org@/x zz', b'http@://a.org/x', b'http://a.org/x@ zz', b'http://a.o@g/x',
          b'a@ alpha beta gamma delta', b'ii@ alpha beta gamma delta', b'@. alpha beta gamma delta', b'zz &amp@ alpha beta gamma delta', b'&@mp; alpha beta gamma delta', b'copy that __@ or this now', b'copy that @___ or this now', b'copy that _@_ or this now']
    xs = list(inputs.one_byte(tm))
    add(ls, *[(x, {'min': 3, 'threshold': 10, 'slop': 1}) for x in rng.sample(xs, min(len(xs), int(1500 * k)))])
    for n in rng.sample(inputs.SIZES, 12):
        if n > 300:
            n = rng.randint(100, 300)
        t = ' '.join(rng.choice(V) for _ in range(n + 2))
        add([{'name': 'A', 'text': t, 'url': ''}, {'name': 'B', 'text': ' '.join(t.split()[:n // 2 + 1] + ['___', 'zebra', 'yak']), 'url': ''}], (t, D), (t + ' zebra ' + t, D), ('zebra ' * n + t, D))
    add([{'name': 'A', 'text': 'foo ' * 33000 + 'alpha beta', 'url': ''}], (b'x alpha beta', {'min': 2, 'threshold': 1, 'slop': 0}))
    return sets, cases


def lo(l):
    return {k: list(l[k].encode()) for k in ('name', 'text', 'url')}


def observe(binary, sets, cases):
    """Answers of the real code, each process one share of the sets."""
    obs, sobs = [None] * len(cases), [None] * len(sets)
    by = {}
    for n, c in enumerate(cases):
        by.setdefault(c[0], []).append(n)

    def job(ks):
        req, where = [], []
        for k in ks:
            req.append({'op': 'new', 'set': k, 'lics': [{f: C.b64(l[f].encode()) for f in ('name', 'text', 'url')} for l in sets[k]]})
            where.append(None)
            for n in by.get(k, []):
                req.append({'op': 'cover', 'set': k, 'text': C.b64(cases[n][1]), 'opts': cases[n][2]})
                where.append(n)
        try:
            ans = C.Driver(binary, timeout=120).run(req)
        except C.Hang as h:
            if len(ks) > 1:
                for k in ks:
                    job([k])
                return
            ans = None
            for j, r in enumerate(req):
                if where[j] is None:
                    continue
                try:
                    a = C.Driver(binary, timeout=20).run([req[0], r])[1]
                except C.Hang:
                    a = {'panic': 'no answer', 'ok': False, 'pct': -1, 'm': [], 'mutated': False}
                obs[where[j]] = a
            return
        for w, a in zip(where, ans):
            if w is not None:
                obs[w] = a
    order = sorted(by)
    with ThreadPoolExecutor(C.NCPU) as ex:
        list(ex.map(job, [order[j:j + 30] for j in range(0, len(order), 30)]))
    return obs


def check(binary, sets, cases, obs, types, chunk=None):
    """Validate; returns [(kind, index, detail)], states."""
    chunk = chunk or max(30, len(cases) // C.NCPU + 1)
    top = tempfile.mkdtemp(prefix='vold-')
    try:
        big = [n for n in range(len(cases)) if sum(len(l['text']) for l in sets[cases[n][0]]) > 20000]
        rest = [n for n in range(len(cases)) if n not in set(big)]
        parts = [rest[k:k + chunk] for k in range(0, len(rest), chunk)] + [[n] for n in big]

        def job(k):
            part = parts[k]
            used = sorted({cases[n][0] for n in part})
            pos = {s: j + 1 for j, s in enumerate(used)}
            tr = {'sets': [{'list': [lo(l) for l in sets[s]]} for s in used], 'types': types,
                  'cases': [dict(cases[n][2], set=pos[cases[n][0]], text=list(cases[n][1]), panic=bool(obs[n].get('panic')), ok=obs[n]['ok'],
                                 pct=obs[n]['pct'], mutated=obs[n]['mutated'], m=obs[n]['m']) for n in part]}
            cps = C.codepoints([cases[n][1] for n in part] + [l[f].encode() for s in used for l in sets[s] for f in ('text', 'url')])
            low = C.Driver(binary).run([{'op': 'utab', 'runes': cps}])[0]
            more = sorted({x[2] for x in low if x[2] >= 128} - set(cps))
            low += C.Driver(binary).run([{'op': 'utab', 'runes': more}])[0]
            t, u = os.path.join(top, 't%d.json' % k), os.path.join(top, 'u%d.json' % k)
            json.dump(tr, open(t, 'w'))
            json.dump(low, open(u, 'w'))
            rc, out, err = C.tlc('TraceOld', 'CONSTANTS Lanes = 2\n OClass <- UT\n BlankMax <- Seventy\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n',
                                 {'TRACE': t, 'UTAB': u}, workers=1, heap='3g')
            if rc != 0 or 'Model checking completed. No error' not in out:
                raise SystemExit('TLC failed: ' + out[-3000:] + err[-1000:])
            bad = [(m.group(1), part[int(m.group(2)) - 1], re.sub(r'\s+', ' ', m.group(3))[:600])
                   for m in re.finditer(r'<<\s*"MISMATCH",\s*"P17",\s*"(\w+)",\s*(\d+),(.*?)\n(?=<<|[A-Z]|\Z)', out + '\nEnd', re.S)]
            return bad, C.tlc_states(out)
        with ThreadPoolExecutor(C.NCPU) as ex:
            res = list(ex.map(job, range(len(parts))))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return [b for r in res for b in r[0]], sum(r[1][1] for r in res), sum(r[1][0] for r in res)


def model(chk):
    inv = 'SubsOk Sound Further'
    n = 5 if chk.quick else 6
    return mc.run('MCOld', 'CONSTANTS N = %d\n OClass <- NoU\n BlankMax <- Three\nSPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % (n, inv), {},
                  {'module': 'MCOld', 'n': n, 'invariants': inv.split()})


def main(chk):
    binary = C.build('olddriver', src='olddriver', pkg='verifold')
    chk.model(model(chk))
    types = C.Driver(binary).run([{'op': 'types', 'types': list(range(9))}])[0]
    j = 0
    while True:
        rng = random.Random('P17/%d/%d' % (chk.seed, j))
        sets, cases = batch(rng, 2400 if chk.quick else 6000)
        s2, c2 = special(rng, 1 if chk.quick else 2)
        cases += [(s + len(sets), t, o) for s, t, o in c2]
        sets += s2
        obs = observe(binary, sets, cases)
        t = chk.elapsed()
        bad, d, g = check(binary, sets, cases, obs, types)
        chk.validated({'states': d, 'transitions': g}, len(cases))
        chk.notes['covers'] = chk.notes.get('covers', 0) + len(cases)
        chk.notes['covers_with_matches'] = chk.notes.get('covers_with_matches', 0) + sum(1 for o in obs if o.get('m'))
        chk.notes['license_lists'] = chk.notes.get('license_lists', 0) + len(sets)
        for n in range(0, len(cases), len(cases) // 3):
            chk.sample({'licenses': sets[cases[n][0]][:3], 'text': cases[n][1][:200].decode('latin1'), 'options': cases[n][2],
                        'result': [dict(m, name=bytes(m['name']).decode('latin1')) for m in obs[n]['m']]})
        for kind, n, detail in sorted(bad, key=lambda b: len(cases[b[1]][1]) if b[0] == 'case' else 0)[:4]:
            session = {'seed': chk.seed, 'tier': chk.tier}
            if kind == 'types':
                chk.violation({'kind': 'session', 'session': session}, 'the types of package old are called %s' % types)
            else:
                s, t_, o = cases[n]
                chk.violation({'kind': 'old', 'lics': sets[s], 'text': C.b64(t_), 'opts': o, 'session': session},
                              'old.New(%s).Cover(%r, %s) = %s; specification: %s' % (sets[s], t_[:400], o, dict(obs[n], m=[dict(m, name=bytes(m['name']).decode('latin1')) for m in obs[n]['m']]), detail))
        j += 1
        if chk.quick or chk.violations or chk.elapsed() + 1.3 * (chk.elapsed() - t) > 780:
            break
    chk.notes['rounds'] = j
    chk.assume += ['TLC evaluates the specification correctly', 'the Unicode tables of the Go library (letters, lower case) are data',
                   'of matches of equal weight but different percentage either may win (floating point)',
                   'the built-in list of package old is not in this tree: lists made up by the check stand for it']


def replay(r):
    binary = C.build('olddriver', src='olddriver', pkg='verifold')
    import base64
    sets, cases = [r['lics']], [(0, base64.b64decode(r['text']), r['opts'])]
    obs = observe(binary, sets, cases)
    bad, _, _ = check(binary, sets, cases, obs, C.Driver(binary).run([{'op': 'types', 'types': list(range(9))}])[0])
    return bad
