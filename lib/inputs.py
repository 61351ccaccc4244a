"""Inputs for each property of Scan: fill a Batch.  `k` scales the amount."""
import itertools, random
import gen as G
from gen import mk, enc, P


# ------------------------------------------------------------------ helpers
SIZES = list(range(0, 20)) + [24, 30, 31, 32, 33, 34, 40, 48, 49, 50, 51, 60, 63, 64, 65, 69, 70, 71, 79, 80, 81, 90, 99, 100, 101, 120, 127, 128, 129, 130, 150, 199, 200, 201, 240,
                              254, 255, 256, 257, 258, 300, 400, 499, 500, 501, 511, 512, 513, 600, 800, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097]


def sized(rng, templates, n, most=5000):
    """Templates (before, filler, after) with the filler repeated: every size up to 19 of a few, then sizes around round numbers."""
    out = []
    for a, f, b in templates:
        small = [s for s in SIZES if s < 20]
        big = [s for s in SIZES if s >= 20 and s * len(f) <= most]
        for s in rng.sample(small, min(len(small), n)) + [x for x in rng.sample(big, min(len(big), n))]:
            out.append(a + f * s + b)
    return out


def core_sets():
    return [[mk('L%d' % i, p, typ=2 << i) for i, p in enumerate(s)] for s in G.CORE]


def exhaustive_core(B, rng, n, letters=('a', 'b', 'c'), frac=1.0):
    for lics in core_sets():
        ts = list(G.product_texts(letters, n))
        if frac < 1:
            ts = [t for t in ts if rng.random() < frac]
        B.add(lics, ts)


NEUTRAL = ['zzz', 'qqq', 'vvv', 'xxxxx', 'wwwww', 'kk']


def p01(B, rng, k):
    exhaustive_core(B, rng, 5, frac=min(1, 0.35 * k))
    for lics, ts in G.rand_sets(rng, int(140 * k), 25, maxl=5, rate=0.75):
        B.add(lics, ts)
    for lics, ts in near_misses(rng, int(60 * k)):
        B.add(lics, ts)
    for lics, ts in deep_sets(rng, int(30 * k)):
        B.add(lics, ts)
    spelling_mix(B, rng, 0.6 * k)
    wild_mix(B, rng, 0.6 * k)
    mixed(B, rng, 2 * k)


def near_misses(rng, n):
    """Sentences with exactly one change, at every position."""
    for _ in range(n):
        vocab = rng.choice([G.SMALL, rng.sample(G.WORDS, 9)])
        pats = [G.license_pat(rng, vocab) for _ in range(rng.randint(1, 3))]
        lics = [mk('L%d' % i, P.show(p, rng), typ=4) for i, p in enumerate(pats)]
        ts = []
        for p in pats:
            s = P.sample(p, rng, vocab)[:30]
            ts.append(enc(' '.join(s)))
            for i in range(len(s)):
                ts.append(enc(' '.join(s[:i] + s[i + 1:])))
                ts.append(enc(' '.join(s[:i] + [rng.choice(vocab + ['xyz'])] + s[i + 1:])))
                ts.append(enc(' '.join(s[:i] + [rng.choice(vocab + ['xyz'])] + s[i:])))
                ts.append(enc(' '.join(s[:i])))
        yield lics, rng.sample(ts, min(len(ts), 40))


def deep_sets(rng, n):
    """Several variants of one pattern: shared prefixes, options added or removed."""
    for _ in range(n):
        vocab = rng.choice([G.SMALL, rng.sample(G.WORDS, 7)])
        base = G.license_pat(rng, vocab, depth=3, size=5)
        pats = [base]
        for _ in range(rng.randint(1, 5)):
            p = list(rng.choice(pats))
            i = rng.randint(2, len(p))
            r = rng.random()
            if r < 0.3:
                p[i:i] = [('w', rng.choice(vocab))]
            elif r < 0.5 and i < len(p):
                del p[i]
            elif r < 0.7:
                p = p[:i] + [('w', rng.choice(vocab))]
            elif r < 0.85:
                p[i:i] = [('opt', [[('w', rng.choice(vocab))]])]
            else:
                p[i:i] = [('wild', rng.choice([1, 2, 4, 6])), ('w', rng.choice(vocab))]
            pats.append(p)
        rng.shuffle(pats)
        lics = [mk('L%d' % i, P.show(p, rng), typ=2 << (i % 7)) for i, p in enumerate(pats)]
        yield lics, G.texts_for(rng, pats, 25, vocab, rate=0.5)


def p02(B, rng, k):
    exhaustive_core(B, rng, 5, frac=min(1, 0.35 * k))
    # adjacent and overlapping sentences
    for _ in range(int(120 * k)):
        vocab = rng.choice([['a', 'b', 'c'], G.SMALL, rng.sample(G.WORDS, 6)])
        pats = []
        for _ in range(rng.randint(2, 5)):
            r = rng.random()
            if pats and r < 0.35:      # prefix or extension of another
                q = rng.choice(pats)
                p = q[:max(2, len(q) - rng.randint(1, 3))] if rng.random() < 0.5 else q + [('w', rng.choice(vocab)) for _ in range(rng.randint(1, 3))]
            elif pats and r < 0.55:    # begins with the end of another
                q = [x for x in rng.choice(pats) if x[0] == 'w']
                p = q[-rng.randint(1, 3):] + [('w', rng.choice(vocab)) for _ in range(rng.randint(1, 3))]
            else:
                p = G.license_pat(rng, vocab, depth=1, size=3, pw=0.06)
            if len(p) < 2:
                p = p + [('w', vocab[0])]
            pats.append(p)
        lics = [mk('L%d' % i, P.show(p, rng), typ=2) for i, p in enumerate(pats)]
        ts = []
        for _ in range(25):
            ws = []
            for _ in range(rng.randint(1, 5)):
                s = P.sample(rng.choice(pats), rng, vocab)
                if ws and rng.random() < 0.3:      # overlap by a word or two
                    s = s[rng.randint(1, 2):]
                ws += s
                if rng.random() < 0.3:
                    ws += [rng.choice(vocab + ['x'])]
            ts.append(enc(G.layout(rng, ws, G.SAFESEPS, False) if rng.random() < 0.5 else ' '.join(ws)))
        B.add(lics, ts)
    for lics, ts in G.rand_sets(rng, int(60 * k), 20, maxl=5, rate=0.3):
        B.add(lics, ts)
    spelling_mix(B, rng, 0.5 * k)
    wild_mix(B, rng, 0.5 * k)
    mixed(B, rng, 2 * k)
    # many licenses at once
    for _ in range(int(3 * k)):
        vocab = rng.sample(G.WORDS, 12)
        pats = [G.license_pat(rng, vocab, depth=1, size=4, pw=0.05) for _ in range(40)]
        lics = [mk('L%d' % i, P.show(p, rng), typ=2) for i, p in enumerate(pats)]
        B.add(lics, G.texts_for(rng, pats, 60, vocab, rate=0.3, maxparts=6))


def rand_bytes(rng, n):
    r = rng.random()
    if r < 0.3:
        return bytes(rng.randrange(256) for _ in range(n))
    if r < 0.6:
        al = b'ab<>&#;(){}[]/@:\n\r\t .cC\xc2\xa9\xe2\x80\xff\x00sx1'
        return bytes(rng.choice(al) for _ in range(n))
    parts = G.TAGS + G.ENTS + G.LINKS + G.ANCH + ['http://a.org/b', 'https://', '(c)', 'a', 'b', 'copyright', '\n', ' ', 'x(s)',
                                                '©', '\u0301', 'é', '\xff', '<', '&', '](', '{#', '((', '__5__', '\u2028']
    out = b''
    while len(out) < n:
        s = enc(rng.choice(parts))
        out += s[:rng.randint(1, len(s))] if rng.random() < 0.2 else s
    return out


def p03(B, rng, k):
    base = [
        [mk('A', 'a b', 'a.org/b'), mk('B', 'c a\n((b))??\n a', 'b.com/x', 4)],
        [mk('A', 'copyright a __3__ b'), mk('B', 'a b c'), mk('U', b'', 'a.org/b', 8)],
        [mk('A', 'http a'), mk('B', 'b http'), mk('C', 'a b', 'a.org/b'), mk('D', 'copyright http')],
        [mk('A', 'a x', 'a.org/b'), mk('A', 'x1 c', 'a.org/c', 16)],
        [mk('A', 'a a'), mk('B', 'a c c a'), mk('C', 'cc \xe9\xe8 x')],
    ]
    for lics in base:
        ts = [b'', b'a', b'a b', b'\n', b'a b\n', b'\na b', b'(c)', b'<', b'&', b'{', b']', b'http', b'http://', b'a\x00b']
        ts += [rand_bytes(rng, rng.choice([1, 2, 3, 5, 8, 13, 30, 60, 120, 300])) for _ in range(int(500 * k))]
        for _ in range(int(120 * k)):    # a match in the middle of noise
            ts.append(rand_bytes(rng, rng.randint(0, 12)) + rng.choice([b'a b', b' a b ', b'\na b\n', b'c a a', b'a b c', b'http a'])
                      + rand_bytes(rng, rng.randint(0, 12)))
        B.add(lics, ts)
        # every prefix and suffix of a few rich texts
        for _ in range(int(6 * k)):
            t = rand_bytes(rng, 40) + b' a b c a ' + rand_bytes(rng, 30)
            B.add(lics, [t[:i] for i in range(len(t))] + [t[i:] for i in range(len(t))])
    for lics, ts in G.rand_sets(rng, int(60 * k), 20, markup=0.15, rate=0.7):
        B.add(lics, ts)
    mixed(B, rng, 2 * k, markup=0.2)
    for lics, ts in copyright_layouts(rng, int(30 * k)):
        B.add(lics, ts)
    for lics, ts in layouts(rng, int(30 * k)):
        B.add(with_urls(rng, lics), [insert_urls(rng, t, URLS) for t in ts])
    lics = [mk('A', 'a b', 'a.org/b'), mk('B', 'a copyright c', 'b.com/x/y-z_1')]
    seg = [(a, f, b) for f in ['<', '&', '{#', '](', '(c)', 'a', 'http', 'http://a.org/b ', '\xff', '\n', 'a b ', '<b', '>', 'copyright ', '\u0301', '/', 'ab', '(s)'] for a, b in [('', ''), ('a b ', ''), ('', ' a b'), ('a b ', ' a b'), ('copyright ', ' a b'), ('http://a.org/b', ' a b')]]
    B.add(lics, [enc(x) for x in sized(rng, seg, int(4 * k), 3000)])
    tm = [b'@', b'a b@', b'@a b', b'a@b', b'a b http://a.org/b@', b'@http://a.org/b', b'http://a.org/@', b'a (@) c', b'<@', b'&@', b'{@', b']@', b'\xc2@', b'\xe2@', b'\xf0\x9d@', b'a b\n@\na b',
          b'a &copy@', b'(c@', b'a(s@', b'\xe2\x84@a b', b'http://a.org/b\xe2@']
    B.add(lics, list(one_byte(tm)))
    B.add(lics, [bytes(x) for x in itertools.product(b'<&{](a;#\xc2', repeat=3)] + [bytes([x, y]) for x in range(256) for y in (0x61, 0xa9, 0x80, 0x28)])


def insert_urls(rng, t, urls):
    for _ in range(rng.randint(0, 3)):
        i = rng.randint(0, len(t))
        t = t[:i] + b' ' + rng.choice(urls) + rng.choice([b' ', b'\n', b'. ', b', ']) + t[i:]
    return t


URLS = [enc('http://a.org/b\u00e9'), enc('http://a.org/\u00e9'), enc('http://b.com/x/y-z_1\u00e9t\u00e9'), b'http://a.org/b\xcc\x81', b'http://a.org/b', b'https://a.org/b/', b'HTTP://A.ORG/B', b'http://a.org/b/c', b'http://a.org/x', b'https://www.a.org/b.',
        b'http://a.org/b/legalcode', b'http://b.com/x/y-z_1', b'https://b.com/x/y-z_1/us/']


def with_urls(rng, lics):
    u = ['a.org/b', 'b.com/x/y-z_1', 'www.a.org/b.']
    out = [dict(l) for l in lics]
    for l in out:
        if rng.random() < 0.5:
            l['url'] = enc(rng.choice(u))
    if rng.random() < 0.5:
        out.append(mk('U', b'', rng.choice(u), 8))
    return out


def p04(B, rng, k):
    for lics, ts in G.rand_sets(rng, int(170 * k), 25, markup=0.06, rate=0.4, filler=12):
        lics = with_urls(rng, lics)
        B.add(lics, [insert_urls(rng, t, URLS) for t in ts])
    for lics, ts in copyright_layouts(rng, int(60 * k)):
        B.add(lics, ts)
    for lics, ts in layouts(rng, int(20 * k)):
        B.add(with_urls(rng, lics), [insert_urls(rng, t, URLS) for t in ts])
    mixed(B, rng, 2.5 * k)
    lics = [mk('A', 'a b', 'a.org/b'), mk('B', 'a copyright c', 'b.com/x/y-z_1'), mk('C', 'c', 'x.org/c')][:2]
    tm = [b'zz a b@ zz', b'zz @a b', b'http://a.org/b@zz', b'http://a.org/b@zz a b', b'zz@http://a.org/b zz', b'a@b zz', b'http://b.com/x/y-z_1@y zz', b'(c)@a b', b'a b @ a b @ a b', b'copyright @ copyright', b'zz@(c)@a b']
    B.add(lics, list(one_byte(tm)))


COPYMARKS = ['copyright', '(c)', '©', '&copy;', 'Copyright (C)', '(c) copyright ©', 'COPYRIGHT']


def copyright_layouts(rng, n):
    """Copyright marks at chosen distances before matches; distances around the limit of 50."""
    for _ in range(n):
        lics = [mk('A', rng.choice(['aa bb', 'aa bb cc', 'copyright aa bb', 'aa bb\n((copyright cc))??\n dd'])),
                mk('B', 'cc dd', typ=4)]
        ts = []
        for _ in range(14):
            out = []
            for _ in range(rng.randint(1, 3)):
                r = rng.random()
                if r < 0.55:
                    d = rng.choice([45, 47, 48, 49, 50, 51, 52, 53, 0, 1, 2, 60, 99, 100, 101])
                else:
                    d = rng.randint(0, 110)
                ws = [rng.choice(NEUTRAL) for _ in range(d)]
                for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                    at = rng.choice([0, 0, 0, 1, 2, rng.randint(0, d)])
                    ws.insert(min(at, len(ws)), rng.choice(COPYMARKS))
                if rng.random() < 0.2:
                    ws.insert(rng.randint(0, len(ws)), 'http://a.org/b')
                out += ws + rng.choice([['aa', 'bb'], ['aa', 'bb', 'cc'], ['cc', 'dd'], ['aa', 'bb', 'copyright', 'cc', 'dd'],
                                        ['copyright', 'aa', 'bb'], ['aa', 'bb', 'dd']])
            sep = rng.choice([[' '], [' ', ' ', '\n'], G.SAFESEPS])
            s = ''
            for w in out:
                s += w + rng.choice(sep)
            ts.append(enc(s))
        yield lics, ts


GAPS = ['', '\n', '\n\n', '\r\n', '. \n', ' *\n * ', '\n// ', ';\n\n\t', '...', '\n\r', '\r', ' \n \n ', '-\n', '\u2028', '\x0b\n', '<b>\n</b>',
        '\n&nbsp;\n', '(\n)', '\x0c', '--', '</p>\n<p>', '\n\xff\n', '">\n']


def layouts(rng, n):
    """Every kind of gap before, within and after matches."""
    for _ in range(n):
        lics = [mk('A', rng.choice(['aa bb', 'aa bb __2__ cc'])), mk('B', 'cc dd', typ=4)]
        ts = []
        for g1, g2 in [(rng.choice(GAPS), rng.choice(GAPS)) for _ in range(24)]:
            j = rng.choice([' ', '\n', ', ', '\n\n'])
            mid = rng.choice(['aa' + j + 'bb', 'cc' + j + 'dd', 'aa' + j + 'bb' + rng.choice(GAPS[1:]) + 'cc' + j + 'dd', 'aa bb\naa bb'])
            pre = rng.choice(['', 'zzz', 'zzz', 'zzz ', '© ', 'copyright zzz\n', 'aa bb', '(c)', 'zzz\n(c) 1999 ', '1\n', 'cc dd'])
            post = rng.choice(['', 'zzz', 'zzz', 'aa bb', '(c)', '1', '©', 'http://a.org/b', 'copyright', 'cc dd', '\n'])
            ts.append(enc(pre + (g1 or ' ') + mid + (g2 or ' ') + post))
        yield lics, ts


def p05(B, rng, k):
    for lics, ts in copyright_layouts(rng, int(110 * k)):
        B.add(lics, ts)
    for lics, ts in layouts(rng, int(110 * k)):
        B.add(with_urls(rng, lics) if rng.random() < 0.3 else lics, ts)
    # every pair of gaps around a match, at the edges of the text and between words
    lics = [mk('A', 'aa bb'), mk('B', 'cc dd', typ=4)]
    for pre, post in [('', ''), ('zz', 'zz'), ('cc dd', 'cc dd'), ('(c) zz', '©')]:
        B.add(lics, [enc(pre + (a or ' ') + 'aa bb' + (b or ' ') + post) for a in GAPS for b in GAPS])
    for lics, ts in G.rand_sets(rng, int(60 * k), 20, markup=0.06, rate=0.3):
        B.add(lics, ts)
    mixed(B, rng, 2 * k)
    lics = [mk('A', 'aa bb'), mk('B', 'cc dd', typ=4)]
    tm = [b'zz\n@aa bb\nzz', b'zz@\naa bb zz', b'zz aa bb@\nzz', b'zz aa bb\n@zz', b'@aa bb', b'aa bb@', b'aa bb\n@', b'@\naa bb', b'aa bb@cc dd', b'aa bb\n@cc dd', b'aa bb@\ncc dd', b'(c)@zz\naa bb', b'zz (c@ zz aa bb',
          b'zz &copy@ zz aa bb', b'copyright@ zz aa bb', b'zz\n\n@aa bb@\n\nzz', b'aa bb (c)@zz cc dd']
    B.add(lics, list(one_byte(tm)))
    seg = []
    for f in ['\n', ' ', ' \n', '\r\n', '\n \n', '.\n', '-', '\t', '\n#', '<b>', '&nbsp;', 'zz ', '(c) ', 'zz\n', '\x0c\n', '\u2028', '*', '(c) zz ']:
        seg += [('zz', f, 'aa bb zz'), ('zz aa bb', f, 'zz'), ('aa bb', f, 'cc dd'), ('', f, 'aa bb'), ('aa bb', f, ''), ('(c)', f, 'zz aa bb'), ('(c) zz ', f, 'aa bb'), ('zz\n', f, 'aa bb')]
    B.add(lics, [enc(x) for x in sized(rng, seg, int(5 * k), 3000)])


# ------------------------------------------------------------------ URLs
SCHEMES = ['http://', 'https://', 'HTTP://', 'Https://', 'httpS://', 'hTTps://', 'http:/', 'http:', 'https//', 'ftp://', 'xhttp://', 'http ://',
           'http\u017f://', 'HTTP\u017f://']
HOSTS = ['a.org', 'www.a.org', 'A.Org', 'b.com', 'x-y.b.com', 'a.net', '.org', 'a.orgx', 'a_b.org', 'a.org.com', 'a..com', 'borg', 'a.org:80',
         'user@a.org', 'gnu.org', '\u212a.org', 'k.org', 'com', 'a.co', 'a.b.c.d.org', '-.com', 'a.COM']
PATHS = ['/b', '/b/', '/b/c', '/B', '/b/legalcode', '/b/legalcode/', '/b/LegalCode', '/b//', '/b/c/', '/b/c/d', '/', '', '//b', '/b.html', '/b?x=1',
         '/b#c', '/b=c', '/b%20', '/b~c', '/b.', '/b,', '/b/c/legalcode', '/legalcode', '/b/../c', '/\u212a', '/k', '/b-c_d.e', '/b/x/', '/b/LEGALCODE',
         '/b/legalcode/legalcode', '/b/legalcodes', '/b/\u017f']


def p06(B, rng, k):
    listed = ['a.org/b', 'www.a.org/b', 'b.com/b/c', 'x-y.b.com/b.html', 'a.org/b/legalcode', 'a.org/legalcode', 'gnu.org/b?x=1', 'a_b.org/b',
              'a.org', 'b.com/b-c_d.e', 'k.org/k', 'a..com/b', 'a.org/b=c', 'a.org/b/c/d', '-.com/b', '.org/b', 'a.org/b.', 'a.org/b#c', 'http',
              'a.b.c.d.org/b', 'a.org/b/x']
    lics = [mk('U%d' % i, b'', u, 2 << (i % 7)) for i, u in enumerate(listed)] + [mk('L', 'aa bb', 'a.org/l'), mk('M', 'copyright zz', 'b.com/b', 8)]
    combos = [s + h + p for s in SCHEMES for h in HOSTS for p in PATHS]
    pick = rng.sample(combos, min(len(combos), int(2500 * k)))
    pick += [s + h + p for s in SCHEMES[:6] for h in HOSTS[:5] for p in PATHS]
    pick += [s + h + p for s in SCHEMES[:2] for h in HOSTS for p in PATHS[:8]]
    B.add(lics, [enc(u) for u in pick])
    ctx = []
    for u in rng.sample(pick, min(len(pick), int(900 * k))):
        ctx.append(enc(rng.choice(['zz ', '(', '<', '"', 'see:', '', 'aa bb ', 'x', '1', '&lt;', ']( ', '](', '\n', 'copyright ', 'aa bb\n']) + u +
                       rng.choice([' zz', ')', '>', '"', '', '. zz', ' aa bb', 'aa bb', '\naa bb', ' (c) aa bb', '?', ',', ' http://a.org/b', '/aa bb',
                                   ' copyright zz zz aa bb', '-aa bb', '.aa.bb', '\u00e9', '&gt;', '\n'])))
    B.add(lics, ctx)
    tm = [b'http@://a.org/b', b'htt@://a.org/b', b'http:@/a.org/b', b'http://@.org/b', b'http://a@.org/b', b'http://a@org/b', b'http://a.@rg/b', b'http://a.or@/b', b'http://a.org@/b', b'http://a.org@b',
          b'http://a.org/b@', b'http://a.org/b@c', b'http://a.org/b/@', b'http://a.org/b@/c', b'http://a.org/@', b'http://a.org/b/legalcode@', b'http://a.org/b@legalcode', b'@http://a.org/b', b'http://a.c@m/b',
          b'http://b.com/b/c@', b'http://gnu.org/b@x=1', b'http://b.com/b@c_d.e']
    B.add(lics, [x + b' zz' for x in one_byte(tm)])
    # URLs with words that mean something elsewhere: notices, licenses, marks
    us = ['a.org/copyright', 'copyright.org/b', 'a.org/b/copyright', 'a.org/c', 'c.com/c', 'a.org/aa/bb', 'aa.org/bb', 'a.org/aa', 'bb.org/b', 'a.org/copyright/aa', 'http.org/http', 'a.org/copyright/legalcode', 'a.org/the']
    l2 = [mk('U%d' % i, b'', u, 2) for i, u in enumerate(us)] + [mk('L', 'aa bb'), mk('M', 'bb copyright', '', 8), mk('N', 'org aa bb'), mk('O', 'http aa cc'), mk('P', 'copyright dd')]
    ts = []
    for u in us + ['a.org/copyright/x', 'copyright.org/', 'a.org/aa/bb/cc', 'a.org/x']:
        for pre in ['', 'zz ', 'copyright ', '(c) ', 'aa bb ', 'aa ', 'zz zz http ', '(c) zz http://a.org/c ']:
            for post in ['', ' aa bb', ' zz aa bb', ' bb', '\naa bb', ' zz\naa bb', ' (c) zz aa bb', ' copyright', ' dd', ' http://a.org/c aa bb', '/ aa bb', '/aa bb', '. aa bb', ' ' + 'zz ' * rng.choice([46, 47, 48, 49, 50, 51]) + 'aa bb']:
                ts.append(enc(pre + rng.choice(['http://', 'https://', 'HTTP://']) + u + post))
    B.add(l2, rng.sample(ts, min(len(ts), int(900 * k))))
    seg = [('http://a.org/b', 'x', ''), ('http://a.org/b', '/', ''), ('http://a.org/b', '/x', ''), ('http://a.org/b/', 'x', ''), ('http://', 'a', '.org/b'), ('http://', 'a.', 'org/b'), ('http', 's', '://a.org/b'), ('http:', '/', 'a.org/b'),
           ('http://a.org', '/', 'b'), ('http://b.com/b/c', '/x', '/legalcode'), ('http://a.org/b', '-', ' zz'), ('zz ', 'http://a.org/b ', ''), ('http://a.org/', 'long/', 'b'), ('http://a.org/long', 'er', '')]
    B.add(lics + [mk('X%d' % n, b'', 'a.org/' + 'long/' * n + 'b') for n in (1, 20, 60, 200)] + [mk('Y%d' % n, b'', 'a.org/long' + 'er' * n) for n in (1, 30, 130, 500)], [enc(x) for x in sized(rng, seg, int(8 * k), 3000)])
    mixed(B, rng, 1.2 * k)
    # several licenses with the same URL, patterns and URLs interleaved, URLs inside matches
    for _ in range(int(80 * k)):
        us = [rng.choice(listed) for _ in range(rng.randint(1, 5))]
        ls = [mk('U%d' % i, rng.choice([b'', b'', 'aa bb', 'aa bb __6__ cc', 'zz http __9__ aa', 'http a']), u, 2 << (i % 7)) for i, u in enumerate(us)]
        ls.append(mk('Z', 'dd ee'))
        ts = []
        for _ in range(14):
            s = ''
            for _ in range(rng.randint(1, 5)):
                r = rng.random()
                if r < 0.5:
                    u = rng.choice(us)
                    s += rng.choice(SCHEMES[:6]) + rng.choice([u, u.upper(), u + '/', u + '/legalcode', u + '/us', u + '/us/', u + '/a/b', u + 'x', u + '.', u + '/LegalCode/'])
                else:
                    s += rng.choice(['aa bb', 'cc', 'dd ee', 'zz', '(c) zz', 'copyright', 'aa', 'yy yy yy'])
                s += rng.choice([' ', ' ', '\n', '. ', ',', '\n\n', '/', ')', '-'])
            ts.append(enc(s))
        B.add(ls, ts)


# ------------------------------------------------------------------ normalization
def wordset(alphabet, n):
    out = []
    for k in range(1, n + 1):
        out += [''.join(x) for x in itertools.product(alphabet, repeat=k)]
    return out


def markup_family(rng, symbols, n, limit):
    full = []
    for j in range(1, n + 1):
        if len(symbols) ** j > 400000:
            break
        full += [''.join(x) for x in itertools.product(symbols, repeat=j)]
    if len(full) > limit:
        full = rng.sample(full, limit)
    longer = [''.join(rng.choice(symbols) for _ in range(rng.randint(n, n + 5))) for _ in range(limit // 3)]
    return full + longer


FAMILIES = {
    'tag': ['<', '>', '/', 'a', '@', ':', ' ', '\n', '\r', '<a', '://'],
    'entity': ['&', '#', 'x', ';', 'a', '1', 'copy', ' ', 'F', 'g'],
    'anchor': ['{', '#', '}', 'a', ' ', '\n', '{#', '\r', '\t'],
    'link': [']', '(', ')', '#', 'a', ' ', '\n', 'http://', 'https://', 'mailto:', 'file:', '](', '\t', '\r', 'ftp:'],
    'paren': ['(', ')', 'c', 's', 'a', ' ', 'C', '©', 'S', '1'],
    'copy': ['copyright', '(c)', '©', '&copy;', 'c', ' ', 'a', ',', '(C)', '\n', 'Copyright', '(', ')'],
    'same': ['this', 'these', 'those', 'the', 'they', 'them', 'it', 'is', 'are', 'copy', 'copies', 'http', 'https', ' ', '.', '-', 'thee', 'its', 'copie'],
    'accent': ['a', 'e', '\u0301', '\u0300', 'é', 'è', 'É', '\u0302', 'ê', 'x', ' ', 'ü', 'ì', 'ó', 'Ù', '\u0327', 'á', 'À'],
    'bytes': ['a', '\xff', '\u00e9', '\u0301', '\u200d', '_', '\u0660', '\u4e2d', '1', ' ', '\u2160', '\u0903', '\U0001d400', '\u00b2', '\u1e9e', 'ß'],
    'tagtext': ['<', '</', 'a', '>', ' b', 'é', '=', '"', '!', '-', '1', '<b>', '\n\n', '@', '(c)'],
}


FORMS = sorted(set(G.TAGS + G.ENTS + G.LINKS + G.ANCH + ['a(s)', 'a(S)', 'notice(s)', 'Notice(S)', 'a(s', 'a(', 'a (s)', 'a(ss)', '(s)', '(c)', '(C)', '(c', '( c)', 'c)', '©', '&copy', '(c)(c)',
                 'a', '1(s)', 'é(s)', 'copyright(s)', 'c(s)', '(c)(s)', 'http', 'https', 'HTTPS', 'https:', 'This', 'THEY', 'are', 'Copies', 'a\u0301', '\u0301', '\u0301a', 'é', 'É', 'ê',
                 '</b>', '<b', '<b>', '<b/>', '<B c="d">', '<b\nc>', '<b\nc\nd>', '<!b>', '<b@c>', '<b:c>', '<a://b>', '<http://a>', '&a;', '&A1;', '&#12;', '&#xaF;', '&#Xa;', '&#1a;', '&#x;', '&#;', '&a b;',
                 '{#a}', '{# a}', '{#a', '{a}', '](#a)', '](a)', '](http://a', '](http://a b)', '](https://a)', '](mailto:a)', '](file:a)', '](http:a)', '](HTTPS://a)'] +
               ['&#x%s;' % d for d in '0123456789abcdefABCDEFgG'] + ['&#%s;' % d for d in '0123456789aA'] + ['&%s;' % c for c in 'azAZ059@[`{/:']))
SHORT = sorted({''.join(x) for sy in FAMILIES.values() for n in (1, 2, 3) for x in itertools.product(sy, repeat=n)})


def p07(B, rng, k):
    pats = ['p1 q1 __30__ r1 s1']
    for w in ['a', 'aa', 'a a', 'c', 's', 'as', 'cs', 'copyright', 'the', 'it', 'is', 'copy', 'http', '1', 'e', 'a e', 'x', 'ex', 'ae', 'copyright a',
              'a copyright', 'c c', 'cc', 'é', 'ê', 'ü', 'a 1', 'acs', 'a c', 'a s', 'thee', 'its', 'copyright c', 'http a', 'b', 'a b', 'the the',
              'ae\u0302', 'ss', 'ß', 'a\u0301e']:
        pats.append('p1 q1 %s r1 s1' % w)
    # how many words there are, if not which
    lics = [mk('W%d' % i, p) for i, p in enumerate(pats[1:])] + [mk('Z0', 'p1 q1 r1 s1')] + [mk('Z%d' % i, 'p1 q1 __%d__ r1 s1' % i) for i in (1, 2, 3)] + [mk('N', pats[0])]
    ends = [mk('E%d' % i, 'e1 f1 ' + w) for i, w in enumerate(['a', 'as', 'c', 'copyright', 'a a', 'the', 'it', 'is', 'copy', 'http', 'e', 'ea', 'x', '1', ''])]
    # every form of markup in every position
    forms = [enc(x) for x in FORMS]
    B.add(lics, [b'p1 q1' + a + x + b + b'r1 s1' for x in forms for a in (b' ', b'', b'a', b'\n', b'(') for b in (b' ', b'', b'a', b'.\n', b'\xc3\xa9')])
    B.add(lics + ends, [b'e1 f1' + a + x + b for x in forms for a in (b' ', b'', b' a', b'\n') for b in (b'', b'a', b'\n', b')')] + [x + a + b'p1 q1 r1 s1 ' for x in forms for a in (b' ', b'', b'\n')])
    for name, sy in FAMILIES.items():
        xs = markup_family(rng, sy, 4, int(1100 * k))
        B.add(lics, [enc('p1 q1 ' + x + ' r1 s1') for x in xs])
        ys = rng.sample(xs, min(len(xs), int(250 * k)))
        # at the very beginning, the very end, and glued to words
        B.add(lics, [enc(x + ' p1 q1 r1 s1 ' + y) for x, y in zip(ys, reversed(ys))] +
              [enc('p1 q1' + x + 'r1 s1') for x in ys])
        # the same writing in the pattern
        for _ in range(int(12 * k)):
            pl = [mk('P%d' % i, 'p1 q1 ' + rng.choice(ys).replace('((', '(').replace('))', ')').replace('__', '_') + ' r1 s1')
                  for i in range(rng.randint(1, 4))]
            B.add(pl, [enc('p1 q1 ' + rng.choice(ys) + ' r1 s1') for _ in range(12)] +
                  [l['lre'] for l in pl])
    # markup of all sizes
    seg = [('a<b', 'c', '>a'), ('a<b ', 'c ', '>a'), ('a</b', 'c', '>a'), ('a<b', '\n', '>a'), ('a<b c="', 'd', '">a'), ('a<b c="', 'd ', '">a'), ('a<b', ' ', '>a'), ('a<', 'b', ' a'), ('a', '<b>', 'a'), ('a', '<', 'a'), ('a<b', '>', 'a'),
           ('a&', 'c', ';a'), ('a&#', '1', ';a'), ('a&#x', 'f', ';a'), ('a&#x', '1', ' a'), ('a&', 'c', ' a'), ('a', '&', 'copy;a'), ('a', '&b;', 'a'), ('a {#', 'b', '} a'), ('a {#', 'b ', '} a'), ('a {', '#', '} a'), ('a', '{#b}', ' a'),
           ('a](#', 'b', ') a'), ('a](http://', 'b', ') a'), ('a](http://', 'b/', ' ) a'), ('a](mailto:', 'b', ') a'), ('a](file:', 'b', ') a'), ('a](http://', 'b', ' a'), ('a]', '(', '#b) a'), ('a', ']', '(#b) a'), ('a](http:', '/', 'b) a'),
           ('a', '(s)', ' a'), ('a ', '(c) ', 'a'), ('a', '(', 'c) a'), ('a (c', ')', ' a'), ('', 'a', ''), ('a ', 'a', ' a'), ('a', '\u0301', 'a'), ('a ', '\u0301', ' a'), ('a ', '1', ' a'), ('a ', '. ', 'a'), ('a ', '\n', 'a'),
           ('a ', 'copyright ', 'a'), ('a ', 'copyright (c) ', 'a'), ('a ', 'copyright', ' a'), ('a ', 'the ', 'a'), ('a ', '-', ' a'), ('a<!--', ' b', '-->a'), ('a<b', ' @', '>a'), ('a<b', '\r', '>a'), ('a ', 'é', ' a'), ('a ', '\xff', ' a')]
    xs = sized(rng, seg, int(8 * k))
    B.add(lics + ends, [enc(rng.choice(['p1 q1 %s r1 s1', 'p1 q1 %s r1 s1', 'e1 f1 %s', 'zz %s p1 q1 r1 s1', 'p1 q1 %s r1 s1']) .replace('%s', x)) for x in xs])
    # one byte of the markup varied; at the end of the text too
    tm = [b'a@a', b'a @ a', b'@a', b'a@', b'<@>', b'<@a>', b'<a@', b'<a@>', b'<a @>', b'</@>', b'<a@b>', b'&@;', b'&a@', b'&a@;', b'&#@;', b'&#1@', b'&#1@;', b'&#x@;',
          b'&#x1@;', b'&#@1;', b'&@#1;', b'{@a}', b'{#@}', b'{#a@', b'{#a@}', b'a](@', b'a](@)', b'a](#@)', b'a](#@', b'a](http://a@)', b'a](http@://a)', b'](mailto:@)',
          b'](file:@)', b']@(#a)', b'(@)', b'(c@', b'@c)', b'a(@)', b'a(s@', b'a@s)', b'a(s)@', b'copyright@(c)', b'(c)@copyright', b'\xc2@', b'\xe2\x80@', b'e@a', b'\xcc@', b'a\xcc@',
          b'copyright @ a', b'htt@', b'http@', b'thes@', b'th@se', b'copie@', b'i@', b'ar@', b'the@', b'<!-- @ -->', b'<a\n@\nb>', b'<a\n\n@>']
    full = [x for t in tm for x in one_byte([t])]
    B.add(lics, [b'p1 q1 ' + x + b' r1 s1' for x in full])
    B.add(lics + ends, [b'e1 f1 ' + x for x in full + [enc(y) for y in rng.sample(SHORT, min(len(SHORT), int(3000 * k)))]])
    unicode_folds(B, rng, k)
    mixed(B, rng, 1.5 * k, markup=0.25)


ORBITS = [  # runes with more than two case forms, and other specials
    'kK\u212a', 'sS\u017f', 'å\u00c5\u212b', 'µ\u03bc\u039c', 'θϑΘϴ', 'βϐΒ', 'εϵΕ', 'κϰΚ', 'πϖΠ', 'ρϱΡ', 'σςΣ', 'φϕΦ', 'ω\u2126Ω', 'ι\u1fbe\u0345\u0399',
    'ǆǅǄ', 'ǉǈǇ', 'ǌǋǊ', 'ǳǲǱ', '\u1e61\u1e9b\u1e60', 'ß\u1e9e', 'в\u1c80В', 'д\u1c81Д', 'т\u1c84\u1c85Т', 'ꙋ\u1c88Ꙋ', 'éÉ', 'èÈ', 'üÜ', 'ñÑ', 'жЖ',
    'աԱ', 'ⓐⒶ', '𐐨𐐀', 'ჰᲰ', 'ꭰᎠ', 'ᏸᏰ', 'ıİ', 'ÿŸ', 'ⱥȺ', 'ɐⱯ', 'aA', 'zZ', 'àÀ', 'íÍ', 'ìÌ', 'óÓ', 'òÒ', 'úÚ', 'ùÙ', 'áÁ', 'âÂ', 'ôÔ']


def unicode_folds(B, rng, k):
    import unicodedata
    orb = list(ORBITS)
    for _ in range(int(60 * k)):       # random letters, digits and marks with their case forms
        c = chr(rng.choice([rng.randint(0x80, 0x2ff), rng.randint(0x300, 0x1fff), rng.randint(0x2000, 0xd7ff), rng.randint(0xe000, 0x1ffff)]))
        orb.append(''.join(dict.fromkeys([c, (c.upper() or c)[0], (c.lower() or c)[0]])))
    rng.shuffle(orb)
    for j in range(0, len(orb), 10):
        grp = orb[j:j + 10]
        lics = []
        ts = []
        for i, o in enumerate(grp):
            lics.append(mk('O%d' % i, enc('pp%d qq x%sy rr' % (i, rng.choice(o)))))
            lics.append(mk('S%d' % i, enc('pp%d qq %s rr' % (i, rng.choice(o)))))
            for c in o:
                ts += [enc('pp%d qq x%sy rr' % (i, c)), enc('pp%d qq %s rr' % (i, c)), enc('pp%d qq x%s rr y' % (i, c)),
                       enc('zz %sx %s%s x%sx' % (c, c, c, c))]
        B.add(lics, ts)


BYTES = [bytes([b]) for b in range(256)]
RUNES = [enc(c) for c in '\u00a0\u00ad\u00b7\u00c0\u00df\u00e0\u00e9\u00ff\u0130\u0131\u017f\u0301\u0345\u0391\u0660\u0903\u0e01\u1e9e\u2000\u200b\u200d\u2010\u2019\u201c\u2028\u2029\u2122\u2126\u212a\u212b\u2160\u24b6\u3000\u4e2d\ufb01\ufeff\ufffd\U0001d400\U00010400\U0001f600']


def one_byte(templates, reps=1):
    """Every byte (and some runes) in the place of @ in each template."""
    for t in templates:
        a, b = t.split(b'@', 1)
        for x in BYTES + RUNES:
            yield a + x + b.replace(b'@', x)


# ------------------------------------------------------------------ spelling
def p08(B, rng, k):
    # every have against every want over two letters
    wants = wordset('ab', 4) + ['aaaaa', 'ababa', 'abbaa', 'aabba', 'bbbbb', 'abcde', 'c', 'copyright', 'cc']
    haves = wordset('ab', 5) + ['abcde', 'abcd', 'abce', 'abxde', 'c', '(c)', '©', '&copy;', 'copyright', 'copyrigh', 'Copyrihgt', 'C.', 'cc', 'ac', 'aaaaaa', 'ababab', 'ababaa']
    for w in (wants if k >= 1 else rng.sample(wants, 20)):
        hs = haves if k >= 2 else rng.sample(haves, 45)
        B.add([mk('A', 'pp qq %s' % w), mk('B', 'pp rr %s ss' % w, typ=4)],
              [enc('pp qq ' + h) for h in hs] + [enc('pp rr ' + h + ' ss') for h in hs])
    # words of three and four letters, all single and double edits
    for _ in range(int(45 * k)):
        w = rng.choice(['abc', 'abcd', 'aabb', 'abab', 'aaaa', 'license', 'the', 'form', 'forms', 'of', 'notice', 'é' * 2, 'naïve', 'aéa', 'are'] + G.WORDS)
        if w == 'c':
            continue
        hs = set()
        for _ in range(30):
            h = G.misspell(rng, w)
            hs.add(h)
            if rng.random() < 0.5:
                hs.add(G.misspell(rng, h))
            i = rng.randint(0, len(w))
            hs.add(w[:i] + ' ' + w[i:])
            hs.add(w[:i] + '-\n' + w[i:])
            hs.add(w[:i] + G.recase(rng, w[i:]))
        hs = sorted(h for h in hs if h.strip())
        alt = rng.choice(['', '', ' || ' + G.misspell(rng, w), ' || xx', ' || ' + w[:2], ' || __1__', ' || ' + w + 's'])
        B.add([mk('A', 'pp qq\n((%s%s))\nrr' % (w, alt)), mk('B', 'pp qq\n((%s%s))??\nss tt' % (w, alt)), mk('C', 'pp uu ' + w)],
              [enc('pp qq ' + h + ' rr') for h in hs] + [enc('pp qq ' + h + ' ss tt') for h in hs[::2]] + [enc('pp uu ' + h) for h in hs])
    spelling_mix(B, rng, k)
    mixed(B, rng, 1.5 * k)


def spelling_mix(B, rng, k):
    # joins and splits in all positions, competition with wildcards and other words
    for _ in range(int(60 * k)):
        vocab = rng.choice([['ab', 'abab', 'a', 'b', 'ba', 'aba', 'bab'], ['in', 'to', 'into', 'for', 'form', 'forms', 'm', 's'],
                            rng.sample(G.WORDS, 8), ['abcd', 'abce', 'abc', 'abcde', 'd', 'de', 'bcd'],
                            ['noninfringement', 'non', 'infringement', 'sublicense', 'license', 'sub', 'and', 'or', 'copyright', 'c', 'holders']])
        pats = [G.license_pat(rng, vocab, depth=1, size=4, pw=0.1, wilds=(1, 2, 4)) + [('w', vocab[0])] for _ in range(rng.randint(1, 3))]
        lics = [mk('L%d' % i, P.show(p, rng), typ=2) for i, p in enumerate(pats)]
        ts = []
        for _ in range(24):
            ws = damage(rng, P.sample(rng.choice(pats), rng, vocab), vocab, rng.choice([1, 1, 1, 2, 3]))
            ts.append(enc(' '.join(ws)) if rng.random() < 0.6 else enc(G.layout(rng, ws, G.SEPS, rng.random() < 0.4)))
        B.add(lics, ts)
    for _ in range(int(90 * k)):
        vocab = rng.choice([['ab', 'abab', 'a', 'b', 'ba', 'aba', 'bab'], ['in', 'to', 'into', 'for', 'form', 'forms', 'm', 's'],
                            rng.sample(G.WORDS, 8), ['abcd', 'abce', 'abc', 'abcde', 'd', 'de', 'bcd']])
        pats = [G.license_pat(rng, vocab, depth=2, size=4, pw=0.15, wilds=(1, 2, 4)) for _ in range(rng.randint(1, 4))]
        if len(pats) > 1 and rng.random() < 0.7:
            pats[1] = pats[0][:rng.randint(2, len(pats[0]))] + pats[1][2:]
        lics = [mk('L%d' % i, P.show(p, rng), typ=2) for i, p in enumerate(pats)]
        B.add(lics, G.texts_for(rng, pats, 24, vocab, rate=0.85, kinds='sjmmr', variants=rng.random() < 0.5, maxparts=2))


# ------------------------------------------------------------------ wildcards
def p09(B, rng, k):
    # counts at the limits
    for n in [0, 1, 2, 3, 4, 5, 6, 8, 20, 33, 64]:
        lics = [mk('A', 'a b __%d__ c d' % n), mk('B', 'a e __%d__ c d e f' % n), mk('C', 'a g\n((__%d__ c))??\n d' % n)]
        ts = []
        for m in sorted({0, 1, n - 1, n, n + 1, n + 2, 2 * n} & set(range(0, 70))):
            for tail in ['c d', 'c d e f', 'c x c d', 'c d e x c d e f', 'c d e f c d e f', 'd', 'c', 'c c d', 'c d x c d e f']:
                for head in ['a b', 'a e', 'a g']:
                    ts.append(enc(head + ' x' * m + ' ' + tail))
        B.add(lics, ts if k >= 1 else rng.sample(ts, len(ts) // 2))
    # false starts of the continuation: all texts over the letters of the continuation
    for p in ['a b __4__ c d', 'a b __4__ c d c d', 'a b __5__ c c c d', 'a b __6__ c d\n((c))??\n d', 'a b __4__\n((c || d d))\n c d',
              'a b\n((__4__ c))??\n d c d', 'a b __3__ c d c c', 'a b __4__ c __2__ d', 'a b __4__ __4__ c d', 'a b __4__ c d __5__ c d d',
              'a b __5__\n((c d || d c c))??\n c d c', 'a b\n((__4__ c || __6__ d))\n d c d', 'a b\n((c __4__ || d))\n d c c d',
              'a b __2__ __2__ c d', 'a b\n((__5__ c d))??\n((__4__ d c))??\n c c', 'a b __4__ c\n((d || __1__))\n d']:
        ts = [enc('a b ' + ' '.join(t)) for j in range(0, 8) for t in itertools.product('cdx', repeat=j)]
        B.add([mk('A', p), mk('B', 'c d d c', typ=4)], rng.sample(ts, min(len(ts), int(420 * k))))
    wild_mix(B, rng, k)
    mixed(B, rng, 1.2 * k)


def wild_mix(B, rng, k):
    for _ in range(int(130 * k)):
        vocab = rng.choice([['a', 'b', 'c'], G.SMALL])
        pats = [G.license_pat(rng, vocab, depth=2, size=5, pw=0.35, wilds=(0, 1, 2, 3, 4, 5, 6, 9)) for _ in range(rng.randint(1, 3))]
        lics = [mk('L%d' % i, P.show(p, rng), typ=2) for i, p in enumerate(pats)]
        B.add(lics, G.texts_for(rng, pats, 24, vocab, rate=0.3, kinds='dirw', variants=False, maxparts=2, seps=[' '], fill=vocab + ['x']))


# ------------------------------------------------------------------ grammar
LINES = ['((a))', '((a b))', '((a))??', '((', '))', '))??', '((a', 'a))', 'a))??', '|| b', '||', 'a ||', 'a || b', '((a || b))', '((a ||', '|| b))', '|| b))??', 'a', 'b c', '', '__2__', '__0__', '//** x **//', '((__1__))',
         '((__1__))??', '(( ))', '(())', '(())??', '(( || ))', '((|| a))', '((a ||))', '((((a))', '))', '((', '((a)) b', 'b ((a))', '))??', '))', '??', 'a ??']


TOKENS = ['((', '))', '||', '??', '__2__', ' a ', 'b', '\n', ' ', '//** a **//']
ODD = ['//**//', '//**// **//', '//***//', '//** //** **//', '//** **// **//', '//****//', '//**/ **//', '///** a **//', '//** a **///', '(', ')', '|', '?', '_', '__', '__1', '__x__', '___3___', '//**', '**//', '//** **//', '/', '*', '\t', '\r', '\r\n', '__2147483647__',
       '__2147483648__', '__99999999999999999999__', '__-1__', '__007__', '((((', '))))', '))??', '????', '||||', '__4294967297__', '(c)', '&copy;', '<b>']


def p10(B, rng, k):
    n3 = [''.join(x) for j in range(0, 4) for x in itertools.product(TOKENS, repeat=j)]
    for x in (n3 if k >= 1 else rng.sample(n3, 700)):
        B.add([mk('A', x)], [])
    n4 = rng.sample(range(len(TOKENS) ** 4), int(600 * k))
    for v in n4:
        x = ''.join(TOKENS[(v // len(TOKENS) ** j) % len(TOKENS)] for j in range(4))
        B.add([mk('A', 'c d\n' + x + '\ne')], [b'c d e', b'c d a e', b'c d b e', b'c d a b e', b'c d a a e'])
    for _ in range(int(1400 * k)):      # lines in any order
        n = rng.randint(2, 8)
        ls, depth = [], 0
        for _ in range(n):
            x = rng.choice(LINES)
            if depth and rng.random() < 0.3:
                x = rng.choice(['))', '))??', '|| b', 'a))', '|| b))', '|| c\n((a))??', '))\n|| b'])
            depth += x.count('((') - x.count('))')
            ls.append(x)
        while depth > 0 and rng.random() < 0.9:
            ls.append(rng.choice(['))', '))??']))
            depth -= 1
        x = '\n'.join(ls)
        B.add([mk('A', rng.choice(['', 'c d\n', 'c d\n']) + x + rng.choice(['', '\ne', '\ne']))], [b'c d e', b'c d a e', b'c d b e', b'c d a b e', b'c d a a e', b'c d b c a e', b'c d b c e'] if rng.random() < 0.5 else [])
    # counts, however written
    for n in ['0', '00', '1', '01', '001', '2', '02', '3', '7', '07', '8', '08', '9', '09', '10', '010', '0010', '11', '011', '12', '012', '16', '016', '017', '020', '20', '0x5', '0X5', '0b1', '0o7', '1_0', '+3', '-0', '1e1', ' 3', '3 ', '3.0', '٣', '31', '32', '33', '63', '64', '65', '000000000000000000005',
              '4294967299', '18446744073709551619', '']:
        m = int(n) if n.isascii() and n.isdigit() and int(n) < 100 else 5
        B.add([mk('A', 'c d __%s__ e' % n)], [enc('c d' + ' x' * j + ' e') for j in sorted({0, 1, 2, 3, 4, 5, 7, 8, 9, m - 1, m, m + 1}) if j >= 0])
    # patterns of all sizes
    seg = [('c d\n', '((a))??\n', 'e'), ('c d\n', '((', 'a' + '))' * 0 + '\ne'), ('c d //**', ' a', ' **// e'), ('c d ', '//** a **// ', 'e'), ('c d\n((a', ' || a', '))\ne'), ('c d\n((a', ' a', '))??\ne'), ('c d ', 'a ', 'e'), ('c d', '\n', 'e'),
           ('c d //**', '*', '**// e'), ('c d //', '*', ' a **// e'), ('c d ', '/', '/** a **// e'), ('c d\n((', '((a))', '))\ne'), ('c d //**', '\n', '**// e'), ('c d ', '_', '2__ e'), ('c d __', '0', '3__ e'), ('c d __', '2', '__ e'), ('c d __2', '_', ' e'), ('c d ', ' ', 'e'), ('c d ', '(c) ', 'e'), ('', ' ', 'c d e'), ('c d\n((a))', ' ', '\ne'), ('c d\n((a))', '\t', '??\ne'), ('c d\n((a))??', ' ', '\ne'), ('c d\n((a))??', '\r', '\ne')]
    for x in sized(rng, seg, int(5 * k), 800):
        B.add([mk('A', x)], [b'c d e', b'c d a e', b'c d a a e', b'c d x e', b'c d' + b' a' * rng.choice([5, 30, 100]) + b' e'])
    for n in [1, 2, 3, 5, 8, 12, 20, 40, 60, 99, 100, 101, 150]:   # nesting
        for q in ['', '??']:
            B.add([mk('A', 'c d\n' + '((b\n' * n + 'a\n' + ('))%s\n' % q) * n + 'e')], [b'c d e', b'c d' + b' b' * n + b' a e', b'c d' + b' b' * (n - 1) + b' a e', b'c d b e'])
            B.add([mk('A', 'c d\n' + '((' * n + 'a' + (')) ' * n).strip() + q + '\ne')], [b'c d e', b'c d a e'])
    for _ in range(int(700 * k)):       # plausible nestings with one token changed
        p = P.show(G.license_pat(rng, ['a', 'b', 'c'], depth=3, size=4), rng)
        for _ in range(rng.choice([0, 1, 1, 2])):
            i = rng.randint(0, len(p))
            r = rng.random()
            if r < 0.5:
                p = p[:i] + rng.choice(TOKENS + ODD) + p[i:]
            elif r < 0.8:
                p = p[:i] + p[i + 1:]
            else:
                p = p.replace('\n', rng.choice([' ', '\r\n', '\n\n', '\t\n']), 1)
        big = any(int(x) > 2000 for x in __import__('re').findall(r'__(\d+)__', p) if int(x) < 2 ** 31)
        if big:
            continue
        B.add([mk('A', p)], G.texts_for(rng, [[('w', w) for w in 'a b'.split()] + G.P.rand(rng, ['a', 'b', 'c'], 0, 4)], 3, ['a', 'b', 'c'],
                                       seps=[' '], variants=False))
    for x in ODD:
        if '2147483647' in x:
            continue
        for s in [x, 'a b ' + x, 'a b ' + x + ' c', 'a b\n' + x + '\nc', 'a b\n((c' + x + '))\n', 'a b\n((' + x + '))??\nd', 'a b c\n' + x + '((d))\n']:
            B.add([mk('A', s)], [b'a b c', b'a b', b'a b d', b'a b c d'])
    # meaning: every accepted pattern against all short texts
    for _ in range(int(70 * k)):
        p = [('w', 'a'), ('w', 'b')] + P.rand(rng, ['a', 'b', 'c'], 3, 4, wilds=(0, 1, 2), pw=0.08)
        ts = [enc('a b ' + ' '.join(t)) for j in range(0, 5) for t in itertools.product('abc', repeat=j)]
        B.add([mk('A', P.show(p, rng))], rng.sample(ts, min(len(ts), 40)))
    # every byte around and within operators
    tm = [b'c d\n((a))@\ne', b'c d\n((a))@', b'c d\n((a))??@\ne', b'c d\n((a))@??\ne', b'c d\n@((a))\ne', b'c d@((a))\ne', b'c d\n((@a))\ne', b'c d\n((a@))\ne', b'c d\n((a |@| b))\ne', b'c d\n((a ||@ b))\ne',
          b'c d _@_2__ e', b'c d __@__ e', b'c d __2@__ e', b'c d __2__@ e', b'c d@__2__ e', b'c d //*@* a **// e', b'c d //**@a **// e', b'c d //** a **@// e', b'c d //** a *@*// e', b'c d /@/** a **// e', b'c d @ e',
          b'c d\n((a))??@e', b'c d\n((a)@) e', b'c d\n(@(a))\ne', b'c d ?@? e', b'c d @@ e', b'c d //**@**// e', b'//** a **//@c d e', b'@c d e', b'c d e@', b'c d //**@ e']
    for x in one_byte(tm):
        B.add([mk('A', x)], [b'c d e', b'c d a e', b'c d x e'] if rng.random() < 0.15 else [])
    mixed(B, rng, 1.2 * k)
    # one tree laid out in several ways
    for _ in range(int(40 * k)):
        p = G.license_pat(rng, G.SMALL, depth=3, size=4)
        ts = G.texts_for(rng, [p], 6, G.SMALL, rate=0.3, seps=[' '], variants=False)
        for _ in range(3):
            B.add([mk('A', P.show(p, rng))], ts)


def p11(B, rng, k):
    B.add([], [b'a b'])
    B.add([mk('U', b'', 'a.org/b')], [b'http://a.org/b'])
    B.add([mk('U', b'', b'')], [b'a b'])
    atoms = [('w', 'a'), ('wild', 1), ('wild', 0), ('wild', 5), ('opt', [[('w', 'b')]]), ('opt', [[('wild', 2)]]), ('alt', [[('w', 'a')], [('w', 'b')]]),
             ('alt', [[('w', 'a')], []]), ('alt', [[('wild', 2)], [('w', 'c')]]), ('opt', [[('w', 'a'), ('w', 'b')], [('w', 'c')]]),
             ('alt', [[('w', 'a'), ('w', 'b')], [('w', 'b'), ('w', 'c')]]), ('com', 'x'), ('opt', [[('w', 'a'), ('wild', 4)]]),
             ('alt', [[('w', 'a'), ('wild', 4)], [('w', 'b')]])]
    trees = [list(x) for j in range(0, 4) for x in itertools.product(atoms, repeat=j)]
    pick = trees if k >= 4 else rng.sample(trees, int(min(len(trees), 800 * k)))
    for t in pick:
        B.add([mk('A', P.show(t))], [])
    for _ in range(int(250 * k)):       # around a definite middle: heads and tails decide
        t = P.rand(rng, ['a', 'b'], 3, 3, pw=0.25) + [('w', 'a')] * rng.randint(0, 2) + P.rand(rng, ['a', 'b'], 3, 3, pw=0.25)
        B.add([mk('A', P.show(t, rng))], [b'a b a b a b', rand_bytes(rng, 20)])
    for _ in range(int(250 * k)):       # lists: one bad pattern among good ones, URL-only and empty entries
        ls = []
        for i in range(rng.randint(1, 5)):
            r = rng.random()
            if r < 0.5:
                p = P.show(G.license_pat(rng, ['a', 'b', 'c'], depth=1, size=2), rng)
            elif r < 0.62:
                p = rng.choice(['a', 'a b __3__', '__1__ a b', '((a', 'a || b', '', ' ', '((a b))??', '//** a', 'a b\n((c))?? d', '.', '//** a b **//'])
            else:
                p = P.show(P.rand(rng, ['a', 'b', 'c'], 2, 4), rng)
            ls.append(mk(rng.choice(['A', 'B', 'C']), p, rng.choice([b'', b'', 'a.org/b']), rng.choice([0, 2, 4])))
        if rng.random() < 0.3:
            ls.insert(rng.randint(0, len(ls)), mk('U', b'', rng.choice([b'', b'a.org/b'])))
        B.add(ls, [b'a b c', b'http://a.org/b', rand_bytes(rng, 12)])
    for _ in range(int(150 * k)):       # the same entry, ID, pattern or URL more than once
        ps = [P.show(G.license_pat(rng, ['a', 'b', 'c'], depth=1, size=2, pw=0.05), rng) for _ in range(2)] + ['a b', 'a b c']
        base = [mk(rng.choice(['A', 'B', '']), rng.choice(ps + [b'']), rng.choice([b'', 'a.org/b', 'a.org/c']), rng.choice([0, 2, 4])) for _ in range(rng.randint(1, 3))]
        ls = [dict(rng.choice(base)) for _ in range(rng.randint(2, 5))]
        for l in ls:
            if rng.random() < 0.25:
                l[rng.choice(['id', 'type', 'lre', 'url'])] = None
                for f, v in mk('Q', rng.choice(ps), 'a.org/b', 8).items():
                    if l[f] is None:
                        l[f] = v
        B.add(ls, [b'a b c', b'http://a.org/b', b'a b http://a.org/c a b c'])
    for n in [1, 2, 3, 5, 10, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]:    # many licenses
        B.add([mk('L%d' % i, 'a b%d c' % i, 'a.org/%d' % i) for i in range(n)], [b'a b0 c', enc('a b%d c' % (n - 1)), enc('http://a.org/%d a b%d c' % (n - 1, n // 2))])
        B.add([mk('L', 'a b')] + [mk('U%d' % i, b'', 'a.org/%d' % i) for i in range(n)], [enc('a b http://a.org/%d a b' % (n - 1))])
        B.add([mk('L', '\n'.join('((w%d))??' % i if i % 2 else 'w%d' % i for i in range(1, n)) + '\na b c')], [enc(' '.join('w%d' % i for i in range(1, n)) + ' a b c')])
    mixed(B, rng, 0.8 * k)


# ------------------------------------------------------------------ context
def p18(B, rng, k):
    mixed(B, rng, 1.5 * k)
    for _ in range(int(90 * k)):
        vocab = rng.choice([G.SMALL, rng.sample(G.WORDS, 7)])
        pats = [G.license_pat(rng, vocab, depth=2, size=4, pw=0.1) for _ in range(rng.randint(1, 4))]
        lics = [mk('L%d' % i, P.show(p, rng), typ=2) for i, p in enumerate(pats)]
        ts = G.texts_for(rng, pats, 5, vocab, rate=0.3, maxparts=2, filler=0)
        out = list(ts)
        for a in ts:
            pre = ' '.join(rng.choice(NEUTRAL) for _ in range(rng.choice([1, 2, 30, 49, 50, 51, 120]))) + rng.choice([' ', '\n', '. '])
            post = rng.choice([' ', '\n', '. ']) + ' '.join(rng.choice(NEUTRAL) for _ in range(rng.choice([1, 2, 30])))
            b = rng.choice(ts)
            out += [enc(pre) + a, a + enc(post), enc(pre) + a + enc(post), a + b' zzz ' + b, a + enc(post) + b' ' + b + enc(' zzz ') + a]
        B.add(lics, out)


# ------------------------------------------------------------------ everything at once
LONGW = ['l' * 40, 'redistribution' * 6, 'x' * 300, 'ab' * 90, 'é' * 50, 'internationalization']
URLTEXTS = ['http://a.org/b', 'https://a.org/b/', 'HTTP://A.ORG/B', 'http://a.org/b/us', 'http://a.org/b/legalcode', 'HTTPS://b.com/x/y-z_1/',
            'http://b.com/x', 'http://a.org/', 'https://www.a.org/b.', 'http://a.org/b\u00e9', 'http://a.org/bcd', 'http://a.org/b?x', 'http://c.net/b']
URLLIST = ['a.org/b', 'b.com/x/y-z_1', 'www.a.org/b.', 'a.org/b?x', 'b.com/x', 'd.org/e']


def entries(rng, lics):
    """The license list with URLs, URL-only and empty entries in between, repeated IDs, all kinds of types."""
    out = []
    same = rng.random() < 0.35      # one ID, several licenses
    for l in lics:
        l = dict(l)
        if same and rng.random() < 0.7:
            l['id'] = 'L0'
        r = rng.random()
        if r < 0.25:
            l['url'] = enc(rng.choice(URLLIST))
        if rng.random() < 0.3:
            l['type'] = rng.choice([0, 1, 2, 4, 8, 16, 32, 64, 128, 129, 130, 255, 1 << 20])
        if rng.random() < 0.25:
            out.append(mk(rng.choice(['U%d' % len(out), l['id']]), b'', rng.choice(URLLIST), rng.choice([0, 2, 4, 64])))
        if rng.random() < 0.04:
            out.append(mk('E', b'', b''))
        out.append(l)
    if rng.random() < 0.3:
        out.append(mk('V', b'', rng.choice(URLLIST), 8))
    return out


def near_word(rng, w, vocab):
    """Ways in which a word may or may not still be read as w: one or several texts of words."""
    n = len(w)
    i = rng.randint(0, n)
    j = rng.randint(0, n)
    r = rng.random()
    if r < 0.12:
        return [w[:i], w[i:]]
    if r < 0.2:
        return [w[:min(i, j)], w[max(i, j):]]              # broken, with letters lost
    if r < 0.26:
        return [w[:max(i, j)], w[min(i, j):]]              # broken, with letters doubled
    if r < 0.3:
        return [w[:i], w[i:] + rng.choice('xs')]
    if r < 0.34:
        return [w[:i] + rng.choice('xs'), w[i:]]
    if r < 0.38:
        return [w[:i], w[i:j], w[j:]] if i < j else [w[:i], w[i:], w]
    if r < 0.5:
        return [w + rng.choice(vocab)]
    if r < 0.54:
        return [rng.choice(vocab) + w]
    if r < 0.6:
        return [w + w]
    if r < 0.85:
        return [G.misspell(rng, w)]
    if r < 0.92:
        return [G.misspell(rng, G.misspell(rng, w))]
    if r < 0.95:
        return [w + '(s)']
    return [rng.choice(['c', '(c)', '©', '&copy;', 'copyright', 'copyrigth', 'copy'])]


def damage(rng, ws, vocab, k):
    ws = list(ws)
    for _ in range(k):
        if not ws:
            break
        i = rng.randrange(len(ws))
        r = rng.random()
        if r < 0.45:
            ws[i:i + 1] = [x for x in near_word(rng, ws[i], vocab) if x]
        elif r < 0.6 and i + 1 < len(ws):
            ws[i:i + 2] = [ws[i] + ws[i + 1]]
        elif r < 0.7:
            del ws[i]
        elif r < 0.8:
            ws.insert(i, rng.choice(vocab + NEUTRAL))
        elif r < 0.85 and i + 1 < len(ws):
            ws[i], ws[i + 1] = ws[i + 1], ws[i]
        elif r < 0.9:
            ws[i] = rng.choice(vocab)
        elif r < 0.95:
            ws.insert(i, ws[i])
        else:
            ws.insert(i, rng.choice(['copyright', '(c)', '©', 'c', 'the', 'it', 'http', 'https']))
    return ws


MSEPS = G.SAFESEPS + ['\n', '\n\n', '\r\n', ' (', ') ', '. (', '"', '-', '/', '\n * ', '\n// ', '\u00a0', '\u2014', ' _ ', "'", '...', '\x00', '\xff']


def mixed_text(rng, pats, vocab, parts, markup, urls=True):
    out = ''
    for _ in range(parts):
        r = rng.random()
        if r < 0.72:
            ws = damage(rng, P.sample(rng.choice(pats), rng, vocab), vocab, rng.choice([0, 0, 0, 1, 1, 1, 2, 3, 6]))
            if rng.random() < 0.1:
                ws = ws[:rng.randint(0, len(ws))]
            if rng.random() < 0.08:
                ws = ws[rng.randint(0, len(ws)):]
        elif r < 0.8:
            ws = [rng.choice(NEUTRAL + LONGW) for _ in range(rng.choice([1, 3, 8, 30, 49, 50, 51, 70]))]
        elif r < 0.9:
            ws = [rng.choice(vocab) for _ in range(rng.randint(1, 8))]
        elif urls:
            ws = [rng.choice(URLTEXTS)]
        else:
            ws = ['zz']
        if rng.random() < 0.15:
            ws = [rng.choice(COPYMARKS), '1999'] + ws
        s = G.layout(rng, ws, MSEPS, rng.random() < 0.5, markup if rng.random() < 0.5 else 0)
        out += s + rng.choice([' ', ' ', '\n', '\n\n', '. ', ', ', '; ', '\r\n', '', ' \n '])
    return enc(out)


def mixed(B, rng, k, markup=0.06, urls=True):
    """All parts of the specification together, from small sets to many and long licenses and long texts."""
    def add(pats, vocab, n, parts, **kw):
        rng.shuffle(pats)
        lics = [mk('L%d' % i, P.show(p, rng), typ=2 << (i % 6)) for i, p in enumerate(pats)]
        if urls:
            lics = entries(rng, lics)
        B.add(lics, [mixed_text(rng, pats, vocab, rng.randint(1, parts), markup, urls) for _ in range(n)])

    for _ in range(int(60 * k)):             # small sets
        vocab = rng.choice([G.SMALL, rng.sample(G.WORDS, 8), rng.sample(G.WORDS, 20), ['ab', 'abc', 'abcd', 'abce', 'bcd', 'd', 'cd', 'a', 'abcdab']])
        pats = [G.license_pat(rng, vocab, depth=rng.choice([0, 1, 2, 3]), size=rng.choice([2, 3, 5]), pw=rng.choice([0, 0.1, 0.2]))
                for _ in range(rng.randint(1, 5))]
        for i in range(1, len(pats)):        # shared beginnings
            if rng.random() < 0.4:
                q = rng.choice(pats[:i])
                j = rng.randint(1, len(q))
                pats[i] = q[:j] + pats[i][rng.randint(0, min(2, len(pats[i]))):]
                if len(pats[i]) < 2:
                    pats[i] = pats[i] + [('w', vocab[0]), ('w', vocab[1])]
        add(pats, vocab, 24, 4)
    for _ in range(int(3 * k)):              # many licenses
        vocab = rng.sample(G.WORDS, rng.choice([8, 14, 30]))
        pats = [G.license_pat(rng, vocab, start=rng.choice([2, 3]), depth=1, size=rng.choice([3, 6]), pw=0.05) for _ in range(rng.choice([20, 45, 90]))]
        add(pats, vocab, 30, 8)
    for _ in range(int(3 * k)):              # long licenses, long texts
        vocab = rng.sample(G.WORDS, 20) + ['w%d' % i for i in range(rng.choice([5, 60, 300]))]
        pats = [G.license_pat(rng, vocab, depth=2, size=rng.choice([40, 90]), pw=0.012, wilds=(1, 2, 3, 4, 5, 8, 20), pg=0.05) for _ in range(rng.randint(1, 5))]
        add(pats, vocab, 12, 3)
    for _ in range(int(1.5 * k)):            # very long texts
        vocab = rng.sample(G.WORDS, 12)
        pats = [G.license_pat(rng, vocab, depth=2, size=5, pw=0.08, wilds=(1, 2, 4)) for _ in range(rng.randint(2, 6))]
        add(pats, vocab, 2, rng.choice([60, 150, 300]))


BY_PROP = {'P01': p01, 'P02': p02, 'P03': p03, 'P04': p04, 'P05': p05, 'P06': p06, 'P07': p07, 'P08': p08, 'P09': p09, 'P10': p10,
           'P11': p11, 'P18': p18}
