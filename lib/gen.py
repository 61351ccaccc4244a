"""Generators of inputs (license sets and texts).  They only propose inputs:
what the answers should be is decided by the specification alone."""
import itertools, random

WORDS = ['software', 'license', 'copy', 'copies', 'the', 'these', 'this', 'those', 'them', 'they', 'it', 'is', 'are',
         'and', 'or', 'notice', 'notices', 'copyright', 'c', 'http', 'https', 'without', 'warranty', 'any', 'use',
         'permission', 'granted', 'free', 'charge', 'to', 'of', 'in', 'as', 'provided', 'redistribution', 'source',
         'binary', 'form', 'forms', 'above', 'must', 'holder', '2', '3', '1999', 'gpl', 'mit', 'org', 'www']
SMALL = ['a', 'b', 'c', 'd', 'e']
TAGS = ['<b>', '</b>', '<br/>', '<a href="http://x.org/y">', '<p\nclass=x>', '<i', '<mailto:a@b>', '<x@y.z>',
        '<http://x.org/a>', '<a\n\nb>', '<a\nb\nc\nd>', '<a b@c>', '<1>', '< b>', '</>', '<a<b>', '<é>', '<a', '<!-- x -->']
ENTS = ['&nbsp;', '&#32;', '&#x20;', '&copy;', '&amp;', '&;', '&#;', '&#x;', '&#xg;', '&a', '&#1', '& b;', '&COPY;',
        '&Copy;', '&#169;', '&#xA9;', '&lt1;']
LINKS = ['](http://x.org/a)', '](https://x)', '](#foo)', '](mailto:a@b)', '](file:x)', '](ftp://x)', '](foo)',
         '](http://x y)', '](http://x\n)', '](http://x', '](HTTP://x)', ']( #a)', '](#)', ']()']
ANCH = ['{#a}', '{#a b}', '{#}', '{#a\n}', '{a}', '{#abc', '{#a}b', '{##}']
SEPS = [' ', ' ', ' ', ' ', '\n', '\n', ', ', '. ', '; ', '\t', '  ', '\n\n', '-', '--', '/', ' * ', '\n# ', '\n// ',
        '\r\n', ' "', '" ', ' (', ') ', '\u00a0', '\u2014', '\u201c', "'", '\n\n\n', '\x00', '\xff', '…', ' _', '_ ']
SAFESEPS = [' ', ' ', ' ', '\n', ', ', '. ', '\t', '  ', '\n\n', ' - ', '; ']


def enc(s):
    """Text with byte escapes: U+00FF stands for the invalid byte 0xFF."""
    return s.encode('utf-8') if '\xff' not in s else s.replace('\xff', '\udcff').encode('utf-8', 'surrogateescape')


class P:
    """Pattern trees: ('w', word) ('wild', n) ('alt', [branch...]) ('opt', [branch...]) ('com', text);
    a branch is a list of trees."""

    @staticmethod
    def show(branch, rng=None, top=True):
        out = []
        for x in branch:
            if x[0] == 'w':
                out.append(x[1])
            elif x[0] == 'wild':
                out.append('__%d__' % x[1])
            elif x[0] == 'com':
                out.append('//** %s **//' % x[1])
            else:
                ind = rng.choice(['', ' ', '\t', '  ']) if rng else ''
                bar = rng.choice([' || ', '\n||\n', '||', ' ||\n']) if rng else ' || '
                q = ''
                if x[0] == 'opt':
                    q = rng.choice(['??', '??', ' ??', '?? ', '??\t']) if rng else '??'
                else:
                    q = rng.choice(['', '', ' ']) if rng else ''
                inner = [P.show(b, rng, False) for b in x[1]]
                nl = lambda s: ('\n' + s) if s.lstrip(' \t').startswith('((') else s
                body = bar.join(nl(s) for s in inner)
                if body.rstrip(' \t').endswith(('))', '??')):
                    body += '\n'
                out.append('\n' + ind + '((' + body + '))' + q + '\n')
        s = ''
        for o in out:
            if s and not s.endswith('\n') and not o.startswith('\n'):
                s += ' '
            s += o
        return s

    @staticmethod
    def sample(branch, rng, fill=SMALL + ['x']):
        ws = []
        for x in branch:
            if x[0] == 'w':
                ws.append(x[1])
            elif x[0] == 'wild':
                n = rng.choice([0, 1, x[1] // 2, x[1], x[1], x[1] + 1]) if rng.random() < 0.5 else rng.randint(0, x[1])
                ws += [rng.choice(fill) for _ in range(min(n, 60))]
            elif x[0] == 'alt':
                ws += P.sample(rng.choice(x[1]), rng, fill)
            elif x[0] == 'opt':
                if rng.random() < 0.6:
                    ws += P.sample(rng.choice(x[1]), rng, fill)
        return ws

    @staticmethod
    def rand(rng, vocab, depth=2, size=4, wilds=(0, 1, 2, 3, 4, 5, 7), pw=0.12, pg=0.3):
        out = []
        for _ in range(rng.randint(1, size)):
            r = rng.random()
            if depth > 0 and r < pg:
                k = rng.choice(['alt', 'opt', 'opt'])
                n = rng.randint(1 if k == 'opt' else 2, 3)
                out.append((k, [P.rand(rng, vocab, depth - 1, max(1, size - 1), wilds, pw, pg)
                                if rng.random() > 0.07 else [] for _ in range(n)]))
            elif r < pg + pw:
                out.append(('wild', rng.choice(wilds)))
            elif r < pg + pw + 0.03:
                out.append(('com', rng.choice(['x', '((', '|| ??', '__5__', 'a b'])))
            else:
                out.append(('w', rng.choice(vocab)))
        return out


def license_pat(rng, vocab, start=2, **kw):
    """A pattern likely to be searchable: definite words first and last."""
    head = [('w', rng.choice(vocab)) for _ in range(start)]
    tail = [('w', rng.choice(vocab))] if rng.random() < 0.8 else []
    return head + P.rand(rng, vocab, **kw) + tail


def mk(lid, lre=b'', url=b'', typ=2):
    if isinstance(lre, str):
        lre = enc(lre)
    if isinstance(url, str):
        url = enc(url)
    return {'id': lid, 'type': typ, 'lre': lre, 'url': url}


def recase(rng, w):
    r = rng.random()
    if r < 0.5:
        return w
    if r < 0.7:
        return w.upper()
    if r < 0.9:
        return w[:1].upper() + w[1:]
    return ''.join(c.upper() if rng.random() < 0.5 else c for c in w)


VAR = {'copyright': ['copyright', 'Copyright (c)', '(c)', '©', '&copy;', '(C) Copyright', 'Copyright ©', 'COPYRIGHT', 'c'],
       'http': ['http', 'https', 'HTTP'], 'the': ['the', 'this', 'these', 'those'], 'it': ['it', 'them', 'they'],
       'is': ['is', 'are'], 'copy': ['copy', 'copies'], 'notices': ['notices', 'notice(s)'], 'c': ['c', '(c)', '©', '&copy;']}


def same_word(rng, w):
    """Another way of writing the same word."""
    v = VAR.get(w)
    if v and rng.random() < 0.6:
        w = rng.choice(v)
    if rng.random() < 0.15:
        acc = {'a': 'áàÁÀ', 'e': 'éèÉÈ', 'i': 'íìÍÌ', 'o': 'óòÓÒ', 'u': 'úùÚÙ', 'k': '\u212a', 's': '\u017f'}
        ks = [i for i, c in enumerate(w) if c in acc]
        if ks and '&' not in w:
            i = rng.choice(ks)
            if rng.random() < 0.3 and w[i] in 'aeiou':
                return w[:i + 1] + rng.choice('\u0300\u0301') + w[i + 1:]
            return w[:i] + rng.choice(acc[w[i]]) + w[i + 1:]
    return recase(rng, w)


def misspell(rng, w):
    r = rng.random()
    i = rng.randint(0, len(w))
    a = rng.choice('abcxyz')
    if r < 0.3:
        return w[:i] + a + w[i:]
    if r < 0.6 and w:
        return w[:i] + w[i + 1:]
    if r < 0.85 and w:
        i = min(i, len(w) - 1)
        return w[:i] + a + w[i + 1:]
    if len(w) > 1:
        i = min(i, len(w) - 2)
        return w[:i] + w[i + 1] + w[i] + w[i + 2:]
    return w + a


def noise(rng, ws, rate, vocab, kinds='drsijmw'):
    """Word-level mutations: delete, replace, split, insert, join, misspell, swap."""
    ws = list(ws)
    n = 0
    while rng.random() < rate and n < 5 and ws:
        n += 1
        k = rng.choice(kinds)
        i = rng.randrange(len(ws))
        if k == 'd':
            del ws[i]
        elif k == 'r':
            ws[i] = rng.choice(vocab)
        elif k == 's' and len(ws[i]) > 1:
            j = rng.randint(1, len(ws[i]) - 1)
            ws[i:i + 1] = [ws[i][:j], ws[i][j:]]
        elif k == 'i':
            ws.insert(i, rng.choice(vocab))
        elif k == 'j' and i + 1 < len(ws):
            ws[i:i + 2] = [ws[i] + ws[i + 1]]
        elif k == 'm':
            ws[i] = misspell(rng, ws[i])
        elif k == 'w' and i + 1 < len(ws):
            ws[i], ws[i + 1] = ws[i + 1], ws[i]
    return ws


def layout(rng, ws, seps=SEPS, variants=True, markup=0.0):
    out = []
    for k, w in enumerate(ws):
        if k:
            out.append(rng.choice(seps) if rng.random() < 0.5 else ' ')
        elif rng.random() < 0.3:
            out.append(rng.choice(seps))
        if markup and rng.random() < markup:
            out.append(rng.choice(rng.choice([TAGS, ENTS, LINKS, ANCH])))
            if rng.random() < 0.7:
                out.append(' ')
        out.append(same_word(rng, w) if variants else w)
        if markup and rng.random() < markup:
            out.append(rng.choice(rng.choice([TAGS, ENTS, LINKS, ANCH])))
    if rng.random() < 0.3:
        out.append(rng.choice(seps))
    return ''.join(out)


def texts_for(rng, pats, n, vocab, rate=0.5, kinds='drsijmw', seps=SEPS, variants=True, markup=0.0, maxparts=4,
              filler=4, fill=None):
    """Texts made of sentences of the patterns (with noise), filler and prefixes of sentences."""
    out = []
    for _ in range(n):
        ws = []
        for _ in range(rng.randint(1, maxparts)):
            r = rng.random()
            s = P.sample(rng.choice(pats), rng, fill or vocab)
            if r < 0.75:
                ws += noise(rng, s, rate, vocab, kinds)
            elif r < 0.85 and s:
                ws += s[:rng.randint(1, len(s))]
            if rng.random() < 0.5:
                ws += [rng.choice(vocab) for _ in range(rng.randint(0, filler))]
        out.append(enc(layout(rng, ws, seps, variants, markup)))
    return out


def rand_sets(rng, nsets, ntexts, vocabs=(SMALL, WORDS), maxl=4, urls=False, pkw=None, **kw):
    for _ in range(nsets):
        vocab = rng.choice(vocabs)
        if vocab is WORDS and rng.random() < 0.6:
            vocab = rng.sample(WORDS, 8)
        pats = [license_pat(rng, vocab, **(pkw or {})) for _ in range(rng.randint(1, maxl))]
        if len(pats) > 1 and rng.random() < 0.4:   # overlapping beginnings
            pats[1] = pats[0][:rng.randint(1, len(pats[0]))] + pats[1][rng.randint(0, 2):]
        lics = [mk('L%d' % k, P.show(p, rng), typ=2 << (k % 5)) for k, p in enumerate(pats)]
        yield lics, texts_for(rng, pats, ntexts, vocab, **kw)


# ---------------------------------------------------------------- exhaustive families

CORE = [   # pattern sets whose interplay matters; every text over the letters is tried
    ['a b'], ['a b c'], ['a b', 'a b c'], ['a b c', 'a b'], ['a b', 'b c'], ['b c', 'a b'], ['a b a', 'b a c'],
    ['a a'], ['a a a', 'a a'], ['a b\n((c))??\n a'], ['a b\n((c || a b))\n'], ['a b\n((c || b))??\n c'],
    ['a b __1__ c'], ['a b __2__ c'], ['a b __3__ c', 'a b'], ['a b __0__ c'], ['a b __4__ c'], ['a b __5__ c c c c', 'a b'],
    ['a b\n((__1__ c))??\n'], ['a b __1__ a b'], ['a b c', 'c a b', 'b c a'], ['a b __2__ b', 'b a c'],
    ['a b c a', 'a b c b', 'a b'], ['((a || b))\nc a'], ['a\n((b || c))\n'], ['((a b || b a))\n((c))??\n'],
    ['a b\n((c\n((a))??\n))??\n b'], ['a b', 'a b'], ['a b c', 'a b __1__'[:3] + ' c a'], ['a b\n((c)) \nb', 'b b'],
    ['a b __4__ b c a', 'a b c'], ['a b\n((__4__ a))??\n b c a b'], ['a b __4__\n((a || b c))\n a c'],
]


def product_texts(letters, n, sep=' '):
    for k in range(0, n + 1):
        for t in itertools.product(letters, repeat=k):
            yield enc(sep.join(t))
