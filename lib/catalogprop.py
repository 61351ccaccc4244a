"""P15: the built-in set is the published catalog."""
import base64, json, os, random, shutil, subprocess, tempfile
import common as C, gen as G, inputs, scan, builtin, builtinprop, typesprop

LD = os.path.join(C.REPO, 'licenses')


def bits(n):
    return [k for k in range(64) if n >> k & 1]


def entry(x):
    return {'id': list(x['id'].encode()), 'bits': bits(x['type']), 'lre': list(base64.b64decode(x['lre'] or '')), 'url': list(base64.b64decode(x['url'] or ''))}


# ---------------------------------------------------------------- invented catalogs
POOL = ['BSD-4-Clause', 'BSD-4-Clause-UC', 'BSD-4-ClauseX', 'BSD-4', 'BSD-4-Clause-A', 'BSD-3-Clause', 'BSD-5-Clause', 'BSD-4-Clausf', 'bsd-4-clause',
        'GFDL-1.1', 'GFDL-1.1-invariants-only', 'GFDL-1.1-no-invariants-only', 'GFDL', 'GFDL-2', 'GFDLX', 'GFDM', 'GFDK', 'XGFDL-1.1',
        'A', 'Z', 'a', 'z', '0BSD', 'MIT', 'AAL', 'X11', 'Zed', 'zlib', 'GPL-2.0+']
V = ['may', 'copy', 'software', 'free', 'license', 'granted', 'of', 'the', 'permission', 'alpha', 'beta', 'gamma', 'delta']


def text(rng, n=6):
    out = [rng.choice(V) for _ in range(rng.randint(2, n))]
    if rng.random() < 0.2:
        out.insert(2, rng.choice(['`quoted`', '``', '"x"', "'y'", '$z', '\\n', '\\`', '//** ` ** **//', 'é', '\u2014', '%d', '{', '}', '{x}', '&amp;', '<b>', '`']))
    if rng.random() < 0.3:
        out.insert(2, '__%d__' % rng.choice([0, 1, 3, 5]))
        out.append(rng.choice(V))
    return rng.choice([' ', '\n', ' ', '\t']).join(out)


def body(rng, defs, depth=0, args=None):
    """Template text; defs: names with their number of arguments; args: how many arguments this template gets."""
    out = [text(rng)]
    for _ in range(rng.randint(0, 4)):
        r = rng.random()
        if r < 0.3 and defs:
            n, a = rng.choice(defs)
            if a == 0:
                x = ''
            elif a == 1:
                x = ' "%s"' % rng.choice(V)
            else:
                xs = ['"%s"' % rng.choice(['only', 'or later', 'new\\nline', 'a \\"b\\"', '']) if rng.random() < 0.6 else str(rng.randint(0, 12)) for _ in range(a)]
                if args and args > 1 and rng.random() < 0.6:
                    xs = ['"%s"' % rng.choice(V), '$'][:a] + xs
                x = ' list ' + ' '.join(xs)
            out.append('{{template "%s"%s}}' % (n, x))
        elif r < 0.45:
            out.append(rng.choice(['{{/* a comment */}}', '{{/* "x" list */}}', '{{- /* trimmed */ -}}', '\n{{- /* left */}}']))
        elif r < 0.6:
            out.append('\n(( %s ))??\n' % text(rng, 3) if rng.random() < 0.5 else '\n((%s || %s))\n' % (text(rng, 3), text(rng, 3)))
        elif args and args > 1 and r < 0.85:
            k = rng.randrange(args)
            out.append('{{$v%d := index $ %d}}' % (depth, k))
            out.append('{{if eq $v%d "only"}}%s{{else}}%s {{$v%d}}{{end}}' % (depth, text(rng), text(rng), depth) if rng.random() < 0.6
                       else '{{if eq $v%d "or later"}}%s{{end}}' % (depth, body(rng, defs, depth + 1, args) if depth < 2 else text(rng)))
            if rng.random() < 0.5:
                out.append('{{$v%d}}' % depth)
        elif args == 1 and r < 0.85:
            out.append(rng.choice(['{{.}}', '{{$}}', '{{if eq . "may"}}granted{{else}}%s{{end}}' % text(rng, 3)]))
        elif r < 0.93:
            out.append(rng.choice(['{{- "joined"}}', '{{"x y"}}', ' {{7}} ']))
        out.append(text(rng, 4))
    sep = rng.choice([' ', '\n', '\n\t'])
    return sep.join(out)


TYPES = ['Notice', 'Unrestricted', 'ShareServer|Discouraged', 'NonCommercial', 'Notice|NonCommercial|Discouraged', 'Unknown', 'ShareChanges', 'ShareProgram',
         'Discouraged', 'Discouraged|Notice', 'Type(0x2)', 'Type(12)|Notice', 'Type(0x100)']


def directory(rng, urlids):
    """{file name: template text}."""
    names = rng.sample(POOL, rng.randint(3, 9)) + rng.sample(urlids, rng.randint(1, 4))
    if rng.random() < 0.5:
        names += ['BSD-4-Clause', 'BSD-4-Clause-UC', 'GFDL-1.2-invariants-only', 'GFDL-1.2-no-invariants-only']
    seen, ok = set(), []
    for n in names:
        v = n.replace('-', '_').replace('.', '_').replace('+', '_')
        if v not in seen:
            seen.add(v)
            ok.append(n)
    names = ok
    defs, out, types = [], {}, []
    lib = []
    for k in range(rng.randint(0, 4)):
        a = rng.choice([0, 0, 1, 2, 3])
        lib.append('{{define "piece%d"}}%s{{end}}\n' % (k, body(rng, [d for d in defs if d[1] == 0], 0, a)))
        defs.append(('piece%d' % k, a))
    files = {}
    rest = list(names)
    rng.shuffle(rest)
    while rest:
        n = rest.pop()
        inner = []
        while rest and rng.random() < 0.35:
            m = rest.pop()
            inner.append('{{define "%s.lre"}}%s%s{{end}}' % (m, tdecl(rng), body(rng, defs)))
        t = tdecl(rng) + body(rng, defs) if rng.random() < 0.85 else rng.choice(['', '\n', '{{Type "Notice"}}\n', '{{/* nothing */}} \n'])
        if rng.random() < 0.15:
            t += tdecl(rng, 1)
        rng.shuffle(inner)
        files[n + '.lre'] = '\n'.join(inner[:1] + [t] + inner[1:]) + rng.choice(['', '\n'])
    where = rng.choice(sorted(files) + ['AA-lib.lre', 'zz-lib.lre'])
    files[where] = files.get(where, '') + ''.join(lib)
    return files


def tdecl(rng, p=0.5):
    return '{{Type "%s"}}' % rng.choice(TYPES) if rng.random() < p else ''


class Generator:
    def __init__(self, top):
        self.bin = os.path.join(C.BUILD, 'vgen')
        os.makedirs(C.BUILD, exist_ok=True)
        ov = self.bin + '.overlay.json'
        triv = os.path.join(C.REPO, 'data.gen.go.triv')
        with open(ov, 'w') as f:
            json.dump({'Replace': {os.path.join(C.REPO, 'data.gen.go'): triv} if os.path.exists(triv) else {}}, f)
        r = subprocess.run(['go', 'build', '-overlay', ov, '-o', self.bin, 'gen_data.go'], cwd=C.REPO, env=C.goenv(), capture_output=True, text=True)
        self.ok = r.returncode == 0
        self.why = (r.stdout + r.stderr)[-500:]
        self.top = top

    def run(self, files, name):
        """The path of the generated data, or None if the generator fails."""
        d = os.path.join(self.top, name)
        os.makedirs(os.path.join(d, 'licenses'))
        for f, t in files.items():
            with open(os.path.join(d, 'licenses', f), 'wb') as h:
                h.write(t if isinstance(t, bytes) else t.encode())
        out = os.path.join(d, 'out.go')
        r = subprocess.run([self.bin, '-o', out], cwd=d, capture_output=True, text=True, timeout=120)
        return (out if r.returncode == 0 and os.path.exists(out) else None), (r.stderr or '')[-300:]


def real_files():
    return {f: open(os.path.join(LD, f), 'rb').read() for f in sorted(os.listdir(LD)) if f.endswith('.lre')}


def case(files, urls, lst, fail):
    return {'files': [{'name': list(f.encode()), 'text': list(t if isinstance(t, bytes) else t.encode())} for f, t in sorted(files.items())],
            'urls': urls, 'list': [entry(x) for x in lst], 'fail': fail}


def validate(chk, top, cases, names):
    """Validate recorded catalogs; returns [(case, kind, place, detail)]."""
    import re
    path = os.path.join(top, 'cat.json')
    with open(path, 'w') as f:
        json.dump(cases, f, separators=(',', ':'))
    rc, out, err = C.tlc('TraceCatalog', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', {'TRACE': path}, workers=4, heap='8g')
    if rc != 0 or 'Model checking completed. No error' not in out:
        raise SystemExit('TLC failed on a catalog: ' + out[-3000:] + err[-1000:])
    g, d = C.tlc_states(out)
    chk.validated({'states': d, 'transitions': g}, d)
    return [(int(m.group(2)) - 1, m.group(1), int(m.group(3)), re.sub(r'\s+', ' ', m.group(4))[:200])
            for m in re.finditer(r'<<\s*"MISMATCH",\s*"P15",\s*"(\w+)",\s*(\d+),\s*(\d+),(.*?)\n(?=<<|[A-Z]|\Z)', out + '\nEnd', re.S)]


def main(chk):
    binary = C.build('vdriver')
    chk.model(order_model(chk))
    rng = random.Random('P15/%d' % chk.seed)
    top = tempfile.mkdtemp(prefix='vcatalog-')
    B = builtin.Builtin(binary)
    try:
        session = {'kind': 'session', 'session': {'seed': chk.seed, 'tier': chk.tier}}
        lst = C.Driver(binary).run([{'op': 'list'}])[0] or []
        urls = [{'id': list(x['id'].encode()), 'url': list(base64.b64decode(x['url']))} for x in lst if x['url']]
        # the URLs published with the pinned release stay listed
        have = {(x['id'], base64.b64decode(x['url']).decode()) for x in lst if x['url']}
        for i, u in json.load(open(os.path.join(C.VERIF, 'data', 'urls.json'))):
            if (i, u) not in have:
                chk.violation(session, 'the license URL %s of %s is no longer listed' % (u, i))
        cases, names = [case(real_files(), urls, lst, False)], ['BuiltinLicenses()']
        gen = Generator(top)
        n = 0
        if not gen.ok:
            chk.log('gen_data.go does not build:', gen.why)
            chk.violation(session, 'gen_data.go does not build: ' + gen.why)
        else:
            out, why = gen.run(real_files(), 'real')
            if out is None:
                cases.append(case(real_files(), urls, [], True))
                names.append('the generator on licenses/: ' + why)
            else:
                cases.append(case(real_files(), urls, from_data(out, binary, top, 'real'), False))
                names.append('the generator on licenses/')
            urlids = sorted({x['id'] for x in lst if x['url']})
            for k in range(8 if chk.quick else 60):
                if chk.elapsed() > 500:
                    break
                files = directory(rng, urlids)
                if k % 4 == 3:      # a type that is no type
                    f = rng.choice(sorted(files))
                    files[f] = '{{Type "%s"}}' % rng.choice(['Bogus', 'notice', 'Notice ', '', 'Notice||Discouraged', 'Type(x)']) + files[f]
                try:
                    out, why = gen.run(files, 'd%d' % k)
                except subprocess.TimeoutExpired:
                    out, why = None, 'no answer'
                names.append('the generator on %s %s' % (json.dumps(files)[:1500], why))
                if out is None:
                    cases.append(case(files, [], [], True))
                    continue
                b2 = build_with(out, 'vcat%d' % k)
                l2 = (C.Driver(b2).run([{'op': 'list'}])[0] or []) if b2 else []
                cases.append(case(files, urls, l2, False))
                if b2:
                    small_catalog(chk, random.Random('P15/%d/%d' % (chk.seed, k)), b2, l2, binary)
                    n += 1
                    os.unlink(b2)
        chk.notes['invented_catalogs'] = n
        for c, kind, place, detail in validate(chk, top, cases, names)[:8]:
            e = cases[c]['list'][place - 1] if kind == 'entry' else {}
            chk.violation(session, '%s: %s %d is %s; specification: %s' % (names[c], kind, place,
                          {'id': bytes(e['id']).decode(), 'bits': e['bits'], 'url': bytes(e['url']).decode(), 'lre': bytes(e['lre'])[:200]} if e else len(cases[c]['list']), detail))
        chk.log('catalogs validated')
        same_scans(chk, rng, B, binary)
    finally:
        B.close()
        shutil.rmtree(top, ignore_errors=True)
    chk.assume += ['TLC evaluates the specification correctly',
                   'two patterns that differ only in comments are the same pattern (data.gen.go has an older comment than licenses/ in one place)',
                   'templates in licenses/ use only the actions that the specification knows (an unknown one makes the check fail)']


def build_with(data, name):
    try:
        return C.build(name, extra={'data.gen.go': data})
    except SystemExit:
        return None


def from_data(out, binary, top, name):
    b = build_with(out, 'vcatreal')
    l = (C.Driver(b).run([{'op': 'list'}])[0] or []) if b else []
    return l


def small_catalog(chk, rng, b2, l2, binary):
    """Scan with an invented catalog as the built-in set: both ways, against the specification of Scan."""
    lics = [{'id': x['id'], 'type': x['type'], 'lre': base64.b64decode(x['lre'] or ''), 'url': base64.b64decode(x['url'] or '')} for x in l2]
    a = C.Driver(b2).run([{'op': 'newbuiltin', 'set': 1}])[0]
    texts = []
    us = [l['url'].decode() for l in lics if l['url']]
    ps = [l['lre'].decode() for l in lics if l['lre']]
    for _ in range(60):
        ws = []
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            if r < 0.6 and ps:
                p = rng.choice(ps)
                ws += [w for w in p.replace('__5__', 'beta').split() if not w.startswith(('__', '((', '||', '))', '//**', '**//'))]
            elif r < 0.8:
                ws.append(rng.choice(['http://', 'https://', 'Http://']) + rng.choice(us) + rng.choice(['', '/', '/legalcode', '/x', '.']))
            else:
                ws += [rng.choice(V) for _ in range(4)]
        texts.append(G.enc(G.layout(rng, ws, G.SAFESEPS, False)))
    fail = bool(a.get('err') or a.get('panic'))
    if fail:     # an invented catalog may be unusable as a license set; then Scan panics
        return
    S = scan.Batch().add(lics, texts + texts)
    S.setobs = [{}]
    ans = C.Driver(b2).run([{'op': 'newbuiltin', 'set': 1}] + [{'op': 'builtin', 'text': C.b64(t)} for t in texts] + [{'op': 'scan', 'set': 1, 'text': C.b64(t)} for t in texts])
    S.obs = ans[1:]
    bad, st = S.check(binary, ['ALL'], chunk=200)
    chk.validated(st, st['cases'])
    for prop, kind, idx, detail in bad[:3]:
        if kind == 'case':
            chk.violation({'kind': 'session', 'session': {'seed': chk.seed, 'tier': chk.tier}},
                          'with the invented catalog %s, %s(%r) = %s; specification: %s' % ([(x['id'], x['lre']) for x in lics if x['lre']][:5],
                          'Scan' if idx < len(texts) else 'NewScanner(BuiltinLicenses()).Scan', S.cases[idx][1], S.obs[idx], detail))


def same_scans(chk, rng, B, binary):
    """Scan(text) = NewScanner(BuiltinLicenses()).Scan(text)."""
    td = builtinprop.TD
    texts = [b'', b'\n', b'x']
    if os.path.isdir(td):
        texts += [open(os.path.join(td, f), 'rb').read() for f in sorted(os.listdir(td))]
    texts += [x['lre'] for x in B.pats]
    for x in B.list:
        if x['url']:
            for f in (b'see http://%s', b'https://%s/ ok', b'HTTPS://%s/legalcode\n', b'http://%s/more'):
                texts.append(f % x['url'])
    more = []
    for t in texts:
        if len(t) > 20 and rng.random() < 0.7:
            more.append(b' '.join(G.enc(w) if isinstance(w, str) else w for w in builtinprop.noise(rng, t.split(), [b'software', b'the', b'http://creativecommons.org/licenses/by/3.0'])))
    texts += more + odd_texts(rng, [x['url'] for x in B.list if x['url']]) + [rng.choice(texts) + b'\n' + rng.choice(texts) for _ in range(150)]
    d = [{'op': 'newbuiltin', 'set': 1}]
    q = d + [{'op': 'builtin', 'text': C.b64(t)} for t in texts]
    r = d + [{'op': 'scan', 'set': 1, 'text': C.b64(t)} for t in texts]
    a, b = C.Driver(binary).run(q)[1:], C.Driver(binary).run(r)[1:]
    import json as J
    path = os.path.join(B.dir, 'pairs.json')
    with open(path, 'w') as f:
        J.dump([{'a': slim(x), 'b': slim(y)} for x, y in zip(a, b)], f)
    rc, out, err = C.tlc('TraceSame', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', {'TRACE': path}, workers=1)
    if rc != 0 or 'Model checking completed. No error' not in out:
        raise SystemExit('TLC failed: ' + out[-2000:] + err[-1000:])
    g, s = C.tlc_states(out)
    chk.validated({'states': s, 'transitions': g}, len(texts))
    chk.notes['texts_scanned_both_ways'] = len(texts)
    import re
    for m in list(re.finditer(r'"DIFFERS",\s*(\d+)', out))[:5]:
        k = int(m.group(1)) - 1
        chk.violation({'kind': 'same', 'text': C.b64(texts[k]), 'session': {'seed': chk.seed, 'tier': chk.tier}},
                      'Scan(%r) = %s; NewScanner(BuiltinLicenses()).Scan gives %s' % (texts[k][:300], a[k], b[k]))


def odd_texts(rng, urls):
    """Every byte, every size, every kind of markup, next to a URL and within a license."""
    out = []
    for x in inputs.BYTES + inputs.RUNES:
        u = b'http://' + rng.choice(urls)
        out += [x, x + b' ' + u + b' zz', u + x, b'zz ' + x + u, u[:9] + x + u[9:]]
    for n in inputs.SIZES + [6000, 8191, 8192, 8193, 10000, 16384, 20000, 32767, 32768, 40000, 65535, 65536, 65537, 100000]:
        u = b'http://' + rng.choice(urls)
        out += [b'x ' * n + u, u + b' x' * n, b'\n' * n + u + b'\n' * n, b'a' * n + b' ' + u]
    for _ in range(600):
        u = b'http://' + rng.choice(urls)
        out.append(inputs.rand_bytes(rng, rng.randint(0, 60)) + rng.choice([b'', b' ', b'\n']) + rng.choice([u, u.upper(), u + b'/us', u + b'/legalcode']) + rng.choice([b'', b' ', b'\n']) + inputs.rand_bytes(rng, rng.randint(0, 60)))
    for _ in range(150):
        out.append(b' '.join(rng.choice([b'http://' + rng.choice(urls), b'zz', b'(c)', b'copyright', G.enc(rng.choice(inputs.FORMS))]) for _ in range(rng.randint(1, 25))))
    return out


def slim(x):
    return {'pf': x.get('pf', ''), 'panic': bool(x.get('panic')), 'err': bool(x.get('err')), 'm': x.get('m') or []}


def order_model(chk):
    import mc
    return mc.run('MCCatalog', 'CONSTANT Depth = %d\nSPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % (2 if chk.quick else 3, 'Total Transitive SpecialFirst Sorted Stable Inherits'), {},
                  {'module': 'MCCatalog', 'invariants': 'Total Transitive SpecialFirst Sorted Stable Inherits'.split()})
