"""Bounded model checking of the specification itself."""
import json, os, re, shutil, sys, tempfile
import common as C, gen as G, scan
from gen import mk, enc

BASE = 'WordsInv MatchesInv AttemptInv Agrees'.split()


def core():
    return [[mk('L%d' % i, p, typ=2 << i) for i, p in enumerate(s)] for s in G.CORE]


def letters(*xs):
    return [b' ' + enc(x) for x in xs]


EXT = [[mk('A', 'aa bb', 'a.org/b'), mk('B', 'cc aa', typ=4)],
       [mk('A', 'aa bb\n((copyright cc))??\n'), mk('U', b'', 'a.org/b', 8)]]

# name -> (sets, symbols, n quick, n thorough, invariants)
MODELS = {
    'P01': lambda: (core(), letters('a', 'b', 'c', 'ab'), 4, 5, ['P01_NoFalsePositive']),
    'P02': lambda: (core(), letters('a', 'b', 'c', 'ab'), 4, 5, ['P02_NothingMissed', 'P02_Ties', 'P02_AsMatched']),
    'P03': lambda: (EXT, [b'aa ', b'bb', b'\n', b'(c)', b'<aa>', b'&', b'http://a.org/b', b'.'], 4, 5, ['P03_WellFormed']),
    'P04': lambda: (EXT, [b'aa ', b'bb', b'\n', b'(c)', b'zz ', b'http://a.org/b', b'cc '], 4, 6, ['P04_Percent']),
    'P05': lambda: (EXT, [b'aa ', b'bb', b'\n', b'(c)', b'.', b' zz', b'cc'], 5, 6, ['P05_Extents']),
    'P08': lambda: ([[mk('A', 'aa abab'), mk('B', 'aa ab\n((ba))??\n a')], [mk('A', 'aa aba __1__ ab'), mk('B', 'aa abba', typ=4)]],
                    [b' aa', b' ab', b'a', b'b', b' ', b' abab'], 5, 6, ['P01_NoFalsePositive', 'P02_AsMatched']),
    'P09': lambda: ([s for s in core() if any(b'__' in l['lre'] for l in s)], letters('a', 'b', 'c'), 6, 8,
                    ['P01_NoFalsePositive', 'P02_NothingMissed']),
}


def scan_machine(prop, tier, props=('Forward',), live=False, n=None):
    sets, symbols, nq, nt, inv = MODELS[prop]()
    n = n or (nq if tier == 'quick' else nt)
    d = tempfile.mkdtemp(prefix='vmc-')
    try:
        cps = C.codepoints(symbols)
        with open(os.path.join(d, 'm.json'), 'w') as f:
            json.dump({'sets': [[scan.tla_lic(l) for l in s] for s in sets], 'symbols': [list(x) for x in symbols],
                       'n': n, 'prefix': [], 'suffix': []}, f)
        with open(os.path.join(d, 'u.json'), 'w') as f:
            json.dump([[169, 0, 0, 169]], f)
        cfg = ('CONSTANTS\n NSets <- MCNSets\n Lics <- MCLics\n KitOfSet <- MCKit\n Asts <- MCAsts\n Texts <- MCTexts\n UClass <- MCU\n'
               'SPECIFICATION Spec\nINVARIANTS %s\nPROPERTIES %s\nCHECK_DEADLOCK TRUE\n'
               % (' '.join(BASE + inv), ' '.join(list(props) + (['Returns'] if live else []))))
        return run('MCScan', cfg, {'MODEL': os.path.join(d, 'm.json'), 'UTAB': os.path.join(d, 'u.json')},
                   {'module': 'MCScan', 'sets': len(sets), 'symbols': [x.decode('latin1') for x in symbols], 'n': n,
                    'invariants': BASE + inv, 'properties': list(props)})
    finally:
        shutil.rmtree(d, ignore_errors=True)


W = {'aa': b'aa', 'cr': b'copyright', 'the': b'the', 'it': b'it', 'http': b'http', 'is': b'is', 'copy': b'copy', 'ns': b'notices', 'e': b'e', 'one': b'1'}
# spellings of words, and markup-like text that is read as words
PIECES = [(['aa'], x) for x in ('aa', 'AA', '\u00e0a', 'A\u0300a')] + \
         [(['cr'], x) for x in ('(c)', '(C)', '\u00a9', '&copy;', 'Copyright', '(c) \u00a9', '&copy;(c)')] + \
         [(['the'], x) for x in ('those', 'This', 'the')] + [(['it'], x) for x in ('THEY', 'them')] + \
         [(['http'], 'HTTPS'), (['is'], 'are'), (['copy'], 'Copies'), (['ns'], 'notice(s)'), (['ns'], 'Notices'), (['e'], '\u00c9')] + \
         [(['aa', 'e'], '<aa@e>'), (['http', 'aa'], '<http://aa>'), (['aa'], '<aa'), (['aa', 'e'], '{#aa e}'), (['aa'], '](aa)'),
          (['one'], '<1>'), (['aa'], '&aa'), (['one'], '&#1.'), (['aa', 'e'], '[aa](e)'), (['aa'], '[aa](mailto:e)'), (['aa'], '<e a="1">aa</e>'),
          (['aa'], '&#x61;aa'), (['aa', 'aa'], 'aa&#1;aa'), (['aa', 'e'], '<aa\n\n\ne>'), (['aa'], 'aa{#e}')]
SEPS = (' ', '\n', '. ', '<e>', '</e\n>', '&nbsp;', '{#e}', '](http://e)', '\r\n* ')


def text_model(tier, _=None):
    n, seps = (2, SEPS) if tier == 'quick' else (3, ('<e>', '. '))
    model = {'pieces': [{'t': list(t.encode()), 'w': [list(W[w]) for w in ws]} for ws, t in PIECES], 'seps': [list(x.encode()) for x in seps]}
    u = [[169, 0, 0, 169], [224, 1, 1, 192], [201, 1, 1, 201], [768, 0, 1, 768]]
    return simple('MCText', {'N': n}, 'TxU', ['Understood', 'Stable'], model, u, {'pieces': len(PIECES), 'seps': len(SEPS)})


def context_model(tier):
    sets = core() + EXT
    far = 2 + max(int(n) for s in sets for l in s for n in re.findall(rb'__(\d+)__', l['lre']) or [0])
    model = {'sets': [[scan.tla_lic(l) for l in s] for s in sets], 'symbols': [list(x) for x in letters('a', 'b', 'c')], 'far': far}
    return simple('MCContext', {'N': 4 if tier == 'quick' else 5}, 'CxU', ['Inv'], model, [], {'sets': len(sets), 'foreign words': far})


def simple(module, consts, uclass, invs, model=None, utab=None, info=None, subst=()):
    d = tempfile.mkdtemp(prefix='vmc-')
    try:
        for n, x in (('m', model or {}), ('u', utab or [])):
            with open(os.path.join(d, n + '.json'), 'w') as f:
                json.dump(x, f)
        cfg = 'CONSTANTS\n' + ''.join(' %s = %s\n' % x for x in consts.items()) + ''.join(' %s <- %s\n' % x for x in subst) + \
              ' UClass <- %s\nSPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % (uclass, ' '.join(invs))
        return run(module, cfg, {'MODEL': os.path.join(d, 'm.json'), 'UTAB': os.path.join(d, 'u.json')},
                   dict(info or {}, module=module, invariants=invs, **consts))
    finally:
        shutil.rmtree(d, ignore_errors=True)


# further models: property -> (quick, thorough) -> run
EXTRA = {
    'P06': lambda tier: simple('MCUrl', {'N': 4 if tier == 'quick' else 5}, 'UrU', ['Longest']),
    'P07': text_model,
    'P08': lambda tier: simple('MCSpell', {'N': 5 if tier == 'quick' else 6}, 'SpU', ['Inv']),
    'P09': lambda tier: simple('MCWild', {'N': 7 if tier == 'quick' else 10}, 'WiU', ['Agrees'], subst=[('Tails', 'MCTails'), ('Ms', 'MCMs')]),
    'P10': lambda tier: simple('MCLre', {'N': 5 if tier == 'quick' else 6}, 'LrU', ['Verdict']),
    'P11': lambda tier: simple('MCNew', {'N': 3}, 'NwU', ['HeadsOk', 'NullOk', 'TailOk', 'ProgOk']),
    'P18': context_model,
}


def run(module, cfg, env, info, timeout=800, heap='12g', need=None):
    rc, out, err = C.tlc(module, cfg, env, timeout=timeout, heap=heap)
    if rc != 0 or 'Model checking completed. No error' not in out:
        # the specification does not satisfy its own properties: an error of the check, not of the code
        sys.stderr.write(out[-6000:] + err[-2000:])
        raise SystemExit('model checking of %s failed (exit %d)' % (module, rc))
    g, d = C.tlc_states(out)
    info = dict(info)
    info.update(states=d, transitions=g)
    return info


def for_prop(chk):
    """The model-checking part of a check."""
    if chk.prop in MODELS:
        chk.model(scan_machine(chk.prop, chk.tier))
    if chk.prop in EXTRA:
        chk.model(EXTRA[chk.prop](chk.tier))
