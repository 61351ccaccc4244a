"""Properties of Scan decided by replaying generated scans against the specification."""
import base64, json, random
import common as C, scan, inputs, mc

QUICK = {'P01': 2.2, 'P02': 2.6, 'P03': 3, 'P04': 2.2, 'P05': 1.5, 'P06': 2.5, 'P07': 1.2, 'P08': 1.6, 'P09': 1.8, 'P10': 2.0, 'P11': 3.5,
         'P18': 3}


def show_case(B, n):
    k, t = B.cases[n]
    return {'licenses': [{'id': l['id'], 'lre': l['lre'].decode('latin1'), 'url': l['url'].decode('latin1')} for l in B.sets[k]][:4],
            'text': t[:300].decode('latin1'), 'result': B.obs[n]}


def record(lics, text, obs, expected):
    return {'kind': 'scan', 'lics': [dict(l, lre=C.b64(l['lre']), url=C.b64(l['url'])) for l in lics],
            'text': None if text is None else C.b64(text), 'observed': obs, 'expected': expected}


def batch(chk, B, binary, chunk=None):
    """Run a batch in the real code, validate it, confirm and record mismatches."""
    B.run(binary)
    n = len(B.cases) + len(B.sets)
    bad, st = B.check(binary, [chk.prop], chunk=chunk or max(400, min(5000, n // 8 + 1)))
    chk.validated(st, st['cases'] + st['sets'])
    for m in range(0, len(B.cases), max(1, len(B.cases) // 3)):
        if B.obs[m].get('m'):
            chk.sample(show_case(B, m))
    chk.notes['scans'] = chk.notes.get('scans', 0) + st['cases']
    chk.notes['scans_with_matches'] = chk.notes.get('scans_with_matches', 0) + sum(1 for o in B.obs if o.get('m'))
    chk.notes['license_sets'] = chk.notes.get('license_sets', 0) + len(B.sets)
    chk.notes['license_sets_accepted'] = chk.notes.get('license_sets_accepted', 0) + sum(1 for o in B.setobs if not o.get('err'))
    if not bad:
        return
    # confirm: the real code once more, on each failing input alone
    seen = 0
    for prop, kind, idx, detail in bad:
        if seen >= 5:
            break
        C1 = scan.Batch()
        if kind == 'set':
            C1.add(B.sets[idx], [])
        else:
            C1.add(B.sets[B.cases[idx][0]], [B.cases[idx][1]])
        C1.run(binary)
        bad1, _ = C1.check(binary, [chk.prop])
        if not bad1:
            # state carried from one scan to the next: replay the whole set as it was
            if kind == 'case':
                k = B.cases[idx][0]
                C1 = scan.Batch().add(B.sets[k], [t for (kk, t) in B.cases if kk == k])
                C1.run(binary)
                bad1, _ = C1.check(binary, [chk.prop])
            if not bad1:
                o = B.setobs[idx] if kind == 'set' else B.obs[idx]
                if str(o.get('panic', '')).startswith('no answer'):
                    chk.log('no answer the first time, but one the second:', kind, idx)
                    continue
                # what the real code answered within a longer session was wrong
                seen += 1
                k = idx if kind == 'set' else B.cases[idx][0]
                r = record(B.sets[k], None if kind == 'set' else B.cases[idx][1], o, detail)
                r['kind'] = 'session'
                r['session'] = {'seed': chk.seed, 'tier': chk.tier, 'index': idx}
                chk.violation(r, 'in a longer session only: %s; specification: %s' % (o, detail))
                continue
            j = bad1[0][2]
            if bad1[0][1] == 'case':
                r = record(C1.sets[0], C1.cases[j][1], C1.obs[j], bad1[0][3])
                r['before'] = [C.b64(t) for _, t in C1.cases[:j]]
                chk.violation(r, 'after earlier scans, Scan(%r) = %s; specification: %s' % (C1.cases[j][1], C1.obs[j], bad1[0][3]))
                seen += 1
            continue
        seen += 1
        if kind == 'set':
            l = C1.sets[0]
            chk.violation(record(l, None, C1.setobs[0], bad1[0][3]), 'NewScanner(%s): %s; specification: %s' %
                          ([(x['id'], x['lre'], x['url']) for x in l], C1.setobs[0], bad1[0][3]))
        else:
            l = C1.sets[0]
            chk.violation(record(l, C1.cases[0][1], C1.obs[0], bad1[0][3]), 'licenses %s: Scan(%r) = %s; specification: %s' %
                          ([(x['id'], x['lre'], x['url']) for x in l][:6], C1.cases[0][1][:400], C1.obs[0], bad1[0][3]))


def main(chk):
    p = chk.prop
    binary = C.build('vdriver')
    mc.for_prop(chk)
    rng = random.Random('%s/%d' % (p, chk.seed))
    B = scan.Batch()
    inputs.BY_PROP[p](B, rng, QUICK[p])
    batch(chk, B, binary)
    if not chk.quick:
        j = 0
        last = 0
        while not chk.violations and chk.elapsed() + 1.3 * last < 780:
            j += 1
            t = chk.elapsed()
            B = scan.Batch()
            inputs.BY_PROP[p](B, random.Random('%s/%d/%d' % (p, chk.seed, j)), QUICK[p] * 2)
            batch(chk, B, binary)
            last = chk.elapsed() - t
        chk.notes['rounds'] = j + 1
    chk.assume += ['TLC evaluates the specification correctly', 'the Unicode tables of the Go library (letters, digits, marks, case folding) are data',
                   'inputs outside the generated families are covered only as far as the specification and the code treat them uniformly']
