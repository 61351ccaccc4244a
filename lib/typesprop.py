"""P12: Merge, String and ParseType."""
import itertools, json, os, random, shutil, sys, tempfile
import common as C, mc, scan
from concurrent.futures import ThreadPoolExecutor

NAMES = ['Unknown', 'Unrestricted', 'Notice', 'ShareChanges', 'ShareProgram', 'ShareServer', 'NonCommercial', 'Discouraged']


def bits(n):
    return [k for k in range(64) if n >> k & 1]


def numbers(rng, k):
    out = ['0', '1', '00', '0x', '0X1', '0x_1', '0x1_', '1_0', '1__0', '_1', '1_', '0_1', '0b', '0b1', '0B1', '0b2', '0o7', '0O7', '0o8', '07', '08', '017',
           '18446744073709551615', '18446744073709551616', '0xffffffffffffffff', '0x10000000000000000', '01777777777777777777777',
           '02000000000000000000000', '0b' + '1' * 64, '0b1' + '0' * 64, '-1', '+1', ' 1', '1 ', '0xg', 'x1', '1e3', '', '0x0', '0xFF', '0xfF', '0x00ff',
           '255', '256', '9' * 30, '0x' + 'f' * 17, '0x' + '0' * 30 + '1', '1.0', '٣', '0x1p3', '0_', '0__1', '0x__1', '0b_1', '0_8', '0o_1']
    for _ in range(int(120 * k)):
        n = rng.getrandbits(rng.randint(1, 66))
        out.append(rng.choice(['%d', '%#x', '%#X', '0b{:b}', '0o{:o}', '0{:o}', '{:_}', '{:#_x}']).replace('%d', '{}').replace('%#x', '{:#x}').replace('%#X', '{:#X}').format(n))
    for _ in range(int(80 * k)):
        out.append(''.join(rng.choice('01789abfx_o') for _ in range(rng.randint(1, 6))))
    return out


def requests(rng, k):
    q = []
    vals = [n << 1 for n in range(128)]
    for t in vals:
        for u in vals:
            q.append(('merge', t, u))
    high = [1 << j for j in range(8, 64)]
    for _ in range(int(1500 * k)):      # undeclared bits (other than bit 0, of which nothing is said) do not survive
        t = rng.choice(vals) | sum(rng.sample(high, rng.randint(0, 3)))
        u = rng.choice(vals) | sum(rng.sample(high, rng.randint(0, 3)))
        q.append(('merge', t, u))
    strs = set(range(0, 1 << 10)) | {1 << j for j in range(64)} | {(1 << j) - 1 for j in range(65)} | {((1 << 64) - 1) ^ (1 << j) for j in range(64)}
    strs |= {rng.getrandbits(64) & rng.getrandbits(64) for _ in range(int(500 * k))}
    for s in sorted(strs):
        q.append(('string', s))
    toks = NAMES + ['', 'Type(0x100)', 'Type(0x1)', 'type(0x1)', 'Type(', 'Type()', 'Type(1', ')', ' ', 'notice', 'NOTICE', 'Notice ', ' Notice', 'Noticed',
                    'Notic', 'Type(0x2)', 'Type(7)', 'Unknown|', 'Type(0x1))', 'Type((0x1)', 'None', 'Type0x1', 'Type 0x1', 'Type(Notice)']
    for j in (1, 2):
        for x in itertools.product(toks, repeat=j):
            q.append(('parse', '|'.join(x)))
    for _ in range(int(1500 * k)):
        q.append(('parse', rng.choice(['|', '|', '|', '||', ',', ' | ']).join(rng.choice(toks) for _ in range(rng.randint(3, 7)))))
    for n in numbers(rng, k):
        q.append(('parse', 'Type(%s)' % n))
        q.append(('parse', 'Notice|Type(%s)|ShareServer' % n))
    return q


def main(chk):
    binary = C.build('vdriver')
    inv = 'Absorbs Result Known Commutes Associates RoundTrip'
    chk.model(mc.run('MCTypes', 'CONSTANT Depth = %d\nSPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % (3 if chk.quick else 5, inv), {},
                     {'module': 'MCTypes', 'invariants': inv.split()}))
    rounds = 0
    while True:
        one_round(chk, binary, random.Random('P12/%d/%d' % (chk.seed, rounds)), 1 if chk.quick else 4)
        rounds += 1
        if chk.quick or chk.violations or chk.elapsed() > 240:
            break
    chk.notes['rounds'] = rounds
    chk.assume += ['TLC evaluates the specification correctly', 'Type is 64 bits wide on the machine of the check']


def observe(binary, q):
    reqs = []
    for r in q:
        if r[0] == 'merge':
            reqs.append({'op': 'merge', 'T': r[1], 'U': r[2]})
        elif r[0] == 'string':
            reqs.append({'op': 'string', 'T': r[1]})
        elif r[0] == 'parse':
            reqs.append({'op': 'parse', 'S': r[1]})
    ans = C.Driver(binary).run(reqs + [{'op': 'consts'}])
    ev, what = [], []
    Z = {'t': [], 'u': [], 'r': [], 's': [], 'err': False}
    for r, a in zip(q, ans):
        if r[0] == 'merge':
            ev.append(dict(Z, op='merge', t=bits(r[1]), u=bits(r[2]), r=bits(a)))
        elif r[0] == 'string':
            ev.append(dict(Z, op='string', t=bits(r[1]), s=list(a.encode())))
        else:
            ev.append(dict(Z, op='parse', s=list(r[1].encode()), err=a['err'], r=bits(a['t'])))
        what.append((r, a))
    for n, v in sorted(ans[-1].items()):
        ev.append(dict(Z, op='const', s=list(n.encode()), r=bits(v)))
        what.append((('const', n), v))
    return ev, what


def validate(ev, chk=None):
    d = tempfile.mkdtemp(prefix='vty-')
    try:
        path = os.path.join(d, 't.json')
        with open(path, 'w') as f:
            json.dump(ev, f)
        lanes = min(64, len(ev))
        rc, out, err = C.tlc('TraceTypes', 'CONSTANT Lanes = %d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n' % lanes, {'TRACE': path})
        if rc != 0 or 'Model checking completed. No error' not in out:
            sys.stderr.write(out[-3000:] + err[-2000:])
            raise SystemExit('TLC failed on a trace (exit %d)' % rc)
        g, dd = C.tlc_states(out)
        if dd != lanes + len(ev):
            raise SystemExit('TLC did not replay every event')
        if chk:
            chk.validated({'states': dd, 'transitions': g - lanes}, len(ev))
        return [m[2] - 1 for m in scan.parse_mismatch(out)]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one_round(chk, binary, rng, k):
    q = requests(rng, k)
    ev, what = observe(binary, q)
    bad = validate(ev, chk)
    for j in range(0, len(what), max(1, len(what) // 6)):
        chk.sample(repr(what[j]))
    for j in bad[:5]:
        r, a = what[j]
        if r[0] != 'const':
            ev1, what1 = observe(binary, [r])
            if not validate(ev1):
                continue
        chk.violation({'kind': 'types', 'request': r, 'answer': a, 'session': {'seed': chk.seed, 'tier': chk.tier}},
                      '%s%r = %r, not what the specification says' % (r[0], tuple(r[1:]), a))
