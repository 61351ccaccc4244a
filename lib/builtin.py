"""The built-in license set: reading it in the specification, sentences of it, validation of scans with it."""
import base64, json, os, random, re, shutil, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import common as C, scan

LANE = 'CONSTANTS Lanes = 1\n UClass <- UT\n%sINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
SUBST = ' ProgOf <- MCProgOf\n PhrasesOf <- MCPhrasesOf\n WordsOf <- MCWordsOf\n WordSetOf <- MCWordSetOf\n AllPhrases <- MCAllPhrases\n NPat <- MCNPat\n'


class Builtin:
    def __init__(self, binary):
        self.binary = binary
        l = C.Driver(binary).run([{'op': 'list'}])[0] or []
        self.list = [dict(x, lre=base64.b64decode(x['lre'] or ''), url=base64.b64decode(x['url'] or '')) for x in l]
        self.pats = [x for x in self.list if x['lre']]
        self.index = {}
        for k, x in enumerate(self.pats):
            self.index.setdefault(x['id'], k)
        self.dir = tempfile.mkdtemp(prefix='vbuiltin-')
        self.stats = {'states': 0, 'transitions': 0}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _tlc(self, module, cfg, datas, env, need=None):
        def one(j):
            if not datas[j]:
                return
            path = os.path.join(self.dir, '%s%d.in' % (module, j))
            with open(path, 'w') as f:
                json.dump(datas[j], f, separators=(',', ':'))
            r = C.tlc(module, cfg, dict(env, TRACE=path), workers=1, heap='3g', timeout=850)
            os.unlink(path)
            return r
        outs = []
        with ThreadPoolExecutor(C.NCPU) as ex:
            for r in ex.map(one, range(len(datas))):
                if r is None:
                    outs.append('')
                    continue
                rc, out, err = r
                if rc != 0 or 'Model checking completed. No error' not in out:
                    sys.stderr.write(out[-3000:] + err[-2000:])
                    raise SystemExit('TLC failed on %s (exit %d)' % (module, rc))
                g, d = C.tlc_states(out)
                self.stats['states'] += d
                self.stats['transitions'] += g
                outs.append(out)
        return outs

    def utab(self, texts, name):
        cps = C.codepoints(texts)
        p = os.path.join(self.dir, name)
        with open(p, 'w') as f:
            json.dump(C.Driver(self.binary).run([{'op': 'utab', 'runes': cps or [233]}])[0], f)
        return p

    def parse(self):
        """The specification reads every pattern; False if it rejects one."""
        jobs = sorted(({'n': k + 1, 'lre': list(x['lre'])} for k, x in enumerate(self.pats)), key=lambda p: -len(p['lre']))
        u = self.utab([x['lre'] for x in self.pats], 'u0.json')
        self._tlc('BuiltinParse', LANE % '', [jobs[j::C.NCPU] for j in range(C.NCPU)], {'UTAB': u, 'OUT': self.dir + '/'})
        bad = []
        for k, x in enumerate(self.pats):
            if json.load(open(os.path.join(self.dir, '%d.json' % (k + 1))))['err']:
                bad.append(x['id'])
        return bad

    def say(self, modes, which=None):
        """[(license number from 0, mode number, words)]: sentences as the specification makes them; modes[k] for license k."""
        which = range(len(self.pats)) if which is None else which
        jobs = [{'n': k + 1, 'modes': modes(k)} for k in which]
        jobs.sort(key=lambda j: -len(self.pats[j['n'] - 1]['lre']))
        self._tlc('BuiltinSay', LANE % '', [jobs[j::C.NCPU] for j in range(C.NCPU)], {'IN': self.dir + '/', 'OUT': self.dir + '/'})
        out = []
        for j in jobs:
            p = os.path.join(self.dir, '%d.say.json' % j['n'])
            for m, s in enumerate(json.load(open(p))):
                if s['sayable'] and s['w']:
                    out.append((j['n'] - 1, m, [bytes(w) for w in s['w']]))
            os.unlink(p)
        return out

    def scan(self, texts):
        reqs = [{'op': 'builtin', 'text': C.b64(t)} for t in texts]
        n = max(1, min(C.NCPU, len(reqs) // 50 + 1))
        res = [None] * len(reqs)

        def one(j):
            idx = list(range(j, len(reqs), n))
            try:
                a = C.Driver(self.binary, timeout=300).run([reqs[i] for i in idx])
            except C.Hang as h:
                k = min(h.args[1], len(idx) - 1)
                a = [{'panic': 'no answer (hang or crash)', 'm': [], 'pm': [0, 0]} if i == k else {'skip': 1} for i in range(len(idx))]
            for i, x in zip(idx, a):
                res[i] = x
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(one, range(n)))
        return res

    def check(self, prop, cases):
        """cases: [{text, n (1.. or 0), full, obs}]; returns [(case number, detail)]."""
        lics = [{'id': x['id'], 'type': x['type'], 'lre': [0] if x['lre'] else [], 'url': list(x['url'])} for x in self.list]
        u = self.utab([c['text'] for c in cases], 'u1.json')
        order = sorted((k for k in range(len(cases)) if not cases[k]['obs'].get('skip')),
                       key=lambda k: (-len(cases[k]['text']) * (1 if cases[k]['full'] else 0.2), k))
        lanes = [order[j::C.NCPU] for j in range(C.NCPU)]

        def data(ks):
            return ks and {'lics': lics, 'cases': [
                {'text': list(cases[k]['text']), 'n': cases[k]['n'], 'full': cases[k]['full'],
                 'panic': bool(cases[k]['obs'].get('panic')), 'pm': cases[k]['obs']['pm'],
                 'm': [{'id': m['id'], 'type': m['type'], 's': m['s'], 'e': m['e'], 'url': m['url']} for m in cases[k]['obs'].get('m') or []]}
                for k in ks]}
        outs = self._tlc('TraceBuiltin', LANE % ((' Props = {"%s"}\n' % prop) + SUBST), [data(ks) for ks in lanes], {'UTAB': u, 'IN': self.dir + '/'})
        bad, agrees = [], 0
        for ks, out in zip(lanes, outs):
            if ks and C.tlc_states(out)[1] != len(ks) + 1:
                raise SystemExit('TLC did not replay every event')
            agrees += out.count('"AGREES"')
            for p, kind, idx, detail in ((m[1], m[0], m[2], m[3]) for m in scan.parse_mismatch(out)):
                bad.append((ks[idx - 1], detail))
        self.agrees = agrees
        return bad
