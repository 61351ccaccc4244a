"""What every check shares: tier, seed, time, evidence, known findings, verdict."""
import base64, hashlib, json, os, re, sys, time
import common as C


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.models = []
        self.notes = {}
        self.violations = []     # (summary, replay path)
        self.known = []
        self.assume = []
        kf = os.path.join(C.VERIF, 'known_findings.json')
        self.findings = [f for f in json.load(open(kf)) if f.get('property') == prop and f.get('status') == 'open'] if os.path.exists(kf) else []

    @property
    def quick(self):
        return self.tier == 'quick'

    def elapsed(self):
        return time.time() - self.t0

    def log(self, *a):
        print('[%s %5.1fs]' % (self.prop, self.elapsed()), *a, flush=True)

    def model(self, info):
        self.models.append(info)
        self.states += info['states']
        self.transitions += info['transitions']
        self.log('model', info['module'], info['states'], 'states')

    def validated(self, st, n):
        self.states += st.get('states', 0)
        self.transitions += st.get('transitions', 0)
        self.traces += n

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def violation(self, replay, summary):
        """A confirmed violation; replay is a JSON-able record that bin/replay.py understands."""
        for f in self.findings:
            if f.get('key') and f['key'] in summary:
                self.known.append((f, summary))
                return
        os.makedirs(C.REPLAYS, exist_ok=True)
        replay = dict(replay, property=self.prop, summary=summary)
        data = json.dumps(replay, indent=1)
        path = os.path.join(C.REPLAYS, '%s-%s.json' % (self.prop, hashlib.sha1(data.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            f.write(data)
        self.violations.append((summary, path))

    def finish(self):
        for f in self.findings:
            if any(k[0] is f for k in self.known):
                print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': dict({'states': self.states, 'transitions': self.transitions,
                                'traces_validated_against_impl': self.traces, 'samples': self.samples,
                                'models': self.models}, **self.notes),
              'assumptions': self.assume, 'wall_s': round(self.elapsed(), 1), 'violations': len(self.violations)}
        d = os.path.join(C.VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for s, path in self.violations[:10]:
            print('  ' + s[:1000])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        self.log('done:', len(self.violations), 'violations,', self.traces, 'events of the real code validated,', self.states, 'states')
        sys.exit(1 if self.violations else 0)
