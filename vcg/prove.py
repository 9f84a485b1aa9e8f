"""prove.py ID SCRATCH OUT.json TIER SEED - generate and discharge the obligations of contracts/<id>.py"""
import importlib.util, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, VERIF + '/contracts')
sys.setrecursionlimit(20000)

class Proof:
    def __init__(self, pid, B, out, tier, seed):
        self.pid, self.B, self.out, self.tier, self.seed = pid, B, out, tier, seed
        self.r = {'obligations': [], 'notes': [], 'assumptions': [], 'trusted': [], 'functions': [], 'vacuity': 0, 'explanation': ''}
        self.dumps = {}
        self.repo = B + '/src'
    def dump(self, crate):
        if crate not in self.dumps:
            self.dumps[crate] = json.load(open('%s/dump/%s.json' % (self.B, crate)))
        return self.dumps[crate]
    def ob(self, name, fn, status, backend, t=0.0, detail='', **kw):
        d = dict(name=name, fn=fn, status=status, backend=backend, time=round(t, 3))
        if detail: d['detail'] = detail
        d.update(kw)
        self.r['obligations'].append(d)
        print('%-10s %s [%s] %s' % (status, name, backend, detail[:300]), flush=True)
        self.save()
    def undecided(self, name, fn, why):
        self.ob(name, fn, 'undecided', '-', 0, why)
    def note(self, s):
        if s not in self.r['notes']: self.r['notes'].append(s)
    def trust(self, *s):
        for x in s:
            if x not in self.r['trusted']: self.r['trusted'].append(x)
    def assume(self, *s):
        for x in s:
            if x not in self.r['assumptions']: self.r['assumptions'].append(x)
    def function(self, *s):
        for x in s:
            if x not in self.r['functions']: self.r['functions'].append(x)
    def save(self):
        t = self.out + '.tmp'
        json.dump(self.r, open(t, 'w'), indent=1); os.replace(t, self.out)

def main():
    pid, B, out, tier, seed = sys.argv[1:6]
    P = Proof(pid, B, out, tier, int(seed))
    P.save()
    try:
        spec = importlib.util.spec_from_file_location('contract', '%s/contracts/%s.py' % (VERIF, pid.lower()))
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        m.prove(P)
    except Exception:
        P.note('prover error: ' + traceback.format_exc()[-1500:])
        print(traceback.format_exc())
    P.save()
if __name__ == '__main__':
    main()
