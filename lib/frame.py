"""Common frame of the checks: tiers, evidence, violations."""
import hashlib, json, os, random, sys, time, traceback
from . import build, tlc
from .drv import Drv

EVID = os.environ.get('VERIF_EVID', os.path.join(build.ROOT, 'evidence'))

class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.id = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.rng = random.Random('%s-%d' % (pid, self.seed))
        self.models = []
        self.traces = 0
        self.events = 0
        self.samples = []
        self.extra = {}
        self.viol = []
        self.assume = []
        self.known = []
        self.rerun = 0

    @property
    def quick(self):
        return self.tier == 'quick'

    def pick(self, q, t):
        return q if self.quick else t

    def rb(self, n):
        return self.rng.randbytes(n)

    def model(self, mod, cfg=None, **kw):
        t = time.time()
        m = tlc.check(mod, cfg, **kw)
        m['seconds'] = round(time.time() - t, 1)
        self.models.append(m)
        return m

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, what, replay):
        """Record a violation; replay: JSON-able description of how to see it again."""
        self.viol.append({'what': what, 'replay': replay})

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    # -- recorded sessions -------------------------------------------------
    def validate(self, mod, traces, redo=None, label='', env=None, timeout=800):
        """traces: list of event lists, each a session of its own.  All are
        validated in one TLC run.  A mismatch is reported only if re-executing the
        same session (redo(index) -> events) shows it again."""
        flat, where = [], []
        begin = {'op': 'begin'}
        for n, t in enumerate(traces):
            flat.append(begin); where.append((n, -1))
            for j, ev in enumerate(t):
                flat.append(ev); where.append((n, j))
        self.traces += len(traces)
        self.events += len(flat) - len(traces)
        if not flat:
            return
        rep, done = tlc.trace(mod, flat, env=env, timeout=timeout, cfg='Trace.cfg')
        bad = {}
        for r in rep:
            if r.get('k') == 'mismatch':
                n, j = where[r['i'] - 1]
                bad.setdefault(n, []).append((j, r))
            elif r.get('k') == 'note':
                for k, v in r.items():
                    if k not in ('k', 'i') and isinstance(v, int):
                        self.count(k, v)
        for n, l in sorted(bad.items())[:5]:
            j, r = l[0]
            if redo is not None:
                self.rerun += 1
                again = redo(n)
                rep2, _ = tlc.trace(mod, [begin] + again, env=env, timeout=timeout, cfg='Trace.cfg')
                if not any(x.get('k') == 'mismatch' for x in rep2):
                    continue
            ev = traces[n][j]
            self.violation('%s event %d (%s) of session %d: recorded result is not the specified one' % (label or mod, j, ev.get('op'), n),
                           dict(spec=mod, session=show(traces[n][:j + 1][-60:]), event=show(ev), expected=show(r.get('exp')), others=len(l) - 1))

    def write(self, level, assumptions=()):
        cov = dict(states=sum(m['states'] for m in self.models), transitions=sum(m['transitions'] for m in self.models),
                   traces_validated_against_impl=self.traces, events_validated=self.events,
                   models=self.models, samples=self.samples or ['none'])
        cov.update(self.extra)
        if level in ('exploration', 'fault_enumeration'):
            cov.setdefault('evaluations', self.events)
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=list(assumptions) + self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=show)
            f.write('\n')

    def finish(self, level, assumptions=()):
        self.write(level, assumptions)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.id, k))
        if self.viol:
            path = os.path.join(EVID, 'replay-%s.json' % self.id)
            with open(path, 'w') as f:
                json.dump(self.viol, f, indent=1, default=show)
            for v in self.viol[:10]:
                print('  ' + v['what'])
            print('VIOLATION property=%s replay=%s' % (self.id, path))
            return 1
        print('OK property=%s tier=%s states=%d sessions=%d events=%d wall=%.1fs' % (
            self.id, self.tier, sum(m['states'] for m in self.models), self.traces, self.events, time.time() - self.t0))
        return 0

def show(v):
    if isinstance(v, (bytes, bytearray)):
        return bytes(v).hex()
    if isinstance(v, dict):
        return {k: show(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        if len(v) >= 8 and all(isinstance(x, int) and 0 <= x < 256 for x in v):
            return bytes(v).hex()
        return [show(x) for x in v]
    return v

def session(plan, variant='plain', args=(), env=None, alarm=30):
    """Execute a plan: list of (event, driver command tuple), or of functions giving
    that pair (or None) from what was recorded so far.  Each event gets its
    recorded result; stops after a crash."""
    out = []
    with Drv(variant, args, env, alarm) as d:
        todo = list(plan)[::-1]
        while todo:
            item = todo.pop()
            if isinstance(item, tuple) and item[0] == 'many':      # a function giving several
                todo += list(item[1](out))[::-1]
                continue
            if callable(item):
                item = item(out)
                if item is None:
                    continue
            ev, cmd = item
            ev = dict(ev)
            ev['res'] = cmd(d) if callable(cmd) else d(*cmd)
            out.append(ev)
            if 'crash' in ev['res']:
                break
    return out
