"""What every check shares: tiers, seeds, reporting, evidence, known findings, trace campaigns."""
import json, os, random, re, sys, time
import tlc
from build import VERIF, build, die, end_children
from drv import Drv, DriverDied

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
OUT = os.path.join(VERIF, 'out')
T0 = time.time()


def scale(quick, thorough):
    return thorough if THOROUGH else quick


class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.models, self.notes, self.assumptions = [], [], [], []
        self.counts = {}
        self.nviol = 0

    # -- design models ----------------------------------------------------
    def model(self, name, module, cfg, expect=None, **kw):
        """An exhaustive (or simulated) TLC run of a design model. `expect` names an invariant that must fail
        (a deliberately broken variant of the model: shows that the invariant is not vacuous)."""
        r = tlc.run(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({'model': name, 'module': module, 'distinct_states': r.distinct,
                            'states_generated': r.generated, 'violated': r.violated})
        if (r.violated or None) != expect:
            die('design model %s: violated=%s, expected %s\n%s' % (name, r.violated, expect, r.out[-3000:]))
        return r

    # -- conformance ------------------------------------------------------
    def campaign(self, module, makers, drv, constants=None, describe=None, batch=400, reruns=1, invariants=('Sound', 'Accepted')):
        """makers: list of (key, fn); fn(drv) executes one scenario on the real code and returns its trace.
        All traces are validated by TLC against `module`. A rejection is reported if a fresh execution of the
        same scenario is rejected again."""
        hung = []
        for b in range(0, len(makers), batch):
            part = makers[b:b + batch]
            traces, keys = [], []
            d = drv()
            for key, fn in part:
                mark = len(d.log)
                try:
                    t = fn(d)
                except DriverDied as e:
                    if e.hung:
                        hung.append((key, fn, e))
                        if len(hung) > 3:
                            break
                    else:
                        self._died(key, fn, drv, e)
                    d = drv()
                    continue
                except (KeyError, IndexError, TypeError, ValueError) as e:
                    if not d.failed:
                        raise
                    self.violation({'scenario': str(key), 'complaint': 'a call failed that must not: ' + str(d.failed),
                                    'detail': repr(e), 'commands': d.log[mark:][-60:]})
                if t is None:
                    continue
                traces.append(t)
                keys.append((key, fn, d.log[mark:]))
            d.close()
            if not traces:
                continue
            r, bad = tlc.validate(module, traces, constants=constants, invariants=invariants)
            self.states += r.distinct
            self.transitions += r.generated
            if bad is not None:
                self._rejected(module, constants, drv, keys[bad], traces[bad], r, reruns, invariants)
            self.traces += len(traces)
            self.events += sum(len(t) for t in traces)
            if len(self.samples) < 2:
                t = min(traces, key=lambda t: len(json.dumps(t)))
                self.samples.append(json.dumps(t)[:1500])
            if len(hung) > 3:
                break
        for key, fn, e in hung:  # a rejected trace says more, so these come last
            self._died(key, fn, drv, e)

    def _died(self, key, fn, drv, e):
        for _ in range(3):
            d = drv()
            try:
                fn(d)
                d.close()
            except DriverDied as e2:
                self.violation({'scenario': str(key), 'complaint': 'the library crashed or hung', 'detail': str(e2),
                                'commands': d.log[-40:]})
                return
        if e.hung:
            self.notes.append('scenario %s ran out of time once, but not when repeated' % key)
            return
        if 'exit status -9' in str(e):  # ended from outside
            die('the driver was ended once but not again in scenario %s: %s' % (key, e))
        self.violation({'scenario': str(key), 'complaint': 'the library crashed or hung (once in four runs)', 'detail': str(e)})

    def _rejected(self, module, constants, drv, key, trace, r, reruns, invariants):
        k, fn, log = key
        if r.violated == 'Sound':
            die('unsound trace (scenario %s): %s\n%s' % (k, r.state, json.dumps(trace)[:3000]))
        info = {'scenario': str(k), 'module': module, 'complaint': r.state.get('why', r.violated),
                'state': {x: y[:400] for x, y in r.state.items()}, 'constants': constants, 'trace': trace, 'commands': log}
        # Once more, to report how often it fails. What was recorded is what the code did either way.
        for n in range(max(1, reruns)):
            d = drv()
            try:
                t2 = fn(d)
                d.close()
            except DriverDied as e:
                info['again'] = 'the library crashed or hung: ' + str(e)
                break
            r2, bad2 = tlc.validate(module, [t2], constants=constants, invariants=invariants)
            if bad2 is not None:
                info['again'] = 'rejected again: ' + str(r2.state.get('why', r2.violated))
                break
        else:
            info['again'] = 'accepted when repeated'
        self.violation(info)

    # -- results ----------------------------------------------------------
    def violation(self, info):
        self.nviol += 1
        os.makedirs(OUT, exist_ok=True)
        p = os.path.join(OUT, '%s-%d.json' % (self.prop, self.nviol))
        with open(p, 'w') as f:
            json.dump(info, f, indent=1)
        print('%s: %s' % (self.prop, str(info.get('complaint'))[:300]))
        print('VIOLATION property=%s replay=%s' % (self.prop, p))
        self.finish()

    def known(self, drv, cases):
        """Runs the listed findings again: cases[id](driver) says whether the case still fails"""
        for key, text in known_findings(self.prop):
            if key not in cases:
                die('known finding %s has no case' % key)
            d = drv()
            if cases[key](d):
                print('KNOWN-FINDING: property=%s id=%s %s' % (self.prop, key, text))
            else:
                self.notes.append('the known finding %s no longer fails' % key)
            d.close()

    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'events_validated': self.events, 'design_models': self.models, 'samples': self.samples or ['-']}
        cov.update(self.counts)
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.prop, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - T0, 1),
              'violations': self.nviol}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if not self.nviol:
            print('%s: ok (%d traces, %d events, %d states, %.0f s)' % (self.prop, self.traces, self.events, self.states,
                                                                      time.time() - T0))
        sys.stdout.flush()
        end_children()
        os._exit(1 if self.nviol else 0)


def rng(*key):
    return random.Random('%d/%s' % (SEED, '/'.join(map(str, key))))


def driver(env=None, limit=60, exe='driver'):
    path = build(exe)
    return lambda: Drv(path, env, limit)


def known_findings(prop):
    r = []
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3).strip()))
    return r
