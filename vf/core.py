"""The frame of a check: runs scenarios, validates traces, confirms rejections, writes evidence."""
import os, sys, json, time, random, traceback, multiprocessing, shutil, re
from concurrent.futures import ThreadPoolExecutor
from . import build, tlc

KNOWN = os.path.join(build.VERIF, 'known_findings.txt')
_SC, _RUN = [], None

def _worker(i):
    try:
        return i, _RUN(_SC[i]), None
    except Exception:
        return i, None, traceback.format_exc()

class HarnessError(Exception):
    pass

def pool_run(fn, scs, procs=8, budget=400, maxhang=16):
    """Run fn on every scenario in forked workers (scenarios may hold closures). Stops early, leaving None, when
    the time budget is used up or when many runs hung."""
    global _SC, _RUN
    _SC, _RUN = scs, fn
    out = [None] * len(scs)
    if not scs:
        return out
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(procs, len(scs))) as p:
        t, hangs = time.time(), 0
        it = p.imap_unordered(_worker, range(len(scs)), chunksize=1)
        for _ in scs:
            try:
                i, r, e = it.next(timeout=max(1, t + budget - time.time()))
            except multiprocessing.TimeoutError:
                break
            if e:
                raise HarnessError(e)
            out[i] = r
            hangs += bool(r.get('hang'))
            if hangs >= maxhang:
                break
        p.terminate()
    return out

def spread(scs, traces):
    out = [(s, x) for s, t in zip(scs, traces) for x in t.get('many', [t])]
    return [s for s, _ in out], [x for _, x in out]

SCALE = float(os.environ.get('VF_SCALE', '2'))

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(seed * 1000003 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = self.steps = 0
        self.models, self.samples, self.viol, self.known = [], [], [], []
        self.covered = {}
        self.corrupted = 0
        self.assumptions = []
        self.findings = []
        if os.path.exists(KNOWN):
            for ln in open(KNOWN):
                m = re.match(r'open: property=(\S+) signature=/(.*)/ (.*)$', ln.strip())
                if m and m.group(1) == pid:
                    self.findings.append({'signature': m.group(2), 'what': m.group(3)})

    @property
    def thorough(self):
        return self.tier == 'thorough'
    def n(self, quick, thorough):
        if self.thorough:
            return thorough
        if isinstance(quick, int) and quick >= 20:     # repetitions
            return min(thorough, int(quick * SCALE))
        return quick
    def log(self, *a):
        print('[%s %5.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    def model(self, module, cfg=None, **kw):
        r = tlc.must_hold(module, cfg, **kw)
        self.models.append({'module': module, 'cfg': r['cfg'], 'states': r['states'], 'transitions': r['transitions']})
        self.states += r['states']
        self.transitions += r['transitions']
        self.log('model %s (%s): %d states, %d transitions' % (module, r['cfg'], r['states'], r['transitions']))
        return r

    def cover(self, what, n=1):
        self.covered[what] = self.covered.get(what, 0) + n

    def violation(self, what, replay):
        d = os.path.join(build.VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, '%s-%d.json' % (self.pid, len(self.viol) + 1))
        with open(f, 'w') as h:
            json.dump({'property': self.pid, 'what': what, 'replay': replay}, h, indent=1, default=str)
        self.viol.append((what, f))

    def match_known(self, sig):
        for k in self.findings:
            if re.search(k['signature'], sig):
                return k
        return None

    def conform(self, module, scs, runner, sig=None, corrupt=None, procs=8, chunk=400, label='', maxhang=16):
        """Run scenarios, validate their traces, confirm what is rejected by running it again."""
        t = time.time()
        traces = pool_run(runner, scs, procs, maxhang=maxhang)
        if None in traces:
            self.cover('scenarios not run', traces.count(None))
            scs = [x for x, y in zip(scs, traces) if y is not None]
            traces = [y for y in traces if y is not None]
            if not traces:
                raise HarnessError('nothing could be run')
        # a scenario may give several recordings (of things that happen at the same time)
        scs, traces = spread(scs, traces)
        self.log('%s: %d runs in %.1fs' % (label or module, len(scs), time.time() - t))
        t = time.time()
        rej, st = tlc.validate(module, traces, chunk=chunk)
        self.log('%s: validated %d traces (%d states) in %.1fs, %d rejected' % (label or module, len(traces), st['states'], time.time() - t, len(rej)))
        self.states += st['states']
        self.transitions += st['transitions']
        if rej:
            idx = list({id(scs[i]): i for i in sorted(rej, reverse=True)}.values())[::-1][:40 if maxhang >= 16 else 12]
            idx = [i for i in idx for _ in range(scs[i].get('tries', 1))]
            again = [dict(scs[i]) for i in idx]
            tr2 = pool_run(runner, again, procs, maxhang=1000 if maxhang >= 16 else maxhang)
            idx = [x for x, y in zip(idx, tr2) if y is not None]
            tr2 = [y for y in tr2 if y is not None]
            idx, tr2 = spread(idx, tr2)
            rej2, _ = tlc.validate(module, tr2, chunk=chunk)
            done = {i for j, i in enumerate(idx) if j in rej2}
            for j, i in enumerate(idx):
                if j not in rej2:
                    if i in done:
                        continue
                    self.log('not repeated:', scs[i].get('name'))
                    self.cover('rejection not repeated')
                    continue
                info, tr = rej2[j], tr2[j]
                at = tr['ev'][info['l'] - 1] if info['l'] else None
                s = '%s | %s' % (scs[i].get('name', ''), sig(tr, info) if sig else '')
                k = self.match_known(s)
                if k:
                    if k['what'] not in self.known:
                        self.known.append(k['what'])
                    continue
                if os.environ.get('VF_SHOW'):
                    self.log('REJECT', s[:int(os.environ['VF_SHOW'])], '| expected', json.dumps(info.get('expected'))[:200])
                if len(self.viol) < 5:
                    self.violation('%s: step %s not allowed by %s: %s' % (s, info['l'], module, json.dumps(at)[:600]),
                                   {'scenario': scs[i].get('name'), 'log': tr.get('log'), 'rejected_event': at, 'expected': info.get('expected'),
                                    'state': info.get('s'), 'trace': tr})
        good = [tr for i, tr in enumerate(traces) if i not in rej]
        self.traces += len(good)
        self.steps += sum(len(t['ev']) for t in good)
        for tr in good[:2]:
            if len(self.samples) < 6:
                self.samples.append({'name': tr.get('name'), 'steps': tr.get('log', [])[:12]})
        # the binding itself: damaged recordings have to be rejected
        if corrupt and good and not self.viol:
            bad = []
            for tr in self.rng.sample(good, min(len(good), 12)):
                b = corrupt(json.loads(json.dumps(tr)), self.rng)
                if b:
                    bad.append(b)
            if bad:
                rj, _ = tlc.validate(module, bad, chunk=chunk)
                if len(rj) != len(bad):
                    miss = [bad[i] for i in range(len(bad)) if i not in rj]
                    raise HarnessError('%s accepted a damaged recording: %s' % (module, json.dumps(miss[0])[:1500]))
                self.corrupted += len(bad)
        return traces, rej

    def finish(self, level='model_checking'):
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'trace_steps': self.steps, 'models': self.models, 'damaged_recordings_rejected': self.corrupted,
               'cases': self.covered, 'samples': self.samples or ['none']}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        d = os.path.join(build.VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for what, f in self.viol:
            print(what[:1200])
            print('VIOLATION property=%s replay=%s' % (self.pid, f))
        self.log('done: %d traces, %d violations' % (self.traces, len(self.viol)))
        return 1 if self.viol else 0
