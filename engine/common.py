import json, os, signal, sys, time
import build

VERIF = build.VERIF


class limit:
    """raises interp.Budget in the block after so many seconds (blocks nest)"""
    stack = []

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        limit.stack.append((time.time() + self.seconds, os.getpid()))
        self.arm()

    def __exit__(self, *a):
        limit.stack.pop()
        self.arm()

    @staticmethod
    def arm():
        ds = [d for d, pid in limit.stack if pid == os.getpid()]
        signal.signal(signal.SIGALRM, limit.fire)
        signal.setitimer(signal.ITIMER_REAL, max(0.01, min(ds) - time.time()) if ds else 0)

    @staticmethod
    def fire(*a):
        from interp import Budget
        signal.setitimer(signal.ITIMER_REAL, 1)     # again, should the exception get lost
        raise Budget('time is up')


def _job(i):
    return _FN(_JOBS[i])


def pmap(fn, jobs, procs=8, chunk=None):
    """fn over jobs in forked worker processes; results in order"""
    global _FN, _JOBS
    _FN, _JOBS = fn, jobs
    if len(jobs) < 4:
        return [fn(j) for j in jobs]
    import multiprocessing
    with multiprocessing.get_context('fork').Pool(min(procs, len(jobs))) as p:
        return p.map(_job, range(len(jobs)), chunksize=chunk or max(1, len(jobs) // (procs * 8)))


class Check:
    """one property's run: collects violations, writes evidence, prints the verdict"""

    def __init__(self, pid, rule):
        self.pid, self.rule = pid, rule
        self.t0 = time.time()
        self.viol = []          # (construct, message)
        self.obl = 0
        self.disch = 0
        self.undet = []
        self.cov = {}
        self.samples = []
        self.assume = []
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    def violation(self, construct, msg):
        if (construct, msg) not in self.viol:
            self.viol.append((construct, msg))

    def ok(self, n=1):
        self.obl += n
        self.disch += n

    def unknown(self, construct, why):
        self.obl += 1
        if len(self.undet) < 200:
            self.undet.append('%s: %s' % (construct, why))

    def bad(self, construct, msg):
        self.obl += 1
        self.violation(construct, msg)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def known(self):
        p = os.path.join(VERIF, 'known-findings.json')
        if not os.path.exists(p):
            return []
        return [f for f in json.load(open(p)).get('findings', []) if f.get('property') == self.pid and f.get('status') == 'open']

    def finish(self, extra=None):
        known = self.known()
        news = []
        for c, m in self.viol:
            hit = [k for k in known if k.get('construct') == c and (k.get('match') or '') in m]
            if hit:
                hit[0]['_seen'] = True
                print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, c, hit[0].get('what') or m))
            else:
                news.append((c, m))
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': dict({
                'explanation': self.rule,
                'obligations': self.obl, 'discharged': self.disch, 'undetermined': len(self.undet),
                'undetermined_items': self.undet[:40],
                'samples': self.samples[:12],
            }, **self.cov),
            'assumptions': self.assume,
            'violations': len(news),
            'wall_s': round(time.time() - self.t0, 3),
        }
        if extra:
            ev['coverage'].update(extra)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        txt = json.dumps(ev, indent=1)
        while len(txt) > 60000 and ev['coverage']['samples']:
            ev['coverage']['samples'].pop()
            ev['coverage']['undetermined_items'] = ev['coverage']['undetermined_items'][:10]
            txt = json.dumps(ev, indent=1)
        with open(p, 'w') as f:
            f.write(txt)
        if news:
            rd = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.pid + '.txt')
            with open(rp, 'w') as f:
                for c, m in news:
                    f.write('%s: %s\n' % (c, m))
            for c, m in news[:20]:
                print('%s: %s' % (c, m))
            if len(news) > 20:
                print('... and %d more (see %s)' % (len(news) - 20, rp))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('%s: held on %d obligations (%d undetermined) in %.1fs' % (self.pid, self.disch, len(self.undet), ev['wall_s']))
        return 0
