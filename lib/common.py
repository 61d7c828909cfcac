"""Runner shared by the checks: findings, known findings, evidence, exit codes."""
import os, sys, json, time, re, traceback, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
from ir import REPO, CheckError

KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.repo = REPO
        self.findings = {}
        self.cov = {}
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.explanation = ''
        self.min_counts = {}

    def finding(self, key, msg, loc='', **kw):
        """key: stable identity (no line numbers) of the violating construct"""
        if key not in self.findings:
            self.findings[key] = dict(key=key, message=msg, location=loc, **kw)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s, limit=12):
        if len(self.samples) < limit: self.samples.append(s)

    def need(self, name, least):
        """an analysis that saw fewer than `least` instances has lost its subject: error, not silence"""
        self.min_counts[name] = least


def known_keys(pid):
    ks = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known:\s+property=(\S+)\s+key=(\S+)\s*(.*)', l)
            if m and m.group(1) == pid: ks[m.group(2)] = m.group(3).strip()
    return ks


def run(pid, fn, rule, assumptions=()):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    t0 = time.time()
    ctx = Ctx(pid, tier)
    ev = os.path.join(VERIF, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    try:
        fn(ctx)
        for k, n in ctx.min_counts.items():
            if ctx.counts.get(k, 0) < n and not set(ctx.findings) - set(known_keys(pid)):
                raise CheckError('only %d %s found (at least %d expected): the analysis lost its subject' % (ctx.counts.get(k, 0), k, n))
    except CheckError as e:
        print('ERROR property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s internal error' % pid)
        return 2
    known = known_keys(pid)
    viol = []
    for k in sorted(ctx.findings):
        f = ctx.findings[k]
        if k in known:
            print('KNOWN-FINDING: property=%s %s (%s) %s' % (pid, f['message'], f['location'], k))
        else:
            viol.append(f)
    rc = 0
    if viol:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        for n, f in enumerate(viol):
            p = os.path.join(rd, '%s-%d.json' % (pid, n))
            with open(p, 'w') as fh: json.dump(f, fh, indent=1, default=str)
            print('  %s: %s  [key=%s]' % (f['location'], f['message'], f['key']))
            print('VIOLATION property=%s replay=%s' % (pid, p))
        rc = 1
    nob = sum(ctx.counts.values())
    cov = dict(evaluations=nob, distinct_nontrivial=ctx.counts.get('obligations', nob), rule=rule, samples=ctx.samples or ['-'],
               explanation=rule, counts=ctx.counts, known_findings=sorted(k for k in ctx.findings if k in known),
               analysed_tree=ctx.repo)
    cov.update(ctx.cov)
    doc = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, assumptions=list(assumptions) + ctx.assumptions,
               wall_s=round(time.time() - t0, 3), violations=len(viol))
    with open(ev, 'w') as fh: json.dump(doc, fh, indent=1, default=str)
    print('%s: %d violation(s), %d known; %s; %.1fs' % (pid, len(viol), len(ctx.findings) - len(viol), ctx.counts, time.time() - t0))
    return rc


def main(pid, fn, rule, assumptions=()):
    sys.exit(run(pid, fn, rule, assumptions))
