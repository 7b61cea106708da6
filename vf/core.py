"""Check driver: cases -> worker processes -> verdict, evidence, replay file."""
import argparse, collections, contextlib, hashlib, importlib, io, json, multiprocessing as mp
import os, queue as queue_mod, shutil, sys, tempfile, time, traceback, zlib
import numpy as np
from . import env

EVID = os.path.join(env.VERIF, 'evidence')
NWORK = int(os.environ.get('VF_WORKERS', 8))
QUICK_S = float(os.environ.get('VF_QUICK_S', 12))
THOROUGH_S = float(os.environ.get('VF_THOROUGH_S', 240))
HARD_S = {'quick': 400., 'thorough': 780.}

class Case(object):
    """One workload execution with the oracles' findings on it."""
    def __init__(self, pid, seed, index, kind, tier, mon, tmp):
        self.pid, self.seed, self.index, self.kind, self.tier, self.mon = pid, seed, index, kind, tier, mon
        self.rng = np.random.default_rng([seed, zlib.crc32(pid.encode()), index])
        self.tmp = tmp
        self.violations, self.known, self.sigs = [], collections.OrderedDict(), []
        self.stats = collections.Counter()
        self.desc = {}
        self.checks = 0
        self.margin = {}

    def ok(self, cond, what, **data):
        self.checks += 1
        self.stats['oracle:' + what.split(':')[0]] += 1
        if not cond:
            self.violations.append(dict(what=what, data={k: short(v) for k, v in data.items()}))
        return bool(cond)

    def close(self, K, R, what, tol=1e-7, scale=None, **data):
        """Entrywise |K-R| <= tol*sqrt(s_p*s_q) with s the diagonal scale of R (or `scale`)."""
        K = np.asarray(K); R = np.asarray(R)
        if K.shape != R.shape:
            return self.ok(False, what, why='shape %s, expected %s' % (K.shape, R.shape), **data)
        if not np.all(np.isfinite(K)):
            return self.ok(False, what, why='non-finite result', **data)
        s = scale if scale is not None else dof_scale(R)
        lim = tol*s
        err = np.abs(K - R)
        bad = err > lim
        if err.size:
            m = float((err/np.maximum(lim, 1e-300)).max())
            k = what.split(':')[0]
            if m > self.margin.get(k, (0.,))[0]:
                self.margin[k] = (m, self.index)
        if bad.any():
            p = np.unravel_index(np.argmax(np.where(bad, err/np.where(lim > 0, lim, 1e-300), 0)), K.shape)
            return self.ok(False, what, entry=[int(i) for i in p], got=K[p].item() if np.isrealobj(K) else str(K[p]), expected=R[p].item() if np.isrealobj(R) else str(R[p]),
                           limit=float(lim[p] if np.ndim(lim) else lim), n_bad=int(bad.sum()), **data)
        return self.ok(True, what)

    def sig(self, *parts):
        """Register a distinct non-trivial input."""
        h = hashlib.sha1()
        for p in parts:
            if isinstance(p, np.ndarray):
                h.update(np.ascontiguousarray(p).tobytes()); h.update(str(p.shape).encode())
            else:
                h.update(repr(p).encode())
        self.sigs.append(h.hexdigest()[:16])

    def note(self, **kw):
        self.desc.update({k: short(v, 400) for k, v in kw.items()})

    def finding(self, fid, text):
        self.known[fid] = text

def dof_scale(R):
    d = np.sqrt(np.abs(np.diag(R)))
    s = np.outer(d, d)
    # rows with a zero diagonal: judged against the largest entry, at a tighter level
    return np.maximum(s, 1e-5*np.abs(R).max() if R.size else 0)

def short(v, n=300):
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (np.floating, np.integer)):
        v = v.item()
    if isinstance(v, (int, float, bool)) or v is None:
        return v
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + '...'

def load_check(pid):
    return importlib.import_module('vf.p_' + pid.lower())

def kinds_of(mod, tier):
    plan = []
    for k, w in mod.KINDS:
        plan.append((k, w))
    # smooth weighted round robin so that every kind comes early
    cur = {k: 0. for k, _ in plan}
    out = [k for k, _ in plan]
    tot = sum(w for _, w in plan)
    for _ in range(400):
        for k, w in plan:
            cur[k] += w
        b = max(cur, key=lambda k: cur[k])
        cur[b] -= tot
        out.append(b)
    return out

def run_case(mod, pid, seed, index, tier, mon, plan, only_kind=None):
    kind = only_kind or plan[index if index < len(plan) else index % len(plan)]
    tmp = tempfile.mkdtemp(prefix='vf_')
    cwd = os.getcwd()
    c = Case(pid, seed, index, kind, tier, mon, tmp)
    err = None
    try:
        os.chdir(tmp)
        mon.reset_subscribers()
        try:
            getattr(mod, 'case_' + kind)(c)
        except Exception as e:
            frames = traceback.extract_tb(e.__traceback__)
            rp = os.path.realpath(env.REPO) + os.sep
            inrepo = [f for f in frames if os.path.realpath(f.filename).startswith(rp)]
            text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
            if inrepo:
                c.ok(False, 'no exception on valid input', error=repr(e),
                     at='%s:%s' % (inrepo[-1].filename, inrepo[-1].lineno))
            else:
                err = text
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    return c, err

def worker(pid, seed, tier, w, n, limit, q, maxcases):
    try:
        np.seterr(all='ignore')
        import warnings
        warnings.simplefilter('ignore')
        devnull = open(os.devnull, 'w')
        sys.stdout = devnull
        mod = load_check(pid)
        from .monitor import Monitor
        mon = Monitor().install(helpers=getattr(mod, 'HELPERS', False))
        plan = kinds_of(mod, tier)
        nk = len(mod.KINDS)
        t0 = time.time()
        tot = dict(cases=0, checks=0, stats=collections.Counter(), kinds=collections.Counter(), sigs=set(),
                   samples={}, margin={}, violations=[], known={}, errors=[], cases_s=0.)
        i = w
        while i < maxcases:
            el = time.time() - t0
            if el > limit and (i >= max(nk, getattr(mod, 'MIN_CASES', nk)) or el > HARD_S[tier]):
                break
            c, err = run_case(mod, pid, seed, i, tier, mon, plan)
            tot['cases'] += 1
            tot['checks'] += c.checks
            tot['stats'].update(c.stats)
            tot['kinds'][c.kind] += 1
            tot['sigs'].update(c.sigs)
            tot['known'].update(c.known)
            for k, m in c.margin.items():
                if m[0] > tot['margin'].get(k, (0.,))[0]:
                    tot['margin'][k] = m
            if c.kind not in tot['samples'] and c.desc:
                tot['samples'][c.kind] = dict(c.desc, case=i, workload=c.kind)
            if err:
                tot['errors'].append(dict(case=i, kind=c.kind, error=err[-1500:]))
                if len(tot['errors']) > 3:
                    break
            if c.violations:
                tot['violations'].append(dict(case=i, kind=c.kind, desc=c.desc, findings=c.violations[:5]))
                if len(tot['violations']) >= 3:
                    break
            i += n
        tot['events'] = dict(mon.counts)
        tot['exceptions_seen'] = dict(mon.excs)
        tot['fp_flags'] = dict(mon.fpcounts)
        q.put(tot)
    except BaseException:
        q.put(dict(fatal=traceback.format_exc()))

def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--case', type=int)
    a = ap.parse_args(argv)
    pid, tier = a.pid, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    if a.replay:
        r = json.load(open(a.replay))
        return replay(r['property'], r['seed'], [v['case'] for v in r['violations']], r['tier'])
    if a.case is not None:
        return replay(pid, a.seed, [a.case], tier)
    t0 = time.time()
    mod = load_check(pid)
    limit = QUICK_S if tier == 'quick' else THOROUGH_S
    limit = limit*getattr(mod, 'TIME_FACTOR', 1.)
    maxcases = getattr(mod, 'MAX_CASES', {}).get(tier, 10**9)
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    ps = [ctx.Process(target=worker, args=(pid, a.seed, tier, w, NWORK, limit, q, maxcases)) for w in range(NWORK)]
    for p in ps:
        p.start()
    res, dead = [], None
    while len(res) < NWORK:
        try:
            res.append(q.get(timeout=1.0))
            dead = None
        except queue_mod.Empty:
            if not any(p.is_alive() for p in ps):
                if dead is None:
                    dead = time.time()
                elif time.time() - dead > 5:
                    break
            if time.time() - t0 > HARD_S[tier] + 45:
                break
    for p in ps:
        if p.is_alive():
            p.join(2)
        if p.is_alive():
            p.kill()
    fatals = [r['fatal'] for r in res if 'fatal' in r]
    ended = NWORK - len(res)
    res = [r for r in res if 'fatal' not in r]
    return finish(pid, mod, tier, a.seed, res, fatals, ended, t0)

def finish(pid, mod, tier, seed, res, fatals, ended, t0):
    known_list = json.load(open(os.path.join(env.VERIF, 'known_findings.json')))['findings']
    listed = {k['id']: k for k in known_list if k['status'] == 'known' and pid in k['properties']}
    stats, kinds, events, excs, fp = [collections.Counter() for _ in range(5)]
    sigs, known, samples, viol, errors = set(), {}, {}, [], []
    checks = cases = 0
    margin = {}
    for r in res:
        for k, m in r['margin'].items():
            margin[k] = max(margin.get(k, (0.,)), m)
        stats.update(r['stats']); kinds.update(r['kinds']); events.update(r['events'])
        excs.update(r['exceptions_seen']); fp.update(r['fp_flags'])
        sigs |= r['sigs']; known.update(r['known']); viol += r['violations']; errors += r['errors']
        for k, v in r['samples'].items():
            samples.setdefault(k, v)
        checks += r['checks']; cases += r['cases']
    for f, text in known.items():
        if f not in listed:
            viol.append(dict(case=-1, kind='finding', desc={}, findings=[dict(what='unlisted finding ' + f, data=dict(text=text))]))
    viol.sort(key=lambda v: v['case'])
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(evaluations=checks, distinct_nontrivial=len(sigs),
            rule=mod.RULE, samples=[samples[k] for k in sorted(samples)][:12],
            workload_executions=cases, executions_by_workload=dict(kinds),
            monitored_calls=dict(events), exceptions_observed=dict(excs), fp_flags_observed=dict(fp),
            oracle_evaluations={k[7:]: v for k, v in stats.items() if k.startswith('oracle:')},
            observed={k: v for k, v in stats.items() if not k.startswith('oracle:')},
            largest_share_of_tolerance_used={k: float('%.2g' % m[0]) for k, m in sorted(margin.items(), key=lambda x: -x[1][0])[:15]},
            known_findings_observed=sorted(known), exhaustive=False),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, pid + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + '.tmp', path)
    if os.environ.get('VF_MARGIN'):
        for k, m in sorted(margin.items(), key=lambda x: -x[1][0])[:4]:
            print('MARGIN %s %.2e case %d %s' % (pid, m[0], m[1], k[:90]))
    for fid in sorted(listed):
        if fid in known:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, fid, known[fid]))
    if viol:
        rp = os.path.join(EVID, 'replay_%s.json' % pid)
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, seed=seed, tier=tier, violations=viol[:10],
                how='/verif/run.py %s --replay %s' % (pid, rp)), f, indent=1, default=str)
        v = viol[0]
        for x in v['findings'][:3]:
            print('case %s (%s): %s %s' % (v['case'], v['kind'], x['what'], json.dumps(x['data'], default=str)))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if errors or fatals or ended:
        for e in errors[:2]:
            print('harness error in case %(case)s (%(kind)s): %(error)s' % e)
        for f in fatals[:2]:
            print(f)
        if ended:
            print('%d workers ended without a result' % ended)
        return 2
    missing = [k for k, _ in mod.KINDS if not kinds[k]]
    need = [n for n in getattr(mod, 'NEED_EVENTS', ()) if not events[n]]
    if missing or need or not checks or not sigs:
        print('no answer: workloads not run %s, calls not observed %s' % (missing, need))
        return 2
    print('%s held: %d executions, %d oracle evaluations, %d distinct inputs, calls %s, %.1f s' % (
        pid, cases, checks, len(sigs), dict(events), time.time() - t0))
    return 0

def replay(pid, seed, cases, tier):
    np.seterr(all='ignore')
    import warnings
    warnings.simplefilter('ignore')
    mod = load_check(pid)
    from .monitor import Monitor
    mon = Monitor().install(helpers=getattr(mod, 'HELPERS', False))
    plan = kinds_of(mod, tier)
    rc = 0
    for i in cases:
        c, err = run_case(mod, pid, seed, i, tier, mon, plan)
        print('case %d kind %s checks %d desc %s' % (i, c.kind, c.checks, json.dumps(c.desc, default=str)))
        for v in c.violations:
            print('  ', v['what'], json.dumps(v['data'], default=str))
        for f, t in c.known.items():
            print('   known', f, t)
        if err:
            print(err)
            rc = max(rc, 2)
        if c.violations:
            rc = 1
    if rc == 1:
        print('VIOLATION property=%s replay=case' % pid)
    return rc
