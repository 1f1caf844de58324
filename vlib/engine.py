"""Runs a check: Hypothesis generates the cases, eight shards in parallel; the
first failure is shrunk, replayed and reported."""
import collections, hashlib, importlib, json, os, pickle, random, select, signal, sys, time, traceback

from . import build

VERIF = build.VERIF
SHARDS = 8


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


class Stats:
    def __init__(self):
        self.n = 0
        self.distinct = set()
        self.labels = collections.Counter()
        self.samples = []
        self.unconfirmed = 0
        self.unconf_msgs = []

    def add(self, case, nontrivial, labels):
        self.n += 1
        h = hashlib.md5(canon(case).encode()).digest()[:8]
        if nontrivial and h not in self.distinct:
            self.distinct.add(h)
            if len(self.samples) < 2 and self.n > 20:
                self.samples.append(case)
        for l in labels:
            self.labels[l] += 1

    def merge(self, o):
        self.n += o.n
        self.distinct |= o.distinct
        self.labels.update(o.labels)
        self.samples += o.samples
        self.unconfirmed += o.unconfirmed
        self.unconf_msgs += o.unconf_msgs


class Check:
    """Base class. Subclasses define:
    id, title, rule, quick, thorough (numbers of cases), strategy(tier),
    run(case) -> (message or None, nontrivial, labels)"""
    level = 'exploration'
    quick = 2000
    thorough = 40000
    shrink_s = 40
    retries = 3          # every one of them has to fail
    needs = 3
    shrink_tries = 1     # runs of a candidate while shrinking
    assumptions = []

    def setup(self):
        pass

    def strategy(self, tier):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def fixed(self):
        """cases every run starts with"""
        return []

    def extra(self):
        return {}


class Found(Exception):
    pass


def judge(check, case):
    """run the case; one for a flavour that was not built runs in the usual one"""
    exe = getattr(check, 'exe', None)
    if exe and isinstance(case, dict) and isinstance(case.get('flavour'), str) and case['flavour'] not in exe:
        if case['flavour'] == 'fast':
            return None, False, {'not built'}
        near = case['flavour'].split('_')[0]
        case = dict(case, flavour=near if near in exe else 'static')
    return check.run(case)


def confirmed(check, case):
    """does it fail again?"""
    bad = 1
    for i in range(check.retries):
        bad += bool(judge(check, case)[0])
        if bad >= check.needs:
            return True
    return False


def shard(check, tier, seed, k, n, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    st = Stats()
    best = [None, None]
    first = [None, None]
    t_first = [0.0]
    seen_bad = {}

    def one(case):
        if best[0] is None:
            if time.monotonic() > deadline:
                return
        else:
            if time.monotonic() - t_first[0] > check.shrink_s:
                return
            c = canon(case)
            if c in seen_bad:
                raise Found(seen_bad[c])
        msg, nontrivial, labels = judge(check, case)
        if best[0] is None:
            st.add(case, nontrivial, labels)
            if msg and not confirmed(check, case):
                st.unconfirmed += 1
                st.unconf_msgs.append(msg)
                return
        else:
            for _ in range(check.shrink_tries - 1):
                if not msg:
                    msg, nontrivial, labels = judge(check, case)
        if msg:
            if best[0] is None:
                t_first[0] = time.monotonic()
                first[:] = [case, msg]
            c = canon(case)
            seen_bad[c] = msg
            if best[0] is None or len(c) <= len(canon(best[0])):
                best[0], best[1] = case, msg
            raise Found(msg)

    fixed = check.fixed()
    try:
        for i, c in enumerate(fixed):
            if i % SHARDS == k:
                one(c)
        if n > 0:
            f = hypothesis.seed(seed * 1000 + k)(
                settings(max_examples=n, database=None, deadline=None,
                         phases=[Phase.generate, Phase.shrink],
                         suppress_health_check=list(HealthCheck),
                         report_multiple_bugs=False, print_blob=False,
                         verbosity=hypothesis.Verbosity.quiet)(given(check.strategy(tier))(one)))
            f()
    except build.BuildError:
        raise
    except BaseException as e:
        if best[0] is None:
            raise
    return st, best[0], best[1], first[0], first[1]


def run_check(check, tier, seed):
    t0 = time.monotonic()
    check.tier = tier
    check.setup()
    total = check.thorough if tier == 'thorough' else check.quick
    limit = 3 * 3600 if tier == 'thorough' else 420
    deadline = t0 + limit
    kids = {}
    for k in range(SHARDS):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            try:
                try:
                    n = total // SHARDS + (1 if k < total % SHARDS else 0)
                    res = ('ok',) + shard(check, tier, seed, k, n, deadline)
                except BaseException:
                    res = ('error', traceback.format_exc())
                data = pickle.dumps(res)
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        kids[r] = [pid, b'']
    stats = Stats()
    fails, errors = [], []
    fail_t = None
    while kids:
        rl, _, _ = select.select(list(kids), [], [], 1.0)
        for r in rl:
            b = os.read(r, 1 << 20)
            if b:
                kids[r][1] += b
                continue
            os.close(r)
            pid, data = kids.pop(r)
            os.waitpid(pid, 0)
            if not data:
                errors.append('a shard died')
                continue
            res = pickle.loads(data)
            if res[0] == 'error':
                errors.append(res[1])
                continue
            stats.merge(res[1])
            if res[2] is not None:
                fails += [(res[2], res[3]), (res[4], res[5])]
                fail_t = fail_t or time.monotonic()
        if fails and (time.monotonic() - fail_t > 5 or not kids):
            for r, (pid, _) in list(kids.items()):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(r)
            kids = {}
    viol = None
    for case, msg in sorted(fails, key=lambda f: len(canon(f[0]))):
        bad = 0
        for _ in range(check.retries):
            m, _, _ = judge(check, case)
            if m:
                bad += 1
                msg = m
            if bad >= check.needs:
                break
        if bad >= check.needs:
            viol = (case, msg)
            break
    if fails and not viol:
        # it failed more than once where it was found
        viol = min(fails[1::2], key=lambda f: len(canon(f[0])))
    evidence(check, tier, seed, stats, t0, 1 if viol else 0)
    for l in check.known_lines() if hasattr(check, 'known_lines') else []:
        print(l)
    if viol:
        os.makedirs(VERIF + '/replays', exist_ok=True)
        p = '%s/replays/%s-%s.json' % (VERIF, check.id, hashlib.md5(canon(viol[0]).encode()).hexdigest()[:10])
        with open(p, 'w') as f:
            json.dump({'property': check.id, 'case': viol[0], 'message': viol[1]}, f, indent=1)
        print('%s: %s' % (check.id, viol[1]))
        print('case: ' + canon(viol[0])[:2000])
        print('VIOLATION property=%s replay=%s' % (check.id, p))
        return 1
    if errors:
        print('%d shards failed; the first: %s' % (len(errors), errors[0][-1500:]), file=sys.stderr)
        return 2
    for m in stats.unconf_msgs[:3]:
        print('not confirmed: ' + m[:300])
    print('%s: held on %d cases (%d distinct non-trivial) in %.1f s' %
          (check.id, stats.n, len(stats.distinct), time.monotonic() - t0))
    return 0


def evidence(check, tier, seed, stats, t0, nviol):
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    cov = {'evaluations': stats.n, 'distinct_nontrivial': len(stats.distinct), 'rule': check.rule,
           'samples': stats.samples[:4] or ['none'],
           'classes': dict(sorted(stats.labels.items()))}
    if stats.unconfirmed:
        cov['unconfirmed_failures'] = [m[:300] for m in stats.unconf_msgs[:20]]
    cov.update(check.extra())
    d = {'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level, 'coverage': cov,
         'assumptions': check.assumptions, 'wall_s': round(time.monotonic() - t0, 2), 'violations': nviol}
    p = VERIF + '/evidence/%s.json' % check.id
    with open(p + '.tmp', 'w') as f:
        json.dump(d, f, indent=1)
    os.replace(p + '.tmp', p)


def replay(check, path):
    check.tier = 'quick'
    check.setup()
    case = json.load(open(path))['case']
    bad = 0
    for _ in range(check.retries):
        m, _, _ = judge(check, case)
        if m:
            bad += 1
            print(m)
    if bad >= check.needs:
        print('VIOLATION property=%s replay=%s' % (check.id, path))
        return 1
    print('%s: %d of %d replays failed' % (check.id, bad, check.retries))
    return 0


def main(argv):
    cid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    mod = importlib.import_module('checks.' + cid.lower())
    check = mod.CHECK()
    check.tier = tier
    # nothing of the caller's DUMA settings may leak into a case
    for k in list(os.environ):
        if k.startswith('DUMA_') or k == 'LD_PRELOAD':
            del os.environ[k]
    try:
        if '--replay' in argv:
            return replay(check, argv[argv.index('--replay') + 1])
        return run_check(check, tier, seed)
    except build.BuildError as e:
        print('build failed: %s' % e, file=sys.stderr)
        return 2
    finally:
        build.prune()
