"""Choice-sequence property-based testing: generation, shrinking, replay, evidence.

A case is a pure function of (seed, stream, case number): all of its randomness is drawn
through Src, which records every draw, so a failing case is its list of draws.  Shrinking
deletes and lowers draws; a replay file holds the shrunk draws and what was observed."""
import hashlib, importlib, json, multiprocessing as mp, os, queue, random, resource, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import build as builder
from driver import Server, MemServer, ServerDied

WORKERS = int(os.environ.get('PSE_WORKERS', '0')) or min(8, os.cpu_count() or 1)


class Fail(Exception):
    """The property is violated.  key identifies the root cause for the known-findings file."""
    def __init__(self, msg, key='', redirect=None, **detail):
        super().__init__(msg)
        self.msg, self.key, self.detail = msg, key, detail
        self.redirect = redirect        # (stream, draws) of a simpler case that shows the same


class Skip(Exception):
    """The case decides nothing (behaviour the properties leave open, or inconclusive run)."""
    def __init__(self, why='skip'):
        super().__init__(why)
        self.why = why


class Src:
    """Source of recorded choices."""
    def __init__(self, rng=None, draws=None):
        self.rng, self.rec, self.src, self.pos = rng, [], draws, 0

    def n(self, k):
        """integer in [0,k); 0 is the simplest"""
        if k <= 1:
            return 0
        if self.src is None:
            v = int(self.rng.random() * k) if k < 1 << 40 else self.rng.randrange(k)
        elif self.pos < len(self.src):
            v = self.src[self.pos]
            if v >= k:
                v %= k
        else:
            v = 0
        self.pos += 1
        self.rec.append(v)
        if self.pos > 2000000:
            raise Skip('too many draws')
        return v

    def int(self, lo, hi):
        return lo + self.n(hi - lo + 1)

    def pick(self, seq):
        return seq[self.n(len(seq))]

    def chance(self, num, den=100):
        """True with probability num/den; shrinks to False"""
        return self.n(den) >= den - num

    def weighted(self, pairs):
        """pairs of (weight, value); shrinks to the first"""
        tot = 0
        for w, _ in pairs:
            tot += w
        x = self.n(tot)
        for w, v in pairs:
            if x < w:
                return v
            x -= w
        return pairs[-1][1]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.n(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]


class Env:
    """What a case gets: the interpreter builds and counters."""
    def __init__(self, exes, tier):
        self.exes, self.tier, self.servers = exes, tier, {}
        self.force = None
        self.runs = 0
        self.case_reset()

    def case_reset(self):
        self.classes, self.nontrivial, self.digest, self.sample = [], False, None, None

    def server(self, variant='plain'):
        s = self.servers.get(variant)
        if s is None:
            s = self.servers[variant] = (MemServer if variant == 'mem' else Server)(self.exes[variant])
        return s

    def drop(self):
        for s in self.servers.values():
            try:
                s.close()
            except Exception:
                pass
        self.servers = {}

    def _go(self, variant, fn):
        self.runs += 1
        for attempt in (0, 1):
            s = self.server(variant)
            try:
                r = fn(s)
                break
            except (ServerDied, BrokenPipeError, OSError) as e:
                self.drop()
                if attempt:
                    raise
        if r.inconclusive:
            raise Skip('inconclusive run (resource limit)')
        return r

    def file(self, text, stdin=b'', pedantic=False, variant='plain', fresh=True, **kw):
        def go(s):
            if fresh:
                s.fresh()
            return s.run_file(text, stdin, pedantic, **kw)
        return self._go(variant, go)

    def repl(self, lines, pedantic=False, variant='plain', fresh=True, **kw):
        def go(s):
            if fresh:
                s.fresh()
            return s.repl(lines, pedantic, **kw)
        return self._go(variant, go)

    def mark(self, *classes):
        self.classes.extend(classes)


class Stream:
    """name; fn(src, env, i) checks one case; counts per tier; exhaustive streams index their space by i."""
    def __init__(self, name, fn, quick, thorough, exhaustive=False):
        self.name, self.fn, self.count = name, fn, {'quick': quick, 'thorough': thorough}
        self.exhaustive = exhaustive


def make_src(seed, prop, stream, i):
    h = hashlib.blake2b(('%d/%s/%s/%d' % (seed, prop, stream, i)).encode(), digest_size=16).digest()
    return Src(random.Random(int.from_bytes(h, 'big')))


def run_case(stream, src, env, i):
    """-> (status, Fail|why)"""
    env.case_reset()
    try:
        stream.fn(src, env, i)
        return 'ok', None
    except Skip as e:
        return 'skip', e.why
    except (MemoryError, RecursionError) as e:
        return 'skip', type(e).__name__
    except Fail as e:
        return 'fail', e


# the random streams of these checks are cheap: more cases per quick run than the streams themselves ask for
QUICK_SCALE = dict(C02=2, C03=3, C04=2, C05=3, C06=3, C08=4, C09=2, C12=1.5, C13=3, C14=3, C15=3, C16=3, C17=3, C18=4, C19=4)


def _worker(prop, wid, nw, exes, tier, seed, deadline, stop, out, only):
    try:
        # a case that runs away is skipped instead of using up the memory of the sandbox; the interpreters lift the soft limit
        resource.setrlimit(resource.RLIMIT_AS, (2500 << 20, resource.RLIM_INFINITY))
        mod = importlib.import_module('checks.' + prop.lower())
        env = Env(exes, tier)
        stats = {}
        for st in mod.STREAMS:
            if only and st.name not in only:
                continue
            total = st.count[tier]
            if not st.exhaustive:
                total = int(total * float(os.environ.get('PSE_SCALE', '1')))
                if tier == 'quick':
                    total = int(total * QUICK_SCALE.get(prop, 1))
            s = stats[st.name] = dict(planned=0, cases=0, skipped=0, classes={}, skips={}, digests=set(), samples=[],
                                      truncated=False)
            if time.time() > deadline:
                s['truncated'] = True
                continue
            for i in range(wid, total, nw):
                if stop.is_set():
                    break
                if time.time() > deadline:
                    s['truncated'] = True
                    break
                src = make_src(seed, prop, st.name, i)
                status, info = run_case(st, src, env, i)
                s['cases'] += 1
                for c in env.classes:
                    s['classes'][c] = s['classes'].get(c, 0) + 1
                if status == 'skip':
                    s['skipped'] += 1
                    s['skips'][info] = s['skips'].get(info, 0) + 1
                elif env.nontrivial:
                    d = env.digest
                    if d is None:
                        d = repr(src.rec) + str(i if st.exhaustive else '')
                    if isinstance(d, str):
                        d = d.encode('utf8', 'surrogateescape')
                    s['digests'].add(hashlib.blake2b(d, digest_size=8).digest())
                    if len(s['samples']) < 2 and i % 7 == wid % 7 and env.sample is not None:
                        s['samples'].append(env.sample)
                if status == 'fail':
                    name, rec = info.redirect or (st.name, src.rec)
                    out.put(('fail', wid, name, i, rec, info.msg, info.key, info.detail))
                    # keep going only if the main process says the finding is known
                    if stop.wait(0.5):
                        break
        out.put(('done', wid, stats, env.runs))
        env.drop()
    except KeyboardInterrupt:
        pass
    except BaseException:
        out.put(('error', wid, traceback.format_exc()))


def still_fails(st, env, draws, i, key):
    src = Src(draws=draws)
    try:
        status, info = run_case(st, src, env, i)
    except Exception:
        return None
    if status == 'fail' and info.key == key:
        return src.rec, info
    return None


def shrink(st, env, draws, i, key, budget_s=40, max_evals=3000):
    t0, evals = time.time(), 0
    best = list(draws)
    info = None

    def attempt(cand):
        nonlocal best, info, evals
        if evals >= max_evals or time.time() - t0 > budget_s:
            return False
        evals += 1
        r = still_fails(st, env, cand, i, key)
        if r is not None and (len(r[0]), r[0]) < (len(best), best):
            best, info = list(r[0]), r[1]
            return True
        return False

    improved = True
    while improved and evals < max_evals and time.time() - t0 < budget_s:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            p = len(best) - size
            while p >= 0:
                if attempt(best[:p] + best[p + size:]):
                    improved = True
                    p = min(p, len(best) - size)
                else:
                    p -= max(1, size // 2) if size > 4 else 1
            size //= 2
        for size in (8, 4, 2, 1):
            for p in range(0, max(0, len(best) - size + 1), size):
                if p + size <= len(best) and any(best[p:p + size]):
                    if attempt(best[:p] + [0] * size + best[p + size:]):
                        improved = True
        for p in range(len(best)):
            if p >= len(best):
                break
            lo, hi = 0, best[p]
            while lo < hi:
                mid = (lo + hi) // 2
                if p < len(best) and attempt(best[:p] + [mid] + best[p + 1:]):
                    improved = True
                    hi = mid
                    if p >= len(best):
                        break
                else:
                    lo = mid + 1
    return best, info, evals


def known_findings(prop):
    r = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, what = rest.partition(' ')
                r.append((key[len('key='):], what))
    return r


def jsonable(x):
    if isinstance(x, bytes):
        return x.decode('latin-1')
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


def build_all(variants, optional=()):
    exes = {v: builder.build(v) for v in variants}
    for v in optional:
        if v == 'mem' and not os.access('/usr/bin/valgrind', os.X_OK):
            continue
        try:
            exes[v] = builder.build(v)
        except builder.BuildError as e:
            print('%s does not build, its streams are skipped: %s' % (v, str(e)[-300:]), file=sys.stderr)
    return exes


def probe(exes):
    import lang
    s = Server(next(iter(exes.values())))
    try:
        lang.probe_rounding(s.run_file)
    finally:
        s.close()


def replay(prop, path):
    mod = importlib.import_module('checks.' + prop.lower())
    d = json.load(open(path))
    exes = build_all(mod.VARIANTS, getattr(mod, 'OPTIONAL', ()))
    probe(exes)
    env = Env(exes, d.get('tier', 'quick'))
    st = next(s for s in mod.STREAMS if s.name == d['stream'])
    status, info = run_case(st, Src(draws=d['draws']), env, d['case'])
    print(status)
    if status == 'fail':
        print(info.msg)
        for k, v in info.detail.items():
            print('--- %s\n%s' % (k, v if isinstance(v, str) else jsonable(v)))
    elif info:
        print(info)
    env.drop()
    return 1 if status == 'fail' else 0


def main(prop, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if '--quick' in argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    only = set()
    for a in argv:
        if a.startswith('--stream='):
            only.add(a.split('=', 1)[1])
        if a.startswith('--seed='):
            seed = int(a.split('=', 1)[1])
    if '--replay' in argv:
        return replay(prop, argv[argv.index('--replay') + 1])
    t0 = time.time()
    mod = importlib.import_module('checks.' + prop.lower())
    exes = build_all(mod.VARIANTS, getattr(mod, 'OPTIONAL', ()))
    t_build = time.time() - t0
    probe(exes)
    limit = float(os.environ.get('PSE_LIMIT', {'quick': 420, 'thorough': 780}[tier]))
    known = known_findings(prop)
    for key, what in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    ctx = mp.get_context('fork')
    out, stop = ctx.Queue(), ctx.Event()
    deadline = t0 + limit
    ws = [ctx.Process(target=_worker, args=(prop, w, WORKERS, exes, tier, seed, deadline, stop, out, only), daemon=True)
          for w in range(WORKERS)]
    for w in ws:
        w.start()
    done, stats, runs, suppressed, unconfirmed = 0, {}, 0, {}, []
    violation = None
    env = None
    while done < len(ws):
        try:
            m = out.get(timeout=5)
        except queue.Empty:
            if not any(w.is_alive() for w in ws) and out.empty():
                print('ERROR: workers ended without a report', file=sys.stderr)
                return 2
            continue
        if m[0] == 'done':
            done += 1
            runs += m[3]
            for name, s in m[2].items():
                t = stats.setdefault(name, dict(cases=0, skipped=0, classes={}, skips={}, digests=set(), samples=[],
                                                truncated=False))
                t['cases'] += s['cases']
                t['skipped'] += s['skipped']
                t['truncated'] |= s['truncated']
                t['digests'] |= s['digests']
                t['samples'] += s['samples']
                for d in ('classes', 'skips'):
                    for k, v in s[d].items():
                        t[d][k] = t[d].get(k, 0) + v
        elif m[0] == 'error':
            print('ERROR in worker:\n' + m[2], file=sys.stderr)
            stop.set()
            for w in ws:
                w.terminate()
            return 2
        elif m[0] == 'fail' and violation is None:
            _, wid, sname, i, draws, msg, key, detail = m
            if key and any(k == key for k, _ in known):
                suppressed[key] = suppressed.get(key, 0) + 1
                continue
            st = next(s for s in mod.STREAMS if s.name == sname)
            if env is None:
                env = Env(exes, tier)
            ok = 0
            for _ in range(3):
                if still_fails(st, env, draws, i, key) is not None:
                    ok += 1
            for _ in range(5):
                # depends on something outside the case (addresses): once more is enough, cases themselves are deterministic
                if ok == 0 and still_fails(st, env, draws, i, key) is not None:
                    ok += 1
            if ok < 1:
                unconfirmed.append(dict(stream=sname, case=i, message=msg, reproduced='%d/8' % ok))
                continue
            stop.set()
            best, info, evals = shrink(st, env, draws, i, key)
            ok = sum(still_fails(st, env, best, i, key) is not None for _ in range(3))
            if ok < 3:
                best, info = draws, None
            r = still_fails(st, env, best, i, key)
            info = r[1] if r else info
            if info is not None:
                msg, detail = info.msg, info.detail
            rp = os.path.join(VERIF, 'replays')
            os.makedirs(rp, exist_ok=True)
            tag = hashlib.blake2b(repr((sname, best)).encode(), digest_size=5).hexdigest()
            path = os.path.join(rp, '%s-%s-%s.json' % (prop, sname, tag))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, stream=sname, seed=seed, tier=tier, case=i, draws=best, message=msg,
                               key=key, detail=jsonable(detail), shrink_evaluations=evals,
                               how='python3 check.py %s --replay %s' % (prop, path)), f, indent=1)
            violation = (path, sname, msg, detail)
    for w in ws:
        w.join(5)
        if w.is_alive():
            w.terminate()
    if env:
        env.drop()
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=sum(s['cases'] for s in stats.values()),
                            distinct_nontrivial=sum(len(s['digests']) for s in stats.values()),
                            rule=mod.RULE,
                            interpreter_runs=runs,
                            streams={n: dict(cases=s['cases'], skipped=s['skipped'], skip_reasons=s['skips'],
                                             distinct_nontrivial=len(s['digests']),
                                             classes=dict(sorted(s['classes'].items())),
                                             truncated_by_time=s['truncated'],
                                             exhaustive=next(x.exhaustive for x in mod.STREAMS if x.name == n) and not s['truncated'])
                                     for n, s in stats.items()},
                            samples=[dict(stream=n, case=jsonable(x)) for n, s in stats.items() for x in s['samples'][:2]],
                            unconfirmed=unconfirmed, known_suppressed=suppressed),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), build_s=round(t_build, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not only or '--evidence' in argv:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for n, s in stats.items():
        print('%s %-14s cases %6d skipped %5d distinct non-trivial %6d%s' %
              (prop, n, s['cases'], s['skipped'], len(s['digests']), ' (cut by time)' if s['truncated'] else ''))
        if '-v' in argv:
            for k, v in sorted(s['classes'].items()):
                print('      %-40s %d' % (k, v))
            for k, v in sorted(s['skips'].items()):
                print('      skip: %-34s %d' % (k, v))
    print('%s %s seed %d: %d runs, %.1f s (build %.1f s)' % (prop, tier, seed, runs, time.time() - t0, t_build))
    for u in unconfirmed:
        print('unconfirmed (not reproduced): %s' % u)
    if violation:
        path, sname, msg, detail = violation
        print('stream %s: %s' % (sname, msg))
        for k, v in detail.items():
            print('--- %s\n%s' % (k, (v if isinstance(v, str) else str(jsonable(v)))[:3000]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0
