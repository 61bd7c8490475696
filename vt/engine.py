"""Choice-tape engine: cases, generators, shrinking, replay, evidence."""
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import resource
import signal
import sys
import time
import traceback

from . import sut

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold on this case."""


class Hang(BaseException):
    """The case exceeded its CPU allowance."""


class Discard(BaseException):
    """The generated case is outside the property's domain (counted, not judged)."""


# --------------------------------------------------------------------------
# cases


class Case:
    """One generated case.  All choices go through `int`."""

    __slots__ = ('src', 'tape', 'verbose', 'trace', 'tags', 'interesting', 'small', 'past')

    def __init__(self, src, verbose=False, small=False):
        self.src = src
        self.tape = []
        self.verbose = verbose
        self.trace = []
        self.tags = set()
        self.interesting = False
        self.past = {}
        self.small = small  # ask for shorter cases (Hypothesis, atheris)

    def int(self, lo, hi):
        """Uniform integer in [lo, hi]; lo is the simplest choice."""
        n = hi - lo + 1
        if n <= 1:
            return lo
        v = self.src(n)
        self.tape.append(v)
        return lo + v

    def edge(self, lo, hi):
        """Integer in [lo, hi] biased to the ends."""
        if hi - lo < 4:
            return self.int(lo, hi)
        m = self.int(0, 7)
        if m == 0:
            return lo
        if m == 1:
            return hi
        if m == 2:
            return lo + self.int(0, min(3, hi - lo))
        if m == 3:
            return hi - self.int(0, min(3, hi - lo))
        return self.int(lo, hi)

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: list of (weight, item); the first one is the simplest."""
        total = 0
        for w, _ in pairs:
            total += w
        v = self.int(0, total - 1)
        for w, item in pairs:
            if v < w:
                return item
            v -= w
        return pairs[-1][1]

    def chance(self, num, den):
        """True with probability num/den; False is simplest."""
        return self.int(0, den - 1) >= den - num

    def more(self, avg):
        """True with probability avg/(avg+1); False is simplest."""
        return self.int(0, avg) > 0

    def steps(self, maximum, avg):
        """Iterate a random number of steps (shrinks by dropping steps)."""
        if self.small:
            maximum = min(maximum, 30)
            avg = min(avg, 10)
        i = 0
        while i < maximum and self.int(0, avg) > 0:
            yield i
            i += 1

    def again(self, label, fn, *args):
        """fn(*args), now and then with the very choices of one of the last calls."""
        past = self.past.setdefault(label, [])
        if past and self.int(0, 3) == 3:
            src, tape = self.src, self.tape
            self.src, self.tape = TapeSource(self.pick(past)), []
            try:
                return fn(*args)
            finally:
                self.src, self.tape = src, tape
        start = len(self.tape)
        res = fn(*args)
        past.append(self.tape[start:])
        if len(past) > 4:
            del past[0]
        return res

    def tag(self, name):
        self.tags.add(name)

    def note(self, text):
        if self.verbose:
            text = str(text)
            if len(text) > 400:
                text = text[:380] + '...(%d chars)' % len(text)
            self.trace.append(text)

    def nontrivial(self):
        self.interesting = True

    def check(self, ok, *why):
        if not ok:
            fail(*why)


def short(x, n=300):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as exc:  # a broken repr must not hide the failure
        s = '<unprintable %s: %s>' % (type(x).__name__, type(exc).__name__)
    return s if len(s) <= n else s[: n - 20] + '...(%d chars)' % len(s)


def fail(*why):
    raise Violation(' '.join(short(w) for w in why))


class TapeSource:
    def __init__(self, tape):
        self.tape = tape
        self.pos = 0

    def __call__(self, n):
        pos = self.pos
        self.pos = pos + 1
        if pos < len(self.tape):
            v = self.tape[pos]
            return v if v < n else n - 1
        return 0


def random_source(seed):
    rand = random.Random(seed).random

    def src(n):
        return int(rand() * n)

    return src


class ByteSource:
    """Decodes fuzzer bytes to choices."""

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def __call__(self, n):
        size = 1 if n <= 256 else 2 if n <= 65536 else 4
        chunk = self.data[self.pos : self.pos + size]
        self.pos += size
        return int.from_bytes(chunk, 'big') % n


# --------------------------------------------------------------------------
# running one case

CPU_LIMIT = 30.0  # seconds of CPU for one case; normal cases take milliseconds
CPU_CONFIRM = 90.0


def _on_alarm(signum, frame):
    raise Hang()


def reset_globals():
    sut.SortedList.DEFAULT_LOAD_FACTOR = sut.DEFAULT_LOAD
    if 'DEFAULT_LOAD_FACTOR' in vars(sut.SortedKeyList):
        del sut.SortedKeyList.DEFAULT_LOAD_FACTOR


def run_case(prop, src, verbose=False, small=False, cpu=CPU_LIMIT):
    """Returns (case, None) or (case, failure text)."""
    case = Case(src, verbose, small)
    reset_globals()
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    try:
        try:
            prop.func(case)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return case, None
    except Violation as exc:
        return case, str(exc)
    except Discard:
        case.tags.add('discarded')
        case.interesting = False
        return case, None
    except Hang:
        return case, 'does not terminate: more than %g s of CPU in one case' % cpu
    except Exception as exc:
        tb = traceback.extract_tb(exc.__traceback__)
        where = ['%s:%s in %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:]]
        return case, 'unexpected %s: %s [%s]' % (
            type(exc).__name__,
            short(str(exc), 200),
            ' > '.join(where),
        )
    finally:
        reset_globals()


def run_tape(prop, tape, verbose=False, cpu=CPU_LIMIT):
    return run_case(prop, TapeSource(tape), verbose, cpu=cpu)


# --------------------------------------------------------------------------
# shrinking


def shrink(prop, tape, seconds=40.0, attempts=4000):
    deadline = time.time() + seconds
    count = 0
    best = list(tape)
    small_cpu = 3.0

    def fails(candidate):
        nonlocal count, best
        if count >= attempts or time.time() > deadline:
            return False
        count += 1
        case, why = run_tape(prop, candidate, cpu=small_cpu)
        if why is None or why.startswith('does not terminate'):
            return False
        used = case.tape
        while used and used[-1] == 0:
            used.pop()
        if (len(used), used) < (len(best), best):
            best = used
            return True
        return False

    # normalise: drop the unused tail
    case, why = run_tape(prop, best, cpu=small_cpu)
    if why is None or why.startswith('does not terminate'):
        return best
    best = case.tape
    improved = True
    while improved and count < attempts and time.time() < deadline:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = len(best) - size
            while i >= 0:
                cand = best[:i] + best[i + size :]
                if fails(cand):
                    improved = True
                    i = min(i, len(best)) - size
                else:
                    i -= max(1, size // 2)
                if count >= attempts or time.time() > deadline:
                    break
            size //= 2
        for size in (8, 4, 2, 1):
            i = 0
            while i < len(best):
                if any(best[i : i + size]):
                    cand = best[:i] + [0] * len(best[i : i + size]) + best[i + size :]
                    if fails(cand):
                        improved = True
                i += size
        i = 0
        while i < len(best):
            lo, hi = 0, best[i]
            while lo < hi and i < len(best):
                mid = (lo + hi) // 2
                if fails(best[:i] + [mid] + best[i + 1 :]):
                    improved = True
                    hi = min(mid, best[i] if i < len(best) else 0)
                else:
                    lo = mid + 1
            i += 1
    return best


# --------------------------------------------------------------------------
# properties


class Prop:
    def __init__(self, pid, func, rule, quick, thorough, hyp, assumptions):
        self.pid = pid
        self.func = func
        self.rule = rule
        self.quick = quick
        self.thorough = thorough
        self.hyp = hyp
        self.assumptions = list(assumptions)


REGISTRY = {}


def prop(pid, rule, quick, thorough=None, hyp=160, assumptions=()):
    def deco(func):
        REGISTRY[pid] = Prop(pid, func, rule, quick, thorough or quick * 15, hyp, assumptions)
        return func

    return deco


# --------------------------------------------------------------------------
# workers


class Tally:
    def __init__(self):
        self.evaluations = 0
        self.keys = set()
        self.tags = {}
        self.tapes = []  # sample tapes
        self.failure = None  # (index, tape, text)
        self.choices = 0
        self.timed_out = False
        self.note = None

    def absorb(self, case):
        self.evaluations += 1
        self.choices += len(case.tape)
        for t in case.tags:
            self.tags[t] = self.tags.get(t, 0) + 1
        if case.interesting:
            digest = hashlib.blake2b(repr(case.tape).encode(), digest_size=8).digest()
            self.keys.add(digest)
            if len(self.tapes) < 3 and 6 <= len(case.tape) <= 160:
                self.tapes.append(list(case.tape))


def limit_worker():
    signal.signal(signal.SIGVTALRM, _on_alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(3000)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)  # the library's self-check prints on failure


def bulk_worker(prop, seed, start, stride, total, deadline, stop):
    tally = Tally()
    for i in range(start, total, stride):
        if stop.is_set():
            break
        if time.time() > deadline:
            tally.timed_out = True
            break
        case, why = run_case(prop, random_source('%s/%s/%d' % (seed, prop.pid, i)))
        tally.absorb(case)
        if why is not None:
            tally.failure = (i, list(case.tape), why)
            stop.set()
            break
    return tally


def run_hypothesis(prop, seed, examples, deadline, stop):
    tally = Tally()
    if sut.HYPOTHESIS_ERROR is not None:
        tally.note = 'hypothesis unavailable: ' + sut.HYPOTHESIS_ERROR
        return tally
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import strategies as st

    class Found(Exception):
        pass

    @hypothesis.seed(seed)
    @settings(
        max_examples=examples,
        database=None,
        deadline=None,
        derandomize=False,
        phases=[Phase.generate],
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
    )
    @given(st.data())
    def test(data):
        if stop.is_set() or time.time() > deadline or tally.failure:
            if time.time() > deadline:
                tally.timed_out = True
            return

        def src(n):
            return data.draw(st.integers(0, n - 1))

        case, why = run_case(prop, src, small=True)
        tally.absorb(case)
        if why is not None:
            tally.failure = (0, list(case.tape), why)
            stop.set()
            raise Found()

    try:
        test()
    except BaseException as exc:
        if not tally.failure:
            tally.note = 'hypothesis engine stopped: %s: %s' % (
                type(exc).__name__,
                short(str(exc), 200),
            )
    return tally


def run_atheris(prop, seed, runs, seconds, outdir):
    """Coverage-guided search in a child python (thorough tier)."""
    import subprocess

    tally = Tally()
    out = os.path.join(outdir, 'atheris-%s-%s.json' % (prop.pid, seed))
    cmd = [
        sys.executable,
        os.path.join(VERIF, 'vt', 'fuzz_target.py'),
        prop.pid,
        out,
        '-runs=%d' % runs,
        '-seed=%d' % (seed or 1),
        '-max_len=1200',
        '-len_control=20',
        '-max_total_time=%d' % seconds,
        '-rss_limit_mb=4096',
        '-verbosity=0',
        '-print_final_stats=0',
    ]
    env = dict(os.environ, PYTHONHASHSEED='0')
    try:
        subprocess.run(
            cmd, env=env, cwd=outdir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
            timeout=seconds + 120,
        )
    except subprocess.TimeoutExpired:
        tally.note = 'atheris did not stop in time'
    try:
        with open(out) as f:
            got = json.load(f)
    except (OSError, ValueError):
        tally.note = tally.note or 'atheris produced no result'
        return tally
    tally.evaluations = got['evaluations']
    tally.choices = got['choices']
    tally.tags = got['tags']
    tally.keys = {bytes.fromhex(k) for k in got['keys']}
    if got.get('failure'):
        tally.failure = (0, got['failure'][0], got['failure'][1])
    return tally


def _entry(conn, kind, args):
    try:
        limit_worker()
        fn = {'bulk': bulk_worker, 'hypothesis': run_hypothesis, 'atheris': run_atheris}[kind]
        conn.send(('ok', fn(*args)))
    except BaseException:
        conn.send(('error', traceback.format_exc()))
    finally:
        conn.close()


class HarnessError(Exception):
    pass


def _shrink_entry(conn, prop, tape):
    try:
        limit_worker()
        case, why = run_tape(prop, tape, cpu=CPU_CONFIRM)
        if why is None:
            conn.send(('unconfirmed', None, None, None))
            return
        best = shrink(prop, list(case.tape))
        case, why2 = run_tape(prop, best, verbose=True, cpu=CPU_CONFIRM)
        if why2 is None:  # the shrunk tape must still fail; otherwise keep the original
            best = tape
            case, why2 = run_tape(prop, best, verbose=True, cpu=CPU_CONFIRM)
        conn.send(('confirmed', best, why2 or why, case.trace[:400]))
    except BaseException:
        conn.send(('error', traceback.format_exc(), None, None))
    finally:
        conn.close()


def _trace_entry(conn, prop, tapes):
    try:
        limit_worker()
        out = []
        for t in tapes:
            case, why = run_tape(prop, t, verbose=True)
            out.append(case.trace[:60])
        conn.send(out)
    except BaseException:
        conn.send([])
    finally:
        conn.close()


def child(ctx, target, *args):
    here, there = ctx.Pipe(False)
    p = ctx.Process(target=target, args=(there,) + args)
    p.start()
    there.close()
    try:
        got = here.recv()
    except EOFError:
        got = None
    p.join()
    return got


def workers():
    try:
        return max(1, min(8, len(os.sched_getaffinity(0))))
    except AttributeError:
        return max(1, min(8, os.cpu_count() or 1))


def run_check(prop, tier, seed, scale=1.0, replay_dir=None):
    """Runs all generators; returns (exit code, evidence dict)."""
    t0 = time.time()
    ctx = multiprocessing.get_context('fork')
    stop = ctx.Event()
    n = workers()
    thorough = tier == 'thorough'
    total = int((prop.thorough if thorough else prop.quick) * scale)
    hyp = int(prop.hyp * (12 if thorough else 1) * scale)
    budget = 3000 if thorough else 400
    deadline = t0 + budget
    replay_dir = replay_dir or os.path.join(VERIF, 'replays')
    os.makedirs(replay_dir, exist_ok=True)

    jobs = []
    n_hyp = 2 if hyp > 1 else 0
    for k in range(n_hyp):
        jobs.append(('hypothesis', (prop, seed * 1000 + k, max(1, hyp // n_hyp), deadline, stop)))
    scratch = None
    if thorough:
        import tempfile

        scratch = tempfile.mkdtemp(prefix='vt-atheris-')
        for k in range(2):
            jobs.append(('atheris', (prop, seed * 1000 + k + 1, max(1000, total // 8), 600, scratch)))
    shards = n * 2
    for k in range(shards):
        jobs.append(('bulk', (prop, seed, k, shards, total, deadline, stop)))

    results, running, errors = [], [], []
    queue = list(jobs)
    while queue or running:
        while queue and len(running) < n:
            kind, args = queue.pop(0)
            if stop.is_set():
                continue
            here, there = ctx.Pipe(False)
            p = ctx.Process(target=_entry, args=(there, kind, args))
            p.start()
            there.close()
            running.append((p, here, kind))
        if not running:
            break
        ready = multiprocessing.connection.wait([r[1] for r in running], timeout=5)
        for item in list(running):
            p, conn, kind = item
            if conn in ready:
                try:
                    status, payload = conn.recv()
                except EOFError:
                    status, payload = 'error', 'worker died (exit code %s)' % p.exitcode
                p.join()
                running.remove(item)
                if status == 'ok':
                    results.append((kind, payload))
                else:
                    errors.append((kind, payload))
                    stop.set()
    if scratch:
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)

    merged = Tally()
    per_engine = {}
    failures = []
    notes = []
    tapes = []
    for kind, t in results:
        merged.evaluations += t.evaluations
        merged.choices += t.choices
        merged.keys |= t.keys
        for k, v in t.tags.items():
            merged.tags[k] = merged.tags.get(k, 0) + v
        per_engine[kind] = per_engine.get(kind, 0) + t.evaluations
        if kind == 'bulk':
            tapes.extend(t.tapes)
        if t.failure:
            failures.append((t.failure[0], kind, t.failure))
        if t.timed_out:
            notes.append('%s: time budget reached, fewer cases than planned' % kind)
        if t.note:
            notes.append(t.note)

    code = 0
    violations = 0
    if failures:
        failures.sort(key=lambda f: (f[0], f[1]))
        for _, kind, (index, tape, why) in failures:
            got = child(ctx, _shrink_entry, prop, tape)
            if got is None or got[0] == 'error':
                # the confirmation run itself died (e.g. interpreter crash): keep the original tape
                if got is not None:
                    errors.append(('shrink', got[1]))
                    continue
                best, text, trace = tape, why + ' (interpreter died while confirming)', []
            elif got[0] == 'unconfirmed':
                notes.append('a failure did not reproduce and is not reported: ' + short(why, 300))
                with open(os.path.join(replay_dir, 'unconfirmed-%s.json' % prop.pid), 'w') as f:
                    json.dump({'property': prop.pid, 'engine': kind, 'seed': seed, 'case': index, 'failure': why, 'tape': tape}, f)
                continue
            else:
                _, best, text, trace = got
            digest = hashlib.sha1(json.dumps(best).encode()).hexdigest()[:12]
            path = os.path.join(replay_dir, '%s-%s.json' % (prop.pid, digest))
            with open(path, 'w') as f:
                json.dump(
                    {
                        'property': prop.pid, 'engine': kind, 'seed': seed, 'case': index,
                        'failure': text, 'trace': trace, 'tape': best,
                    }, f, indent=1,
                )
                f.write('\n')
            print('property %s fails: %s' % (prop.pid, text))
            for line in trace[-40:]:
                print('    ' + line)
            print('VIOLATION property=%s replay=%s' % (prop.pid, path))
            violations += 1
            code = 1
            break
    if code == 0 and errors:
        for kind, text in errors:
            print('HARNESS ERROR (%s): %s' % (kind, text))
        code = 2
    if code == 0 and any('did not reproduce' in x for x in notes):
        print('HARNESS ERROR: ' + '; '.join(notes))
        code = 2

    samples = child(ctx, _trace_entry, prop, tapes[:4]) if tapes and code == 0 else []
    samples = [s for s in (samples or []) if s][:3]
    for s in samples:
        while len(json.dumps(s)) > 6000:
            s.pop()
    evidence = {
        'property': prop.pid,
        'tier': 'thorough' if thorough else 'quick',
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': merged.evaluations,
            'distinct_nontrivial': len(merged.keys),
            'rule': prop.rule,
            'samples': samples or [['(no sample: the run ended at a failure)']],
            'choices_drawn': merged.choices,
            'per_generator': per_engine,
            'class_counts': dict(sorted(merged.tags.items())),
            'notes': notes,
        },
        'assumptions': prop.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': violations,
    }
    return code, evidence
