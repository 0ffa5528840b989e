"""Runner shared by all checks.

A check module (checks/<id>.py) declares PROPS, a list of Prop. A Prop is a
Hypothesis strategy that produces one plain-data case (Python literals only)
and a body that runs the case against the code in /repo and an oracle. Each
failure is shrunk by Hypothesis and the minimal case is written to replays/,
from where `./check --replay FILE` runs it without Hypothesis.
"""
import ast
import contextlib
import hashlib
import io
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
CASE_CPU_S = 60     # one case takes milliseconds; see on_hang()
SHARDS = int(os.environ.get('VERIF_SHARDS', '0') or 0) or max(1, min(8, os.cpu_count() or 1))


class Violation(Exception):
    """The oracle disagrees with what the code did."""


class HarnessError(Exception):
    """The check itself can not work here."""


class Hang(BaseException):
    """A single case used CASE_CPU_S seconds of processor time."""


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def expect_eq(got, want, what):
    if got != want or type(got) is not type(want):
        raise Violation('%s: got %r, expected %r' % (what, got, want))


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


class Prop:
    def __init__(self, name, strategy, body, quick, thorough=None, rule='', examples=()):
        self.name = name
        self.strategy = strategy
        self.body = body
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule or ' '.join((getattr(body, '__doc__', None) or '').split())
        self.examples = list(examples)      # literal cases that are always run first

    def count(self):
        """Cases for each of the shards."""
        scale = float(os.environ.get('VERIF_SCALE', '1'))
        return max(1, int((self.thorough if TIER == 'thorough' else 2 * self.quick) * scale / SHARDS))


class Rec:
    """What one case did; filled in by the body."""

    def __init__(self):
        self.labels = set()
        self.is_nontrivial = False

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True


class Stats:
    def __init__(self):
        self.evaluated = {}     # prop name -> number of cases
        self.seen = {}          # prop name -> digests of the distinct non-trivial cases
        self.labels = {}
        self.samples = []

    def merge(self, other):
        for k, v in other.evaluated.items():
            self.evaluated[k] = self.evaluated.get(k, 0) + v
        for k, v in other.seen.items():
            self.seen.setdefault(k, set()).update(v)
        for k, v in other.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        self.samples += other.samples

    def add(self, prop, case, rec):
        self.evaluated[prop.name] = self.evaluated.get(prop.name, 0) + 1
        for label in rec.labels:
            key = '%s: %s' % (prop.name, label)
            self.labels[key] = self.labels.get(key, 0) + 1
        if rec.is_nontrivial:
            text = repr(case)
            key = hashlib.blake2b(text.encode('utf8', 'surrogatepass'), digest_size=10).digest()
            seen = self.seen.setdefault(prop.name, set())
            if key not in seen:
                seen.add(key)
                if len(seen) in (1, 5, 20, 60) and len(text) < 3000:
                    self.samples.append({'prop': prop.name, 'case': text})

    def total(self):
        return sum(self.evaluated.values())

    def distinct(self):
        return sum(len(v) for v in self.seen.values())

    def per_prop(self):
        return {k: {'evaluations': v, 'distinct_nontrivial': len(self.seen.get(k, ()))}
                for k, v in self.evaluated.items()}


_tmp_root = None


def scratch():
    """A new, empty directory. Everything the checks write is below it."""
    global _tmp_root
    if _tmp_root is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _tmp_root = tempfile.mkdtemp(prefix='verif-gb-', dir=base)
    return tempfile.mkdtemp(dir=_tmp_root)


@contextlib.contextmanager
def scratch_dir():
    path = scratch()
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


def cleanup():
    if _tmp_root is not None:
        shutil.rmtree(_tmp_root, ignore_errors=True)


def classify(exc):
    """'violation' or 'harness' for an exception that left a body."""
    if isinstance(exc, Violation):
        return 'violation'
    if isinstance(exc, HarnessError):
        return 'harness'
    if isinstance(exc, MemoryError):
        # the limit is to address space, so this does not depend on the machine
        inside = any(f.filename.startswith(REPO + '/') for f in traceback.extract_tb(exc.__traceback__))
        return 'violation' if inside else 'harness'
    if isinstance(exc, (ImportError, NameError, AttributeError)):
        # a name that the check itself uses is not there
        tb = traceback.extract_tb(exc.__traceback__)
        if not tb or not tb[-1].filename.startswith(REPO + '/'):
            if not isinstance(exc, AttributeError):
                return 'harness'
            obj = getattr(exc, 'obj', None)
            if isinstance(obj, (type, type(sys))):
                return 'harness'
            if type(obj).__module__.split('.')[0] == 'gb':
                # something else was given where the hypergraph was expected
                from gb.hypergraph.hypergraph import HyperGraph
                return 'violation' if hasattr(HyperGraph, exc.name) and not hasattr(type(obj), exc.name) else 'harness'
    return 'violation'      # every case is in the domain where nothing should be raised


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    where = ['%s:%s' % (os.path.relpath(f.filename, REPO), f.lineno) for f in tb if f.filename.startswith(REPO + '/')]
    return 'raised %s: %s%s' % (type(exc).__name__, str(exc)[:500], ' (%s)' % ', '.join(where[-3:]) if where else '')


def write_replay(pid, prop, case, message):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (pid, prop.name))
    with open(path, 'w', encoding='utf8') as f:
        json.dump({'property': pid, 'prop': prop.name, 'seed': SEED, 'tier': TIER,
                   'case': repr(case), 'message': message}, f, indent=1)
    return path


def run_case(prop, case):
    rec = Rec()
    limit = sys.getrecursionlimit()
    if 'clj' in sys.modules:    # an interpreter needs more frames than Hypothesis leaves
        sys.setrecursionlimit(max(limit, 12000))
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        prop.body(case, rec)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.setrecursionlimit(limit)
    return rec


class Failure(Exception):
    def __init__(self, prop, case, message):
        Exception.__init__(self, message)
        self.prop, self.case, self.message = prop, case, message


def on_hang(signum, frame):
    raise Hang()


def run_prop(prop, stats, shard=0):
    """Generated-input search on one Prop. Raises Failure with the shrunk case."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 90

    last = {}

    def once(case):
        last['running'] = case
        try:
            rec = run_case(prop, case)
        except Exception as exc:
            if isinstance(exc, hypothesis.errors.HypothesisException):
                raise
            if classify(exc) == 'harness':
                raise
            last['failed'] = (case, describe(exc))
            raise
        stats.add(prop, case, rec)

    for case in prop.examples if shard == 0 else ():
        try:
            once(case)
        except Exception as exc:
            if 'failed' in last:
                raise Failure(prop, *last['failed']) from exc
            raise
        except Hang:
            raise Failure(prop, case, 'no answer within %s s of processor time' % CASE_CPU_S) from None

    seed = int.from_bytes(hashlib.blake2b(('%s %s %s' % (SEED, prop.name, shard)).encode(), digest_size=6).digest(), 'big')

    @hypothesis.seed(seed)
    @settings(max_examples=prop.count(), database=None, deadline=None, derandomize=False,
              phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False,
              suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                     HealthCheck.large_base_example])
    @given(prop.strategy)
    def test(case):
        once(case)

    try:
        with contextlib.redirect_stderr(io.StringIO()):
            test()
    except Hang:
        raise Failure(prop, last['running'], 'no answer within %s s of processor time' % CASE_CPU_S) from None
    except Exception as exc:
        if 'failed' in last:
            raise Failure(prop, *last['failed']) from exc
        raise


def shard_main(props, shard):
    """Runs one shard of all the props: (stats, failure or None)."""
    stats = Stats()
    for i, prop in enumerate(props):
        try:
            run_prop(prop, stats, shard)
        except Failure as exc:
            return stats, ('failure', i, prop.name, exc.case, exc.message)
        except BaseException:
            return stats, ('error', i, prop.name, None, traceback.format_exc())
    return stats, None


def run_shards(props, stats):
    """All the shards in parallel, each one in its own process with its own seed."""
    root = scratch()
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for shard in range(SHARDS):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                global _tmp_root
                _tmp_root = os.path.join(root, 'tmp%s' % shard)
                os.mkdir(_tmp_root)
                res = shard_main(props, shard)
                with open(os.path.join(root, 'res%s' % shard), 'wb') as f:
                    pickle.dump(res, f)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        pids[pid] = shard
    ended = {}
    while pids:
        pid, status = os.wait()
        if pid in pids:
            ended[pids.pop(pid)] = status
    failures, errors = [], []
    for shard in range(SHARDS):
        if ended[shard] != 0:
            raise HarnessError('shard %s ended with status %s' % (shard, ended[shard]))
        with open(os.path.join(root, 'res%s' % shard), 'rb') as f:
            part, problem = pickle.load(f)
        stats.merge(part)
        if problem is not None:
            (failures if problem[0] == 'failure' else errors).append(problem)
    if failures:
        # the first prop that failed; of its failures, the smallest case
        first = min(failures, key=lambda x: (x[1], len(repr(x[3])), repr(x[3])))
        prop = [p for p in props if p.name == first[2]][0]
        raise Failure(prop, first[3], first[4])
    if errors:
        raise HarnessError('%s\n%s' % (errors[0][2], errors[0][4]))


def load_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path, encoding='utf8') as f:
        return [x for x in json.load(f)['findings'] if x['property'] == pid]


def setup_process():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # Hypothesis is in the tooling venv (same Python version): last on the path, so that /opt/venv wins.
    for extra in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
        if extra not in sys.path:
            sys.path.append(extra)
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 3000))
    signal.signal(signal.SIGPROF, on_hang)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass
    import gb
    if not os.path.abspath(gb.__file__).startswith(REPO + '/'):
        raise HarnessError('gb is imported from %s instead of %s' % (gb.__file__, REPO))


def pick_samples(samples):
    per = {}
    for s in samples:
        per.setdefault(s['prop'], []).append(s)
    return [s for k in per for s in sorted(per[k], key=lambda x: len(x['case']))[-3:]][:16]


def check(pid, module):
    """Runs one property; returns the exit status."""
    start = time.time()
    stats = Stats()
    violations = 0
    findings = load_findings(pid)
    props = {p.name: p for p in module.PROPS}
    failure = None
    known = []
    try:
        # Known findings are replayed; fixed ones are regression cases.
        for entry in findings:
            if 'prop' not in entry:
                continue
            prop, case = props[entry['prop']], ast.literal_eval(entry['case'])
            try:
                stats.add(prop, case, run_case(prop, case))
            except Hang:
                raise Failure(prop, case, 'no answer')
            except Exception as exc:
                if classify(exc) == 'harness':
                    raise
                if entry['status'] == 'known':
                    known.append(entry)
                    print('KNOWN-FINDING: property=%s %s' % (pid, entry['what']))
                else:
                    raise Failure(prop, case, describe(exc)) from exc
        only = os.environ.get('VERIF_ONLY')
        run_shards([p for p in module.PROPS if not only or p.name == only], stats)
    except Failure as exc:
        failure = exc
        violations = 1
    wall = time.time() - start
    evidence = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': getattr(module, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': stats.total(),
            'distinct_nontrivial': stats.distinct(),
            'rule': ' '.join([module.RULE] + ['"%s": %s' % (p.name, p.rule) for p in module.PROPS if p.rule]),
            'samples': pick_samples(stats.samples) or ['none: the run ended before a non-trivial case'],
            'per_prop': stats.per_prop(),
            'labels': dict(sorted(stats.labels.items())),
            'known_findings_replayed': [e['what'] for e in known],
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': violations,
    }
    extra = getattr(module, 'EXTRA_COVERAGE', None)
    if extra:
        evidence['coverage'].update(extra())
    if os.environ.get('VERIF_NO_EVIDENCE') != '1':
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', '%s.json' % pid), 'w', encoding='utf8') as f:
            json.dump(evidence, f, indent=1)
    if failure is not None:
        path = write_replay(pid, failure.prop, failure.case, failure.message)
        print('%s: %s' % (failure.prop.name, failure.message))
        print('case: %s' % repr(failure.case)[:2000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('%s: held on %d cases (%d distinct non-trivial), %.1f s' % (pid, stats.total(), stats.distinct(), wall))
    return 0


def replay(path, load):
    with open(path, encoding='utf8') as f:
        data = json.load(f)
    module = load(data['property'])
    prop = {p.name: p for p in module.PROPS}[data['prop']]
    case = ast.literal_eval(data['case'])
    try:
        run_case(prop, case)
    except Hang:
        print('no answer within %s s of processor time' % CASE_CPU_S)
    except Exception as exc:
        if classify(exc) == 'harness':
            raise
        traceback.print_exc()
        print(describe(exc))
    else:
        print('%s: the case passes' % data['property'])
        return 0
    print('VIOLATION property=%s replay=%s' % (data['property'], path))
    return 1
