"""
Small explicit-state / bounded-exhaustive exploration engine.

A property module (mc/props/pNN.py) defines

    PROPERTY, LEVEL, RULE, ASSUMPTIONS
    def spaces(tier) -> list[Space]

A Space is a *finite, completely enumerated* set of cases; each case is plain
JSON data, and ``Space.check(case)`` runs the implementation on it and compares
with an independent reference (raises Violation on disagreement).  A BFS space
(``StateSpace``) enumerates the reachable canonical states of a reference model
under an operation alphabet up to a depth, and replays on the implementation
the shortest operation sequence leading to every transition.

Everything is deterministic: no clocks, no random numbers, no network.
"""
import faulthandler
import json
import os
import signal
import sys
import time
import traceback
import hashlib
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Violation(Exception):
    """The implementation disagrees with the reference on one case"""
    def __init__(self, message, key=None):
        super().__init__(message)
        self.message = message
        self.key = key


class CaseTimeout(BaseException):
    pass


class Space:
    """A finite set of cases, enumerated completely"""
    kind = 'cases'

    def __init__(self, name, cases, check, bound, timeout=300, serial=False):
        self.name = name
        # cases: list or zero-argument callable returning an iterable
        self._cases = cases
        self._check = check
        self.bound = bound
        self.timeout = timeout
        self.serial = serial

    def cases(self):
        c = self._cases() if callable(self._cases) else self._cases
        return list(c)

    def check(self, case):
        """returns number of elementary evaluations (points), or (n, nontrivial)"""
        return self._check(case)


class StateSpace:
    """
    Reachable states of a reference model under an alphabet, breadth first;
    every transition is replayed against the implementation.

    model_init() -> state; model_step(state, op) -> (state, observation);
    canon(state) -> hashable; ops: list of JSON operations;
    impl(trace) -> replays ops list on a fresh implementation object and
    returns list of observations (one per op) -- must equal the model's.
    """
    kind = 'states'

    def __init__(self, name, model_init, model_step, canon, ops, depth, replay,
                 bound, timeout=300, max_states=None):
        self.name = name
        self.model_init = model_init
        self.model_step = model_step
        self.canon = canon
        self.ops = ops
        self.depth = depth
        self.replay = replay
        self.bound = bound
        self.timeout = timeout
        self.max_states = max_states
        self.serial = False

    def enumerate(self):
        """list of traces (one per transition), states and transitions"""
        init = self.model_init()
        seen = {self.canon(init): 0}
        frontier = [(init, [])]
        traces = []
        ntrans = 0
        capped = False
        for d in range(self.depth):
            nxt = []
            for state, trace in frontier:
                for op in self.ops:
                    new, _ = self.model_step(state, op)
                    ntrans += 1
                    t = trace + [op]
                    traces.append(t)
                    key = self.canon(new)
                    if key not in seen:
                        if self.max_states and len(seen) >= self.max_states:
                            capped = True
                            continue
                        seen[key] = d + 1
                        nxt.append((new, t))
            frontier = nxt
            if not frontier:
                break
        self.capped = capped
        self.open_frontier = len(frontier)
        return traces, len(seen), ntrans

    def cases(self):
        traces, self.nstates, self.ntrans = self.enumerate()
        return traces

    def check(self, trace):
        state = self.model_init()
        expected = []
        for op in trace:
            state, obs = self.model_step(state, op)
            expected.append(obs)
        self.replay(trace, expected)
        return 1


# ---------------------------------------------------------------- workers
_SPACES = None


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(space, case):
    """-> ('ok', n, nontrivial) | ('bad', key, message)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(space.timeout)
    try:
        r = space.check(case)
        if r is None:
            return ('ok', 1, 1)
        if isinstance(r, tuple):
            return ('ok', int(r[0]), int(r[1]))
        return ('ok', int(r), int(r))
    except Violation as v:
        key = v.key if v.key is not None else case_key(case)
        return ('bad', f'{space.name}:{key}', v.message)
    except CaseTimeout:
        return ('bad', f'{space.name}:timeout:{case_key(case)}',
                f'no result within {space.timeout} s')
    except MemoryError:
        raise
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.format_exc(limit=-4)
        return ('bad', f'{space.name}:{type(e).__name__}:{case_key(case)}',
                f'unexpected {type(e).__name__}: {e}\n{tb}')
    finally:
        signal.alarm(0)


def case_key(case):
    s = json.dumps(case, sort_keys=True, default=str)
    if len(s) > 160:
        s = s[:120] + '#' + hashlib.sha1(s.encode()).hexdigest()[:12]
    return s.replace(' ', '')


def _init_worker():
    # keep the children quiet, and dying with the parent
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _work(args):
    si, cases = args
    out = []
    for idx, case in cases:
        out.append((idx, run_case(_SPACES[si], case)))
    return si, out


def _refail(e, tb):
    def check(case):
        raise Violation(f'{type(e).__name__}: {e}\n{tb}', 'setup')
    return check


def unloadable(prop, e, tb):
    """stand-in for a check that could not be loaded because the library failed"""
    import types
    return types.SimpleNamespace(
        PROPERTY=prop, LEVEL='exploration', RULE='loading the check', ASSUMPTIONS=[],
        spaces=lambda tier: [Space('setup', [['setup']], _refail(e, tb), 'loading of the check')])


def load_known():
    """[(property, key, text)]"""
    known = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            # finding: property=P01 key=<key> <text>
            _, prop, key, *text = line.split(None, 3)
            known.append((prop.split('=', 1)[1], key.split('=', 1)[1],
                          text[0] if text else ''))
    return known


def key_matches(pattern, key):
    if pattern.endswith('*'):
        return key.startswith(pattern[:-1])
    return key == pattern


def main(prop, module, tier, seed):
    global _SPACES
    t0 = time.time()
    faulthandler.enable()
    try:
        spaces = module.spaces(tier)
    except Exception as e:
        # the library failed while the cases were being laid out
        tb = traceback.format_exc(limit=-6)
        repo = os.environ.get('MC_REPO', '/repo')
        if repo + '/pyTMD' not in tb:
            raise
        spaces = [Space('setup', [['setup']], _refail(e, tb), 'layout of the cases')]
    names = [s.name for s in spaces]
    assert len(set(names)) == len(names), names
    only = os.environ.get('MC_ONLY')
    if only:
        spaces = [s for s in spaces if s.name in only.split(',')]
    _SPACES = spaces
    jobs = []
    allcases = []
    for si, sp in enumerate(spaces):
        cs = sp.cases()
        allcases.append(cs)
        n = len(cs)
        chunk = max(1, min(64, n // 32))
        for k in range(0, n, chunk):
            jobs.append((si, [(i, cs[i]) for i in range(k, min(n, k + chunk))]))
    nproc = int(os.environ.get('MC_JOBS', str(min(8, os.cpu_count() or 1))))
    bad = []
    stats = {si: [0, 0, 0] for si in range(len(spaces))}
    broken = False

    def absorb(si, out):
        for idx, r in out:
            if r[0] == 'ok':
                stats[si][0] += 1
                stats[si][1] += r[1]
                stats[si][2] += r[2]
            else:
                stats[si][0] += 1
                bad.append((si, idx, r[1], r[2]))

    if nproc <= 1 or len(jobs) <= 1:
        for j in jobs:
            absorb(*_work(j))
    else:
        import concurrent.futures as cf
        ctx = mp.get_context('fork')
        done = set()
        try:
            with cf.ProcessPoolExecutor(nproc, mp_context=ctx,
                                        initializer=_init_worker) as ex:
                futs = {ex.submit(_work, j): k for k, j in enumerate(jobs)}
                for f in cf.as_completed(futs):
                    absorb(*f.result())
                    done.add(futs[f])
        except cf.process.BrokenProcessPool:
            broken = True
        if broken:
            # a case ended its process (crash of native code): find out which,
            # one process per job, then one per case
            for k, j in enumerate(jobs):
                if k in done:
                    continue
                si, cs = j
                for item in cs:
                    ok = False
                    try:
                        with cf.ProcessPoolExecutor(1, mp_context=ctx) as ex:
                            absorb(*ex.submit(_work, (si, [item])).result())
                            ok = True
                    except cf.process.BrokenProcessPool:
                        pass
                    if not ok:
                        stats[si][0] += 1
                        bad.append((si, item[0], f'{spaces[si].name}:crash:' +
                                    case_key(item[1]), 'process ended abruptly'))
                    if len(bad) > 20:
                        break
                if len(bad) > 20:
                    break

    # ---- split into known findings and violations
    known = [k for k in load_known() if k[0] == prop]
    hits = {}
    viols = []
    for si, idx, key, msg in sorted(bad, key=lambda b: (b[0], b[1])):
        for k in known:
            if key_matches(k[1], key):
                hits.setdefault(k[1], [0, k[2]])[0] += 1
                break
        else:
            viols.append((si, idx, key, msg))
    for pat, (n, text) in hits.items():
        print(f'KNOWN-FINDING: property={prop} {text} [{pat}; {n} case(s)]')

    rdir = os.path.join(os.environ.get('MC_OUT', VERIF), 'replays')
    if viols:
        os.makedirs(rdir, exist_ok=True)
    for n, (si, idx, key, msg) in enumerate(viols[:4]):
        path = os.path.join(rdir, f'{prop}-{n}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'space': spaces[si].name,
                       'case': allcases[si][idx], 'key': key, 'message': msg},
                      f, indent=1, default=str)
        print(f'VIOLATION property={prop} replay={path}')
        print('   ', spaces[si].name, key)
        print('   ', msg.replace('\n', '\n    ')[-900:])
    for si, idx, key, msg in viols[4:int(os.environ.get('MC_SHOW', 0))]:
        print('   ', key, msg[-300:])
    if len(viols) > 5:
        print(f'    ... {len(viols)} violating cases in all')

    # ---- evidence
    wall = time.time() - t0
    samples = []
    for si, sp in enumerate(spaces):
        cs = allcases[si]
        if cs:
            for i in sorted({0, len(cs) // 2}):
                s = json.dumps(cs[i], default=str)
                samples.append({'space': sp.name,
                                'case': cs[i] if len(s) < 600 else s[:600] + '...'})
    ncases = sum(s[0] for s in stats.values())
    neval = sum(s[1] for s in stats.values())
    nnon = sum(s[2] for s in stats.values())
    spacerep = {sp.name: {'bound': sp.bound, 'cases': stats[si][0],
                          'checked_points': stats[si][1]}
                for si, sp in enumerate(spaces)}
    if getattr(module, 'LEVEL') == 'model_checking':
        st = tr = va = 0
        capped = False
        for si, sp in enumerate(spaces):
            if sp.kind == 'states':
                st += sp.nstates
                tr += sp.ntrans
                va += stats[si][0]
                capped = capped or sp.capped
                spacerep[sp.name]['states'] = sp.nstates
                spacerep[sp.name]['open_frontier_at_bound'] = sp.open_frontier
            else:
                # each enumerated case is one reference state reached by one
                # transition from the initial one, checked on the implementation
                distinct = len({json.dumps(c, sort_keys=True, default=str)
                                for c in allcases[si]})
                st += distinct
                tr += stats[si][1]
                va += stats[si][0]
        cov = {'states': st, 'transitions': tr,
               'traces_validated_against_impl': va,
               'samples': samples, 'exhaustive': not capped,
               'rule': module.RULE, 'spaces': spacerep}
    else:
        cov = {'evaluations': neval, 'distinct_nontrivial': nnon,
               'rule': module.RULE, 'samples': samples, 'exhaustive': True,
               'enumerated_cases': ncases, 'spaces': spacerep}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': module.LEVEL,
          'coverage': cov, 'assumptions': list(module.ASSUMPTIONS),
          'wall_s': round(wall, 2), 'violations': len(viols)}
    os.makedirs(os.path.join(os.environ.get('MC_OUT', VERIF), 'evidence'), exist_ok=True)
    with open(os.path.join(os.environ.get('MC_OUT', VERIF), 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{prop} [{tier}] {ncases} cases, {neval} points, '
          f'{len(viols)} violation(s), {wall:.1f} s')
    return 1 if viols else 0
