#!/usr/bin/env python3
"""N04: one simulated execution, run in every feature selection of the library.

feat.py setup         build
feat.py check         build, sweep the seeds in every build, compare the histories
feat.py replay FILE   run a replay file again

There is no model here: a build is the reference for every other. What the common operations have
to do is decided by the other properties; this one decides that the selection makes no difference.
"""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
TARGET = os.path.join(HERE, 'target')
BIN = os.path.join(TARGET, 'bin')
NAMES = ['std', 'ringbuffer', 'refpool', 'arbitrary']
# `arbitrary` is documented to need the standard library; every other combination is a selection.
COMBOS = [c for c in ([n for k, n in enumerate(NAMES) if m >> k & 1] for m in range(16))
          if 'arbitrary' not in c or 'std' in c]
T0 = time.time()


def name(c):
    return '+'.join(c) or 'none'


def binary(c):
    return os.path.join(BIN, 'featsim-' + name(c))


def cargo(c, target):
    cmd = ['cargo', 'build', '--offline', '--locked', '-q', '--no-default-features', '--features', ','.join(c),
           '--target-dir', target]
    p = subprocess.run(cmd, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode == 0:
        os.makedirs(BIN, exist_ok=True)
        new = binary(c) + '.new'
        shutil.copy2(os.path.join(target, 'debug', 'featsim'), new)
        os.replace(new, binary(c))
        return None
    return p.stdout


def build(combos, workers=4):
    """Returns {combination: None or the compiler's complaint}."""
    out, lock, todo = {}, threading.Lock(), list(combos)

    def work(k):
        while True:
            with lock:
                if not todo:
                    return
                c = todo.pop(0)
            r = cargo(c, os.path.join(TARGET, 'w%d' % k))
            out[name(c)] = r
    ts = [threading.Thread(target=work, args=(k,)) for k in range(min(workers, len(todo)))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    # A compiler that was ended (memory, disk) says nothing about the code: ask again, alone.
    for c in combos:
        if out[name(c)] is not None:
            out[name(c)] = cargo(c, os.path.join(TARGET, 'w0'))
    return out


def ours(log):
    """Did the compiler reject the code, rather than fail to run?"""
    return bool(re.search(r'^error', log, re.M)) and 'could not compile' in log and 'signal:' not in log


def call(c, args, timeout):
    """(exit status or 'hang', standard output)"""
    try:
        p = subprocess.run([binary(c)] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL,
                           timeout=timeout, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 'hang', ''


def ended(rc):
    # How a process dies of corrupted memory depends on the layout of the build, not on the library.
    return 'the process %s' % ('does not come back' if rc == 'hang' else 'dies')


def one(c, path):
    """The whole history of one case in one build: what every call did, and how the process ended."""
    rc, out = call(c, ['one', path], 20)
    if rc == 0 and out.strip() == 'absent':
        return None
    if rc == 0:
        return out.splitlines()
    return ([] if rc == 'hang' else out.splitlines()) + [ended(rc)]


DEADLINE = [T0 + 800]


def sweep(c, seed, a, b):
    """{index: (section, history, interrupted, refused)}, totals"""
    if time.time() > DEADLINE[0]:
        return {}, {}
    rc, out = call(c, ['sweep', str(seed), str(a), str(b)], 10 + (b - a) // 100)
    res, tot = {}, {}
    if rc == 0:
        for l in out.splitlines():
            f = l.split()
            if f[0] == 'total':
                tot = {f[k]: int(f[k + 1]) for k in range(1, len(f), 2)}
            else:
                res[int(f[0])] = (int(f[1]), f[2], int(f[3]), int(f[4]))
        return res, tot
    if b - a == 1:
        # (the section's number is not known; it does not matter for the comparison)
        return {a: (None, ended(rc), 0, 0)}, tot
    m = (a + b) // 2
    for x, y in ((a, m), (m, b)):
        r, t = sweep(c, seed, x, y)
        res.update(r)
        for k in t:
            tot[k] = tot.get(k, 0) + t[k]
    return res, tot


def differs(x, y, path):
    a, b = one(x, path), one(y, path)
    if a is None or b is None or a == b:
        return None
    for k, (p, q) in enumerate(zip(a + ['-'], b + ['-'])):
        if p != q:
            return k, p, q
    return len(a), '-', '-'


def sweeps_differ(x, y, seed, a, b):
    p, q = sweep(x, seed, a, b)[0], sweep(y, seed, a, b)[0]
    for i in sorted(set(p) & set(q)):
        if p[i][1] != q[i][1]:
            return i, 'history ' + p[i][1], 'history ' + q[i][1]
    return None


def minimise(x, y, text, scratch):
    lines = text.splitlines()
    head = [l for l in lines if not l.startswith('op ')]
    ops = [l for l in lines if l.startswith('op ')]

    def bad(o):
        open(scratch, 'w').write('\n'.join(head + o) + '\n')
        return differs(x, y, scratch) is not None
    if not bad(ops):
        return text
    end = time.time() + 60
    step = max(1, len(ops) // 2)
    while time.time() < end:
        k, dropped = 0, False
        while k < len(ops) and time.time() < end:
            t = ops[:k] + ops[k + step:]
            if bad(t):
                ops, dropped = t, True
            else:
                k += step
        if step == 1 and not dropped:
            break
        step = max(1, step // 2)
    for k in range(len(ops)):
        f = ops[k].split()
        for i in (6, 7, 5, 4, 3, 2):
            if f[i] != '0':
                g = f[:i] + ['0'] + f[i + 1:]
                if bad(ops[:k] + [' '.join(g)] + ops[k + 1:]):
                    f = g
                    ops[k] = ' '.join(g)
    return '\n'.join(head + ops) + '\n'


def replay_path(tag):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, 'N04-%s.case' % tag)


def violation(path):
    print('VIOLATION property=N04 replay=%s' % path, flush=True)


def check():
    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    built = build(COMBOS)
    good = [c for c in COMBOS if built[name(c)] is None]
    bad = [c for c in COMBOS if built[name(c)] is not None]
    built_s = time.time() - T0
    violations = 0
    if not good or any(not ours(built[name(c)]) for c in bad):
        sys.stderr.write('\n'.join(built[name(c)][-3000:] for c in bad) + '\nbuild failed\n')
        return 2
    for c in bad:
        violations += 1
        path = replay_path('build-' + name(c))
        first = [l for l in built[name(c)].splitlines() if l.startswith('error')][:1]
        open(path, 'w').write('feat v1\nproperty N04\nbuilds %s %s\ncompile\n# %s\n' % (name(c), name(good[-1]), first))
        print('with the features [%s] the library or its common API does not compile: %s' % (name(c), first))
        violation(path)
    planned = 200000 if tier == 'quick' else 2000000
    run_s = 60 if tier == 'quick' else 600
    start = time.time()
    DEADLINE[0] = start + run_s + 20
    step = 2000
    hist = [{} for _ in good]
    totals, seen, distinct, every, sections, diffs = {}, 0, set(), set(), {}, []
    compared = cases = 0
    names = call(good[-1], ['sections'], 20)[1].split()
    samples, repeated, mismatched = [], 0, 0
    with ThreadPoolExecutor(8) as ex:
        at = 0
        while at < planned and not diffs:
            if time.time() - start > run_s:
                break
            rs = list(ex.map(lambda c: sweep(c, seed, at, at + step), good))
            for c, (r, t) in zip(good, rs):
                for k, v in t.items():
                    totals[k] = totals.get(k, 0) + v
            for i in range(at, at + step):
                got = {}
                for c, (r, _) in zip(good, rs):
                    if i in r:
                        got.setdefault(r[i][1], []).append(c)
                        last = r[i]
                if not got:
                    continue
                cases += 1
                n = sum(len(v) for v in got.values())
                seen += n
                if n > 1:
                    compared += 1
                if len(got) > 1:
                    diffs.append((i, got))
                    continue
                if last[0] is not None:
                    s = sections.setdefault(names[last[0]], [0, 0])
                    s[0] += 1
                    s[1] += n
                    every.add((last[0], last[1]))
                    if n > 1 and (last[2] or last[3]):
                        distinct.add((last[0], last[1]))
                        if len(samples) < 3 and last[2] and last[3]:
                            samples.append(i)
            if at % 20000 == 0:
                # The same seeds once more in fresh processes: the comparison is of the code, not of chance.
                c = good[(at // 20000) % len(good)]
                again, _ = sweep(c, seed, at, at + 200)
                mine = dict(zip(map(name, good), rs))[name(c)][0]
                repeated += len(again)
                mismatched += sum(1 for i in again if mine.get(i) != again[i])
            at += step
    shown = set()
    for i, got in diffs:
        groups = sorted(got.values(), key=len)
        x, y = groups[0][0], groups[-1][-1]
        key = (name(x), name(y))
        if key in shown or len(shown) >= 3:
            continue
        text = 'feat v1\nproperty N04\nseed %d index %d\nbuilds %s %s\n' % (seed, i, name(x), name(y)) + \
            call(good[-1], ['gen', str(seed), str(i)], 20)[1]
        path = replay_path('%d-%d' % (seed, i))
        scratch = path + '.tmp%d' % os.getpid()
        text = minimise(x, y, text, scratch)
        if os.path.exists(scratch):
            os.remove(scratch)
        open(path, 'w').write(text)
        d = differs(x, y, path)
        if d is None:
            # The case alone does not show it: what ran before it in the same process matters.
            a = i - i % step
            text = 'feat v1\nproperty N04\nbuilds %s %s\nsweep %d %d %d\n' % (name(x), name(y), seed, a, i + 1)
            open(path, 'w').write(text)
            DEADLINE[0] = time.time() + 60
            d = sweeps_differ(x, y, seed, a, i + 1)
            if d is None:
                print('the histories of seed %d index %d differed once and agree when run again' % (seed, i))
                os.remove(path)
                continue
        shown.add(key)
        violations += 1
        print('seed %d index %d: with the features [%s]: "%s"; with [%s]: "%s"' % (seed, i, name(x), d[1], name(y), d[2]))
        violation(path)
    wall = time.time() - T0
    run = max(time.time() - start, 0.001)
    ev = {
        'property': 'N04', 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': seen,
            'distinct_nontrivial': len(distinct),
            'rule': 'each case draws from the seed a section of the common API (container type and capacity), 6-47 operations on three containers '
                    'and a fault plan, and is executed in every feature selection that has the section; evaluations counts executions; non-trivial: '
                    'executed in two or more selections, with at least one call interrupted by an injected panic or refused by the library; distinct '
                    'by the hash of the whole history (every answer, every interruption, every element left alive)',
            'samples': [call(good[-1], ['gen', str(seed), str(i)], 20)[1] for i in samples],
            'cases': cases,
            'cases_compared_between_builds': compared,
            'feature_selections_compiled': [name(c) for c in good],
            'feature_selections_rejected': [name(c) for c in bad],
            'cases_by_section': {k: v[0] for k, v in sorted(sections.items())},
            'builds_by_section': {k: round(v[1] / v[0], 2) for k, v in sorted(sections.items())},
            'library_calls': totals.get('calls', 0),
            'requests_refused': totals.get('refused', 0),
            'faults_injected': {k + '_panic': totals.get(k, 0) for k in ('drop', 'clone', 'cmp', 'eq', 'hash', 'next')},
            'calls_interrupted': totals.get('interrupted', 0),
            'seeds_per_hour': int(cases / run * 3600),
            'simulated_time': 'the system has no clock; simulated time is the number of library calls above',
            'determinism': {'runs_repeated_in_fresh_processes': repeated, 'history_mismatches': mismatched},
            'distinct_histories': len(every),
            'distinct_histories_measure': 'distinct (section, hash of the whole history) pairs over all cases, trivial ones included',
            'build_seconds': round(built_s, 1),
            'real_components': 'all of sized-chunks, compiled from the working tree once per feature selection (debug assertions and overflow checks on), array-ops, bitmaps, refpool, arbitrary',
            'stub_components': 'element type (counted boxes with injectable destructor/clone/compare/equality/hash), supplied iterators',
        },
        'assumptions': ['`arbitrary` without `std` is not a selection: the documentation says the feature needs the standard library',
                        'the simulation itself links std; the library does not when the feature is off',
                        'behaviour is compared between builds, not with a model: an error common to all builds is for the other properties'],
        'wall_s': round(wall, 2),
        'violations': violations,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    p = os.path.join(ROOT, 'evidence', 'N04.json')
    json.dump(ev, open(p + '.new', 'w'), indent=1)
    os.replace(p + '.new', p)
    print('N04: %d builds, %d cases, %d executions, %d violations, %.0f s' % (len(good), cases, seen, violations, wall))
    return 1 if violations else 0


def replay(path):
    text = open(path).read()
    m = re.search(r'^builds (\S+) (\S+)', text, re.M)
    x, y = [[] if g == 'none' else g.split('+') for g in m.groups()]
    built = build([x, y], 2)
    if re.search(r'^compile', text, re.M):
        log = built[name(x)]
        if log is None:
            print('[%s] compiles' % name(x))
            return 0
        if built[name(y)] is not None or not ours(log):
            sys.stderr.write(log[-3000:])
            return 2
        print(log[-2000:])
        violation(path)
        return 1
    if any(built.values()):
        sys.stderr.write('\n'.join(str(v)[-3000:] for v in built.values()))
        return 2
    m = re.search(r'^sweep (\d+) (\d+) (\d+)', text, re.M)
    if m:
        d = sweeps_differ(x, y, *map(int, m.groups()))
    else:
        for c in (x, y):
            print('--- %s' % name(c))
            print('\n'.join(one(c, path) or ['absent']))
        d = differs(x, y, path)
    if d is None:
        print('the histories agree')
        return 0
    print('first difference: [%s] "%s", [%s] "%s"' % (name(x), d[1], name(y), d[2]))
    violation(path)
    return 1


def main():
    os.makedirs(TARGET, exist_ok=True)
    import fcntl
    with open(os.path.join(TARGET, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        what = sys.argv[1] if len(sys.argv) > 1 else ''
        if what == 'setup':
            bad = [k for k, v in build(COMBOS).items() if v]
            sys.exit(2 if len(bad) == len(COMBOS) else 0)
        if what == 'check':
            sys.exit(check())
        if what == 'replay':
            sys.exit(replay(os.path.abspath(sys.argv[2])))
    sys.exit(2)


main()
