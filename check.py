#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its compiled code.

usage: check.py PROPERTY [quick|thorough]      one check (exit 0 quiet, 1 violation, 2 no answer)
       check.py --build                        build the executor and the harness only
       check.py --jobs PROPERTY [tier]         list the jobs of a check

Every run compiles /repo's working tree together with the harness crate to LLVM IR, executes the entry
points of the harness symbolically with engine/ (Z3 and kissat decide the branches and the assertions),
replays every counterexample and a sample of the passing paths in the native build, and writes
evidence/PROPERTY.json.
"""
import fcntl, glob, json, os, re, shutil, signal, subprocess, sys, threading, time, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from jobs import JOBS, PROPS

ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CORES = os.cpu_count() or 4
ENGINE = f'{HERE}/engine/target/release/symex'
HARNESS = f'{HERE}/harness'
REPLAY = f'{HARNESS}/target/release/replay'


class NoAnswer(Exception):
    pass


def run(cmd, cwd, what):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise NoAnswer(f'{what} failed:\n' + r.stdout[-3000:])
    return r.stdout


def lock():
    os.makedirs(f'{HERE}/harness/target', exist_ok=True)
    f = open(f'{HERE}/harness/target/.check.lock', 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build(scratch):
    """Returns the IR file of the harness linked with /repo's current tree."""
    err = []

    def engine():
        try:
            run(['cargo', 'build', '--release', '--offline', '-q'], f'{HERE}/engine', 'building the executor')
        except NoAnswer as e:
            err.append(e)

    with lock():
        t = threading.Thread(target=engine)
        t.start()
        try:
            # compile the lib's IR afresh: the file name is found by being the only one left
            for f in glob.glob(f'{HARNESS}/target/release/deps/harness-*.ll'):
                os.unlink(f)
            flags = ['--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp']
            cmd = ['cargo', 'rustc', '--lib', '--release', '--offline', '-q', '--'] + flags
            run(cmd, HARNESS, 'compiling /repo and the harness')
            ll = glob.glob(f'{HARNESS}/target/release/deps/harness-*.ll')
            if not ll:
                # cargo saw nothing to do, but the file was gone
                os.utime(f'{HARNESS}/src/lib.rs')
                run(cmd, HARNESS, 'compiling /repo and the harness')
                ll = glob.glob(f'{HARNESS}/target/release/deps/harness-*.ll')
            if len(ll) != 1:
                raise NoAnswer('no IR file was produced')
            out = f'{scratch}/harness.ll'
            shutil.copyfile(ll[0], out)
        finally:
            t.join()
        if err:
            raise err[0]
    return out


def build_replay(scratch):
    with lock():
        run(['cargo', 'build', '--release', '--offline', '-q', '--bin', 'replay'], HARNESS, 'building the replay program')
        out = f'{scratch}/replay'
        shutil.copyfile(REPLAY, out)
        os.chmod(out, 0o755)
    return out


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay(binary, entry, params, events, scratch, timeout=30):
    """Run one recorded input natively. -> (outcome, text, observed)"""
    f = tempfile.NamedTemporaryFile('w', dir=scratch, suffix='.ev', delete=False)
    f.write(','.join(map(str, events)) or '-')
    f.close()
    try:
        r = subprocess.run([binary, entry, ','.join(map(str, params)) or '-', '@' + f.name], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=limits)
        out = r.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return 'timeout', f'no end within {timeout} s', []
    finally:
        os.unlink(f.name)
    obs = [int(x) for x in re.findall(r'^OBS (\d+)', out, re.M)]
    m = re.search(r'^ASSERT-FAIL (.*)', out, re.M)
    if m:
        return 'assert', m.group(1), obs
    if re.search(r'^PANIC-ALLOWED', out, re.M):
        return 'allowed panic', '', obs
    m = re.search(r'^PANIC (.*)', out, re.M)
    if m:
        return 'panic', m.group(1), obs
    if re.search(r'^DONE', out, re.M):
        return 'done', '', obs
    if r.returncode in (3, 4, 5):
        return 'mismatch', out[-200:], obs
    return 'crash', f'exit status {r.returncode}: ' + out[-300:], obs


class Job:
    def __init__(self, entry, params, cost=5, time=300, shards=1, depth=3, extra=(), optional=False):
        self.entry, self.params, self.cost, self.time = entry, list(params), cost, time
        self.shards, self.depth, self.extra, self.optional = shards, depth, list(extra), optional

    def name(self):
        return f'{self.entry}({",".join(map(str, self.params))})'


def jobs_of(prop, tier):
    v = []
    for t, entry, params, kw in JOBS[prop]:
        if t == 'quick' or tier == t or (t == 'only-quick' and tier == 'quick'):
            v.append(Job(entry, params, **kw))
    return v


def run_jobs(jobs, ll, scratch, deadline, stop):
    """Run the shards of all jobs on the cores; returns a list of (job, result or None, message)."""
    work = []
    for j in jobs:
        for s in range(j.shards):
            work.append((j.cost / j.shards, j, s))
    work.sort(key=lambda x: -x[0])
    res, lk, procs = [], threading.Lock(), set()

    def worker():
        while True:
            with lk:
                if not work or stop.is_set():
                    return
                _, j, s = work.pop(0)
                n = len(res)
                res.append(None)
            left = deadline - time.time()
            if left < 3:
                with lk:
                    res[n] = (j, s, None, 'not started: time ran out')
                continue
            out = f'{scratch}/r{n}.json'
            sc = f'{scratch}/s{n}'
            os.makedirs(sc, exist_ok=True)
            cmd = [ENGINE, '--ll', ll, '--entry', j.entry, '--out', out, '--params', ','.join(map(str, j.params)),
                   '--time', str(int(min(j.time, left))), '--seed', str(SEED), '--scratch', sc]
            if j.shards > 1:
                cmd += ['--shard', f'{s}/{j.shards}', '--shard-depth', str(j.depth)]
            cmd += j.extra
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
            with lk:
                procs.add(p)
            try:
                o, _ = p.communicate(timeout=min(j.time, left) + 60)
                msg = o.decode('utf-8', 'replace')[-500:]
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                msg = 'time limit'
            with lk:
                procs.discard(p)
            d = None
            if os.path.exists(out):
                try:
                    d = json.load(open(out))
                except ValueError as e:
                    msg = f'bad result: {e}'
            with lk:
                res[n] = (j, s, d, None if d else f'no result ({msg.strip()}, exit status {p.returncode})')
            if d and d['violations']:
                stop.set()
            shutil.rmtree(sc, ignore_errors=True)

    ts = [threading.Thread(target=worker) for _ in range(CORES)]
    for t in ts:
        t.start()
    # once a violation is found the rest is stopped
    while any(t.is_alive() for t in ts):
        if stop.is_set():
            time.sleep(1)
            with lk:
                for p in list(procs):
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
        time.sleep(0.1)
    return [r for r in res if r]


def known_findings():
    kf = []
    try:
        for l in open(f'{HERE}/known_findings.txt'):
            m = re.match(r'known: property=(\S+) site=(\S+) what="([^"]*)" (.*)', l)
            if m:
                kf.append(m.groups())
    except FileNotFoundError:
        pass
    return kf


def main():
    a = sys.argv[1:]
    if a and a[0] == '--build':
        with tempfile.TemporaryDirectory(prefix='symex.') as sc:
            build(sc)
            build_replay(sc)
        return 0
    if a and a[0] == '--jobs':
        for j in jobs_of(a[1], a[2] if len(a) > 2 else 'quick'):
            print(j.name(), 'cost', j.cost, 'shards', j.shards)
        return 0
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    scratch = tempfile.mkdtemp(prefix='symex.')
    try:
        return check(prop, tier, scratch)
    except NoAnswer as e:
        print(f'ERROR property={prop}: {e}')
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, tier, scratch):
    t0 = time.time()
    ll = build(scratch)
    t_build = time.time() - t0
    jobs = jobs_of(prop, tier)
    limit = 780 if tier == 'quick' else 6 * 3600
    stop = threading.Event()
    box = {}

    def rb():
        try:
            box['replay'] = build_replay(scratch)
        except NoAnswer as e:
            box['err'] = e

    rt = threading.Thread(target=rb)
    rt.start()
    res = run_jobs(jobs, ll, scratch, t0 + limit - 60, stop)
    rt.join()
    if 'err' in box:
        raise box['err']
    rep = box['replay']

    tot = {}
    functions, samples, per_job, problems, incomplete, violations = set(), [], {}, [], [], []
    known, covers = {}, {}
    validated = 0
    for j, s, d, msg in res:
        pj = per_job.setdefault(j.name(), dict(entry=j.entry, params=j.params, shards=j.shards))
        if d is None:
            if not stop.is_set():
                (incomplete if 'time' in msg else problems).append(f'{j.name()} shard {s}: {msg}')
            continue
        for k, v in d.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                if k in ('symbolic_bits', 'largest_cone', 'longest_query_seconds'):
                    tot[k] = max(tot.get(k, 0), v)
                    pj[k] = max(pj.get(k, 0), v)
                else:
                    tot[k] = tot.get(k, 0) + v
                    pj[k] = round(pj.get(k, 0) + v, 3)
        functions.update(d['functions'])
        for k, v in d['covers'].items():
            covers[k] = covers.get(k, 0) + v
            pj.setdefault('covers', {})[k] = pj.get('covers', {}).get(k, 0) + v
        for e in d['errors']:
            problems.append(f'{j.name()}: {e}')
        if d.get('incomplete') and not d['violations']:
            incomplete.append(f'{j.name()} shard {s}: {d["incomplete"]}')
            pj['incomplete'] = d['incomplete']
        for v in d['violations']:
            violations.append((j, v))
        for k, v in d['known'].items():
            known.setdefault((j.entry, k), (j, v['events']))
        for w in d['witnesses']:
            samples.append((j, w))

    # counterexamples: only what the native build reproduces is reported
    confirmed = []
    for j, v in violations[:6]:
        for _ in range(8):
            o, text, _obs = replay(rep, j.entry, j.params, v['events'], scratch)
            kind = v['what'].split(':', 1)[0]
            ok = o == 'assert' and kind == 'assert' or o in ('panic', 'crash', 'timeout') and kind == 'panic'
            if ok:
                break
        if ok:
            confirmed.append((j, v, text))
            if len(confirmed) >= 3:
                break
        else:
            problems.append(f'{j.name()}: counterexample "{v["what"]}" {v["events"]} does not reproduce natively ({o} {text})')

    # listed findings: the failing input is replayed too
    found = []
    kf = known_findings()
    for (entry, what), (j, ev) in sorted(known.items()):
        m = [f for f in kf if f[0] == prop and f[1] == entry and f[2] == what]
        if m:
            found.append((m[0], j, ev))
        else:
            confirmed.append((j, dict(what='assert: ' + what, events=ev), what))

    # passing paths: the native build has to observe what the executor computed
    if not confirmed:
        step = max(1, len(samples) // 400)
        for j, w in samples[::step]:
            o, text, obs = replay(rep, j.entry, j.params, w['events'], scratch, timeout=60)
            want = 'allowed panic' if w['panic'] else 'done'
            if o != want or obs != w['observed']:
                problems.append(f'{j.name()}: native run of a passing path differs: {o} {text} {obs[:4]} instead of {want} {w["observed"][:4]} for {w["events"][:60]}')
            else:
                validated += 1
        # vacuity: every job has to reach assertions, and every case it is meant to contain
        for name, pj in per_job.items():
            if not pj.get('asserts') and not pj.get('incomplete'):
                problems.append(f'{name}: no assertion was reached')
        if not incomplete and not problems:
            for c in PROPS[prop].get('covers', []):
                if not covers.get(c):
                    problems.append(f'the case "{c}" was never reached')

    ev = evidence(prop, tier, t0, t_build, jobs, tot, functions, samples, per_job, problems, incomplete, confirmed, found, covers, validated)
    os.makedirs(f'{HERE}/evidence', exist_ok=True)
    json.dump(ev, open(f'{HERE}/evidence/{prop}.json', 'w'), indent=1)

    print(f'{prop} {tier}: {tot.get("paths", 0)} paths, {tot.get("asserts", 0)} assertions decided '
          f'({tot.get("asserts_proved", 0)} by the solver, the rest by rewriting), {tot.get("queries", 0)} queries, '
          f'{tot.get("solver_seconds", 0):.1f} s solver time, {validated} paths replayed natively, {time.time() - t0:.0f} s')
    for i in incomplete[:10]:
        print('INCOMPLETE', i)
    for f, j, evs in found:
        print(f'KNOWN-FINDING: property={prop} {f[3].strip()}')
    if confirmed:
        j, v, text = confirmed[0]
        path = f'{HERE}/evidence/{prop}.replay.sh'
        with open(path, 'w') as f:
            f.write('#!/bin/sh\n# ' + v['what'].replace('\n', ' ') + '\n# native: ' + text.replace('\n', ' ') + '\n'
                    f'cd {HARNESS} && cargo build --release --offline -q --bin replay && '
                    f'target/release/replay {j.entry} {",".join(map(str, j.params)) or "-"} {",".join(map(str, v["events"])) or "-"}\n')
        os.chmod(path, 0o755)
        for j, v, text in confirmed:
            print(f'{j.name()}: {v["what"]}\n  native run: {text}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if problems:
        for p in problems[:10]:
            print('ERROR', p)
        return 2
    return 0


def evidence(prop, tier, t0, t_build, jobs, tot, functions, samples, per_job, problems, incomplete, confirmed, found, covers, validated):
    own = sorted(f for f in functions if f.startswith(('circuit_converters', '<circuit_converters')))
    p = PROPS[prop]
    return dict(
        property=prop, tier=tier, seed=SEED, level=p.get('level', 'model_checking'), wall_s=round(time.time() - t0, 1),
        violations=len(confirmed), assumptions=p['outside'],
        coverage=dict(
            states=tot.get('paths', 0) + tot.get('dead_paths', 0) + tot.get('allowed_panics', 0),
            transitions=tot.get('instructions', 0),
            traces_validated_against_impl=validated,
            samples=[dict(job=j.name(), inputs=w['events'][:200], observed=w['observed'][:40]) for j, w in samples[:: max(1, len(samples) // 8)]][:10],
            exhaustive=not incomplete and not problems,
            explanation='Symbolic execution of the LLVM IR compiled from the current /repo; states are explored paths, transitions executed instructions; '
                        'every assertion on every path is decided for all values of the symbolic bits (by rewriting to a constant or by an UNSAT answer).',
            bounds=p['bounds'],
            functions_encoded_of_repo=own, functions_encoded_total=len(functions),
            assertions=tot.get('asserts', 0), assertions_closed_by_rewriting=tot.get('asserts_constant', 0), assertions_closed_by_solver=tot.get('asserts_proved', 0),
            solver_queries=tot.get('queries', 0), solver_sat=tot.get('sat', 0), solver_unsat=tot.get('unsat', 0), kissat_queries=tot.get('kissat_queries', 0),
            equivalences_merged_by_sweeping=tot.get('sweep_merges', 0),
            solver_seconds=round(tot.get('solver_seconds', 0), 2), longest_query_seconds=tot.get('longest_query_seconds', 0),
            largest_query_cone=tot.get('largest_cone', 0), most_symbolic_bits_on_a_path=tot.get('symbolic_bits', 0),
            forks=tot.get('forks', 0), cases_reached=covers,
            jobs=list(per_job.values()), build_seconds=round(t_build, 1),
            incomplete=incomplete, problems=problems,
            known_findings=[f'{f[3].strip()} [{j.name()} {evs[:40]}]' for f, j, evs in found],
        ))


if __name__ == '__main__':
    sys.exit(main())
