#!/usr/bin/env python3
"""check.py PID: decide one property by symbolic execution of the real code.

Regenerates the LLVM IR of the harness together with /repo's current sources, explores the
entries listed for PID in cases.py with the engine in engine/, replays every counterexample
and every sampled path natively against the real code, and writes evidence/PID.json.
Exit 0: held on everything explored.  1: violation.  2: no verdict."""
import fcntl, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, '.build')
T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUDGET = float(os.environ.get('VERIF_BUDGET', '800' if TIER == 'quick' else '6000'))
CORES = int(os.environ.get('VERIF_CORES', '8'))
sys.path.insert(0, V)
import cases


def env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    return e


def die(msg, code=2):
    print('ERROR ' + msg, flush=True)
    sys.exit(code)


def build(pid):
    """engine, IR and native replay, from the current trees"""
    feat = pid.lower()
    os.makedirs(B, exist_ok=True)
    run = os.path.join(B, 'run', pid)
    os.makedirs(run, exist_ok=True)
    with open(os.path.join(B, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        jobs = [
            ('engine', ['cargo', 'build', '--offline', '--release', '--target-dir', B + '/engine']),
            ('harness/ir', ['cargo', 'rustc', '--offline', '--release', '--features', feat, '--target-dir', B + '/ir', '--', '--emit=llvm-ir']),
            ('harness/native', ['cargo', 'build', '--offline', '--release', '--features', feat, '--target-dir', B + '/native']),
        ]
        ll = B + '/ir/release/deps/h.ll'
        if os.path.exists(ll):
            os.remove(ll)
            # cargo only emits it again when the crate is rebuilt
            p = V + '/harness/src/lib.rs'
            os.utime(p)
        ps = [(d, subprocess.Popen(c, cwd=os.path.join(V, d), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for d, c in jobs]
        for d, p in ps:
            out, _ = p.communicate()
            if p.returncode:
                print(out[-4000:])
                die('cannot build ' + d)
        for s in ('/engine/release/irsym', '/ir/release/deps/h.ll', '/native/release/replay'):
            t = os.path.join(run, os.path.basename(s))
            if os.path.exists(t):
                os.remove(t)
            shutil.copy2(B + s, t)
    return run


def explore(run, i, c, t):
    out = '%s/%d.json' % (run, i)
    if os.path.exists(out):
        os.remove(out)
    left = BUDGET - (time.time() - T0)
    if left < 5:
        return None, 'budget exhausted before start'
    t = min(t, left)
    cmd = [run + '/irsym', '--ir', run + '/h.ll', '--entry', c.entry, '--args', ','.join(map(str, c.args)), '--out', out, '--timeout', str(t)]
    for k, v in c.opts.items():
        cmd += ['--' + k.replace('_', '-'), str(v)]
    cmd = ['prlimit', '--as=%d' % (12 << 30)] + cmd
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t * 1.5 + 60)
    except subprocess.TimeoutExpired:
        return None, 'engine did not stop in time'
    if not os.path.exists(out):
        return None, 'engine failed: ' + p.stdout[-1500:]
    return json.load(open(out)), p.stdout[-500:]


def native(run, lines, stack=None):
    """replay lines; returns one result per line; a crash of the process is an outcome too"""
    res, e = [], env()
    if stack:
        e['REPLAY_STACK'] = str(stack)
    while len(res) < len(lines):
        p = subprocess.Popen([run + '/replay'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=e)
        try:
            out, _ = p.communicate('\n'.join(lines[len(res):]) + '\n', timeout=300)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
        n0 = len(res)
        for l in out.splitlines():
            try:
                res.append(json.loads(l))
            except ValueError:
                break
        if len(res) < len(lines):
            res.append({'outcome': 'crash', 'detail': 'process ended with %s' % p.returncode, 'obs': [], 'reach': []})
        if len(res) == n0:
            break
    return res[:len(lines)]


def line(c, v):
    return '%s %s %s' % (c.entry, ','.join(map(str, c.args)), v['bytes'])


def known(pid):
    out = []
    try:
        for l in open(V + '/known_findings.txt'):
            m = re.match(r'finding: property=(\S+) entry=(\S+) match=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2) + '$'), re.compile(m.group(3)), m.group(4)))
    except FileNotFoundError:
        pass
    return out


def main():
    pid = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    cs = [c for c in cases.CASES[pid] if (TIER == 'thorough' or c.tier == 'q')]
    if only:
        cs = [c for c in cs if re.search(only, c.name())]
    run = build(pid)
    tb = time.time() - T0
    print('built in %.1fs, %d cases' % (tb, len(cs)), flush=True)
    order = sorted(range(len(cs)), key=lambda i: -cs[i].cost)
    res = [None] * len(cs)

    def one(i):
        res[i] = explore(run, i, cs[i], cs[i].timeout * (1 if TIER == 'quick' else 4))
    with ThreadPoolExecutor(CORES) as ex:
        list(ex.map(one, order))
    errs, viol, inc, found = [], [], [], []
    tot = dict(paths=0, steps=0, forks=0, queries=0, trivial=0, rewritten=0, cache_hits=0, sat=0, unsat=0, unknown=0, hard=0, checks=0, checks_symbolic=0)
    secs, smax, lemmas, by = 0.0, 0.0, 0, {}
    fns, fsites = set(), {}
    ntr, perc, samples = 0, [], []
    kn = known(pid)
    for i, c in enumerate(cs):
        d, msg = res[i]
        if d is None:
            (inc if 'budget' in msg or 'in time' in msg else errs).append('%s: %s' % (c.name(), msg))
            continue
        s = d['solver']
        for k in ('paths', 'steps', 'forks', 'checks_symbolic'):
            tot[k] += d[k]
        tot['checks'] += sum(d['checks'].values())
        for k in ('queries', 'trivial', 'rewritten', 'cache_hits', 'sat', 'unsat', 'unknown', 'hard'):
            tot[k] += s.get(k, 0)
        secs += s['seconds']
        smax = max(smax, s['max_seconds'])
        lemmas += s.get('lemmas', 0)
        for k, n in s.get('by', {}).items():
            by[k] = by.get(k, 0) + (n if isinstance(n, (int, float)) else 1)
        fns.update(d['functions'])
        bad = [v for v in d['violations'] if not c.allow(v)]
        perc.append(dict(case=c.name(), complete=d['complete'], paths=d['paths'], steps=d['steps'], queries=s['queries'], solver_s=round(s['seconds'], 3), seconds=round(d['seconds'], 2), reached=d['reached'], symbolic_checks=d['checks_symbolic'], bound=c.bound))
        if not d['complete']:
            inc.append('%s: %s' % (c.name(), json.dumps(d['incomplete'])))
        # counterexamples, replayed
        if bad:
            rs = native(run, [line(c, v) for v in bad], c.stack)
            hit = False
            for v, r in zip(bad, rs):
                same = r['outcome'] == v['outcome'] or (v['outcome'] in ('stack', 'abort', 'badmem', 'unreachable', 'oom') and r['outcome'] in ('crash', 'panic', 'check')) or (v['outcome'] in ('panic', 'check', 'unwind') and r['outcome'] in ('panic', 'check', 'crash'))
                if not same:
                    errs.append('%s: counterexample %s %s does not replay (%s %s) bytes %s' % (c.name(), v['outcome'], v['detail'][:200], r['outcome'], r['detail'][:200], v['bytes'][:400]))
                    continue
                k = next((t for e, m, t in kn if e.match(c.entry) and m.search(v['outcome'] + ':' + v['detail'])), None)
                if k:
                    found.append(k)
                    continue
                if hit:
                    continue
                hit = True
                os.makedirs(V + '/evidence/replay', exist_ok=True)
                f = 'evidence/replay/%s-%d.json' % (pid, len(viol))
                json.dump(dict(property=pid, entry=c.entry, args=c.args, bytes=v['bytes'], expected=v['outcome'], detail=v['detail'], observed=v.get('obs'), native=r, case=c.name(),
                               command="echo '%s' | .build/run/%s/replay" % (line(c, v)[:2000], pid)), open(V + '/' + f, 'w'), indent=1)
                viol.append((f, c.name(), v, r))
        # vacuity
        if not d['violations'] or not bad:
            for x in c.reach:
                if not d['reached'].get(str(x)) and d['complete']:
                    errs.append('%s: point %d never reached' % (c.name(), x))
        # sampled paths must behave the same natively
        sm = [v for v in d['samples'] if not v.get('uncertain')]
        rs = native(run, [line(c, v) for v in sm], c.stack)
        for v, r in zip(sm, rs):
            if v['outcome'] == 'stack' and c.stackok:
                continue
            if r['outcome'] != v['outcome'] or r['obs'] != v['obs'] or r['reach'] != v['reach']:
                errs.append('%s: path does not replay: engine %s %s %s %s, native %s bytes %s' % (c.name(), v['outcome'], v['detail'][:100], v['obs'], v['reach'], json.dumps(r)[:300], v['bytes'][:300]))
            else:
                ntr += 1
        for v in sm[:2]:
            if len(samples) < 24:
                samples.append(dict(case=c.name(), bytes=v['bytes'][:400], outcome=v['outcome'], obs=[o[:200] for o in v['obs']], reach=v['reach']))
    fns = sorted(fns)
    mine = [f for f in fns if 'aseprite_loader' in f]
    ev = dict(property=pid, tier=TIER, seed=SEED, level='model_checking', wall_s=0.0, violations=len(viol),
              coverage=dict(
                  states=tot['paths'] + tot['forks'], transitions=tot['steps'], traces_validated_against_impl=ntr,
                  states_meaning='symbolic paths completed plus fork points; transitions are LLVM IR instructions executed on symbolic values',
                  samples=samples, symbolic_paths=tot['paths'], assertions=tot['checks'], assertions_on_symbolic_values=tot['checks_symbolic'],
                  queries=dict(issued=tot['queries'], sat=tot['sat'], unsat=tot['unsat'], unknown=tot['unknown'], escalated=tot['hard'], cached=tot['cache_hits'], constant=tot['trivial'], by_rewriting=tot['rewritten'], float_lemmas=lemmas, by=by),
                  solver_s=round(secs, 2), longest_query_s=round(smax, 2), functions_encoded=mine, functions_encoded_total=len(fns),
                  bounds=[c.bound for c in cs if c.bound], cases=perc, incomplete_cases=inc, exhaustive=False, build_s=round(tb, 1)),
              assumptions=cases.ASSUME + cases.NOTES.get(pid, []))
    ev['wall_s'] = round(time.time() - T0, 2)
    os.makedirs(V + '/evidence', exist_ok=True)
    if not only:
        json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    for k in sorted(set(found)):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for e in errs:
        print('ERROR ' + e)
    for x in inc:
        print('INCOMPLETE ' + x)
    print('%s: %d cases, %d paths, %d steps, %d assertions (%d symbolic), %d queries, %.1fs solver, %d traces replayed, %.1fs' % (
        pid, len(cs), tot['paths'], tot['steps'], tot['checks'], tot['checks_symbolic'], tot['queries'], secs, ntr, time.time() - T0))
    for f, n, v, r in viol:
        print('  %s: %s %s; native: %s %s' % (n, v['outcome'], v['detail'][:200], r['outcome'], r['detail'][:200]))
        print('VIOLATION property=%s replay=%s' % (pid, f), flush=True)
    if viol:
        sys.exit(1)
    if errs or len(inc) * 2 > len(cs):
        sys.exit(2)


main()
