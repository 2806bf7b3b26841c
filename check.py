#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough   decide one property by seeded simulation of /repo's current tree
   check.py build                    build the simulator into .build
   check.py replay FILE              rebuild and replay a minimised failure (exit 1 if it still fails the same way)
Environment: VERIF_SEED (default 1), VERIF_TIER, CHECK_SECS (exploration time), CHECK_JOBS (workers), REPO (default /repo)."""
import collections, fcntl, glob, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.realpath(__file__))
B = os.path.join(V, '.build')
SIM = os.path.join(B, 'sim')
QUICK, THOROUGH = 45, 660

REAL = "all of /repo/src except its test programs (server.c, grengine.c, parse.c, utils.c, greshunkel.c, simple_sparsehash.c, vector.c, logging.c), compiled unmodified with AddressSanitizer, edge and load/store instrumentation; the regex engine, strftime and the ctype/string functions of glibc run for real"
STUB = "threads (fibers under the seeded scheduler), mutexes/conditions/semaphores, sockets and TCP delivery, POSIX message queues, files/mmap, all clocks and sleeps, stdio output, heap (real allocator behind an accounting and fault-injecting shim), process death and restart"
WORKLOAD = {
 'C10': 'start-ups of the server in which chosen calls (socket, setsockopt, bind, listen, mq_open, pthread_create and others) fail once or persistently, followed by teardown or clean restart',
 'C15': 'random templates (variables, sub-context variables, loops, conditionals, includes, filters) and contexts, rendered by several simulated threads, compared with an independent reference renderer',
 'C18': 'random histories of vector, sparse array and dictionary operations with injected allocation failures, compared with reference models',
}
NONTRIVIAL = {
 'C01': 'requests were in flight together and a send was short, interrupted, blocked or one of several of its response', 'C02': 'requests were in flight together and a thread stalled, a queue filled, a send blocked or a response took several sends',
 'C03': 'a request was cut into segments', 'C04': 'a client was hostile, reset or closed early', 'C05': 'a connection failed or was abandoned (hostile, reset, hang-up, failing call)',
 'C06': 'a request ended other than by a fully sent handler response (hostile, reset, broken pipe, 404, failed file access)', 'C07': 'requests were in flight together and a cleanup ran',
 'C08': 'an accept failed or a system call was interrupted', 'C09': 'the process was killed and restarted', 'C10': 'a start-up call failed', 'C11': 'requests were in flight together and at least two handlers ran',
 'C12': 'a handler looked up fields of a request that had a body, a form or was segmented', 'C13': 'a 206 was sent', 'C14': 'a file was served or an access to it failed', 'C15': 'at least one template with content was rendered',
 'C16': 'a small response became ready while a far larger one was being sent', 'C17': 'requests were in flight together or a thread stalled', 'C18': 'more than ten container operations were executed',
}
ASSUME = {
 '*': ["the simulated kernel (sim/kernel.h, sim/shim.cpp) represents Linux's behaviour for the calls the code makes",
       "threads interleave at instrumented points (calls of the libc seam and sampled loads/stores and control-flow edges); memory is sequentially consistent in the simulation",
       "clients eventually read what they are sent or close: a client that stalls for ever without closing is outside the property"],
}

def sh(cmd, **kw): return subprocess.run(cmd, **kw)

def build():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh([os.path.join(V, 'sim', 'build.sh'), B], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-4000:]); print('check: build of the simulator failed'); sys.exit(2)

def symbolise(msg):
    m = re.search(r'frames:((?: \+?0x[0-9a-f]+)+)', msg)
    if not m: return msg
    try:
        a = m.group(1).split()
        # -no-pie: offsets are relative to the load address 0x400000 only for some tools; try both
        out = []
        for x in a[:12]:
            v = int(x.lstrip('+'), 16)
            for c in (v, v + 0x400000):
                o = sh(['addr2line', '-f', '-s', '-e', SIM, hex(c)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.split('\n')
                if len(o) > 1 and not o[1].startswith('??'):
                    out.append(f'{o[0]}@{o[1]}'); break
        return msg[:m.start()] + 'frames: ' + ' < '.join(out)
    except Exception: return msg

def findings(prop):
    r = []
    try: lines = open(os.path.join(V, 'known-findings.txt')).read().split('\n')
    except OSError: lines = []
    for l in lines:
        m = re.match(r'finding: property=(\S+) kind=(\S+) match=/(.*)/ (.*)$', l)
        if m and m.group(1) == prop: r.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return r

def replay(f, env=None):
    r = sh([SIM, 'replay', f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=300, env=env)
    return r.stdout

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    if sys.argv[1] == 'build': build(); return 0
    if sys.argv[1] == 'replay':
        build(); f = sys.argv[2]; out = replay(f); print(symbolise(out))
        if 'REPRODUCED' in out and 'NOT-' not in out:
            p = re.search(r'^property (\S+)', open(f).read(), re.M).group(1)
            print(f'VIOLATION property={p} replay={f}'); return 1
        return 0
    prop = sys.argv[1].upper(); tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); jobs = int(os.environ.get('CHECK_JOBS', os.cpu_count() or 8))
    secs = float(os.environ.get('CHECK_SECS', THOROUGH if tier == 'thorough' else QUICK))
    t0 = time.time(); build(); tb = time.time() - t0
    work = tempfile.mkdtemp(prefix='m38-', dir=B); os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    try: return explore(prop, tier, seed, jobs, secs, t0, tb, work)
    finally: shutil.rmtree(work, ignore_errors=True)

def explore(prop, tier, seed, jobs, secs, t0, tb, work):
    # determinism gate: the same runs in two separate processes, with different environments, must take the same course
    det = []; procs = []
    for i in range(4):
        for e in ({}, {'PADDING': 'x' * (1500 + 7 * i)}):
            procs.append(subprocess.Popen([SIM, 'run', prop, str(seed), str(900000 + i)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', env={**os.environ, **e}))
    outs = [p.communicate()[0] for p in procs]
    same = sum(outs[2 * i] == outs[2 * i + 1] for i in range(4)); det = f'{same} of 4 runs identical when repeated in another process'
    stop = os.path.join(work, 'stop'); env = {**os.environ, 'SIM_STOP': stop}; ws = []; t1 = time.time()
    for w in range(jobs):
        ws.append(subprocess.Popen([SIM, 'batch', prop, str(seed), str(w), str(jobs), str(secs), '100000000', f'{work}/{w}.json'], stdout=open(f'{work}/{w}.out', 'w'), stderr=subprocess.DEVNULL, env=env))
    found = None
    while any(p.poll() is None for p in ws):
        time.sleep(0.3)
        if found is None and any(os.path.getsize(f'{work}/{w}.out') for w in range(jobs)): found = time.time()
        if found and time.time() - found > (8 if tier != 'thorough' else 20) and not os.path.exists(stop): open(stop, 'w').close()
        if time.time() - t1 > secs + 200:
            for p in ws: p.kill()
    explored = time.time() - t1
    tot = collections.Counter(); ctr = {}; hashes = set(); scheds = set(); eb = 0; samples = []; viols = []; hm = []; lost = 0; maxch = 0
    for w in range(jobs):
        try: j = json.load(open(f'{work}/{w}.json'))
        except Exception: lost += 1; continue
        for k in ('runs', 'nontrivial', 'violations_seen', 'harness', 'points', 'switches', 'edges_executed', 'choices', 'sim_s', 'threads', 'clients'): tot[k] += j[k]
        maxch = max(maxch, j['max_choices']); hashes |= set(j['hashes']); scheds |= set(j['schedules']); eb |= int(j['edgebits'], 16)
        for k, (n, r, f) in j['counters'].items():
            c = ctr.setdefault(k, [0, 0, f]); c[0] += n; c[1] += r
        if len(samples) < 6: samples += j['samples'][:2]
        viols += j['violations']; hm += j['harness_msgs']
    runs = tot['runs']; known = findings(prop); matched = collections.Counter(); fresh = []
    for x in viols:
        for k, rx, what in known:
            if x['kind'] == k and rx.search(x['msg']): matched[what] += 1; break
        else: fresh.append(x)
    code = 0; report = []; nviol = 0
    if runs == 0 or lost or tot['harness'] > max(3, runs // 100):
        print(f'check: no verdict: {runs} runs, {lost} lost workers, {tot["harness"]} harness errors', *hm[:3], sep='\n  '); code = 2
    if fresh:
        # one minimised replay per kind of violation, the most frequent kind first; each must reproduce in a fresh process
        kinds = [k for k, _ in collections.Counter(x['kind'] for x in fresh).most_common()]
        os.makedirs(os.path.join(V, 'replays'), exist_ok=True); ok = None; tsh = time.time()
        for k in kinds:
            if ok and time.time() - tsh > 40: break
            for x in [x for x in fresh if x['kind'] == k and not x['overflow']][:3]:
                f = os.path.join(V, 'replays', f'{prop}-{k}-{x["seed"]}.replay')
                try: r = sh([SIM, 'shrink', prop, x['seed'], '20' if tier != 'thorough' else '60', f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=300)
                except subprocess.TimeoutExpired: continue
                if r.returncode != 0 or not os.path.exists(f): report.append(f'not confirmed: {k} seed {x["seed"]}: {r.stdout.strip()}'); continue
                try: outs = [replay(f), replay(f, {**os.environ, 'PADDING': 'y' * 2000})]
                except subprocess.TimeoutExpired: continue
                if not all(re.search(r': REPRODUCED', o) for o in outs): report.append(f'not reproduced: {k} seed {x["seed"]}'); os.unlink(f); continue
                msg = symbolise(re.search(r'^message=(.*)', outs[0], re.M).group(1))
                print(f'{prop}: {k}: {msg}\n  run {x["run"]} seed {x["seed"]}; {r.stdout.strip()}')
                ok = ok or f; nviol += 1; print(f'VIOLATION property={prop} replay={f}', flush=True); break
        if ok: code = 1
        else:
            print('check: violations were seen, none could be replayed', *report, sep='\n  '); code = 2
    for what, n in matched.items(): print(f'KNOWN-FINDING: property={prop} {what} ({n} times)')
    wall = time.time() - t0; per_h = runs / explored * 3600 if explored else 0
    ev = {
     'property': prop, 'tier': 'thorough' if tier == 'thorough' else 'quick', 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2), 'violations': nviol,
     'coverage': {
      'evaluations': runs, 'distinct_nontrivial': len(hashes),
      'rule': 'one evaluation is one simulated execution, determined by its run seed = f(VERIF_SEED, property, run number); workload: ' + WORKLOAD.get(prop, 'a server with 1-8 workers, generated applications, clients, request segmentations, schedules and faults in the mix chosen for this property')
              + '. A run is non-trivial if ' + NONTRIVIAL[prop] + '. Distinct: by hash over the run\'s whole event trace (scheduling decisions, every system call with its result, network bytes, faults).',
      'samples': samples[:8] or ['none'],
      'runs_per_hour': round(per_h), 'seeds_per_hour': round(per_h), 'simulated_seconds': round(tot['sim_s'], 1), 'exploration_wall_s': round(explored, 1), 'build_wall_s': round(tb, 1), 'workers': jobs,
      'nontrivial_runs': tot['nontrivial'], 'distinct_schedules': len(scheds), 'scheduling_points': tot['points'], 'thread_switches': tot['switches'], 'control_flow_edges_executed': tot['edges_executed'], 'distinct_edges_covered': bin(eb).count('1'),
      'random_choices': tot['choices'], 'max_choices_in_a_run': maxch, 'simulated_threads': tot['threads'], 'simulated_clients': tot['clients'],
      'faults_injected': {k: {'count': c[0], 'runs_with': c[1]} for k, c in ctr.items() if c[2]},
      'events_reached': {k: {'count': c[0], 'runs_with': c[1]} for k, c in ctr.items() if not c[2]},
      'determinism_check': det, 'harness_errors': tot['harness'], 'harness_messages': hm[:5], 'unconfirmed': report, 'known_findings_seen': dict(matched),
      'real_components': REAL, 'stub_components': STUB },
     'assumptions': ASSUME['*'] }
    with open(os.path.join(V, 'evidence', f'{prop}.json.tmp'), 'w') as f: json.dump(ev, f, indent=1)
    os.rename(os.path.join(V, 'evidence', f'{prop}.json.tmp'), os.path.join(V, 'evidence', f'{prop}.json'))
    print(f'{prop} {tier}: {runs} runs ({len(hashes)} distinct non-trivial, {len(scheds)} schedules, {tot["sim_s"]:.0f} simulated s) in {explored:.0f} s, {nviol} violations; {det}')
    return code

if __name__ == '__main__': sys.exit(main())
