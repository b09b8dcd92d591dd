#!/usr/bin/env python3
"""Decides one property by seeded simulation: run.py C04 --tier quick|thorough   (exit 0 held, 1 violated, 2 no answer)
   run.py --replay FILE                                                       (exit 1 reproduced)"""
import json, os, subprocess, sys, time, shutil, glob
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'sim'))
import build
from checks import CHECKS, REAL, STUB
OUT = os.path.join(ROOT, 'replays')
def fail(msg):
    print('ERROR ' + msg, file=sys.stderr); sys.exit(2)
def findings(prop):
    r = []
    for l in open(os.path.join(ROOT, 'known-findings.txt')):
        l = l.strip()
        if l.startswith('finding: property=%s ' % prop):
            d, _, text = l.partition(' -- '); f = dict(x.split('=', 1) for x in d.split()[1:]); f['text'] = text; r.append(f)
    return r
def peer(prop): return ['--peer', build.build(CHECKS[prop]['peer'])] if CHECKS[prop].get('peer') else []
def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        prop = [l.split()[1] for l in open(a[1]) if l.startswith('property ')][0]
        fl = ([l.split()[1] for l in open(a[1]) if l.startswith('flavour ')] + ['A'])[0]
        r = subprocess.run([build.build(fl), '--replay', a[1]] + peer(prop), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(r.stdout); sys.exit(r.returncode)
    prop = a[0]; tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CHECKS[prop]; t0 = time.time()
    budget = c['thorough_s'] if tier == 'thorough' else c['quick_s']
    work = os.path.join(OUT, '%s.%d' % (prop, os.getpid())); os.makedirs(work, exist_ok=True)
    ncpu = max(1, min(8, os.cpu_count() or 1))
    tot = dict(runs=0, nontrivial=0, steps=0, simtime_us=0, det=0, cov=0); stats = {}; samples = []; hashes = set(); viol = None; herr = []; comp = []; sim_seconds = 0.0
    for fl, share in c['flavours'].items():
        try: exe = build.build(fl)
        except SystemExit as e: fail(str(e))
        pe = peer(prop)
        for f in findings(prop):
            if f.get('flavour', 'A') != fl: continue
            r = subprocess.run([exe, '--demo', f['demo'], '--out', work], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1: print('KNOWN-FINDING: property=%s %s' % (prop, f['text']))
            elif r.returncode not in (0, 1): fail('demo %s: %s' % (f['demo'], r.stdout[-500:]))
        count = int(c['thorough_n' if tier == 'thorough' else 'quick_n'].get(fl)); per = (count + ncpu - 1) // ncpu
        base = seed * 10**9
        procs = []
        for w in range(ncpu):
            d = os.path.join(work, '%s.%d' % (fl, w)); os.makedirs(d, exist_ok=True)
            procs.append((d, subprocess.Popen([exe, prop, '--start', str(base + w * 10**7), '--count', str(per), '--seconds', '%.1f' % (budget * share), '--out', d, '--twice', str(c.get('twice', 64))] + (['--thorough'] if tier == 'thorough' else []) + pe, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        alive = list(range(len(procs))); errs = [''] * len(procs); stop = False
        import threading
        def reader(i): errs[i] = procs[i][1].stderr.read()
        th = [threading.Thread(target=reader, args=(i,)) for i in range(len(procs))]
        for t in th: t.start()
        while alive:
            time.sleep(0.05)
            for i in list(alive):
                rc = procs[i][1].poll()
                if rc is None: continue
                alive.remove(i)
                if rc == 1 and not stop: # one violation is enough
                    stop = True
                    for j in alive: procs[j][1].terminate()
        for t in th: t.join()
        for i, (d, p) in enumerate(procs):
            for f in glob.glob(d + '/batch.*.json'):
                b = json.load(open(f)); sim_seconds += b['seconds']
                for k in ('runs', 'nontrivial', 'steps', 'simtime_us', 'det'): tot[k] += b[k]
                tot['cov'] = max(tot['cov'], b['cov'])
                for k, v in b['stats'].items(): stats[k] = stats.get(k, 0) + v
                if len(samples) < 4: samples += b['samples'][:1]
                hashes.update(b['hashes'])
                if b['harness_error']: herr.append(b['harness_error'])
                if b['violation'] and not viol:
                    dst = os.path.join(OUT, os.path.basename(b['violation'])); shutil.copy(b['violation'], dst); viol = (fl, dst)
            if p.returncode not in (0, 1) and not (stop and p.returncode < 0): herr.append('worker ended with %s: %s' % (p.returncode, errs[i][-800:]))
        if viol: break
    shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    nv = 0
    if viol:
        # a fresh process must reproduce it from the file alone
        r = subprocess.run([build.build(viol[0]), '--replay', viol[1]] + peer(prop), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 1: herr.append('replay of %s in a fresh process: %s' % (viol[1], r.stdout[-800:])); viol = None
        else: nv = 1
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault.')}
    jobs = {k[5:]: v for k, v in sorted(stats.items()) if k.startswith('jobs.')}
    other = {k: v for k, v in sorted(stats.items()) if not k.startswith(('fault.', 'jobs.'))}
    ev = dict(property=prop, tier=tier, seed=seed, level=c['level'], coverage=dict(
        evaluations=tot['runs'], distinct_nontrivial=len(hashes), rule=c['rule'], samples=samples or ['(none)'],
        runs_per_hour=int(tot['runs'] / max(wall, 1e-9) * 3600), seeds='%d.. (%d per worker, %d workers)' % (seed * 10**9, per, ncpu), simulated_time_s=round(tot['simtime_us'] / 1e6, 3),
        library_basic_blocks_executed=tot['steps'], distinct_block_slots_reached=tot['cov'], faults_injected=faults, operations=jobs, counters=other,
        distinctness_measure='hash of the history of a run: workload, points and kinds of faults, order of events and all results', determinism='%d seeds executed three times (twice from the seed, once from the recorded choices) with identical history hashes' % tot['det'],
        real_components=[x for fl in c['flavours'] for x in REAL[fl]], stubbed_components=[x for fl in c['flavours'] for x in STUB[fl]] + c.get('stub', [])),
        assumptions=c.get('assumptions', []), wall_s=round(wall, 2), violations=nv)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    if nv:
        print(open(viol[1]).read().split('\nstream')[0]); print('VIOLATION property=%s replay=%s' % (prop, viol[1])); sys.exit(1)
    if herr: fail('; '.join(herr)[:3000])
    print('%s held: %d runs, %d distinct histories, %.1f s' % (prop, tot['runs'], len(hashes), wall)); sys.exit(0)
main()
