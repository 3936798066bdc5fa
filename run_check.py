#!/opt/venv/bin/python
"""Run one property's monitor:  run_check.py <ID> [--tier quick|thorough] [--replay FILE] [--seed N]

exit 0: held on everything explored; exit 1 + "VIOLATION property=<id> replay=<path>": broken;
exit 2: inconclusive (the monitors did not see enough to say anything)."""
import argparse
import json
import os
import queue
import re
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'


def worker_env():
    env = dict(os.environ)
    env.update(MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1', MALLOC_CHECK_='3', MALLOC_PERTURB_='165')
    repo = env.get('VERIF_REPO', '/repo')
    env['PYTHONPATH'] = HERE + os.pathsep + repo
    import tempfile
    env['MPLCONFIGDIR'] = os.environ.get('MPLCONFIGDIR', os.path.join(tempfile.gettempdir(), 'verif-mpl'))
    return env


class Worker:
    def __init__(self, prop, seed, tier):
        self.args = (prop, seed, tier)
        self.p = None

    def start(self):
        prop, seed, tier = self.args
        self.p = subprocess.Popen([PY, '-m', 'mon.worker', prop, str(seed), tier], cwd=HERE, env=worker_env(),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        self.err = []
        t = threading.Thread(target=self._drain, args=(self.p, self.err), daemon=True)
        t.start()

    @staticmethod
    def _drain(p, err):
        for line in p.stderr:
            err.append(line)
            if len(err) > 60:
                del err[0]

    def run(self, job, limit):
        """('ok', report) | ('died', signal/rc, stderr) | ('hang',)"""
        if self.p is None or self.p.poll() is not None:
            self.start()
        res = {}

        def read():
            try:
                self.p.stdin.write(json.dumps(job) + '\n')
                self.p.stdin.flush()
                res['line'] = self.p.stdout.readline()
            except Exception as e:  # noqa
                res['line'] = ''
        t = threading.Thread(target=read, daemon=True)
        t.start()
        t.join(limit)
        if t.is_alive():
            self.p.kill()
            self.p.wait()
            t.join(5)
            self.p = None
            return ('hang',)
        if not res.get('line'):
            rc = self.p.wait()
            time.sleep(.05)
            err = ''.join(self.err)
            self.p = None
            return ('died', rc, err[-1500:])
        return ('ok', json.loads(res['line']))

    def stop(self):
        if self.p is not None and self.p.poll() is None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:  # noqa
                self.p.kill()


def known_findings(prop):
    out = {}
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--family')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--cap', type=float, default=None)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, a.seed
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    from mon.props import META
    meta = META[prop]
    cap = a.cap or (540.0 if tier == 'quick' else 780.0)
    limit = meta.get('case_limit', 60.0)
    fams = meta['families']
    if a.replay:
        rep = json.load(open(a.replay))
        seed, tier = rep['seed'], rep['tier']
        jobs = [{'family': rep['family'], 'idx': rep['idx']}]
    else:
        jobs = []
        lists = []
        for name, (q, th) in fams.items():
            if a.family and name not in a.family.split(','):
                continue
            n = q if tier == 'quick' else th
            n = max(1, int(round(n * a.scale))) if n else 0
            lists.append([{'family': name, 'idx': i} for i in range(n)])
        # interleave families in proportion, so that a wall-clock cut hits all of them alike
        tagged = []
        for li in lists:
            for i, j in enumerate(li):
                tagged.append(((i + .5) / len(li), j['family'], j))
        tagged.sort(key=lambda t: (t[0], t[1]))
        jobs = [t[2] for t in tagged]

    q = queue.Queue()
    for j in jobs:
        q.put(j)
    results = []
    lock = threading.Lock()
    retry = []
    slow = []

    def pump():
        w = Worker(prop, seed, tier)
        while True:
            if time.time() - t0 > cap or len(retry) >= 6:
                break
            try:
                j = q.get_nowait()
            except queue.Empty:
                break
            t1 = time.time()
            r = w.run(j, limit)
            with lock:
                slow.append((round(time.time() - t1, 1), j['family'], j['idx']))
                if r[0] == 'hang':
                    retry.append(j)
                results.append((j, r))
        w.stop()

    ths = [threading.Thread(target=pump) for _ in range(max(1, min(a.jobs, len(jobs))))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    # a hang counts only if it repeats with the machine to itself
    confirmed_hang = []
    for j in retry[:2]:
        w = Worker(prop, seed, tier)
        r = w.run(j, limit)
        w.stop()
        if r[0] == 'hang':
            confirmed_hang.append(j)
        else:
            results.append((j, r))

    events, sigs, skipped, samples, viols = {}, set(), {}, [], []
    done = 0
    perfam = {}
    fam_sampled = set()
    for j, r in sorted(results, key=lambda t: (t[0]['family'], t[0]['idx'])):
        if r[0] == 'ok':
            done += 1
            rep = r[1]
            fs = perfam.setdefault(j['family'], {'cases': 0, 'nontrivial': 0, 'skipped': 0})
            fs['cases'] += 1
            fs['nontrivial'] += len(rep['sigs'])
            fs['skipped'] += sum(rep['skipped'].values())
            for k, v in rep['events'].items():
                events[k] = events.get(k, 0) + v
            sigs.update(rep['sigs'])
            for k, v in rep['skipped'].items():
                skipped[k] = skipped.get(k, 0) + v
            if rep['sample'] is not None and (j['family'] not in fam_sampled or len(samples) < 2) and len(samples) < 12:
                fam_sampled.add(j['family'])
                samples.append({'family': j['family'], 'idx': j['idx'], 'case': rep['sample']})
            for v in rep['viol']:
                viols.append((j, v, rep.get('spec')))
        elif r[0] == 'died':
            rc = r[1]
            if rc in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL):
                viols.append((j, {'msg': 'native crash (signal %d) while running this case: %s' % (-rc, r[2]),
                                  'key': 'native-crash', 'data': {}}, None))
            else:
                skipped['worker died rc=%s' % rc] = skipped.get('worker died rc=%s' % rc, 0) + 1
                if a.v:
                    print(r[2])
    for j in confirmed_hang:
        viols.append((j, {'msg': 'no result within %.0f s (twice; other cases take well under a second)' % limit,
                          'key': 'hang', 'data': {}}, None))

    known = known_findings(prop)
    seen_known, real = set(), []
    for j, v, spec in viols:
        if v['key'] in known:
            seen_known.add(v['key'])
        else:
            real.append((j, v, spec))
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s key=%s %s' % (prop, k, known[k]))

    rc = 0
    rdir = os.path.join(HERE, 'replays')
    shown = set()
    for j, v, spec in real:
        if a.replay:
            path = a.replay
        else:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join('replays', '%s-%s-%s-%d.json' % (prop, tier, j['family'], j['idx']))
            with open(os.path.join(HERE, path), 'w') as f:
                json.dump({'property': prop, 'family': j['family'], 'idx': j['idx'], 'seed': seed, 'tier': tier,
                           'violation': v, 'spec': spec}, f, indent=1, default=str)
        if path not in shown and len(shown) < 20:
            shown.add(path)
            print('  %s[%d]: %s' % (j['family'], j['idx'], v['msg'].strip()[:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1

    need = meta.get('need', {})
    missing = [] if (a.replay or a.family or a.scale != 1.0) else \
        ['%s: saw %d, need %d' % (k, events.get(k, 0), n) for k, n in need.items() if events.get(k, 0) < n]
    bad = events.get('harness_error', 0)
    if rc == 0 and (missing or bad or done == 0):
        rc = 2
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': meta.get('level', 'exploration'),
          'coverage': {'evaluations': done, 'distinct_nontrivial': len(sigs), 'rule': meta['rule'],
                       'samples': samples, 'observed_events': events, 'cases_skipped': skipped,
                       'per_family': perfam, 'cases_planned': len(jobs), 'slowest_cases': sorted(slow)[-3:], 'hangs_seen': len(retry), 'hangs_confirmed': len(confirmed_hang),
                       'known_findings_seen': sorted(seen_known)},
          'assumptions': meta.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(real)}
    if not a.replay:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s %s seed=%d: %d/%d cases, %d distinct non-trivial, events %s, skipped %s, %.1fs' % (
        prop, tier, seed, done, len(jobs), len(sigs), json.dumps(events, sort_keys=True),
        json.dumps({k[:60]: v for k, v in skipped.items()}), time.time() - t0))
    if a.v:
        print(json.dumps(perfam, indent=1))
        for k, v in skipped.items():
            if 'HARNESS' in k:
                print(k, v)
    if rc == 2:
        print('INCONCLUSIVE: %s' % '; '.join(missing + (['%d harness errors' % bad] if bad else []) or ['nothing ran']))
        for k, v in skipped.items():
            if 'HARNESS' in k:
                print(k[:1200])
    sys.exit(rc)


if __name__ == '__main__':
    main()
