#!/usr/bin/env python3
"""Decides one property: builds its monitored programs from /repo's headers, runs them, aggregates what the monitors saw.

usage: run.py PROPERTY [--only REGEX] [--keep DIR] [--repo DIR]
exit 0: held on everything observed; exit 1: a VIOLATION line was printed; exit 2: the check itself failed.
"""
import argparse, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import units as U

CXX = '/usr/bin/g++-11' if os.path.exists('/usr/bin/g++-11') else 'g++'
BASE = ['-std=c++17', '-w', '-ftemplate-depth=8192']
SAN = ['-O0', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
PLAIN = ['-O1', '-g1']
THREAD = ['-O1', '-g1', '-fsanitize=thread', '-pthread']
JOBS = max(2, min(8, os.cpu_count() or 8))
MEM_MB = 22000
COMPILE_S, RUN_S = int(os.environ.get("VERIF_COMPILE_S") or 600), 240


def is_tooling(log):
    """A compiler that died (memory, signal) says nothing about the code."""
    return bool(re.search(r'Killed|terminated signal|virtual memory exhausted|cannot allocate|No space left|internal compiler error: (Segmentation|Bus)', log)) or not re.search(r'error:|undefined reference', log)


class Check:
    def __init__(self, prop, tier, seed, repo, work):
        self.prop, self.tier, self.seed, self.repo, self.work = prop, tier, seed, repo, work
        self.lock = threading.Condition()
        self.mem = 0
        self.results = []

    def sh(self, cmd, timeout, env=None, cwd=None):
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True, errors='replace', text=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            out, _ = p.communicate()
            return None, out

    def compile(self, u, exe):
        src = os.path.join(HERE, 'drivers', u['src']) if not os.path.isabs(u['src']) else u['src']
        flags = (THREAD if u.get('tsan') else PLAIN if u.get('plain') else SAN) + u.get('flags', [])
        defs = ['-DPROPERTY="%s"' % self.prop] + ['-D%s=%s' % (k, v) for k, v in u.get('defs', {}).items()]
        cmd = [CXX] + BASE + flags + defs + ['-I', os.path.join(self.repo, 'cpp/include'), '-I', os.path.join(HERE, 'include'), '-I', self.work, src, '-o', exe]
        return self.sh(cmd, u.get('compile_s', COMPILE_S))

    def run_unit(self, i, u):
        name = U.label(u)
        t0 = time.time()
        r = {'unit': name, 'status': 'ok', 'spec': {k: v for k, v in u.items()}}
        exe = os.path.join(self.work, 'u%d' % i)
        out = os.path.join(self.work, 'u%d.json' % i)
        rc, log = self.compile(u, exe)
        r['compile_s'] = round(time.time() - t0, 1)
        if rc != 0:
            r['log'] = log[-6000:]
            if rc is None: r['status'] = 'compile-timeout'
            elif is_tooling(log): r['status'] = 'compile-died'
            else:
                r['status'] = 'compile-error'
                m = re.search(r'^.*error:.*$', log, re.M)
                r['detail'] = (m.group(0) if m else log[-300:])[:600]
            return r
        t1 = time.time()
        env = dict(os.environ, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:strict_string_checks=1', UBSAN_OPTIONS='print_stacktrace=1:exitcode=77', TSAN_OPTIONS='exitcode=77:halt_on_error=1', LC_ALL='C')
        if 'rounds' in u: env['VERIF_ROUNDS'] = str(u['rounds'])
        cmd = [exe, out]
        if u.get('valgrind'): cmd = ['valgrind', '-q', '--error-exitcode=77', '--leak-check=full', '--errors-for-leak-kinds=definite'] + cmd
        if os.path.exists(out): os.unlink(out)
        rc, log = self.sh(cmd, RUN_S, env=env, cwd=self.work)
        if rc is None: rc, log = self.sh(cmd, RUN_S * 2, env=env, cwd=self.work)
        r['run_s'] = round(time.time() - t1, 1)
        os.unlink(exe)
        if rc in (0, 1) and os.path.exists(out):
            try: r['json'] = json.load(open(out))
            except Exception as e: r['status'] = 'bad-output'; r['log'] = str(e) + log[-2000:]; return r
            if r['json']['evaluations'] == 0: r['status'] = 'observed-nothing'
            elif (rc == 1) != (r['json']['total_violations'] > 0): r['status'] = 'bad-output'
            return r
        r['log'] = log[-8000:]
        if rc == 3: r['status'] = 'self-test'; return r
        if rc is None: r['status'] = 'hang'
        else: r['status'] = 'crash'
        m = re.search(r'MON-LAST-OPERATION (.*)', log)
        e = re.search(r'^.*(runtime error:.*|ERROR: (?:Address|Leak)Sanitizer.*|WARNING: ThreadSanitizer.*|MON-TERMINATE|terminate called.*|==\d+== (?:Invalid|Conditional|Use of).*)$', log, re.M)
        r['detail'] = ((e.group(1) if e else 'exit status %s' % rc)[:300] + (' at ' + m.group(1)[:700] if m else ''))
        return r

    def worker(self, queue):
        while True:
            with self.lock:
                while True:
                    if not queue: return
                    k = next((n for n, (_, u) in enumerate(queue) if self.mem == 0 or self.mem + u.get('mem', 1500) <= MEM_MB), None)
                    if k is not None: break
                    self.lock.wait()
                i, u = queue.pop(k)
                self.mem += u.get('mem', 1500)
            try: r = self.run_unit(i, u)
            except Exception as e: r = {'unit': U.label(u), 'status': 'harness', 'log': repr(e), 'spec': {}}
            with self.lock:
                self.mem -= u.get('mem', 1500)
                r['index'] = i
                self.results.append(r)
                self.lock.notify_all()

    def run(self, units):
        queue = sorted(enumerate(units), key=lambda x: -x[1].get('cost', 10))
        ts = [threading.Thread(target=self.worker, args=(queue,)) for _ in range(JOBS)]
        for t in ts: t.start()
        for t in ts: t.join()
        # the compiler ran out of memory or time next to the other units: alone, once more
        for r in [r for r in self.results if r['status'] in ('compile-died', 'compile-timeout')]:
            self.results.remove(r)
            n = self.run_unit(r['index'], units[r['index']]); n['index'] = r['index']
            self.results.append(n)
        self.results.sort(key=lambda r: r['index'])


def known_findings():
    p = os.path.join(HERE, 'known_findings.jsonl')
    return [json.loads(l) for l in open(p) if l.strip()] if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property'); ap.add_argument('--only'); ap.add_argument('--repo', default='/repo'); ap.add_argument('--times', action='store_true')
    a = ap.parse_args()
    prop = a.property
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    units = U.units(prop, tier, seed)
    if a.only: units = [u for u in units if re.search(a.only, U.label(u))]
    work = tempfile.mkdtemp(prefix='gatl-%s-' % prop)
    try:
        for u in units:
            if 'generate' in u: u['src'] = U.generate(u, work)
        c = Check(prop, tier, seed, a.repo, work)
        c.run(units)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    bad = [r for r in c.results if r['status'] in ('compile-died', 'compile-timeout', 'bad-output', 'observed-nothing', 'self-test', 'harness')]
    findings = []
    for r in c.results:
        if r['status'] in ('crash', 'hang', 'compile-error'):
            findings.append({'unit': r['unit'], 'kind': r['status'], 'op': r['status'], 'shape': '', 'detail': r.get('detail', ''), 'log': r.get('log', ''), 'spec': r['spec']})
        if 'json' in r:
            for v in r['json']['violations']:
                findings.append({'unit': r['unit'], 'kind': 'mismatch', 'op': v['op'], 'shape': v['shape'], 'detail': 'operands %s want %s got %s %s' % (v['operands'], v['want'], v['got'], v['note']), 'spec': r['spec']})
            if r['json']['total_violations'] and not r['json']['violations']:
                findings.append({'unit': r['unit'], 'kind': 'mismatch', 'op': '?', 'shape': '', 'detail': 'unlisted', 'spec': r['spec']})

    known, new = {}, []
    for f in findings:
        for k in known_findings():
            if k.get('status') == 'finding' and k['property'] == prop and re.fullmatch(k['op'], f['op']) and re.fullmatch(k['shape'], f['shape']) and re.fullmatch(k.get('unit', '.*'), f['unit']):
                known[k['what']] = known.get(k['what'], 0) + 1
                break
        else: new.append(f)

    js = [r['json'] for r in c.results if 'json' in r]
    events = {}
    for j in js:
        for k, v in j['events'].items(): events[k] = events.get(k, 0) + v
    shapes = set(s for j in js for s in j['shape_list'])
    samples = []
    for j in js: samples += j['samples'][:2]
    if len(samples) > 24: samples = samples[::max(1, len(samples) // 24)][:24]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(j['evaluations'] for j in js),
            'distinct_nontrivial': sum(j['distinct_nontrivial'] for j in js),
            'rule': U.RULE.get(prop, U.DEFAULT_RULE),
            'samples': samples or ['none'],
            'operations': events,
            'operation_operand_shape_algebra_combinations': len(shapes),
            'programs_built_and_run': len(js),
            'units': [{'unit': r['unit'], 'status': r['status'], 'evaluations': r.get('json', {}).get('evaluations', 0), 'compile_s': r.get('compile_s'), 'run_s': r.get('run_s')} for r in c.results],
        },
        'assumptions': U.ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 1),
        'violations': len(new),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.only: json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    if a.times:
        for r in sorted(c.results, key=lambda r: -(r.get('compile_s') or 0)): print('  %6ss %5ss %s %s' % (r.get('compile_s'), r.get('run_s'), r['status'], r['unit']))

    print('%s [%s, seed %d]: %d programs, %d evaluations (%d distinct non-trivial), %d operation/shape/algebra combinations, %.0f s' % (prop, tier, seed, len(js), ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], len(shapes), time.time() - t0))
    for w, n in sorted(known.items()): print('KNOWN-FINDING: property=%s %s (%d observations)' % (prop, w, n))
    if new:
        d = os.path.join(HERE, 'replays'); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s-%d.json' % (prop, tier, seed))
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'replay': 'VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s --only REGEX' % (seed, tier, prop), 'violations': new}, open(p, 'w'), indent=1)
        for f in new[:12]: print('  %s | %s(%s) %s' % (f['unit'], f['op'], f['shape'], f['detail'][:600]))
        if len(new) > 12: print('  ... and %d more' % (len(new) - 12))
        print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    for r in bad: print('check failed: %s: %s\n%s' % (r['unit'], r['status'], r.get('log', '')[-1500:]))
    return 2 if bad or not js else 0


sys.exit(main())
