#!/usr/bin/env python3
"""Decides a property of /verif/properties.jsonl by running the code of /repo under its monitors.

  run.py <property>            check (tier from VERIF_TIER, seed from VERIF_SEED)
  run.py --replay <file>       run again the case of a replay file
  run.py --setup               check the tools
  run.py --cost <property>     what every run of the property costs

Exit 0: held on everything observed. Exit 1: VIOLATION line. Exit 2: no answer (harness or tool error).
"""
import concurrent.futures, json, os, re, resource, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from checks import PROPERTIES, VARIANTS

CORES = os.cpu_count() or 4
BASE = ['-std=c++17', '-fpermissive', '-w', '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(HERE, 'harness')]
ENV = dict(os.environ, ASAN_OPTIONS='abort_on_error=0:detect_leaks=1:allocator_may_return_null=0:detect_stack_use_after_return=1:hard_rss_limit_mb=3000',
           TSAN_OPTIONS='halt_on_error=1:exitcode=66:history_size=4', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', LC_ALL='C')


def out_of_time(e):
    return isinstance(e, subprocess.TimeoutExpired)


class HarnessError(Exception):
    pass


def compile_one(build, job):
    harness, group, variant = job
    v = VARIANTS[variant]
    exe = os.path.join(build, '%s_%s_%s' % (harness, group, variant))
    cmd = v['cxx'] + BASE + v['flags'] + ['-DG_' + group, os.path.join(HERE, 'harness', harness + '.cpp'), '-o', exe]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode != 0:
        raise HarnessError('cannot build %s (%s, %s):\n%s' % (harness, group, variant, p.stdout[-3000:]))
    return job, exe


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run_shard(build, exe, variant, test, seed, first, count, tier, tag, wall):
    v = VARIANTS[variant]
    hashes = os.path.join(build, 'h_' + tag)
    cmd = v.get('run', []) + [exe, '--test', test, '--seed', str(seed), '--first', str(first), '--count', str(count), '--tier', tier,
                              '--cpu', str(v.get('cpu', 60)), '--hashes', hashes]
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=wall, preexec_fn=None if 'fsanitize' in ' '.join(v['flags']) else limit_memory)
        out, err, rc = p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace'), p.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = (e.stdout or b'').decode('utf-8', 'replace'), (e.stderr or b'').decode('utf-8', 'replace'), 'timeout'
    r = dict(rc=rc, out=out, err=err, secs=time.time() - t, stats={}, samples=[], violations=[], cases=0, evals=0, hashes=set(), hang=None, crash=None)
    for line in out.splitlines():
        m = re.match(r'VIOLATED test=(\S+) case=(\d+) :: (.*)', line)
        if m:
            r['violations'].append((int(m.group(2)), m.group(3)))
            continue
        m = re.match(r'HANG test=\S+ case=(\d+)', line)
        if m:
            r['hang'] = int(m.group(1))
            continue
        m = re.match(r'CRASH (\S+) test=\S+ case=(\d+)', line)
        if m:
            r['crash'] = (int(m.group(2)), m.group(1))
            continue
        m = re.match(r'STAT (\S+) (\S+)', line)
        if m:
            r['stats'][m.group(1)] = float(m.group(2))
            continue
        if line.startswith('SAMPLE '):
            r['samples'].append(line[7:])
        m = re.match(r'DONE cases=(\d+) evals=(\d+)', line)
        if m:
            r['cases'], r['evals'] = int(m.group(1)), int(m.group(2))
    if os.path.exists(hashes):
        with open(hashes, 'rb') as f:
            data = f.read()
        r['hashes'] = set(struct.unpack('<%dQ' % (len(data) // 8), data))
        os.unlink(hashes)
    return r


def summary(err):
    """The line of a sanitizer's report that names the problem, and the first frames."""
    lines = err.splitlines()
    for i, l in enumerate(lines):
        if 'ERROR: AddressSanitizer' in l or 'runtime error:' in l or 'LeakSanitizer' in l or 'MemorySanitizer' in l or 'WARNING: ThreadSanitizer' in l:
            frames = [x.strip() for x in lines[i + 1:i + 12] if re.match(r'\s*#\d', x)][:4]
            return re.sub(r'==\d+==', '', l).strip() + ''.join(' | ' + f for f in frames)
    for i, l in enumerate(lines):
        if re.search(r'==\d+== (Conditional jump|Use of uninit|Invalid|Syscall param|Argument)', l):
            return ' | '.join(re.sub(r'==\d+==\s*', '', x) for x in lines[i:i + 4])
    return ' '.join(lines[-2:])[:400]


def known_findings(prop):
    out = []
    path = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) test=(\S+) match=/(.*?)/ :: (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def shards(n):
    k = min(n, CORES * 2) or 1
    step = -(-n // k)
    return [(i, min(step, n - i)) for i in range(0, n, step)]


def check(prop, tier, seed, cost=False):
    start = time.time()
    spec = PROPERTIES[prop]
    runs = [dict(harness=h, group=g, test=t, variant=v, count=q if tier == 'quick' else th) for (h, g, t, v, q, th) in spec['runs']]
    runs = [r for r in runs if r['count']]
    jobs = sorted({(r['harness'], r['group'], r['variant']) for r in runs}, key=lambda j: -VARIANTS[j[2]].get('weight', 1))
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    build = tempfile.mkdtemp(prefix=prop + '.', dir=os.path.join(HERE, 'build'))
    failures = []   # (run, case, kind, message)
    errors = []     # what has no answer
    total = dict(cases=0, evals=0, hashes=0)
    per_run, wall = [], 3000 if tier == 'thorough' else 600
    try:
        with concurrent.futures.ThreadPoolExecutor(CORES) as pool:
            exes = dict(pool.map(lambda j: compile_one(build, j), jobs))
            built = time.time() - start
            futures = []
            for i, r in enumerate(runs):
                exe = exes[(r['harness'], r['group'], r['variant'])]
                for k, (first, count) in enumerate(shards(r['count'])):
                    futures.append((r, first, count, pool.submit(run_shard, build, exe, r['variant'], r['test'], seed, first, count, tier, '%d_%d' % (i, k), wall)))
            results = {}
            for r, first, count, f in futures:
                results.setdefault(id(r), []).append((first, count, f.result()))
        for r in runs:
            hs, stats, samples, cases, evals, secs = set(), {}, [], 0, 0, 0.0
            exe = exes[(r['harness'], r['group'], r['variant'])]
            for first, count, o in results[id(r)]:
                secs += o['secs']
                cases += o['cases']
                evals += o['evals']
                hs |= o['hashes']
                for k, v in o['stats'].items():
                    stats[k] = stats.get(k, 0) + v
                if len(samples) < 3:
                    samples += o['samples'][:1]
                for case, msg in o['violations']:
                    failures.append((r, case, 'monitor', msg))
                if o['rc'] in (0, 3) and not o['crash']:
                    if o['rc'] == 0 and o['cases'] != count:
                        raise HarnessError('%s/%s ran %d cases of %d' % (r['harness'], r['test'], o['cases'], count))
                    continue
                bad = o['crash'][0] if o['crash'] else o['hang']
                if o['hang'] is not None or o['rc'] == 'timeout':
                    if bad is None:
                        errors.append('%s/%s: out of time (cases %d..%d)' % (r['harness'], r['test'], first, first + count - 1))
                        continue
                    again = run_shard(build, exe, r['variant'], r['test'], seed, bad, 1, tier, 'again', wall)
                    if again['hang'] == bad:
                        failures.append((r, bad, 'hang', 'does not end'))
                    elif again['rc'] != 0:
                        failures.append((r, bad, 'monitor', '; '.join(m for _, m in again['violations']) or summary(again['err'])))
                    else:
                        errors.append('%s/%s case %d ran out of time once' % (r['harness'], r['test'], bad))
                elif bad is not None:
                    failures.append((r, bad, 'crash', '%s: %s' % (o['crash'][1], summary(o['err']))))
                elif re.search(r'LeakSanitizer', o['err']):
                    failures.append((r, first, 'leak', summary(o['err'])))
                else:
                    # a tool stopped the run, or reported at its end: look for the case
                    alone = ((c, run_shard(build, exe, r['variant'], r['test'], seed, c, 1, tier, 'one', wall)) for c in range(first, first + count))
                    bad, again = next(((c, a) for c, a in alone if a['rc'] not in (0, 3)), (None, None))
                    if bad is not None and again['rc'] == o['rc'] and o['rc'] != 2:
                        failures.append((r, bad, 'tool', summary(again['err'] or o['err'])))
                        continue
                    errors.append('%s/%s exits with %s (cases %d..%d): %s' % (r['harness'], r['test'], o['rc'], first, first + count - 1, (o['out'] + o['err'])[-1500:]))
            total['cases'] += cases
            total['evals'] += evals
            total['hashes'] += len(hs)
            per_run.append(dict(harness=r['harness'], test=r['test'], build=r['variant'], cases=cases, monitor_checks=evals, distinct_nontrivial=len(hs),
                                observed={k: int(v) if v == int(v) else v for k, v in sorted(stats.items())}, samples=samples, cpu_s=round(secs, 1)))
            if cost:
                print('%-11s %-12s %-6s %6d cases %9d checks %6d distinct %6.1f cpu s' % (r['harness'], r['test'], r['variant'], cases, evals, len(hs), secs))
            if not failures and not errors and (not evals or not hs):
                raise HarnessError('%s/%s observed nothing' % (r['harness'], r['test']))
    finally:
        shutil.rmtree(build, ignore_errors=True)
    if errors and not failures:
        raise HarnessError('; '.join(errors))
    known, reported, violations = known_findings(prop), set(), []
    for r, case, kind, msg in failures:
        hit = next((d for t, rx, d in known if t == r['harness'] + '/' + r['test'] and rx.search(msg)), None)
        if hit:
            reported.add(hit)
        else:
            violations.append((r, case, kind, msg))
    for d in sorted(reported):
        print('KNOWN-FINDING: property=%s %s' % (prop, d))
    for i, (r, case, kind, msg) in enumerate(violations[:5]):
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        path = os.path.join(HERE, 'replay', '%s-%d.json' % (prop, i))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, harness=r['harness'], group=r['group'], test=r['test'], variant=r['variant'], case=case, seed=seed, tier=tier, kind=kind, message=msg), f, indent=1)
        print('%s/%s case %d (%s build, seed %d): %s: %s' % (r['harness'], r['test'], case, r['variant'], seed, kind, msg))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    samples = [dict(run='%s/%s (%s)' % (p['harness'], p['test'], p['build']), case=s) for p in per_run for s in p['samples'][:2]][:40]
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(time.time() - start, 1), violations=len(violations),
              coverage=dict(evaluations=total['cases'], distinct_nontrivial=total['hashes'],
                            rule='A case is a configuration, a workload and a stream of random numbers derived from (seed, test, index), run in one process with its monitors; ' + spec['rule'] +
                                 ' Two cases are distinct when the hashes of all they made the code return or hold differ.',
                            samples=samples, monitor_checks=total['evals'], builds=['%s/%s %s' % j for j in jobs], runs=[{k: v for k, v in p.items() if k != 'samples'} for p in per_run]),
              assumptions=spec.get('assumptions', []))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d cases, %d monitor checks, %d distinct, %d violations, %.1f s (%.1f s of builds)' % (prop, total['cases'], total['evals'], total['hashes'], len(violations), time.time() - start, built))
    return 1 if violations else 0


def replay(path):
    d = json.load(open(path))
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    build = tempfile.mkdtemp(prefix='replay.', dir=os.path.join(HERE, 'build'))
    try:
        _, exe = compile_one(build, (d['harness'], d['group'], d['variant']))
        o = run_shard(build, exe, d['variant'], d['test'], d['seed'], d['case'], 1, d['tier'], 'r', 900)
        sys.stdout.write(o['out'])
        sys.stderr.write(o['err'])
        return 0 if o['rc'] == 0 else 1
    finally:
        shutil.rmtree(build, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a == ['--setup']:
        for v in VARIANTS.values():
            for tool in [v['cxx'][0]] + v.get('run', [])[:1]:
                if not shutil.which(tool):
                    print('missing tool: ' + tool)
                    return 2
        return 0
    if len(a) == 2 and a[0] == '--replay':
        return replay(a[1])
    cost = a[:1] == ['--cost']
    if cost:
        a = a[1:]
    if len(a) != 1 or a[0] not in PROPERTIES:
        print(__doc__)
        return 2
    tier = os.environ.get('VERIF_TIER') or 'quick'
    try:
        return check(a[0], 'thorough' if tier == 'thorough' else 'quick', int(os.environ.get('VERIF_SEED') or 1), cost)
    except HarnessError as e:
        print('NO ANSWER: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
