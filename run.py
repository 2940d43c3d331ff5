#!/usr/bin/env python3
"""Builds the drivers of one check against /repo's working tree, runs them under their monitors,
and turns what the monitors observed into a verdict.

  run.py <property> quick|thorough      the registered commands
  run.py replay <file>                  runs again the case a violation was found in

Exit codes: 0 held on everything explored (listed known findings included), 1 violated,
2 no verdict (build or environment trouble, inconclusive runs).
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from checks import CHECKS, VARIANTS  # noqa: E402

REPO = os.environ.get('XME_REPO', '/repo')
JOBS = os.cpu_count() or 4
BASE = ['-std=c++20', '-g', '-w', '-fno-omit-frame-pointer', '-I' + REPO + '/include']
SAN = {
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
    'tsan': ['-fsanitize=thread'],
    'ubsan': ['-fsanitize=undefined', '-fno-sanitize-recover=all'],
    'none': [],
}
ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:exitcode=77:abort_on_error=0:detect_stack_use_after_return=1:'
                    'allocator_may_return_null=0:hard_rss_limit_mb=6000:handle_abort=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=77',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=77:history_size=4',
    'PATH': os.environ.get('PATH', '/usr/bin:/bin'),
    'LC_ALL': 'C',
}


class NoVerdict(Exception):
    pass


def cpu_flags():
    try:
        for line in open('/proc/cpuinfo'):
            if line.startswith('flags'):
                return set(line.split(':', 1)[1].split())
    except OSError:
        pass
    return set()


def compile_cmd(v, src, out):
    cxx = v.get('cxx', 'g++')
    cmd = [cxx] + BASE + ['-O' + v.get('opt', '1')] + SAN[v.get('san', 'asan')] + v.get('flags', [])
    return cmd + [src, '-o', out] + v.get('libs', [])


def build_modules(v, build):
    """Precompiles the modules of the tree into a folder of the build. Returns (options, output)."""
    d = os.path.join(build, v['name'] + '.modules')
    os.makedirs(d, exist_ok=True)
    todo, objects = {}, []
    for path in sorted(glob.glob(REPO + '/modules/**/*.cppm', recursive=True)):
        text = re.sub(r'//.*', '', open(path).read())
        name = re.search(r'export\s+module\s+([\w.:]+)\s*;', text)
        if name:
            todo[name.group(1)] = (path, set(re.findall(r'\bimport\s+([\w.:]+)\s*;', text)))
    flags = [v.get('cxx', 'g++')] + BASE + ['-O' + v.get('opt', '1')] + SAN[v.get('san', 'asan')] + ['-fprebuilt-module-path=' + d]
    done = set()
    while todo:
        ready = [n for n in todo if not (todo[n][1] & (set(todo) - {n}))]
        if not ready:
            return None, 'the modules import each other: ' + ' '.join(todo)
        for n in ready:
            pcm = os.path.join(d, n.replace(':', '-') + '.pcm')
            for cmd in (flags + ['--precompile', todo[n][0], '-o', pcm], flags + ['-c', pcm, '-o', pcm + '.o']):
                p = subprocess.run(cmd, capture_output=True, text=True, cwd=build)
                if p.returncode != 0:
                    return None, p.stderr
            objects.append(pcm + '.o')
            done.add(n)
            del todo[n]
    return ['-fprebuilt-module-path=' + d] + objects, None


def build_units(v, build):
    """Compiles one object file for each header, and two with all of them in both orders. Returns (objects, output)."""
    d = os.path.join(build, v['name'] + '.units')
    os.makedirs(d, exist_ok=True)
    there = [(n, h) for n, h in v['units'] if os.path.exists(os.path.join(REPO, 'include', h))]
    todo = [(n, [(n, h)]) for n, h in there] + [('every', there), ('reversed', there[::-1])]

    def one(unit):
        name, headers = unit
        obj = os.path.join(d, name + '.o')
        cmd = compile_cmd(v, os.path.join(HERE, 'drivers', 'unit.cpp'), obj) + ['-c', '-DUNIT="%s"' % name]
        for n, h in headers:
            cmd += ['-DU_' + n, '-include', h]
        for attempt in range(2):
            p = subprocess.run(cmd, capture_output=True, text=True, cwd=build)
            if p.returncode == 0:
                break
        return obj, p.returncode, 'unit %s: %s' % (name, p.stderr)

    with cf.ThreadPoolExecutor(JOBS) as ex:
        done = list(ex.map(one, todo))
    if all(rc for _, rc, _ in done):
        raise NoVerdict("the headers of the tree don't compile:\n" + done[-1][2][-3000:])
    for _, rc, text in done:
        if rc and ('Killed' in text or 'internal compiler error' in text or 'PLEASE submit a bug report' in text):
            raise NoVerdict('the compiler failed:\n' + text[-2000:])
    bad = [text for _, rc, text in done if rc]
    return [o for o, _, _ in done], '\n'.join(bad) or None


def compile_one(prop, v, build):
    """Returns (binary, None) or (None, compiler output)."""
    if v.get('units'):
        objects, text = build_units(v, build)
        if text:
            return None, text
        v = dict(v, libs=v.get('libs', []) + objects)
    if v.get('modules'):
        options, text = build_modules(v, build)
        if options is None:
            probe = os.path.join(build, v['name'] + '.probe.cpp')
            with open(probe, 'w') as f:
                for path in glob.glob(REPO + '/modules/**/*.cppm', recursive=True):
                    f.write('\n'.join(re.findall(r'#\s*include\s*<xme/[^>]+>', open(path).read())) + '\n')
                f.write('int main() {}\n')
            p = subprocess.run(compile_cmd(v, probe, probe + '.out'), capture_output=True, text=True, cwd=build)
            if p.returncode != 0:
                raise NoVerdict("the headers of the tree don't compile:\n" + p.stderr[-3000:])
            return None, text
        v = dict(v, flags=v.get('flags', []) + options[:1], libs=v.get('libs', []) + options[1:])
    src = os.path.join(HERE, 'drivers', v['src'])
    out = os.path.join(build, v['name'])
    text = ''
    for attempt in range(2):
        p = subprocess.run(compile_cmd(v, src, out), capture_output=True, text=True, cwd=build)
        if p.returncode == 0:
            return out, None
        text = p.stderr
    if v.get('units'):
        return None, text
    # Is it the tree that doesn't build at all, or only this use of its interface?
    incs = sorted(set(re.findall(r'#\s*include\s*<(xme/[^>]+)>', open(src).read())))
    probe = os.path.join(build, v['name'] + '.probe.cpp')
    with open(probe, 'w') as f:
        f.write(''.join('#include <%s>\n' % i for i in incs) + 'int main() {}\n')
    p = subprocess.run(compile_cmd(v, probe, probe + '.out'), capture_output=True, text=True, cwd=build)
    if p.returncode != 0:
        raise NoVerdict("the headers of the tree don't compile:\n" + p.stderr[-3000:])
    if 'Killed' in text or 'internal compiler error' in text or 'PLEASE submit a bug report' in text:
        raise NoVerdict('the compiler failed:\n' + text[-2000:])
    return None, text


def limits(cpu):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 10))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setsid()
    return f


def crash_key(rc, err):
    m = re.search(r'SUMMARY: (\w+Sanitizer): (data race|[\w-]+)', err)
    ub = re.search(r'runtime error: (.*)', err)
    if ub:
        msg = re.sub(r'0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?', 'N', ub.group(1))
        return 'ubsan:' + msg[:120].strip(), ub.group(0)[:300]
    if m:
        return '%s:%s' % (m.group(1).replace('Sanitizer', '').lower(), m.group(2)), m.group(0)
    m = re.search(r'Assertion `(.*)\' failed', err)
    if m:
        return 'assertion:' + m.group(1)[:120], m.group(0)
    if 'terminate called' in err:
        m = re.search(r"terminate called (.*)", err)
        return 'terminate', m.group(0)
    if 'hard rss limit' in err:
        return 'memory-exhausted', 'the driver used more than 6 GB'
    if rc < 0:
        return 'signal:%s' % signal.Signals(-rc).name, err[-300:]
    return 'exit:%d' % rc, err[-300:]


def run_one(task):
    """Runs one shard. Returns a dict with 'out' (the driver's report) and 'crash' or 'hang'."""
    binary, args, base, cpu, wall = task['binary'], task['args'], task['base'], task['cpu'], task['wall']
    for attempt in range(2):
        for f in (base + '.json', base + '.live', base + '.json.distinct'):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [binary] + args + ['--out', base + '.json', '--live', base + '.live']
        env = dict(ENV)
        env.update(task.get('env', {}))
        with open(base + '.err', 'w') as e:
            p = subprocess.Popen(cmd, stdout=e, stderr=e, stdin=subprocess.DEVNULL, env=env,
                                 preexec_fn=limits(cpu * (attempt + 1)), cwd=os.path.dirname(base))
            try:
                rc = p.wait(timeout=wall)
                slow = False
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc, slow = None, True
        try:
            os.killpg(p.pid, signal.SIGKILL)  # whatever it left behind
        except OSError:
            pass
        live = ''
        if os.path.exists(base + '.live'):
            live = open(base + '.live', 'rb').read().split(b'\0', 1)[0].decode('latin1')
        err = open(base + '.err', errors='replace').read()
        res = {'task': task, 'rc': rc, 'live': live, 'err': err}
        if slow:
            if attempt == 0:
                continue
            res['inconclusive'] = 'wall clock limit of %d s' % wall
            return res
        if rc in (0, 10):
            try:
                res['out'] = json.load(open(base + '.json'))
                return res
            except (OSError, ValueError) as x:
                res['inconclusive'] = 'no report: %s' % x
                return res
        if rc in (-signal.SIGXCPU, -signal.SIGKILL) and attempt == 0:
            continue
        if rc == -signal.SIGXCPU:
            res['crash'] = ('hang', 'no end after %d s of processor time (the second time)' % (2 * cpu))
            return res
        if rc == -signal.SIGKILL:
            res['inconclusive'] = 'killed'
            return res
        if rc == 3:
            res['inconclusive'] = 'the driver could not work: ' + err[-300:]
            return res
        res['crash'] = crash_key(rc, err)
        return res


def known_findings(prop):
    keys = {}
    path = os.path.join(HERE, 'known-findings.txt')
    for line in open(path):
        m = re.match(r'known: property=(\S+) key=(\S+)\s+(.*)', line)
        if m and m.group(1) == prop:
            keys[m.group(2)] = m.group(3).strip()
    return keys


def save_replay(prop, variant, task, key, detail, group, case, trace, err, n):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (prop, n))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'variant': variant['name'], 'args': task['args'] if task else [],
                   'key': key, 'detail': detail, 'group': group, 'case': case,
                   'trace': trace, 'report': err[-6000:]}, f, indent=1)
    return path


def build_all(prop, variants, build):
    binaries, broken = {}, []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, prop, v, build): v for v in variants}
        for f in cf.as_completed(futs):
            v = futs[f]
            out, text = f.result()
            if out:
                binaries[v['name']] = out
            else:
                broken.append((v, text))
    return binaries, broken


def usable(v, have):
    return all(c in have for c in v.get('cpu', []))


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    spec = CHECKS[prop]
    have = cpu_flags()
    variants = [VARIANTS[n] for n in spec['variants']]
    if tier == 'thorough':
        variants += [VARIANTS[n] for n in spec.get('thorough_variants', [])]
    skipped = [v['name'] for v in variants if not usable(v, have)]
    variants = [v for v in variants if usable(v, have)]
    build = tempfile.mkdtemp(prefix='xme-verif-%s-' % prop)
    try:
        return decide(prop, tier, seed, spec, variants, skipped, build, t0)
    finally:
        shutil.rmtree(build, ignore_errors=True)


def decide(prop, tier, seed, spec, variants, skipped, build, t0):
    binaries, broken = build_all(prop, variants, build)
    t_build = time.time() - t0
    tasks = []
    shards = spec.get('shards', 2) if tier == 'quick' else spec.get('thorough_shards', 8)
    for v in variants:
        if v['name'] not in binaries:
            continue
        n = v['cases'][tier == 'thorough'] if 'cases' in v else spec['cases'] if tier == 'quick' else spec['thorough_cases']
        for k in range(1 if v.get('once') else shards):
            tasks.append({
                'variant': v, 'binary': binaries[v['name']],
                'args': ['--prop', prop, '--seed', str(seed * 1000 + k), '--cases', str(n)] + v.get('args', []),
                'base': os.path.join(build, '%s.%d' % (v['name'], k)),
                'cpu': 100 if tier == 'quick' else 1500, 'wall': 250 if tier == 'quick' else 3000,
                'env': v.get('env', {}),
            })
    results = []
    with cf.ThreadPoolExecutor(spec.get('parallel', JOBS)) as ex:
        results = list(ex.map(run_one, tasks))

    known = known_findings(prop)
    violations, findings, others, inconclusive = [], {}, {}, []
    evaluations, counters, samples, distinct = 0, {}, [], set()
    per_variant = {}

    def report(v, task, key, detail, group, case, trace, err):
        key = re.sub(r'\s+', '-', key)
        m = re.match(r'(C\d\d):(.*)', key)
        if m:
            if m.group(1) != prop:
                others[key] = others.get(key, 0) + 1
                return
            key = m.group(2)
        if key in known:
            findings[key] = known[key]
            return
        violations.append((v, task, key, detail, group, case, trace, err))

    for v, text in broken:
        err = '\n'.join(l for l in text.splitlines() if 'error' in l)[:3000] or text[:3000]
        report(v, None, 'interface-does-not-compile', err.splitlines()[0] if err else '', '', -1, '', err)
    for r in results:
        v = r['task']['variant']
        if 'out' in r:
            o = r['out']
            evaluations += o['evaluations']
            pv = per_variant.setdefault(v['name'], {'evaluations': 0, 'distinct': 0})
            pv['evaluations'] += o['evaluations']
            raw = open(r['task']['base'] + '.json.distinct', 'rb').read()
            mine = set(struct.unpack('<%dQ' % (len(raw) // 8), raw))
            pv['distinct'] = max(pv['distinct'], len(mine))
            distinct |= mine
            for k, n in o['counters'].items():
                counters[k] = counters.get(k, 0) + n
            if len(samples) < 6:
                samples += [{'driver': v['name'], 'case': s} for s in o['samples'][:2]]
            for x in o['violations']:
                report(v, r['task'], x['key'], x['detail'], x['group'], x['case'], x['trace'], r['err'])
        elif 'crash' in r:
            m = re.match(r'group=(.*) case=(-?\d+)\n', r['live'])
            group, case = (m.group(1), int(m.group(2))) if m else ('', -1)
            report(v, r['task'], r['crash'][0], r['crash'][1], group, case, r['live'], r['err'])
        else:
            inconclusive.append('%s: %s' % (v['name'], r['inconclusive']))

    for k, text in sorted(findings.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    shown = {}
    for v, task, key, detail, group, case, trace, err in violations:
        n = len(shown)
        if key in shown or n >= 10:
            continue
        path = save_replay(prop, v, task, key, detail, group, case, trace, err, n)
        shown[key] = path
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s: %s [%s %s case %d]' % (key, detail, v['name'], group, case))

    coverage = {
        'evaluations': evaluations,
        'distinct_nontrivial': len(distinct),
        'rule': spec['rule'],
        'samples': samples[:6],
        'events_observed': counters,
        'per_driver': per_variant,
        'build_s': round(t_build, 1),
    }
    if skipped:
        coverage['skipped_on_this_cpu'] = skipped
    if others:
        coverage['reports_about_other_properties'] = others
    if inconclusive:
        coverage['inconclusive'] = inconclusive
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': spec['level'], 'coverage': coverage,
        'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    if violations:
        return 1
    if inconclusive:
        print('inconclusive: ' + '; '.join(inconclusive))
        return 2
    if evaluations == 0 or len(distinct) < spec.get('min_distinct', 2):
        print('nothing observed: %d evaluations, %d distinct' % (evaluations, len(distinct)))
        return 2
    print('%s held: %d executions, %d distinct, %.1f s' % (prop, evaluations, len(distinct), time.time() - t0))
    return 0


def replay(path):
    r = json.load(open(path))
    v = VARIANTS[r['variant']]
    build = tempfile.mkdtemp(prefix='xme-verif-replay-')
    try:
        out, text = compile_one(r['property'], v, build)
        if not out:
            print(text[-3000:])
            return 1
        args = list(r['args'])
        if r['group']:
            args += ['--group', r['group'], '--case', str(r['case'])]
        task = {'binary': out, 'args': args, 'base': os.path.join(build, 'r'), 'cpu': 300, 'wall': 900,
                'env': v.get('env', {})}
        res = run_one(task)
        print(res['live'])
        print(res['err'][-6000:])
        if 'out' in res:
            for x in res['out']['violations']:
                print('VIOLATED %s: %s' % (x['key'], x['detail']))
            return 1 if res['out']['violations'] else 0
        print(res.get('crash') or res.get('inconclusive'))
        return 1
    finally:
        shutil.rmtree(build, ignore_errors=True)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    if len(sys.argv) != 3 or sys.argv[1] not in CHECKS or sys.argv[2] not in ('quick', 'thorough'):
        print(__doc__)
        return 2
    try:
        return check(sys.argv[1], sys.argv[2])
    except NoVerdict as e:
        print('no verdict: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
