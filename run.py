#!/usr/bin/env python3
"""Run the check of one property: run.py <ID> [--tier quick|thorough] [--replay FILE] [--keep]

Rebuilds everything from the current working tree of /repo, explores, confirms any violation by
replaying it, writes evidence/<ID>.json and prints the verdict.
Exit codes: 0 property held, 1 violation (with a VIOLATION line), 2 error of the check.
"""
import json, os, shutil, subprocess, sys, time, glob, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('GUL_REPO', '/repo')
PROCS = min(8, os.cpu_count() or 1)
MC = {**{f'T0{i}': 'tp.cc' for i in range(1, 8)}, 'T08': 'trig.cc'}
# wall-clock limits for exploring (s); what is not reached is reported as not covered
LIMIT = {'quick': 420, 'thorough': 4 * 3600}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

class CheckError(Exception):
    pass

class InterfaceBroken(Exception):
    """The library compiles, but uses of its documented interface do not."""

def findings(prop):
    """Known findings: lines 'known: property=<id> key=<text> :: description'."""
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    for line in open(p, encoding='utf-8') if os.path.exists(p) else []:
        line = line.strip()
        if line.startswith('known: '):
            head, _, desc = line[len('known: '):].partition(' :: ')
            parts = dict(x.split('=', 1) for x in head.split('; '))
            if parts.get('property') == prop:
                out.append((parts['key'], desc))
    return out

# ------------------------------------------------------------------ builds
def build_mc(prop, work):
    exe = os.path.join(work, 'mc')
    src = os.path.join(HERE, 'mc', MC[prop])
    cmd = [os.path.join(HERE, 'mc', 'build.sh'), src, exe, '-DPROPERTY_' + prop]
    if prop in ('T07', 'T08'):
        cmd.append('-O0')  # keep all memory accesses the source makes, even those an optimizer may drop
    r = sh(cmd, env={**os.environ, 'GUL_REPO': REPO})
    if r.returncode:
        # Another header of the library might be needed now
        shutil.rmtree(exe + '.d', ignore_errors=True)
        if sh(cmd + ['-include', os.path.join(REPO, 'include', 'gul14', 'gul.h')], env={**os.environ, 'GUL_REPO': REPO}).returncode == 0:
            return exe
        # If only the client programs fail to compile, a documented use of the interface is broken.
        probe = os.path.join(work, 'probe.cc')
        with open(probe, 'w') as f:
            f.write('#include <gul14/gul.h>\n')
        base = ['g++', '-std=c++14', '-w', '-fsyntax-only', '-I' + os.path.join(REPO, 'include')]
        ok = [sh(base + [f]).returncode == 0 for f in [probe] + sorted(glob.glob(os.path.join(REPO, 'src', '*.cc')))]
        c = sh(base + ['-I' + os.path.join(HERE, 'mc'), '-DPROPERTY_' + prop, src])
        if not all(ok) or c.returncode == 0 or 'internal compiler error' in c.stdout or 'Killed' in c.stdout:
            raise CheckError('build failed:\n' + r.stdout[-4000:])
        raise InterfaceBroken(next((l for l in c.stdout.splitlines() if 'error:' in l), 'compile error')[:400] + '\n' + c.stdout[:5000])
    return exe

VARIANTS = {
    'gcc14': ['g++', '-std=c++14', '-O1', '-fsanitize=address,undefined'],
    'gcc14o2': ['g++', '-std=c++14', '-O2'],
    'gcc20': ['g++', '-std=c++20', '-O1', '-fsanitize=address,undefined'],
    'clang17': ['clang++', '-std=c++17', '-O1', '-fsanitize=address,undefined'],
}

def build_seq(prop, work, variant):
    cxx = VARIANTS[variant]
    opts = ['-fno-sanitize-recover=all'] if any('sanitize' in x for x in cxx) else []
    base = cxx + opts + ['-g1', '-w', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(HERE, 'seq')]
    d = os.path.join(work, variant); os.makedirs(d)
    jobs = []
    srcs = [s for s in sorted(glob.glob(os.path.join(REPO, 'src', '*.cc')))] + [os.path.join(HERE, 'seq', prop + '.cc')]
    for s in srcs:
        o = os.path.join(d, os.path.basename(s) + '.o')
        jobs.append((s, o, subprocess.Popen(base + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    objs = []
    failed = []
    for s, o, p in jobs:
        out, _ = p.communicate()
        if p.returncode:
            failed.append((s, out))
        objs.append(o)
    for s, out in failed:
        if len(failed) > 1 or s != srcs[-1]:
            raise CheckError(f'compiling {s} ({variant}) failed:\n' + out[:4000])
        # Another header of the library might be needed now
        if sh(base + ['-include', os.path.join(REPO, 'include', 'gul14', 'gul.h'), '-c', s, '-o', objs[-1]]).returncode == 0:
            continue
        # Only the harness fails. If the library and all of its headers compile, a documented use of the interface is broken.
        probe = os.path.join(d, 'probe.cc')
        with open(probe, 'w') as f:
            f.write('#include <gul14/gul.h>\n')
        if sh(base + ['-c', probe, '-o', probe + '.o']).returncode or 'internal compiler error' in out or 'Killed' in out:
            raise CheckError(f'compiling {s} ({variant}) failed:\n' + out[:4000])
        raise InterfaceBroken(next((l for l in out.splitlines() if 'error:' in l), 'compile error')[:400] + '\n' + out[:5000])
    exe = os.path.join(d, 'seq')
    r = sh(base + objs + ['-o', exe, '-pthread'])
    if r.returncode:
        raise CheckError('link failed:\n' + r.stdout[-4000:])
    return exe

# ------------------------------------------------------------------ concurrency checks
def write_mc_replay(path, prop, j):
    with open(path, 'w') as f:
        f.write(f"property {prop}\nscenario {j['scenario']}\nparams {' '.join(map(str, j['param']))}\nspurious {j['vspur']}\n")
        f.write(f"choices {len(j['choices'])} {' '.join(j['choices'])}\n# {j['category']}: {j['msg']}\n")

def check_mc(prop, tier, work, replay_path):
    try:
        exe = build_mc(prop, work)
    except InterfaceBroken as e:
        with open(replay_path, 'w') as f:
            f.write(f"property {prop}\ndomain compile\n# uses of the documented interface do not compile\n\n{e}\n")
        return [{}], [], {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'exhaustive': False}, [], 'uses of the documented interface do not compile: ' + str(e).splitlines()[0]
    out = os.path.join(work, 'out.json')
    cmd = [exe, '--property', prop, '--procs', str(PROCS), '--out', out, '--deadline', str(LIMIT[tier])]
    if tier == 'thorough':
        cmd.append('--thorough')
    r = sh(cmd)
    if r.returncode or not os.path.exists(out):
        raise CheckError('explorer failed:\n' + r.stdout[-3000:])
    with open(out, encoding='utf-8', errors='replace') as f:
        d = json.load(f)
    jobs = d['jobs']
    known, viol, internal, flaky = [], [], [], []
    kf = findings(prop)
    # shortest counterexample first
    for j in sorted((j for j in jobs if j['violation']), key=lambda j: (j['vbound'], len(j['choices']))):
        if j['violation'] == 2:
            internal.append(j)
            continue
        sig = f"{j['scenario']}: {j['category']}: {j['msg']}"
        hit = [(k, t) for k, t in kf if sig.startswith(k)]
        if hit:
            known.append(hit[0][1])
            continue
        if viol:
            viol.append(j)
            continue
        write_mc_replay(replay_path, prop, j)
        rr = sh([exe, '--replay', replay_path, '--trace'])
        if rr.returncode == 1 and 'REPRODUCED' in rr.stdout and 'NOT REPRODUCED' not in rr.stdout:
            with open(replay_path + '.trace', 'w') as f:
                f.write(rr.stdout)
            viol.append(j)
        else:
            flaky.append(j)
    if internal and not viol:
        raise CheckError('internal error: ' + internal[0]['msg'])
    cov = {
        'states': sum(j['states'] for j in jobs),
        'transitions': sum(j['points'] for j in jobs),
        'traces_validated_against_impl': sum(j['complete'] for j in jobs),
        'schedules_executed': sum(j['execs'] for j in jobs),
        'schedules_cut_at_visited_state': sum(j['pruned'] for j in jobs),
        'programs': len(jobs),
        'deviation_bounds_completed': {str(b): sum(1 for j in jobs if j['bound_done'] == b) for b in sorted({j['bound_done'] for j in jobs})},
        'programs_not_completed': sum(1 for j in jobs if j['bound_done'] < j['bound']),
        'longest_execution_steps': max(j['max_steps'] for j in jobs),
        'exhaustive': all(j['bound_done'] == j['bound'] or j['violation'] for j in jobs) and not flaky,
        'not_reproduced': len(flaky),
        'samples': [{'scenario': j['scenario'], 'params': j['param'], 'deviation_bound': j['bound'], 'schedules': j['execs'], 'states': j['states']} for j in jobs[:: max(1, len(jobs) // 6)][:6]],
        'rule': 'all schedules (thread switches, clock advances, spurious and chosen wakeups) of each client program up to its deviation bound, executed on the real implementation; states = distinct happens-before classes of prefixes',
    }
    assumptions = ['sequentially consistent memory; data races are reported by a happens-before detector instead of being explored',
                   'programs, thread counts (1-3 workers, 1-3 clients) and deviation bounds as listed in mc/*.cc',
                   'context switches happen at synchronization, atomic, clock and history-log operations']
    return viol, known, cov, assumptions, (viol and f"{viol[0]['scenario']} {viol[0]['category']}: {viol[0]['msg']}")

# ------------------------------------------------------------------ sequential checks
ENV = {**os.environ, 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1', 'UBSAN_OPTIONS': 'print_stacktrace=0', 'TZ': 'UTC', 'LC_ALL': 'C'}

def seq_variants(prop, tier):
    v = ['gcc14']
    extra = []
    with open(os.path.join(HERE, 'seq', prop + '.cc')) as f:
        for line in f:
            if line.startswith('// variants-quick:'):
                v = line.split(':')[1].split()
            if line.startswith('// variants-thorough:'):
                extra = line.split(':')[1].split()
    if tier == 'thorough':
        v = v + [x for x in (extra or ['gcc20', 'clang17']) if x not in v]
    return v

def check_seq(prop, tier, work, replay_path):
    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'injected_faults': 0, 'domains': {}, 'samples': [], 'exhaustive': True, 'builds': []}
    limit = LIMIT[tier]
    t0 = time.time()
    for variant in seq_variants(prop, tier):
        try:
            exe = build_seq(prop, work, variant)
        except InterfaceBroken as e:
            with open(replay_path, 'w') as f:
                f.write(f"property {prop}\nvariant {variant}\ntier {tier}\ndomain compile\nindex 0\n# uses of the documented interface do not compile\n\n{e}\n")
            return [{}], [], cov, [], 'uses of the documented interface do not compile: ' + str(e).splitlines()[0]
        out = os.path.join(work, variant + '.json')
        args = ['--thorough'] if tier == 'thorough' else []
        r = sh([exe, '--procs', str(PROCS), '--out', out, '--deadline', str(max(20, limit - (time.time() - t0)))] + args, env=ENV)
        if r.returncode or not os.path.exists(out):
            raise CheckError('runner failed:\n' + r.stdout[-3000:])
        with open(out, encoding='utf-8', errors='replace') as f:
            d = json.load(f)
        cov['builds'].append(' '.join(VARIANTS[variant])); cov['peak_memory_mb'] = max(cov.get('peak_memory_mb', 0), d['peak_mb'])
        for x in d['domains']:
            cov['states'] += x['states']; cov['transitions'] += x['transitions']
            cov['traces_validated_against_impl'] += x['cases']; cov['injected_faults'] += x['faults']
            cov['domains'][f"{variant}:{x['name']}"] = {'cases': x['cases'], 'states': x['states'], 'transitions': x['transitions']}
            if variant == seq_variants(prop, tier)[0]:
                cov['samples'] += [f"{x['name']}: {s}" for s in x['samples'][:2]]
        if d['capped'] and not d['failures']:
            cov['exhaustive'] = False
        unconfirmed = 0
        for fl in sorted(d['failures'], key=lambda f: (f['kind'] != 'violation', f['index'])):
            results = []
            for _ in range(2):
                try:
                    rr = sh([exe] + args + ['--replay', fl['domain'], str(fl['index'])], env={**ENV, 'ASAN_OPTIONS': ENV['ASAN_OPTIONS'] + ':hard_rss_limit_mb=6000'}, timeout=200)
                    results.append((rr.returncode, rr.stdout))
                except subprocess.TimeoutExpired:
                    results.append(('timeout', ''))
            if all(rc != 0 and rc != 3 for rc, _ in results):
                text = fl['msg'] or next((l for l in results[0][1].splitlines() if 'ERROR' in l or 'runtime error' in l or 'FAILED' in l or 'ssertion' in l), '') or f"process ended with {results[0][0]}"
                with open(replay_path, 'w') as f:
                    f.write(f"property {prop}\nvariant {variant}\ntier {tier}\ndomain {fl['domain']}\nindex {fl['index']}\n# {text}\n\n{results[0][1][:6000]}\n")
                return [fl], [], cov, [], f"{fl['domain']} #{fl['index']}: {text}"
            unconfirmed += 1
        if unconfirmed:
            raise CheckError(f'failure not reproducible: {d["failures"]}')
    if not cov['injected_faults']:
        del cov['injected_faults']
    cov['rule'] = 'every case of each bounded domain is executed on the real code and compared with an independent reference; states = distinct inputs or model states, transitions = operations compared with the reference'
    return [], [], cov, ['arguments and sizes within the bounds of the domains in seq/%s.cc' % prop], None

# ------------------------------------------------------------------ main
def do_replay(prop, path, work):
    kv = dict(l.split(None, 1) for l in open(path) if l.strip() and not l.startswith('#') and len(l.split(None, 1)) == 2)
    if prop in MC:
        try:
            exe = build_mc(prop, work)
        except InterfaceBroken as e:
            print(e)
            return 1
        r = sh([exe, '--replay', path, '--trace'])
    else:
        try:
            exe = build_seq(prop, work, kv['variant'].strip())
        except InterfaceBroken as e:
            print(e)
            return 1
        r = sh([exe] + (['--thorough'] if kv['tier'].strip() == 'thorough' else []) + ['--replay', kv['domain'].strip(), kv['index'].strip()], env=ENV)
    print(r.stdout)
    return 1 if r.returncode else 0

def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    if tier not in LIMIT:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(HERE, 'build'))
    replay_path = os.path.join(HERE, 'evidence', f'{prop}.replay')
    try:
        if '--replay' in args:
            return do_replay(prop, args[args.index('--replay') + 1], work)
        t0 = time.time()
        viol, known, cov, assumptions, text = (check_mc if prop in MC else check_seq)(prop, tier, work, replay_path)
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
        if known:
            ev['known_findings'] = known
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for k in sorted(set(known)):
            print(f'KNOWN-FINDING: property={prop} {k}')
        if viol:
            print(text)
            print(f'VIOLATION property={prop} replay={replay_path}')
            return 1
        print(f"{prop} ok: {cov['states']} states, {cov['transitions']} transitions, {cov['traces_validated_against_impl']} traces, exhaustive={cov['exhaustive']}, {ev['wall_s']} s")
        return 0
    except CheckError as e:
        print(f'{prop}: ERROR {e}')
        return 2
    finally:
        if '--keep' not in args:
            shutil.rmtree(work, ignore_errors=True)

sys.exit(main())
