#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of hibit_tree from /repo's current source.

Every obligation is a Kani harness (contract harness over the real code) or a Kani function
contract. An obligation is discharged when the verifier accepts it, violated when a named check in
it fails, and undecided when the tool gave no answer (timeout, loop bound too small for the code
as it is now written, unsupported construct, harness no longer compiles). Undecided obligations are
reported, never alarmed on; the native driver is then run as a bounded stand-in.
"""
import json, os, re, resource, shutil, signal, subprocess, sys, time
from obligations import OBLIGATIONS, ASSUMPTIONS, TRUSTED, LEVEL

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
TARGET = os.path.join(VERIF, 'target')
FLAGS = ['-Z', 'stubbing', '-Z', 'mem-predicates', '-Z', 'function-contracts', '-Z', 'loop-contracts',
         '-Z', 'unstable-options', '--no-assertion-reach-checks']
BUDGET = 800          # seconds for everything
MEM = 9 << 30         # per process


def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


def run(cmd, timeout, cwd, env):
    """run, kill the whole process group at the end; returns (rc|None, output)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors='replace', preexec_fn=limits)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    return rc, out


def environment(group):
    env = dict(os.environ, CARGO_NET_OFFLINE='true', HIBIT_VP_DIR=os.path.join(VERIF, 'incrate'))
    flags = '-Awarnings'
    if not group.startswith('harness'):
        flags += ' --cfg vp_' + group
    env['RUSTFLAGS'] = flags
    return env


def command(group, names, jobs, timeout, extra=()):
    if group.startswith('harness'):
        where = ['--manifest-path', os.path.join(VERIF, 'harness', 'Cargo.toml')]
    else:
        where = ['--manifest-path', os.path.join(REPO, 'Cargo.toml')]
    cmd = ['cargo', 'kani'] + where + ['--target-dir', os.path.join(TARGET, 'kani_' + group)]
    for n in names:
        cmd += ['--harness', n]
    cmd += ['--exact'] + FLAGS + ['-j', str(jobs), '--output-format=terse', '--harness-timeout', '%ds' % timeout]
    cmd += list(extra)
    if group.endswith('_ns'):
        cmd += ['--cbmc-args', '--no-simplify']
    return cmd


def parse(out):
    """harness -> dict(status, checks, failed[], time, cover)"""
    res, cur, th = {}, {}, None
    for l in out.splitlines():
        m = re.match(r'Thread (\d+): ?(.*)$', l)
        if m:
            th, l = m.group(1), m.group(2)
        m = re.match(r'Checking harness ([^\s]+?)\.\.\.', l)
        if m:
            cur[th] = m.group(1)
            res[m.group(1)] = dict(status='none', checks=0, failed=[], time=0.0, cover=None)
            continue
        r = res.get(cur.get(th))
        if r is None:
            continue
        m = re.match(r'\s*\*\* (\d+) of (\d+) failed', l)
        if m:
            r['checks'] = int(m.group(2))
        m = re.match(r'\s*\*\* (\d+) of (\d+) cover', l)
        if m:
            r['cover'] = (int(m.group(1)), int(m.group(2)))
        m = re.match(r'Failed Checks: (.*)', l)
        if m:
            r['failed'].append(dict(check=m.group(1), at=''))
        m = re.match(r'\s*File: (.*)', l)
        if m and r['failed']:
            r['failed'][-1]['at'] = m.group(1)
        m = re.match(r'VERIFICATION:- (\w+)', l)
        if m:
            r['status'] = 'ok' if m.group(1) == 'SUCCESSFUL' else 'failed'
        if re.search(r'CBMC (failed|timed out)|out of memory|harness timed out|TIMEOUT', l, re.I):
            r['tool'] = l.strip()
        m = re.match(r'Verification Time: ([\d.]+)s', l)
        if m:
            r['time'] = float(m.group(1))
    return res


UNWIND = re.compile(r'unwinding assertion|recursion unwinding', re.I)
UNSUPPORTED = re.compile(r'is not currently supported|unsupported|VP_TOOL', re.I)
BOUND = re.compile(r'^vp-bound:', re.I)


def judge(r, only=None):
    if only and r['status'] in ('ok', 'failed') and r['checks']:
        # rejection harness: panics are the expected outcome, only the checks named `only` decide
        hit = [f for f in r['failed'] if only in f['check']]
        if hit:
            return 'violated', '; '.join(sorted({f['check'] for f in hit}))
        if any(UNWIND.search(f['check']) or UNSUPPORTED.search(f['check']) for f in r['failed']):
            return 'undecided', 'tool limit'
        if r['failed']:
            return 'discharged', ''
        return 'undecided', 'vacuous: no rejection reached'
    if r['status'] == 'ok':
        if r['cover'] and r['cover'][0] < r['cover'][1]:
            return 'undecided', 'vacuous: a reachability check was not satisfied'
        if r['checks'] == 0:
            return 'undecided', 'no checks generated'
        return 'discharged', ''
    if r['status'] == 'failed':
        real = [f for f in r['failed'] if not UNWIND.search(f['check']) and not UNSUPPORTED.search(f['check'])
                and not BOUND.search(f['check'])]
        if real:
            return 'violated', '; '.join(sorted({f['check'] for f in real}))
        if any(UNWIND.search(f['check']) for f in r['failed']):
            return 'unwind', 'loop bound too small for the code as written'
        return 'undecided', r.get('tool') or '; '.join(f['check'] for f in r['failed']) or 'verifier error'
    return 'undecided', r.get('tool') or 'no answer'


def native(prop, seconds, deadline):
    """bounded native driver; returns (verdict, text, cases)"""
    man = os.path.join(VERIF, 'driver', 'Cargo.toml')
    if not os.path.exists(man):
        return 'none', 'no driver', 0
    env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings')
    rc, out = run(['cargo', 'build', '--offline', '--release', '--manifest-path', man, '--target-dir',
                   os.path.join(TARGET, 'driver')], min(200, deadline - time.time()), VERIF, env)
    if rc != 0:
        return 'none', 'driver does not build:\n' + out[-2000:], 0
    seed = os.environ.get('VERIF_SEED', '1')
    rc, out = run([os.path.join(TARGET, 'driver', 'release', 'driver'), prop, str(seconds), seed],
                  min(seconds + 30, deadline - time.time()), VERIF, env)
    m = re.search(r'cases=(\d+)', out)
    cases = int(m.group(1)) if m else 0
    if rc == 0:
        return 'ok', out[-2000:], cases
    why = 'hangs' if rc is None else 'exit status %s' % rc
    return 'fail', 'driver %s seed %s: %s\n%s' % (prop, seed, why, out[-6000:]), cases


def known(prop):
    f = os.path.join(VERIF, 'known_findings.txt')
    out = []
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r'known: property=(\S+) obligation=(\S+) check="([^"]*)" (.*)', l)
        if m and m.group(1) == prop:
            out.append(m.groups()[1:])
    return out


def run_group(group, os_, jobs, deadline):
    logs = []
    env = environment(group)
    os_.sort(key=lambda o: -o['cost'])
    tmo = max(o['timeout'] for o in os_)
    cmd = command(group, [o['name'] for o in os_], min(jobs, len(os_)), int(min(tmo, max(30, deadline - time.time() - 90))))
    rc, out = run(cmd, deadline - time.time() - 60, VERIF, env)
    logs.append(out)
    res = parse(out)
    for o in os_:
        r = res.get(o['name'])
        if r is None:
            err = '\n'.join([l for l in out.splitlines() if l.startswith('error')][:5])
            o['verdict'], o['why'] = 'undecided', 'not run: ' + (err or 'no result')[:500]
            o['res'] = dict(checks=0, failed=[], time=0.0)
            continue
        o['verdict'], o['why'] = judge(r, o['only'])
        o['res'] = r
    # a loop that needs more iterations than the stated bound: try again with more room
    again = [o for o in os_ if o['verdict'] == 'unwind']
    for o in again:
        o['verdict'] = 'undecided'
    if again and time.time() < deadline - 200:
        rc, out = run(command(group, [o['name'] for o in again], min(jobs, len(again)), 200, ['--unwind', '70']),
                      min(260, deadline - time.time() - 60), VERIF, env)
        logs.append(out)
        res = parse(out)
        for o in again:
            if o['name'] in res:
                o['verdict'], o['why'] = judge(res[o['name']], o['only'])
                o['res'] = res[o['name']]
                if o['verdict'] == 'unwind':
                    o['verdict'] = 'undecided'
    return ' '.join(cmd[:6]) + ' ...', logs


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t0 = time.time()
    budget = BUDGET if tier == 'quick' else 3600 * 3
    deadline = t0 + budget
    obs = [o for o in OBLIGATIONS[prop] if tier == 'thorough' or o['tier'] == 'quick']
    groups = {}
    for o in obs:
        groups.setdefault(o['group'], []).append(o)
    logs, cmds = [], []
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(len(groups)) as ex:
        fs = [ex.submit(run_group, g, os_, max(2, 8 // len(groups)), deadline) for g, os_ in groups.items()]
        for f in fs:
            c, l = f.result()
            cmds.append(c)
            logs += l

    kf = known(prop)
    violated = []
    for o in obs:
        if o['verdict'] == 'violated':
            hit = [k for k in kf if k[0] == o['name'] and k[1] in o['why']]
            if hit:
                for k in hit:
                    print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
                o['verdict'] = 'known'
            else:
                violated.append(o)
    undecided = [o for o in obs if o['verdict'] == 'undecided']
    for o in obs:
        print('%-10s %-50s %5d checks %7.1fs %s' % (o['verdict'], o['name'], o['res']['checks'], o['res']['time'], o['why'][:160]))

    nat = None
    if violated or undecided:
        nat = native(prop, 20 if tier == 'quick' else 120, deadline)
    rd = os.path.join(VERIF, 'evidence', 'replay')
    code = 0
    replay = None
    if violated or (nat and nat[0] == 'fail'):
        os.makedirs(rd, exist_ok=True)
        replay = os.path.join(rd, prop + '.txt')
        with open(replay, 'w') as f:
            f.write('property %s\n' % prop)
            for o in violated:
                f.write('failed obligation: %s [%s]\n' % (o['name'], o['doc']))
                for x in o['res']['failed']:
                    f.write('    %s\n        at %s\n' % (x['check'], x['at']))
            if nat:
                f.write('\nnative replay (%s):\n%s\n' % (nat[0], nat[1]))
            f.write('\nverifier output:\n')
            for l in logs:
                f.write(l[-200000:])
        tail = '' if nat and nat[0] == 'fail' else ' no-failing-input-found'
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, tail))
        code = 1
    elif undecided:
        for o in undecided:
            print('UNDECIDED obligation %s: %s' % (o['name'], o['why'][:200]))
        if len(undecided) == len(obs) and nat[0] != 'ok':
            print('no obligation could be decided')
            code = 2

    proved = [o for o in obs if o['verdict'] == 'discharged' and not o['bounded']]
    bounded = [o for o in obs if o['verdict'] == 'discharged' and o['bounded']]
    cov = dict(
        obligations=len([o for o in obs if not o['bounded']]), discharged=len(proved),
        checker_cmd=' && '.join(cmds), trusted_base=TRUSTED,
        proved=[dict(obligation=o['name'], what=o['doc'], checks=o['res']['checks'], solver_s=round(o['res']['time'], 2)) for o in proved],
        bounded_stand_ins=[dict(obligation=o['name'], what=o['doc'], bound=o['bounded'], checks=o['res']['checks'], solver_s=round(o['res']['time'], 2)) for o in bounded],
        undecided=[dict(obligation=o['name'], why=o['why'][:300]) for o in undecided],
        violated=[dict(obligation=o['name'], why=o['why'][:600]) for o in violated],
        checks=sum(o['res']['checks'] for o in obs),
        back_end='Kani 0.68.0 / CBMC 6.11.0, SAT: CaDiCaL or Kissat as annotated per harness',
        functions_under_contract=sorted({f for o in obs for f in o['functions']}),
        solver_s=round(sum(o['res']['time'] for o in obs), 2),
    )
    if nat:
        cov['native_stand_in'] = dict(verdict=nat[0], cases=nat[2])
    level = LEVEL.get(prop, 'proof')
    if level != 'proof':
        cov['explanation'] = 'Kani contract obligations; those that need a bound on the stored population are listed as bounded_stand_ins and not counted as proved'
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick',
              seed=int(os.environ.get('VERIF_SEED', '1')), level=level, coverage=cov,
              assumptions=ASSUMPTIONS['*'] + ASSUMPTIONS.get(prop, []),
              wall_s=round(time.time() - t0, 2), violations=len(violated) + (1 if nat and nat[0] == 'fail' and not violated else 0))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d proved, %d bounded, %d undecided, %d violated, %.0fs' % (
        prop, len(obs), len(proved), len(bounded), len(undecided), len(violated), time.time() - t0))
    sys.exit(code)


main()
