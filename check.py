#!/usr/bin/env python3
"""Runtime monitoring checks for viadkim.

check.py ID [--tier quick|thorough]   decide one property (tier default: VERIF_TIER)
check.py --setup                      build the harness in all its variants
check.py --replay FILE                run the case of a replay file again

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Anything else (2): no verdict.
"""
import glob, hashlib, json, os, resource, shutil, signal, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, 'harness')
TARGET = os.environ.get('VK_TARGET') or os.path.join(HERE, 'target')
EVIDENCE = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.txt')
TRIPLE = 'x86_64-unknown-linux-gnu'
THREADS = max(2, min(8, os.cpu_count() or 2))

# property: (scale of the quick tier, variants of the quick tier)
D, S = 'default', 'sha1'
PROPS = {
    'C01': (6, (D, S)), 'C02': (1, (D, S)), 'C03': (4, (D,)), 'C04': (40, (D,)),
    'C05': (12, (D,)), 'C06': (15, (D,)), 'C07': (60, (D, S)), 'C08': (3, (D, S)),
    'C09': (12, (D, S)), 'C10': (6, (D,)), 'C11': (12, (D,)), 'C12': (15, (D,)),
    'C13': (3, (D,)), 'C14': (2, (D, S)), 'C15': (3, (D,)), 'C16': (2, (D, S)),
    'C17': (4, (D,)), 'C18': (8, (D,)), 'C19': (12, (D,)), 'C20': (15, (D, S)),
    'C21': (12, (D, S)), 'C22': (8, (D,)), 'C23': (4, (D,)), 'C24': (8, (D,)),
    'C25': (20, (D,)), 'C26': (1, (D, S)), 'C27': (8, (D,)), 'C28': (4, (D, S)),
    'C29': (5, (D, S)), 'C30': (4, (D,)), 'C31': (4, (D, S)),
}
RULES = json.load(open(os.path.join(HERE, 'rules.json')))
QUICK_DEADLINE = 240  # seconds per variant; quick runs take about 15


class NoVerdict(Exception):
    pass


class NotSend(Exception):
    """The library no longer compiles where its types must be Send and Sync."""


def log(*a, **k):
    print(*a, file=sys.stderr, flush=True, **k)


def run_cargo(args, env):
    e = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', **env)
    e.pop('RUSTC_WRAPPER', None)
    p = subprocess.run(['cargo'] + args, cwd=HARNESS, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors='replace')
    return p.returncode, p.stdout


def drop_fingerprints(target):
    # The build must see any change of the library, whatever the time stamps.
    for pat in ('viadkim-*', 'vk-*'):
        for d in glob.glob(os.path.join(target, '**', '.fingerprint', pat), recursive=True):
            shutil.rmtree(d, ignore_errors=True)


def build(variant, send=True):
    """Builds one variant of the harness from /repo's working tree."""
    args, env, target = ['build', '--release', '--offline'], {}, os.path.join(TARGET, 'build')
    out = os.path.join(target, 'release', 'vk')
    feats = ['send'] if send else []
    if variant == S:
        feats.append('sha1')
    if variant in ('tsan', 'asan'):
        kind = {'tsan': 'thread', 'asan': 'address'}[variant]
        target = os.path.join(TARGET, variant)
        out = os.path.join(target, TRIPLE, 'release', 'vk')
        args = ['+nightly'] + args + ['--target', TRIPLE]
        env['RUSTFLAGS'] = f'-Zsanitizer={kind} --cfg curve25519_dalek_backend="serial"'
        if variant == 'tsan':
            args.append('-Zbuild-std')
    args += ['--no-default-features', '--target-dir', target]
    if feats:
        args += ['--features', ','.join(feats)]
    drop_fingerprints(target)
    t = time.time()
    rc, text = run_cargo(args, env)
    if rc != 0:
        if send and ('E0277' in text and 'between threads safely' in text
                     or 'future cannot be s' in text):
            i = max(text.find('error'), 0)
            raise NotSend(text[i:i + 3000])
        raise NoVerdict(f'the harness does not build ({variant}):\n' + text[-6000:])
    kept = os.path.join(TARGET, 'bin', f'vk-{variant}-{"send" if send else "plain"}')
    os.makedirs(os.path.dirname(kept), exist_ok=True)
    shutil.copy2(out, kept + '.new')
    os.replace(kept + '.new', kept)
    log(f'built {variant} in {time.time() - t:.0f} s')
    return kept


def sanitizer_env(variant):
    e = dict(os.environ, RUST_BACKTRACE='0')
    if variant == 'tsan':
        e['TSAN_OPTIONS'] = 'halt_on_error=1 exitcode=66 second_deadlock_stack=1'
    if variant == 'asan':
        e['ASAN_OPTIONS'] = 'halt_on_error=1 exitcode=67 detect_leaks=0'
    return e


def limits(variant):
    def f():
        if variant in (D, S):
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


CRASH = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP)


def run_case(binary, variant, prop, workload, index, tier, seed):
    cmd = [binary, 'case', prop, workload, str(index), '--tier', tier, '--seed', str(seed)]
    try:
        p = subprocess.run(cmd, env=sanitizer_env(variant), preexec_fn=limits(variant), timeout=200,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        return None, 'timed out'
    return p.returncode, p.stdout


def run_variant(binary, variant, prop, tier, seed, deadline, scale, workloads=None):
    """Runs all workloads. Returns the report, with any crash among the failures."""
    os.makedirs(EVIDENCE, exist_ok=True)
    base = os.path.join(EVIDENCE, f'.{prop}.{variant}.{os.getpid()}')
    out, crumbs = base + '.json', base + '.crumbs'
    cmd = [binary, 'run', prop, '--tier', tier, '--seed', str(seed), '--out', out, '--crumbs', crumbs,
           '--threads', str(THREADS), '--deadline', str(deadline), '--scale', str(scale)]
    try:
        try:
            p = subprocess.run(cmd, env=sanitizer_env(variant), preexec_fn=limits(variant),
                               timeout=deadline + 200, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors='replace')
        except subprocess.TimeoutExpired:
            raise NoVerdict(f'{prop} ({variant}) did not end in time')
        if p.returncode == 0:
            return json.load(open(out))
        tail = p.stdout[-3000:]
        if p.returncode in (66, 67):
            return dict(evaluations=0, distinct=0, events={}, samples=[], errors=[], truncated=True, wall_s=0,
                        failures=[dict(workload='(all)', index=0, key=f'{variant} report', msg=p.stdout[:6000])])
        if p.returncode < 0 and -p.returncode in CRASH:
            # Which case was it? One of those under way.
            names = list_workloads(binary, prop)
            data = open(crumbs, 'rb').read() if os.path.exists(crumbs) else b''
            for i in range(0, len(data) - 15, 16):
                wi, index = struct.unpack('<QQ', data[i:i + 16])
                if not 0 < wi <= len(names):
                    continue
                rc, text = run_case(binary, variant, prop, names[wi - 1], index, tier, seed)
                if rc is not None and rc < 0 and -rc in CRASH:
                    return dict(evaluations=1, distinct=1, events={}, samples=[], errors=[], truncated=True, wall_s=0,
                                failures=[dict(workload=names[wi - 1], index=index,
                                               key=f'crash {signal.Signals(-rc).name}', msg=text[-3000:])])
        raise NoVerdict(f'{prop} ({variant}) ended with {p.returncode}:\n{tail}')
    finally:
        for f in (out, crumbs):
            if os.path.exists(f):
                os.remove(f)


def list_workloads(binary, prop):
    p = subprocess.run([binary, 'list', prop], stdout=subprocess.PIPE, text=True)
    return p.stdout.split('\n')[:-1]


def known_findings():
    """(property, key) of each finding recorded but not repaired."""
    r = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            if line.startswith('known: '):
                d = json.loads(line[len('known: '):])
                r[(d['property'], d['workload'], d['key'], d['index'], d['seed'])] = d['what']
    return r


def write_evidence(prop, tier, seed, coverage, wall, violations, assumptions):
    os.makedirs(EVIDENCE, exist_ok=True)
    d = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=coverage,
             assumptions=assumptions, wall_s=round(wall, 1), violations=violations)
    with open(os.path.join(EVIDENCE, f'{prop}.json'), 'w') as f:
        json.dump(d, f, indent=1, ensure_ascii=False)
        f.write('\n')


def plan(prop, tier):
    """(variant, deadline, scale) for each run."""
    scale, variants = PROPS[prop]
    if tier == 'quick':
        return [(v, QUICK_DEADLINE, scale) for v in variants]
    # As deep as the time allows; the deadline cuts all workloads evenly.
    p = [(D, 380, 3.0), (S, 200, 3.0)]
    if prop == 'C27':
        p = [(D, 220, 3.0), (S, 80, 3.0), ('tsan', 200, 1.0)]
    if prop == 'C23':
        p = [(D, 300, 3.0), (S, 100, 3.0), ('asan', 160, 1.0)]
    return p


def report_violation(prop, tier, seed, f, variant, n):
    d = os.path.join(EVIDENCE, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}.{n}.json')
    with open(path, 'w') as o:
        json.dump(dict(property=prop, tier=tier, seed=seed, variant=variant,
                       replay=f'python3 {HERE}/check.py --replay {path}', **f), o, indent=1, ensure_ascii=False)
    log(f"{prop} {variant} {f['workload']}#{f['index']} [{f['key']}]\n    {f['msg'][:2500]}")
    print(f'VIOLATION property={prop} replay={path}', flush=True)


def check(prop, tier, seed):
    start = time.time()
    for f in glob.glob(os.path.join(EVIDENCE, 'replay', f'{prop}.*.json')):
        os.remove(f)
    known = known_findings()
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=RULES[prop]['rule'], samples=[], events={}, runs=[])
    failures, errors = [], []
    not_send = None
    # Only one property is about what the types may be used for.
    for variant, deadline, scale in plan(prop, tier):
        try:
            binary = build(variant)
        except NotSend as e:
            not_send = str(e)
            if prop == 'C27':
                failures.append((variant, dict(workload='(build)', index=0, key='not Send or Sync', msg=not_send)))
                break
            binary = build(variant, send=False)
        r = run_variant(binary, variant, prop, tier, seed, deadline, scale)
        cov['evaluations'] += r['evaluations']
        cov['distinct_nontrivial'] += r['distinct']
        cov['runs'].append(dict(variant=variant, evaluations=r['evaluations'], distinct=r['distinct'],
                                truncated=r['truncated'], wall_s=r['wall_s']))
        for k, v in r['events'].items():
            cov['events'][k] = cov['events'].get(k, 0) + v
        cov['samples'] += [f'[{variant}] {s}' for s in r['samples']][:12]
        failures += [(variant, f) for f in r['failures']]
        errors += [f'[{variant}] {e}' for e in r['errors']]
        log(f"{prop} {variant}: {r['evaluations']} evaluations, {r['distinct']} distinct, {r['wall_s']} s"
            + (' (cut off by the time limit)' if r['truncated'] else ''))

    # One violation is reported per distinct key.
    seen, violations = set(), 0
    for variant, f in failures:
        w = known.get((prop, f['workload'], f['key'], f['index'], seed))
        if w is not None:
            print(f'KNOWN-FINDING: property={prop} {w}', flush=True)
            continue
        violations += 1
        k = (variant, f['workload'], f['key'])
        if k not in seen and len(seen) < 8:
            seen.add(k)
            report_violation(prop, tier, seed, f, variant, len(seen))
    write_evidence(prop, tier, seed, cov, time.time() - start, violations, RULES[prop]['assumptions'])
    if violations:
        return 1
    if errors:
        log('harness errors:', *errors[:5], sep='\n  ')
        return 2
    # A run that observed too little decides nothing.
    missing = [e for e in RULES[prop]['events'] if not cov['events'].get(e)]
    if missing or cov['distinct_nontrivial'] < RULES[prop].get('min_distinct', 100):
        log(f'observed too little: {cov["distinct_nontrivial"]} distinct cases, events missing: {missing}')
        return 2
    return 0


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    try:
        if a and a[0] == '--setup':
            for v in (D, S):
                build(v)
            return 0
        if a and a[0] == '--replay':
            d = json.load(open(a[1]))
            binary = build(d['variant'])
            rc, text = run_case(binary, d['variant'], d['property'], d['workload'], d['index'], d['tier'], d['seed'])
            print(text)
            return rc if rc in (0, 1) else 2
        if not a or a[0] not in PROPS or tier not in ('quick', 'thorough'):
            print(__doc__)
            return 2
        return check(a[0], tier, seed)
    except NoVerdict as e:
        log('no verdict:', e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
