"""Runs the checks: builds from /repo, drives the generators, writes the
evidence."""
import importlib, json, os, re, shutil, subprocess, sys, tempfile, time
import build as B
from build import VERIF, REPO, BACKENDS

EVID = os.environ.get('VERIF_EVID') or f'{VERIF}/evidence'
REPLAYS = f'{VERIF}/replays'
ALL = BACKENDS

# harness sources
H = {
    'noise': ['nutil.cpp', 'h_noise.cpp'],
    'crypto': ['nutil.cpp', 'h_crypto.cpp'],
    'proto': ['nutil.cpp', 'h_proto.cpp'],
    'keys': ['nutil.cpp', 'h_keys.cpp'],
    'misc': ['nutil.cpp', 'h_misc.cpp'],
    'os': ['nutil.cpp', 'h_os.cpp'],
    'robust': ['nutil.cpp', 'h_robust.cpp'],
    'thread': ['h_thread.cpp'],
    'ct': ['nutil.cpp', 'h_ct.cpp'],
    'args': ['nutil.cpp', 'h_args.cpp'],
}
# link options beyond the usual wrappers
LINK = {
    'keys': B.WRAPS + ['-Wl,--wrap=fopen'],
    'ct': B.WRAPS + ['-Wl,' + ','.join('--wrap=' + x for x in ['memcmp', 'bcmp', 'memcpy', 'memmove', 'memset', 'strlen'])],
    'os': ['-Wl,' + ','.join('--wrap=' + x for x in ['malloc', 'calloc', 'realloc', 'free', 'open', 'read', 'close', 'exit'])],
}


def part(harness, backends=ALL, flavour='asan', quick=24.0, thorough=480.0, args=(), min_q=200, hard=420.0, target=None, tiers=('quick', 'thorough'), monitor=None):
    return dict(harness=harness, backends=backends, flavour=flavour, quick=quick, thorough=thorough, args=list(args),
                min=min_q, hard=hard, target=target, tiers=tiers, monitor=monitor)


CHECKS = {
    'C01': [part('noise', quick=36)],
    'C02': [part('noise', quick=36)],
    'C03': [part('noise', quick=30)],
    'C04': [part('noise')],
    'C05': [part('noise', quick=30)],
    'C06': [part('crypto'),
            part('crypto', flavour='plain', quick=1, thorough=40, target='longad', min_q=4, args=['--hang', '600', '--procs', '4'])],
    'C07': [part('crypto')],
    'C08': [part('crypto', quick=20)],
    'C09': [part('crypto', quick=20),
            part('crypto', backends=['ref'], flavour='plain', quick=1, thorough=60, target='longmsg', min_q=6, args=['--hang', '600', '--procs', '6']),
            part('crypto', backends=['sodium', 'openssl'], flavour='plain', quick=1, thorough=60, target='longmsg', min_q=6,
                 args=['--hang', '600'], tiers=('thorough',))],
    'C10': [part('crypto')],
    'C11': [part('crypto', quick=30)],
    'C12': [part('crypto')],
    'C13': [part('misc', backends=['ref'], quick=12)],
    'C14': [part('proto', backends=['ref'], quick=12)],
    'C15': [part('proto', backends=['ref'], quick=15)],
    'C16': lambda *a: importlib.import_module('fuzzing').check(*a),
    'C17': [part('proto', backends=['ref'], quick=12)],
    'C18': [part('keys', backends=['ref'], quick=16)],
    'C19': [part('keys', quick=30)],
    'C20': [part('keys', backends=['ref'], quick=14)],
    'C21': [part('misc', quick=24)],
    'C22': [part('os', quick=12)],
    'C23': [part('robust', quick=18, thorough=300), part('keys', backends=['ref'], quick=6, thorough=150)],
    'C24': [part('robust', quick=18, thorough=300), part('keys', backends=['ref'], quick=10, thorough=200)],
    'C25': [part('robust', quick=21, thorough=300), part('keys', backends=['ref'], quick=10, thorough=200)],
    'C26': [part('crypto')],
    'C27': [part('crypto', quick=12)],
    'C28': lambda *a: importlib.import_module('keytool').check(*a),
    'C29': lambda *a: importlib.import_module('protoc').check(*a),
    'C30': lambda *a: importlib.import_module('echo').check(*a),
    'C31': [part('noise')],
    'C33': [part('crypto', backends=list(B.VARIANTS), quick=28, thorough=600)],
    'C34': [part('ct', backends=ALL + ['ref32', 'ref64', 'ref8'], flavour='ct', quick=30, thorough=600)],
    'C35': [part(h, backends=b, flavour='vg', quick=q, thorough=t, monitor='uninit', min_q=40, hard=100)
            for h, b, q, t in [('noise', ALL, 9, 150), ('crypto', ALL, 9, 150), ('proto', ['ref'], 2, 60), ('keys', ['ref'], 10, 150),
                               ('misc', ['ref'], 3, 60), ('robust', ALL, 6, 100), ('args', ['ref'], 4, 60), ('os', ['ref', 'sodium'], 2, 60)]],
    'C36': [part('noise', quick=7, thorough=120, monitor='leak'), part('crypto', quick=6, thorough=120, monitor='leak'),
            part('proto', backends=['ref'], quick=2, thorough=30, monitor='leak'), part('keys', backends=['ref'], quick=9, thorough=150, monitor='leak'),
            part('misc', backends=['ref'], quick=2, thorough=30, monitor='leak'), part('args', quick=5, thorough=60, monitor='leak'), part('robust', quick=10, thorough=150, monitor='leak'),
            part('os', backends=['ref', 'sodium'], quick=2, thorough=30, monitor='leak')],
    'C37': [part('args', quick=24)],
    'C38': [part('robust', flavour='stk', monitor='stack', quick=16), part('keys', backends=['ref'], flavour='stk', monitor='stack', quick=10)],
    'C32': [part('thread', flavour='tsan', quick=24), part('thread', flavour='plain', quick=9, thorough=200)],
}
LEVEL = {'C20': 'fault_enumeration', 'C22': 'fault_enumeration', 'C25': 'fault_enumeration'}
ASSUME = {}


class Result:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = 0
        self.distinct = 0
        self.rules = []
        self.samples = []
        self.labels = {}
        self.per_target = {}
        self.violations = []       # lines "VIOLATION ..."
        self.extra = {}

    def rule(self, r):
        if r and r not in self.rules:
            self.rules.append(r)


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def known_findings():
    """[(property, id, text)] of the findings that are recorded, not repaired."""
    out = []
    try:
        for line in open(f'{VERIF}/KNOWN_FINDINGS.txt'):
            m = re.match(r'finding: property=(\w+) id=(\S+) (.*)', line.strip())
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def exe_for(p, backend):
    return build_one(p['harness'], backend, p['flavour'])


def build_one(name, backend, flavour):
    return B.build_harness(name, backend, flavour, sources(name, flavour), link=link_options(name, flavour))


def sources(name, flavour):
    return B.COMMON + H[name] + (['outvg.cpp'] if flavour == 'vg' else ['stack.cpp'] if flavour == 'stk' else [])


def link_options(name, flavour):
    opts = list(LINK.get(name, B.WRAPS))
    if flavour == 'vg':             # the functions whose outputs outvg.cpp looks at
        text = open(f'{VERIF}/harness/outvg.cpp').read()
        names = re.findall(r'^(?:W1\([\w ]+, |CIPH\()(noise_\w+)', text, re.M)
        names += ['noise_protobuf_read_' + n for line in re.findall(r'^R[DS]\(.*', text, re.M) for n in re.findall(r'\bR[DS]\((\w+),', line)]
        names += ['noise_protobuf_read_alloc_' + n for line in re.findall(r'^RA\(.*', text, re.M) for n in re.findall(r'\bRA\((\w+),', line)]
        opts.append('-Wl,' + ','.join('--wrap=' + n for n in names))
    return opts


def memcheck(cmd, scratch):
    if 'uninit' not in cmd:
        return cmd
    log = f'{scratch}/memcheck.log'
    return ['valgrind', '-q', '--error-limit=no', f'--log-file={log}'] + cmd + ['--vglog', log]


def run_harness(exe, backend, prop, res, t, hard, mincases, args, replaydir, procs=None):
    fd, stats = tempfile.mkstemp(prefix='stats')
    os.close(fd)
    cmd = [exe, '--backend', backend, '--prop', prop, '--seed', str(seed()), '--time', '%g' % t, '--hard', '%g' % hard,
           '--min', str(mincases), '--stats', stats, '--replaydir', replaydir] + list(args)
    if procs:
        cmd += ['--procs', str(procs)]
    scratch = tempfile.mkdtemp(prefix='scratch')
    cmd = memcheck(cmd, scratch)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                           env=dict(os.environ, VERIF_SCRATCH=scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    try:
        d = json.load(open(stats))
    except ValueError:
        d = None
    os.unlink(stats)
    sys.stderr.write(r.stderr[-4000:])
    viol = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION ')]
    for l in r.stdout.splitlines():
        if not l.startswith('VIOLATION '):
            print(f'  [{backend}] {l}'[:1500])
    if r.returncode not in (0, 1) or d is None or (r.returncode == 1 and not viol):
        sys.stderr.write(f'harness {exe} ended with {r.returncode}\n{r.stdout[-2000:]}\n')
        raise SystemExit(3)
    res.evaluations += d['evaluations']
    res.nontrivial += d['nontrivial']
    res.distinct += d['distinct_nontrivial']
    for r_ in d['rules'] if isinstance(d['rules'], list) else [f'{k}: {v}' for k, v in d['rules'].items()]:
        res.rule(r_)
    res.samples += [f'[{backend}] {s}' for s in d['samples']][:6]
    for k, v in d['labels'].items():
        res.labels[k] = res.labels.get(k, 0) + v
    for k, v in d['per_target'].items():
        res.per_target[f'{backend}/{k}'] = res.per_target.get(f'{backend}/{k}', 0) + v
    res.violations += viol


def monitor_args(prop, p):
    """any target's cases, with something else watched"""
    if p['monitor'] == 'leak':      # (C24 follows the allocations itself)
        return ['--as', prop, '--monitor', 'leak', '--skip', 'C24']
    if p['monitor'] == 'stack':     # (only C24's targets, which say what is secret)
        return ['--as', prop, '--monitor', 'stack']
    if p['monitor'] == 'uninit':    # (C24 reads freed memory itself)
        return ['--as', prop, '--monitor', 'uninit', '--skip', 'C24']
    return []


def run_parts(prop, tier, res):
    parts = [p for p in CHECKS[prop] if tier in p['tiers']]
    with B.Lock():
        B.prune()
        B.prefetch([(b, p['flavour'], sources(p['harness'], p['flavour'])) for p in parts for b in p['backends']])
        exes = [[(b, exe_for(p, b)) for b in p['backends']] for p in parts]
    for p, ex in zip(parts, exes):
        total = p['quick'] if tier == 'quick' else p['thorough']
        total = float(os.environ.get('VERIF_TIME', total))
        for b, exe in ex:
            t = total / len(ex)
            hard = max(t, p['hard'] / len(ex)) if tier == 'quick' else t * 2 + 60
            args = p['args'] + (['--target', p['target']] if p['target'] else [])
            run_harness(exe, b, prop, res, t, hard, p['min'], args + monitor_args(prop, p), REPLAYS)
            if res.violations:
                return


def write_evidence(prop, tier, res, wall):
    os.makedirs(EVID, exist_ok=True)
    d = {
        'property': prop, 'tier': tier, 'seed': seed(), 'level': LEVEL.get(prop, 'exploration'),
        'coverage': {
            'evaluations': res.evaluations, 'distinct_nontrivial': res.distinct,
            'rule': ' | '.join(res.rules), 'samples': res.samples[:24],
            'nontrivial': res.nontrivial, 'classes': res.labels, 'cases_per_target': res.per_target,
        },
        'wall_s': round(wall, 2), 'violations': len(res.violations),
    }
    d['coverage'].update(res.extra)
    if prop in ASSUME:
        d['assumptions'] = ASSUME[prop]
    tmp = f'{EVID}/.{prop}.{os.getpid()}'
    with open(tmp, 'w') as f:
        json.dump(d, f, indent=1)
    os.rename(tmp, f'{EVID}/{prop}.json')


def check(prop, tier):
    t0 = time.time()
    res = Result()
    os.makedirs(REPLAYS, exist_ok=True)
    c = CHECKS[prop]
    if callable(c):
        c(prop, tier, res)
    else:
        run_parts(prop, tier, res)
        extra = EXTRA.get(prop)
        if extra and not res.violations:
            extra(prop, tier, res)
    write_evidence(prop, tier, res, time.time() - t0)
    for v in res.violations:
        print(v)
    if not res.violations:
        for p, i, text in known_findings():
            if p == prop:
                print(f'KNOWN-FINDING: property={p} {text}')
    print(f'{prop} {tier}: {res.evaluations} cases, {res.distinct} distinct non-trivial, '
          f'{len(res.violations)} violations, {time.time() - t0:.1f} s')
    sys.stdout.flush()
    return 1 if res.violations else 0


EXTRA = {}


def replay(path):
    text = open(path, errors='replace').read()
    get = lambda k: (re.search(rf'^{k}[ :=]+(\S+)', text, re.M) or [None, None])[1]
    prop, backend = get('property') or get('prop'), get('backend')
    c = CHECKS.get(prop)
    if callable(c) or get('kind') == 'python':
        mod = importlib.import_module(get('module'))
        return mod.replay(path)
    tgt = get('target')
    for p in c:
        if backend in p['backends'] and (p['target'] in (None, tgt)):
            with B.Lock():
                exe = exe_for(p, backend)
            name = '\n' + tgt.replace('.', ' ', 1) + ' ' if p['monitor'] else f'\n{prop} {tgt} '
            if len(c) > 1 and name not in '\n' + subprocess.run([exe, '--list'], stdout=subprocess.PIPE, text=True).stdout:
                continue
            scratch = tempfile.mkdtemp(prefix='scratch')
            try:
                return subprocess.run(memcheck([exe, '--backend', backend, '--prop', prop, '--replay', path] + p['args'] + monitor_args(prop, p), scratch),
                                      env=dict(os.environ, VERIF_SCRATCH=scratch)).returncode
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
    print('cannot replay', path)
    return 3


def main(argv):
    os.environ['ASAN_OPTIONS'] = os.environ.get('ASAN_OPTIONS', '')
    if argv[:1] == ['--list']:
        print(' '.join(sorted(CHECKS)))
        return 0
    if argv[:1] == ['--replay']:
        return replay(argv[1])
    if argv[:1] == ['--setup']:
        with B.Lock():
            B.prune()
            for b in BACKENDS:
                B.build_lib(b, 'asan')
                for h in H:
                    build_one(h, b, 'asan')
                importlib.import_module('fuzzing').exe(b)
        return 0
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return check(argv[0], tier)
