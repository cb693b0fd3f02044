"""C16: coverage-guided fuzzing of the parsers with libFuzzer."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile
import build as B

RULE = 'libFuzzer inputs, from structured generators and coverage-guided mutation, for five entry points (certificates and key objects, encrypted keys and their plaintext, protobuf operations, names, handshake and transport messages); non-trivial: the input got past the first structural check (object accepted, message read, decryption reached); distinct by input bytes'
JOBS = [('session', 'ref'), ('session', 'sodium'), ('session', 'openssl'), ('certs', 'ref'), ('enckey', 'ref'), ('pbuf', 'ref'), ('names', 'ref'), ('certs', 'ref')]


def exe(backend):
    return B.build_harness('fuzz', backend, 'fuzz', B.COMMON + ['nutil.cpp', 'h_fuzz.cpp'], link=B.WRAPS + ['-fsanitize=fuzzer'])


def env(target, stats=None):
    e = dict(os.environ, VERIF_FUZZ_TARGET=target,
             ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=1')
    if stats:
        e['VERIF_FUZZ_STATS'] = stats
    return e


OPTS = ['-max_len=6000', '-timeout=30', '-rss_limit_mb=3000', '-malloc_limit_mb=1000', '-print_final_stats=0', '-verbosity=1']


def crashes(x, target, path):
    r = subprocess.run([x] + OPTS + [path], env=env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return r.returncode != 0, r.stdout


def report(prop, x, target, backend, path, d, replays):
    """-> VIOLATION line, or None if it does not happen again"""
    out = ''
    for _ in range(3):
        bad, out = crashes(x, target, path)
        if not bad:
            return None
    small = f'{d}/min'
    try:
        if 'timeout' not in os.path.basename(path):     # (an input that hangs is not made smaller: each try takes the limit)
            subprocess.run([x] + OPTS + ['-minimize_crash=1', '-runs=20000', '-max_total_time=15', f'-exact_artifact_path={small}', path],
                           env=env(target), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=90)
    except subprocess.TimeoutExpired:
        pass
    if os.path.exists(small) and crashes(x, target, small)[0]:
        path = small
        out = crashes(x, target, small)[1]
    data = open(path, 'rb').read()
    msg = [l for l in out.splitlines() if re.search(r'FUZZ-FAIL|runtime error|ERROR: |^    #\d', l)][:14]
    name = f'{replays}/{prop}-{target}-{backend}-{hashlib.sha256(data).hexdigest()[:8]}.txt'
    with open(name, 'w') as f:
        f.write(f'prop: {prop}\nkind: python\nmodule: fuzzing\ntarget: {target}\nbackend: {backend}\nhex: {data.hex()}\n\n' + '\n'.join(msg) + '\n')
    print('  [%s] %s' % (backend, ' / '.join(m.strip() for m in msg[:4]))[:1200])
    return f'VIOLATION property={prop} replay={name}'


def check(prop, tier, res):
    import driver
    with B.Lock():
        B.prune()
        B.prefetch([(b, 'fuzz', B.COMMON + ['nutil.cpp', 'h_fuzz.cpp']) for b in B.BACKENDS])
        x = {b: exe(b) for b in B.BACKENDS}
    t = int(float(os.environ.get('VERIF_TIME', 28 if tier == 'quick' else 480)))
    top = tempfile.mkdtemp(prefix='fuzz')
    try:
        run = []
        for i, (target, b) in enumerate(JOBS):
            d = f'{top}/{i}'
            os.makedirs(f'{d}/corpus')
            run.append((target, b, d, subprocess.Popen(
                [x[b]] + OPTS + [f'-seed={(driver.seed() * 100 + i) % 4000000000 + 1}', f'-max_total_time={t}', f'-artifact_prefix={d}/', f'{d}/corpus'],
                env=env(target, f'{d}/stats'), stdout=open(f'{d}/log', 'w'), stderr=subprocess.STDOUT, cwd=d)))
        for target, b, d, p in run:
            rc = p.wait()
            art = sorted(glob.glob(f'{d}/crash-*') + glob.glob(f'{d}/timeout-*') + glob.glob(f'{d}/oom-*'))
            log = open(f'{d}/log', errors='replace').read()
            if art:
                v = report(prop, x[b], target, b, art[0], d, driver.REPLAYS)
                if v:
                    res.violations.append(v)
                    break                               # (the others are stopped below)
                else:
                    print(f'  [{b}] {target}: not reproducible: {art[0]}')
                continue
            if rc != 0 or not os.path.exists(f'{d}/stats'):
                sys.stderr.write(f'fuzzer {target} on {b} ended with {rc}\n{log[-3000:]}\n')
                raise SystemExit(3)
            s = json.load(open(f'{d}/stats'))
            res.evaluations += s['evaluations']
            res.nontrivial += s['nontrivial']
            res.distinct += s['distinct']
            res.samples += [f'[{b}] {q}' for q in s['samples']]
            k = f'{b}/{target}'
            res.per_target[k] = res.per_target.get(k, 0) + s['evaluations']
            m = re.findall(r'cov: (\d+) ft: (\d+)', log)
            if m:
                res.labels[f'{k} edges'] = int(m[-1][0])
        res.rule(RULE)
    finally:
        for *_, p in run:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(top, ignore_errors=True)


def replay(path):
    text = open(path).read()
    get = lambda k: re.search(rf'^{k}: (\S*)', text, re.M).group(1)
    with B.Lock():
        x = exe(get('backend'))
    fd, f = tempfile.mkstemp()
    os.write(fd, bytes.fromhex(get('hex')))
    os.close(fd)
    bad, out = crashes(x, get('target'), f)
    os.unlink(f)
    print(out[-6000:])
    print('FAIL' if bad else 'PASS')
    return 1 if bad else 0
