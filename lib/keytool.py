"""C28: the key tool.  Random scenarios run the real program (built from
/repo with sanitizers) in a scratch directory of their own; its files and its
output are judged by the independent decoder and the reference cryptography of
pyref.py."""
import errno, hashlib, json, os, pty, random, re, select, shutil, signal, subprocess, sys, tempfile, time
import fcntl, termios
from concurrent.futures import ThreadPoolExecutor
import build as B
import pyref as R

RULE = ('keytool: a scenario is one or more runs of noise-keytool over generated options, passphrases, ways of typing them and files; '
        'non-trivial when the tool got past its option parsing (it made, opened or refused a file), distinct by scenario')
MAXFILE = 65535


def tool(backend):
    d = f'{B.BUILD}/{B.tree_hash()}/keytool'
    exe = f'{d}/noise-keytool-{backend}'
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    cc, cxx, flags = B.FLAVOURS['asan']
    K = f'{B.REPO}/tools/keytool'
    src = [f'{K}/{f}' for f in B.am_sources(f'{K}/Makefile.am', False, False) if f.endswith('.c')]
    B.run([cc] + B._quiet() + flags + [f'-I{B.REPO}/include'] + src + [B.build_lib(backend, 'asan'), '-o', exe + '.tmp'] + B.libs_for(backend))
    os.rename(exe + '.tmp', exe)
    return exe


# ---------------------------------------------------------------- running
ENV = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:abort_on_error=0', 'UBSAN_OPTIONS': 'halt_on_error=1:exitcode=99'}
TIMEOUT = 120


def run(exe, args, cwd, typed=None, tty=False):
    """-> (status, stdout, stderr).  typed: the lines to type"""
    argv = [os.fsencode(exe)] + args
    if not tty:
        inp = b''.join(t + b'\n' for t in typed or [])
        p = subprocess.Popen(argv, cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, start_new_session=True)
        try:
            out, err = p.communicate(inp, timeout=TIMEOUT)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            return 'hang', out, err
        return p.returncode, out, err
    m, s = pty.openpty()

    def child():
        os.setsid()
        fcntl.ioctl(s, termios.TIOCSCTTY, 0)
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(argv, cwd=cwd, stdin=s, stdout=fo, stderr=fe, env=ENV, preexec_fn=child, pass_fds=(s,))
        os.close(s)
        seen, sent, end = b'', 0, time.time() + TIMEOUT
        todo = list(typed or [])
        while p.poll() is None and time.time() < end:
            r, _, _ = select.select([m], [], [], 0.02)
            if r:
                try:
                    b = os.read(m, 4096)
                except OSError:
                    b = b''
                if not b:
                    break
                seen += b
                # one line per prompt
                while todo and seen.count(b'assphrase: ') > sent:
                    os.write(m, todo.pop(0) + b'\n')
                    sent += 1
        try:
            p.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            os.close(m)
            return 'hang', b'', seen
        os.close(m)
        fo.seek(0)
        fe.seek(0)
        out, err = fo.read(), fe.read()
        for t in typed or []:
            if len(t) >= 6 and t in seen:
                return 'echo', out, seen
        return p.returncode, out, err


def crashed(rc, err):
    if rc == 'hang':
        return 'the tool does not end'
    if rc == 'echo':
        return 'the typed passphrase is echoed'
    if not isinstance(rc, int) or rc < 0 or rc == 99 or b'Sanitizer' in err or b'runtime error:' in err:
        return f'the tool crashed ({rc}): ' + err[-1500:].decode('latin1')
    if rc not in (0, 1):
        return f'exit status {rc}'


def H(b):
    return None if b is None else b.hex()


def U(h):
    return None if h is None else bytes.fromhex(h)


# ---------------------------------------------------------------- generators
def utf8(r, n=None, weird=True):
    n = r.choice([0, 1, 1, 3, 8, 8, 20, 100, 8, 20, 3, r.choice([127, 255, 256, 300, 700])]) if n is None else n
    pool = r.choice(['abcdefgh XYZ019@.-_', '%sndx$(){}', 'aé\u07ff\u0800\ud7ff\ue000\uffff\U00010000\U0010ffff ünï', '\u0001\t ~"\'\\,=:;'])
    if not weird:
        pool = 'abcdefgh XYZ019@.-_'
    return ''.join(r.choice(pool) for _ in range(n)).encode()


BADUTF = [b'\xff', b'\xc0\x80', b'\xc1\xbf', b'\xe0\x9f\xbf', b'\xed\xa0\x80', b'\xed\xbf\xbf', b'\xf0\x8f\xbf\xbf', b'\xf4\x90\x80\x80', b'\xf5\x80\x80\x80',
          b'\x80', b'\xc3', b'\xe2\x82', b'\xf0\x9f\x98', b'\xc3A', b'\xe2\x28\xa1']


def passphrase(r, how):
    n = r.choice([1, 2, 8, 8, 12, 20, 63, 64, 65, 127, 128, 129, 200, 900])
    if how == 'tty':
        return bytes(r.choice(b'abcXYZ0189 !"#$%&\'()*+,-./:;<=>?@[]^_`{|}~\xc3\xa9') for _ in range(n))
    k = r.random()
    if k < .6:
        return bytes(r.choice(b'abcXYZ0189 !%') for _ in range(n))
    return bytes(r.choice([x for x in range(1, 256) if x != 10]) for _ in range(n))


def filename(r, stem):
    return stem + r.choice(['', '', '.cert', ' with space', '%s%n%x', '-é', "'q'", '=', ';x']) + str(r.randint(0, 99))


def gen_how(r, n):
    return r.choice(['opt', 'opt', 'long', 'eq', 'stdin', 'tty'] if n else ['opt', 'long', 'stdin'])


def give(how, pw, n, wrongconfirm=None):
    """-> (args, typed, tty) to give the passphrase for n prompts"""
    if how == 'opt':
        return [b'-p', pw], None, False
    if how == 'long':
        return [b'--passphrase', pw], None, False
    if how == 'eq':
        return [b'--passphrase=' + pw], None, False
    return [], [pw] * n if wrongconfirm is None else [pw, wrongconfirm], how == 'tty'


def gen_generate(r):
    how = r.choice(['opt', 'long', 'eq', 'stdin', 'stdin', 'tty'])
    s = dict(kind='generate', how=how, pw=H(passphrase(r, how)), cert=filename(r, 'c'), key=filename(r, 'k'))
    for f in ('id', 'name', 'role'):
        k = r.random()
        s[f] = None if k < .3 else H(utf8(r)) if k < .95 else H(utf8(r, 3) + r.choice(BADUTF) + utf8(r, r.choice([0, 1, 4])))
    if r.random() < .05:
        s['id'] = H(b'a' * r.choice([30000, 65000, 65300, 65400, 65535, 66000, 90000]))
    algs = []
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        algs.append(','.join(r.choice(['25519', '448', 'Ed25519', 'all', '25519', '448', 'Ed25519']) for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5]))) + r.choice(['', '', '', ',']))
    s['algs'] = algs
    s['style'] = [r.choice(['s', 'l', 'e', 'j']) for _ in range(3 + len(algs))]
    s['order'] = r.randint(0, 1000)
    s['confirm'] = None
    if how in ('stdin', 'tty') and r.random() < .2:
        pw = bytearray(U(s['pw']))
        k = r.random()
        if k < .4:
            i = r.randrange(len(pw))
            pw[i] = ord('Q') if pw[i] != ord('Q') else ord('R')
        elif k < .7:
            pw += b'x'
        else:
            pw = pw[:-1]
        s['confirm'] = H(bytes(pw))
    if how == 'stdin' and r.random() < .15:
        s['pw'] = H(bytes(r.choice(b'abc') for _ in range(r.choice([1022, 1023, 1024, 1025, 1500, 3000]))))
        s['confirm'] = H(U(s['pw'])[:1023]) if len(s['pw']) > 2046 and r.random() < .5 else None
    s['fault'] = r.choice([None] * 8 + ['cert-dir', 'cert-missing', 'cert-full', 'key-dir', 'key-missing', 'key-full'])
    s['existing'] = r.random() < .4
    s['shows'] = [[r.choice(['cert', 'key', 'both', 'key']), r.choice(['right', 'right', 'right', 'wrong']), r.choice(['opt', 'eq', 'stdin', 'tty'] if how != 'opt' else ['opt', 'long', 'stdin']),
                   r.choice([None, '-f', '-F', '--basic-fingerprint', '--full-fingerprint'])] for _ in range(r.choice([1, 2, 2]))]
    if not re.fullmatch(rb'[ -~]{1,900}', U(s['pw'])):
        for x in s['shows']:
            x[2] = x[2] if x[2] != 'tty' else 'stdin'
    return s


def gen_keys(r, private):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        a = r.choice(['25519', '448', 'Ed25519', 'Bogus', '', None, 'x25519', 'ed25519'])
        n = R.PRIV[a][0] if a in R.PRIV else 32
        k = r.random()
        if k < .15:
            key = None
        elif k < .3:
            key = r.randbytes(r.choice([0, 1, n - 1, n + 1, 64]))
        else:
            key = bytes([r.randint(1, 254) for _ in range(n)])
        out.append([a, H(key)])
    return out


def gen_meta(r):
    return [[None if r.random() < .15 else H(utf8(r)), None if r.random() < .15 else H(utf8(r))] for _ in range(r.choice([0, 0, 1, 2, 4]))]


def gen_subject(r, private):
    d = {f: None if r.random() < .3 else H(utf8(r)) for f in ('id', 'name', 'role')}
    d['keys'], d['meta'] = gen_keys(r, private), gen_meta(r)
    d['shuffle'] = r.randint(0, 10 ** 6)
    return d


def gen_cert(r):
    c = dict(version=r.choice([1, 1, 1, None, 0, 2, 0xffffffff]), subject=gen_subject(r, False) if r.random() < .9 else None,
             sigs=r.choice([0, 0, 1, 2]), shuffle=r.randint(0, 10 ** 6))
    return c


def gen_file(r, i):
    k = r.random()
    f = dict(name=filename(r, f'f{i}'), pad=None, damage=None)
    if k < .3:
        f.update(type='cert', certs=[gen_cert(r)])
    elif k < .55:
        f.update(type='chain', certs=[gen_cert(r) for _ in range(r.choice([1, 2, 2, 3, 5, 5, 9, 17]))])
    elif k < .9:
        f.update(type='key', subject=gen_subject(r, True), cipher=r.choice(['ChaChaPoly', 'ChaChaPoly', 'AESGCM']),
                 hash=r.choice(list(R.HASHES)), iters=r.choice([1, 2, 5, 50]), salt=H(r.randbytes(r.choice([1, 8, 16, 16, 40]))),
                 pw=None, shuffle=r.randint(0, 10 ** 6))
        if f['subject']['id'] is None:
            f['subject']['id'] = H(b'x')
    else:
        f.update(type=r.choice(['empty', 'missing', 'dir', 'large']))
    if f['type'] in ('cert', 'chain'):
        q = r.random()
        if q < .08:
            f['pad'] = r.choice([MAXFILE - 1, MAXFILE, MAXFILE + 1, MAXFILE + 2, 70000, 131072])
        elif q < .2:
            f['damage'] = [r.choice(['cut', 'tail', 'utf8']), r.randint(0, 10 ** 6)]
    elif f['type'] == 'key' and r.random() < .35:
        f['damage'] = [r.choice(['cut', 'tail', 'flip', 'flip', 'wrongpw', 'wrongpw', 'version', 'nosalt', 'noiter', 'noalg', 'alg', 'short', 'inner']), r.randint(0, 10 ** 6)]
    return f


def gen_show(r):
    files = [gen_file(r, i) for i in range(r.choice([1, 1, 2, 3, 5]))]
    how = r.choice(['opt', 'long', 'eq', 'stdin', 'tty'])
    return dict(kind='show', files=files, how=how, pw=H(passphrase(r, how)), fp=r.choice([None, '-f', '-F', '-fF', '-Ff', '--full-fingerprint', '--basic-fingerprint']),
                last=r.random() < .3)


USAGE = [[], ['bogus'], ['help'], ['help', 'bogus'], ['Generate', 'c', 'k'], ['generate'], ['generate', 'c'], ['generate', '-p', 'x', 'c', 'k', 'extra'],
         ['generate', '-z', '-p', 'x', 'c', 'k'], ['generate', '--bogus', '-p', 'x', 'c', 'k'], ['generate', '-p', 'x', 'c', 'k', '-a'],
         ['generate', '-p', 'x', '-i'], ['show'], ['show', '-p', 'x'], ['show', '-q', 'in'], ['show', '--bogus', 'in'], ['sign'], ['sign', 'in', 'c'],
         ['sign', '-p', 'x', 'in', 'c'], ['sign', '-k', 'key', '-p', 'x', 'in'], ['sign', '-k', 'key', '-p', 'x'], ['sign', '-k', 'key', '-p', 'x', 'in', 'c', 'k'],
         ['sign', '-z', '-k', 'key', '-p', 'x', 'in', 'c'], ['sign', '-k', 'key', '-p', 'x', '-n', '17', 'in', 'c'], ['sign', '-k', 'key', '-p', 'x', '-n', '-1', 'in', 'c'],
         ['sign', '-k', 'key', '-p', 'x', '-n', '128', 'in', 'c']]
BADALG = ['Bogus', '25519x', '2551', 'ed25519', 'ALL', 'allx', 'al', '25519,Bogus', 'Ed25519;448', 'all,bogus', ' 448', '448 ', 'Ed25519,25519,Ed448', 'SHA256', 'XX', 'ChaChaPoly', 'Noise', '0']


def gen_usage(r):
    k = r.random()
    if k < .4:
        a = ['generate', '-p', 'x', r.choice(['-a', '--algorithms']), r.choice(BADALG), 'c', 'k']
        return dict(kind='usage', args=a)
    if k < .5:
        return dict(kind='help', topic=r.choice(['generate', 'show', 'sign']))
    return dict(kind='usage', args=r.choice(USAGE))


def gen_sign(r):
    keys = ['Ed25519'] if r.random() < .5 else ['25519', 'Ed25519', '448']
    return dict(kind='sign', keys=keys, pw=H(passphrase(r, 'opt')), wrong=r.random() < .3, nonce=r.choice([None, 0, 16, 32, 64]), months=r.choice([None, 0, 12, 240]))


def scenario(seedstr):
    r = random.Random(seedstr)
    k = r.random()
    if k < .4:
        return gen_generate(r)
    if k < .85:
        return gen_show(r)
    if k < .97:
        return gen_usage(r)
    return gen_sign(r)


# ---------------------------------------------------------------- building files
def enc_subject(d):
    r = random.Random(d['shuffle'])
    groups = [[R.blob(t, U(d[f]))] for t, f in ((1, 'id'), (2, 'name'), (3, 'role')) if d[f] is not None]
    ks = []
    for a, k in d['keys']:
        p = [R.blob(1, a.encode())] if a is not None else []
        if k is not None:
            p.append(R.blob(2, U(k)))
        r.shuffle(p)
        ks.append(R.blob(4, b''.join(p)))
    ms = []
    for n, v in d['meta']:
        p = [R.blob(1, U(n))] if n is not None else []
        if v is not None:
            p.append(R.blob(2, U(v)))
        r.shuffle(p)
        ms.append(R.blob(5, b''.join(p)))
    return interleave(r, groups + [ks, ms] + ([[unknown(r)]] if r.random() < .2 else []))


def unknown(r):
    t = r.choice([16, 17, 100, 5000])
    return R.num(t, r.randrange(2 ** 40)) if r.random() < .5 else R.blob(t, r.randbytes(5))


def interleave(r, groups):
    groups = [list(g) for g in groups if g]
    out = b''
    if r.random() < .5:
        return b''.join(b''.join(g) for g in groups)
    while groups:
        g = r.choice(groups)
        out += g.pop(0)
        groups = [x for x in groups if x]
    return out


def enc_cert(c, pad=0):
    r = random.Random(c['shuffle'])
    g = []
    if c['version'] is not None:
        g.append([R.num(1, c['version'])])
    if c['subject'] is not None:
        g.append([R.blob(2, enc_subject(c['subject']) + (R.blob(16, bytes(pad)) if pad else b''))])
    elif pad:
        g.append([R.blob(16, bytes(pad))])
    g.append([R.blob(3, R.blob(1, b'signer') + R.blob(3, R.blob(1, b'Ed25519') + R.blob(2, r.randbytes(32))) + R.blob(4, b'SHA512') +
                     R.blob(5, R.blob(1, r.randbytes(16)) + R.blob(2, b'2016-01-01T00:00:00Z')) + R.blob(15, r.randbytes(64))) for _ in range(c['sigs'])])
    return interleave(r, g)


def enc_key(f, pw):
    r = random.Random(f['shuffle'])
    dm = f['damage'][0] if f['damage'] else ''
    pt = enc_subject(f['subject'])
    if dm == 'inner':
        pt = r.choice([pt + b'\xff', pt + b'\x0a\x05ab', R.blob(2, b'ok\xff') + pt, R.num(4, 5) + pt])
    if dm == 'wrongpw':
        pw = pw + b'!' if r.random() < .5 else bytes([pw[0] ^ 1 or 2]) + pw[1:]
    km = R.pbkdf2(f['hash'], pw, U(f['salt']), f['iters'], 40)
    ct = R.aead_encrypt(f['cipher'], km[:32], int.from_bytes(km[32:], 'big'), pt)
    if dm == 'short':
        ct = ct[:r.randrange(16)]
    alg = f"{f['cipher']}_{f['hash']}_PBKDF2"
    if dm == 'alg':
        alg = r.choice([alg + 'x', alg[:-1], alg.replace('_', '-'), 'Foo_' + alg, alg.replace('PBKDF2', 'scrypt'), f"{f['cipher']}_{f['hash']}", f"{f['hash']}_{f['cipher']}_PBKDF2", ''])
    rest = {'alg': R.blob(11, alg.encode()), 'salt': R.blob(12, U(f['salt'])), 'iter': R.num(13, f['iters']), 'data': R.blob(15, ct)}
    for n in ('noalg', 'nosalt', 'noiter'):
        if dm == n:
            del rest[n[2:]]
    parts = list(rest.values())
    if r.random() < .5:
        r.shuffle(parts)
    data = R.num(10, 1 if dm != 'version' else r.choice([0, 2, 255])) + b''.join(parts)
    return data, ct


def boundaries(data):
    """offsets where cutting leaves whole top level fields"""
    out, i = {0}, 0
    for t, v in R.fields(data):
        i += len(R.num(t, v) if isinstance(v, int) else R.blob(t, v))
        out.add(i)
    return out


def make_file(d, f, pw):
    """writes it; -> the expected block of output, or None if it must fail;
    the words expected on stderr"""
    path = os.path.join(d, f['name'])
    t = f['type']
    if t == 'missing':
        return None, b''
    if t == 'dir':
        os.mkdir(path)
        return None, b''
    if t in ('empty', 'large'):
        with open(path, 'wb') as fh:
            fh.write(b'' if t == 'empty' else R.num(1, 1) + R.blob(16, bytes(MAXFILE * 2)))
        return None, b''
    ok, words = True, b''
    if t in ('cert', 'chain'):
        def whole(pad):
            cs = [enc_cert(c, pad if i == 0 else 0) for i, c in enumerate(f['certs'])]
            return cs[0] if t == 'cert' else b''.join(R.blob(8, c) for c in cs)
        data = whole(0)
        if not data:
            ok = None                       # the empty certificate is an empty file
        if f['pad']:
            pad = max(1, f['pad'] - len(data) - 8)
            while len(whole(pad)) < f['pad']:
                pad += 1
            data = whole(pad)
            ok = len(data) <= MAXFILE
    else:
        data, ct = enc_key(f, pw)
        if f['damage']:
            ok = False
            if f['damage'][0] == 'wrongpw':
                words = b'Incorrect passphrase'
    if f['damage']:
        kind, x = f['damage']
        r = random.Random(x)
        if kind == 'cut':
            b = boundaries(data)
            n = [i for i in range(1, len(data)) if i not in b]
            if not n:
                kind = 'tail'
            else:
                data = data[:r.choice(n)]
        if kind == 'tail':
            data += r.choice([b'\xff', b'\x80', b'\x0a', b'\x09\0', b'\x82\x01\x7f', b'\x83\x01', b'\x84\x01'])
        if kind == 'utf8':
            bad = R.blob(1, b'ab' + r.choice(BADUTF))
            data = R.num(1, 1) + R.blob(2, bad) if t == 'cert' else R.blob(8, R.num(1, 1) + R.blob(2, bad))
        if kind == 'flip':
            i = data.index(ct) + r.randrange(len(ct))
            data = data[:i] + bytes([data[i] ^ (1 << r.randrange(8))]) + data[i + 1:]
            words = b'Incorrect passphrase'
        ok = False
    with open(path, 'wb') as fh:
        fh.write(data)
    if ok is None:
        return None, b''
    if not ok:
        return None, words
    return True, b''


def fingerprint(pub, full):
    return ':'.join('%02x' % x for x in hashlib.sha256(pub).digest()[:32 if full else 16]).encode()


def exp_meta(meta):
    return b''.join(b'Meta: ' + (U(n) if n is not None else b'Unknown') + b'=' + (U(v) if v is not None else b'') + b'\n' for n, v in meta)


def exp_subject(d, private, full):
    o = b''
    for f, n in (('id', b'Id: '), ('name', b'Name: '), ('role', b'Role: ')):
        if d[f] is not None:
            o += n + U(d[f]) + b'\n'
    for a, k in d['keys']:
        k = U(k) or b''
        o += b'Public-Key-' + (a.encode() if a is not None else b'Unknown') + b': '
        if not k:
            o += b'Not-Specified'
        elif not private:
            o += fingerprint(k, full)
        elif a in R.PRIV and len(k) == R.PRIV[a][0]:
            o += fingerprint(R.PRIV[a][2](k), full)
        else:
            o += b'Unknown'
        o += b'\n'
    return o + exp_meta(d['meta'])


def exp_cert(c, full):
    o = b'Version: %d\n' % (c['version'] or 0)
    return o + (exp_subject(c['subject'], False, full) if c['subject'] is not None else b'')


def exp_file(f, full):
    if f['type'] == 'key':
        return exp_subject(f['subject'], True, full)
    return b'--------\n'.join(exp_cert(c, full) for c in f['certs'])


def is_full(fp):
    if fp is None:
        return False
    return fp in ('-F', '-fF', '--full-fingerprint')


# ---------------------------------------------------------------- judging
def diff(got, want):
    a, b = got.split(b'\n'), want.split(b'\n')
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else b'<end>'
        y = b[i] if i < len(b) else b'<end>'
        if x != y:
            return f'line {i + 1} is {x[:200]!r}, expected {y[:200]!r}'
    return 'the same'


def judge_show(s, exe, d):
    pw = U(s['pw'])
    full = is_full(s['fp'])
    want, status, nkeys, errs = b'', 0, 0, []
    for f in s['files']:
        ok, words = make_file(d, f, pw)
        if f['type'] == 'key':
            nkeys += 1
        name = f['name'].encode()
        if ok:
            if len(s['files']) > 1:
                want += b'--------\n' + name + b':\n'
            want += exp_file(f, full)
        else:
            status = 1
            errs.append((name, words))
    args, typed, tty = give(s['how'], pw, nkeys)
    opts = args + ([s['fp'].encode()] if s['fp'] else [])
    names = [f['name'].encode() for f in s['files']]
    rc, out, err = run(exe, [b'show'] + (names + opts if s['last'] else opts + names), d, typed, tty)
    w = crashed(rc, err)
    if w:
        return w
    if out != want:
        return 'show: ' + diff(out, want) + f' (status {rc}, stderr {err[-300:]!r})'
    if rc != status:
        return f'show: exit status {rc}, expected {status}; stderr {err[-300:]!r}'
    for name, words in errs:
        if name not in err or words not in err:
            return f'show: nothing about {name!r} {words!r} on stderr: {err[-400:]!r}'


def alg_list(algs):
    out = []
    for a in algs:
        for x in a.split(','):
            for y in (['25519', '448', 'Ed25519'] if x == 'all' else [x] if x else []):
                if y not in out:
                    out.append(y)
    return out or ['25519', '448', 'Ed25519']


def valid_utf8(b):
    try:
        b.decode('utf-8')
        return b'\0' not in b
    except UnicodeDecodeError:
        return False


def read_subject(data, private):
    f = R.fields(data)
    if any(t not in (1, 2, 3, 4, 5) for t, _ in f):
        raise R.Bad()
    keys = []
    for t, v in f:
        if t == 4:
            g = R.fields(v)
            keys.append((R.one(g, 1), R.one(g, 2)))
    if any(t == 5 for t, _ in f):
        raise R.Bad()
    return {'id': R.one(f, 1), 'name': R.one(f, 2), 'role': R.one(f, 3), 'keys': keys}


def open_key(data, pw):
    f = R.fields(data)
    if sorted(t for t, _ in f) != [10, 11, 12, 13, 15] or R.one(f, 10) != 1:
        return None, 'the private key file does not have the documented fields'
    salt, it = R.one(f, 12), R.one(f, 13)
    if R.one(f, 11) != b'ChaChaPoly_BLAKE2b_PBKDF2' or len(salt) != 16 or it < 1000:
        return None, f'protection {R.one(f, 11)!r}, {len(salt)} bytes of salt, {it} iterations'
    km = R.pbkdf2('BLAKE2b', pw, salt, it, 40)
    pt = R.aead_decrypt('ChaChaPoly', km[:32], int.from_bytes(km[32:], 'big'), R.one(f, 15))
    if pt is None:
        return None, 'the private key does not open with the passphrase'
    return (salt, read_subject(pt, True)), None


def judge_generate(s, exe, d, fresh=None):
    pw = U(s['pw'])
    conf = U(s['confirm'])
    cert, key = os.path.join(d, s['cert']), os.path.join(d, s['key'])
    a_cert, a_key = s['cert'].encode(), s['key'].encode()
    flt = s['fault'] or ''
    if flt.endswith('dir'):
        os.mkdir(cert if flt[0] == 'c' else key)
    elif flt == 'cert-missing':
        a_cert = b'nodir/' + a_cert
    elif flt == 'key-missing':
        a_key = b'nodir/' + a_key
    elif flt == 'cert-full':
        a_cert = b'/dev/full'
    elif flt == 'key-full':
        a_key = b'/dev/full'
    elif s['existing']:
        for p in (cert, key):
            with open(p, 'wb') as fh:
                fh.write(os.urandom(3000))
    st = iter(s['style'])

    def opt(short, long, v):
        k = next(st)
        v = v if isinstance(v, bytes) else v.encode()
        return {'s': [b'-' + short, v], 'j': [b'-' + short + v] if v else [b'-' + short, v], 'l': [b'--' + long, v], 'e': [b'--' + long + b'=' + v]}[k]
    groups = []
    for f in ('id', 'name', 'role'):
        if s[f] is not None:
            groups.append(opt(f[0].encode(), f.encode(), U(s[f])))
    ags = [opt(b'a', b'algorithms', a) for a in s['algs']]
    pa, typed, tty = give(s['how'], pw, 2, conf)
    if pa:
        groups.append(pa)
    r = random.Random(s['order'])
    r.shuffle(groups)
    at = r.randint(0, len(groups))
    args = [x for g in groups[:at] + ags + groups[at:] for x in g]
    pos = [a_cert, a_key]
    rc, out, err = run(exe, [b'generate'] + (args + pos if r.random() < .7 else pos + args), d, typed, tty)
    w = crashed(rc, err)
    if w:
        return 'generate: ' + w
    bad = [f for f in ('id', 'name', 'role') if s[f] is not None and not valid_utf8(U(s[f]))]
    must_fail = bool(bad or flt) or (conf is not None and conf != pw)
    big = sum(len(U(s[f]) or b'') for f in ('id', 'name', 'role')) > 65000
    may_fail = big or (len(pw) > 900 and not pa)
    if must_fail or (may_fail and rc == 1):
        why = f'not UTF-8: {bad}' if bad else flt or 'different confirmation'
        if rc != 1:
            return f'generate: exit status {rc} although {why}'
        if not err.strip():
            return f'generate: no error message although {why}'
        if flt and not bad and conf is None and not may_fail and (a_cert if flt[0] == 'c' else a_key) not in err:
            return f'generate: the message does not name the file that failed ({flt}): {err[-300:]!r}'
        return
    if rc != 0:
        return f'generate: exit status {rc}: {err[-400:]!r}'
    algs = alg_list(s['algs'])
    want = {f: U(s[f]) for f in ('id', 'name', 'role')}
    try:
        with open(cert, 'rb') as fh:
            cdata = fh.read()
        with open(key, 'rb') as fh:
            kdata = fh.read()
        c = R.fields(cdata)
        if sorted(t for t, _ in c) != [1, 2] or R.one(c, 1) != 1:
            return f'generate: the certificate has fields {[t for t, _ in c]} and version {R.one(c, 1)}'
        sub = read_subject(R.one(c, 2), False)
        k, w = open_key(kdata, pw)
        if w:
            return 'generate: ' + w
    except R.Bad:
        return 'generate: a file is not well formed'
    except OSError as e:
        return f'generate: {e}'
    salt, priv = k
    for what, x in (('certificate', sub), ('private key', priv)):
        for f in want:
            if x[f] != want[f]:
                return f'generate: the {what} has {f} {x[f]!r}, not {want[f]!r}'
        got = [a.decode('latin1') if a is not None else None for a, _ in x['keys']]
        if got != algs:
            return f'generate: the {what} has keys for {got}, not {algs}'
    for (a, pub), (_, pr) in zip(sub['keys'], priv['keys']):
        a = a.decode()
        if pub is None or pr is None or len(pr) != R.PRIV[a][0] or R.PRIV[a][2](pr) != pub:
            return f'generate: the {a} private and public keys do not belong together'
        if fresh is not None:
            fresh.append(pr)
        if len(set(pr)) < 6:
            return f'generate: the {a} private key is {pr.hex()}'
        if pr in cdata or pr in kdata:
            return f'generate: the {a} private key is in the clear'
    if fresh is not None:
        fresh.append(salt)
    for what, right, how, fp in s['shows']:
        full = is_full(fp)
        names = {'cert': [a_cert], 'key': [a_key], 'both': [a_cert, a_key]}[what]
        p2 = pw if right == 'right' else pw[:-1] + bytes([pw[-1] ^ 1]) if pw[-1] not in (11, 1) else pw + b'x'
        pa, typed, tty = give(how, p2, 1)
        if pa == [] and len(p2) > 900:
            pa, typed, tty = give('opt', p2, 1)
        rc, out, err = run(exe, [b'show'] + pa + ([fp.encode()] if fp else []) + names, d, typed, tty)
        w = crashed(rc, err)
        if w:
            return 'show: ' + w
        sd = {'id': H(sub['id']), 'name': H(sub['name']), 'role': H(sub['role']), 'meta': [], 'keys': [[a.decode(), H(p)] for a, p in sub['keys']]}
        body = exp_subject(sd, False, full)
        o = b''
        for n in names:
            if n == a_key and right == 'wrong':
                continue
            if len(names) > 1:
                o += b'--------\n' + n + b':\n'
            o += (b'Version: 1\n' if n == a_cert else b'') + body
        status = 1 if right == 'wrong' and a_key in names else 0
        if out != o:
            return f'show {what} ({right} passphrase): ' + diff(out, o)
        if rc != status:
            return f'show {what} ({right} passphrase): exit status {rc}'
        if status and b'Incorrect passphrase' not in err:
            return f'show: a wrong passphrase is reported as {err[-300:]!r}'


HELP = {'generate': ['id', 'name', 'role', 'algorithms', 'passphrase'], 'show': ['passphrase', 'basic-fingerprint', 'full-fingerprint'],
        'sign': ['signing-key', 'passphrase', 'algorithm', 'valid-months', 'nonce-size']}


def judge_usage(s, exe, d):
    if s['kind'] == 'help':
        rc, out, err = run(exe, [b'help', s['topic'].encode()], d)
        w = crashed(rc, err)
        if w:
            return w
        if rc != 0 or b'Usage:' not in out or s['topic'].encode() not in out:
            return f'help {s["topic"]}: status {rc}, {out[:200]!r}'
        for o in HELP[s['topic']]:
            if b'--' + o.encode() not in out:
                return f'help {s["topic"]}: --{o} is missing'
        # the short form given for an option is one the tool accepts
        for long, short in re.findall(rb'--([\w-]+)(?:=[\w-]+)?, -(\w)', out):
            rc2, out2, err2 = run(exe, [s['topic'].encode(), b'-' + short], d)
            if b'invalid option' in err2 or b'unrecognized' in err2:
                return f'help {s["topic"]} names -{short.decode()} for --{long.decode()}, which the tool does not know'
        return
    with open(f'{d}/in', 'wb') as fh:
        fh.write(R.num(1, 1) + R.blob(2, R.blob(1, b'somebody')))
    before = sorted(os.listdir(d))
    rc, out, err = run(exe, [a.encode() for a in s['args']], d)
    w = crashed(rc, err)
    if w:
        return w
    if rc != 1:
        return f'{s["args"]}: exit status {rc}'
    if not (out + err).strip():
        return f'{s["args"]}: fails without a word'
    if sorted(os.listdir(d)) != before:
        return f'{s["args"]}: made {sorted(set(os.listdir(d)) - set(before))}'


def judge_sign(s, exe, d):
    """-> message, or ('finding', id)"""
    pw = U(s['pw'])
    rc, out, err = run(exe, [b'generate', b'-p', pw, b'-i', b'signer', b'-a', ','.join(s['keys']).encode(), b'c', b'k'], d)
    w = crashed(rc, err)
    if w or rc:
        return w or f'generate: status {rc}'
    rc, out, err = run(exe, [b'generate', b'-p', b'other', b'-i', b'subject', b'c2', b'k2'], d)
    w = crashed(rc, err)
    if w or rc:
        return w or f'generate: status {rc}'
    a = [b'sign', b'-k', b'k', b'-p', pw + b'x' if s['wrong'] else pw]
    if s['nonce'] is not None:
        a += [b'-n', str(s['nonce']).encode()]
    if s['months'] is not None:
        a += [b'-m', str(s['months']).encode()]
    rc, out, err = run(exe, a + [b'c2', b'out'], d)
    w = crashed(rc, err)
    if w:
        return w
    if rc == 1:
        return None if (out + err).strip() else 'sign: fails without a word'
    if not os.path.exists(f'{d}/out'):
        return 'finding', 'sign-todo'
    if s['wrong']:
        return 'sign: succeeds with the wrong passphrase'
    try:
        with open(f'{d}/out', 'rb') as fh:
            o = R.fields(fh.read())
        with open(f'{d}/c2', 'rb') as fh:
            i = R.fields(fh.read())
        if R.one(o, 1) != 1 or sorted(R.fields(R.one(o, 2)), key=str) != sorted(R.fields(R.one(i, 2)), key=str) or not any(t == 3 for t, _ in o):
            return 'sign: the output is not the certificate with a signature'
    except (R.Bad, TypeError):
        return 'sign: the output is not well formed'


def judge(s, exe, fresh=None):
    d = tempfile.mkdtemp(prefix='keytool')
    try:
        k = s['kind']
        if k == 'generate':
            return judge_generate(s, exe, d, fresh)
        if k == 'show':
            return judge_show(s, exe, d)
        if k == 'sign':
            return judge_sign(s, exe, d)
        return judge_usage(s, exe, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- shrinking
def smaller(s):
    """variations of the scenario with one part taken away"""
    def walk(x, path):
        if isinstance(x, dict):
            for k in x:
                if k in ('id', 'name', 'role', 'fp', 'pad', 'damage', 'fault', 'confirm', 'subject', 'nonce', 'months') and x[k] is not None and not (k == 'subject' and x.get('type') == 'key'):
                    yield path + [k], None
                if k in ('shuffle', 'order', 'sigs') and x[k]:
                    yield path + [k], 0
                if k == 'existing' and x[k]:
                    yield path + [k], False
                if k in ('pw', 'id', 'name', 'role') and x[k] and len(x[k]) > 2:
                    yield path + [k], x[k][:max(2, len(x[k]) // 4 * 2)]
                if k == 'how' and x[k] != 'opt' and not x.get('confirm'):
                    yield path + [k], 'opt'
                if isinstance(x[k], (dict, list)):
                    yield from walk(x[k], path + [k])
        elif isinstance(x, list):
            if path and path[-1] in ('files', 'certs', 'keys', 'meta', 'shows', 'algs'):
                lo = 1 if path[-1] in ('files', 'certs') else 0
                for i in range(len(x)):
                    if len(x) > lo:
                        yield path, x[:i] + x[i + 1:]
            for i, y in enumerate(x):
                if isinstance(y, (dict, list)):
                    yield from walk(y, path + [i])
    for path, v in walk(s, []):
        c = json.loads(json.dumps(s))
        p = c
        for k in path[:-1]:
            p = p[k]
        p[path[-1]] = v
        yield c


def shrink(s, exe, what):
    end = time.time() + 60
    again = True
    while again and time.time() < end:
        again = False
        for c in smaller(s):
            if time.time() > end:
                break
            try:
                w = judge(c, exe)
            except Exception:
                continue
            if w and not isinstance(w, tuple):
                s, what, again = c, w, True
                break
    return s, what


def label(s):
    k = s['kind']
    if k == 'generate':
        return [f'generate, passphrase by {s["how"]}'] + (['generate: ' + s['fault']] if s['fault'] else []) + (['generate: different confirmation'] if s['confirm'] else []) + \
            ['generate: algorithms ' + ('default' if not s['algs'] else 'chosen')] + [f'show {w} ({r})' for w, r, h, f in s['shows']]
    if k == 'show':
        return ['show: ' + f['type'] + (f', {f["damage"][0]}' if f['damage'] else f', {f["pad"]} bytes' if f['pad'] else '') for f in s['files']]
    return [k]


def nontrivial(s):
    return s['kind'] in ('generate', 'show', 'sign')


def check(prop, tier, res):
    import driver
    quick = tier == 'quick'
    with B.Lock():
        B.prune()
        exes = {b: tool(b) for b in B.BACKENDS}
    t = float(os.environ.get('VERIF_TIME', 22 if quick else 400))
    known = {i for p, i, _ in driver.known_findings() if p == prop}
    pool = ThreadPoolExecutor(10)
    end = time.time() + t
    hard = end + 300
    fresh, seen = [], set()
    failed = []

    def one(k):
        if failed or (time.time() > end and k >= 120) or time.time() > hard:
            return None
        s = scenario(f'{driver.seed()}/{k}')
        b = B.BACKENDS[k % 3]
        w = judge(s, exes[b], fresh)
        if isinstance(w, tuple):
            if w[1] in known:
                return s, b, None
            w = f'{w[1]}: success is reported but nothing was done'
        if w:
            # only what fails again counts
            again = [judge(s, exes[b]) for _ in range(2)]
            if not all(again):
                sys.stderr.write(f'{prop}: not reproducible, ignored: {w}\n')
                return s, b, None
            failed.append(k)
        return s, b, w
    try:
        k = 0
        while True:
            rs = list(pool.map(one, range(k, k + 240)))
            k += 240
            for x in rs:
                if x is None:
                    continue
                s, b, w = x
                res.evaluations += 1
                if nontrivial(s):
                    res.nontrivial += 1
                    seen.add(json.dumps(s, sort_keys=True))
                for l in set(label(s)):
                    res.labels[l] = res.labels.get(l, 0) + 1
                res.per_target[f'{b}/{s["kind"]}'] = res.per_target.get(f'{b}/{s["kind"]}', 0) + 1
                if len(res.samples) < 8:
                    res.samples.append(f'[{b}] ' + json.dumps(s)[:500])
                if w and not res.violations:
                    s, w = shrink(s, exes[b], w)
                    res.violations.append(save(prop, driver.REPLAYS, b, s, w))
            if res.violations or time.time() > end:
                break
        if not res.violations and len(set(fresh)) != len(fresh):
            s = dict(kind='repeat')
            res.violations.append(save(prop, driver.REPLAYS, 'ref', s, 'two runs of the tool made the same key or salt'))
    finally:
        pool.shutdown()
    res.distinct = len(seen)
    res.extra['fresh_keys_and_salts'] = len(fresh)
    res.rule(RULE)


def save(prop, replays, backend, s, what):
    text = f'kind: python\nmodule: keytool\nproperty: {prop}\nbackend: {backend}\n# {what}\nscenario: {json.dumps(s, sort_keys=True)}\n'.replace('\0', '')
    print(f'  [{backend}] {what}'[:1500])
    name = f'{replays}/{prop}-{hashlib.sha256(text.encode()).hexdigest()[:12]}.txt'
    os.makedirs(replays, exist_ok=True)
    with open(name, 'w') as f:
        f.write(text)
    return f'VIOLATION property={prop} replay={name}'


def replay(path):
    text = open(path, errors='replace').read()
    s = json.loads(re.search(r'^scenario: (.*)', text, re.M).group(1))
    b = re.search(r'^backend: (\S+)', text, re.M).group(1)
    with B.Lock():
        exe = tool(b)
    if s['kind'] == 'repeat':
        fresh = []
        for k in range(200):
            g = scenario(f'1/{k}')
            if g['kind'] == 'generate':
                judge(g, exe, fresh)
        w = 'two runs of the tool made the same key or salt' if len(set(fresh)) != len(fresh) else None
    else:
        w = judge(s, exe)
    print(w or 'replay passes')
    return 1 if w else 0
