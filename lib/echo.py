"""C30: the echo example over loopback.  The real echo-server of each backend
runs; the real echo-client of each backend talks to it through a proxy that can
cut the stream into pieces or damage it."""
import base64, hashlib, json, os, random, re, select, shutil, signal, socket, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import build as B
import pyref as R

RULE = ('echo: a session is one client run (protocol, keys, options, lines, stream pieces, damage), a hostile stream sent to the server, or a key file read; '
        'non-trivial when the handshake completes and lines are echoed, or when a wrong key or damaged byte is refused; distinct by parameters')
PAT = dict(NN=0, KN=1, NK=2, KK=3, NX=4, KX=5, XN=6, IN=7, XK=8, IK=9, XX=10, IX=11)
CIPHER = dict(ChaChaPoly=0, AESGCM=1)
DH = {'25519': 0, '448': 1}
HYB = {None: 0, '25519': 0x10, '448': 0x20, 'NewHope': 0x30}
HASH = dict(SHA256=0, SHA512=1, BLAKE2s=2, BLAKE2b=3)
KLEN = {'25519': 32, '448': 56}
ENV = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:abort_on_error=0', 'UBSAN_OPTIONS': 'halt_on_error=1:exitcode=99'}


def tools(backend):
    d = f'{B.BUILD}/{B.tree_hash()}/echo'
    os.makedirs(d, exist_ok=True)
    out = {}
    cc, cxx, flags = B.FLAVOURS['asan']
    E = f'{B.REPO}/examples/echo'
    for n in ('echo-client', 'echo-server', 'echo-keygen'):
        exe = f'{d}/{n}-{backend}'
        out[n] = exe
        if os.path.exists(exe):
            continue
        src = [os.path.normpath(f'{E}/{n}/{f}') for f in B.am_sources(f'{E}/{n}/Makefile.am', False, False) if f.endswith('.c')]
        B.run([cc] + B._quiet() + flags + ['-DHAVE_POLL=1', f'-I{B.REPO}/include', f'-I{E}/echo-server'] + src + [B.build_lib(backend, 'asan'), '-o', exe + '.tmp'] + B.libs_for(backend))
        os.rename(exe + '.tmp', exe)
    return out


class World:
    """the keys and the running servers"""
    def __init__(self, seedstr, exes):
        self.exes = exes
        self.d = tempfile.mkdtemp(prefix='echo')
        self.servers = {}
        r = random.Random('keys ' + seedstr)
        self.keys = {}
        for who in ('client', 'server', 'other'):
            for dh, n in KLEN.items():
                k = bytes(r.randint(1, 255) for _ in range(n))
                pub = R.PRIV[dh][2](k)
                self.keys[who, dh] = k, pub
                self.put(f'{who}_key_{dh}', k)
                self.put(f'{who}_key_{dh}.pub', base64.b64encode(pub))
        self.put('psk', base64.b64encode(r.randbytes(32)))
        self.put('psk2', base64.b64encode(r.randbytes(32)))

    def put(self, name, data):
        with open(f'{self.d}/{name}', 'wb') as f:
            f.write(data)

    def start(self, backend, fixed=False):
        err = open(f'{self.d}/server-{backend}-{fixed}.err', 'wb')
        for _ in range(20):
            s = socket.socket()
            s.bind(('127.0.0.1', 0))
            port = s.getsockname()[1]
            s.close()
            p = subprocess.Popen([self.exes[backend]['echo-server'], '-k', self.d] + (['-f'] if fixed else []) + [str(port)], stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=ENV, cwd='/', start_new_session=True)
            for _ in range(200):
                if p.poll() is not None:
                    break
                try:
                    socket.create_connection(('127.0.0.1', port), 1).close()
                    self.servers[backend, fixed] = p, port
                    err.close()
                    return
                except OSError:
                    time.sleep(.02)
            self.kill(p)
        raise SystemExit('echo-server does not start: ' + open(err.name, errors='replace').read()[-800:])

    def kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()

    def trouble(self):
        for (b, fx), (p, port) in self.servers.items():
            with open(f'{self.d}/server-{b}-{fx}.err', errors='replace') as f:
                t = f.read()
            m = re.search(r'.*(AddressSanitizer|runtime error:).*', t)
            if m:
                return f'the {b} server: {m.group(0)[:300]}'
            if p.poll() is not None:
                return f'the {b} server ended with {p.returncode}'

    def close(self):
        for p, port in self.servers.values():
            self.kill(p)
        shutil.rmtree(self.d, ignore_errors=True)


# ---------------------------------------------------------------- the proxy
def proxy(port, plan, log):
    """-> listening port.  plan: {'cut': n or None, 'damage': [direction, offset, mask] or None}"""
    ls = socket.socket()
    ls.bind(('127.0.0.1', 0))
    ls.listen(1)
    ls.settimeout(60)

    def pump(a, b, way, r):
        off = 0
        try:
            while True:
                # a damaged length leaves both sides waiting: end that
                while not select.select([a], [], [], 0.2)[0]:
                    if log['hit'] and time.time() > log['last'] + 0.3:
                        for x in (a, b):
                            x.shutdown(socket.SHUT_RDWR)
                d = a.recv(65536)
                if not d:
                    break
                log['last'] = time.time()
                log[way] += d
                dm = plan['damage']
                if dm and dm[0] == way and off <= dm[1] < off + len(d):
                    d = bytearray(d)
                    d[dm[1] - off] ^= dm[2]
                    log['hit'] = True
                off += len(d)
                if plan['cut'] and off < 20000:
                    slow = 60
                    while d:
                        n = r.randint(1, plan['cut'])
                        b.sendall(d[:n])
                        d = d[n:]
                        slow -= 1
                        if slow > 0:
                            time.sleep(.0003)
                else:
                    b.sendall(d)
        except (OSError, ValueError):
            pass
        for s, how in ((b, socket.SHUT_WR), (a, socket.SHUT_RD)):
            try:
                s.shutdown(how)
            except OSError:
                pass

    def serve():
        try:
            c, _ = ls.accept()
        except OSError:
            ls.close()
            return
        ls.close()
        log['conn'] = True
        try:
            s = socket.create_connection(('127.0.0.1', port))
        except OSError:
            c.close()
            return
        for x in (c, s):
            x.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            x.settimeout(60)
        r = random.Random(plan['cut'] or 0)
        t = threading.Thread(target=pump, args=(s, c, 1, r), daemon=True)
        t.start()
        pump(c, s, 0, random.Random(7))
        t.join()
        c.close()
        s.close()
    th = threading.Thread(target=serve, daemon=True)
    th.start()
    return ls.getsockname()[1], th


# ---------------------------------------------------------------- scenarios
def gen(r):
    k = r.random()
    if k < .82:
        psk = r.random() < .4
        pat = r.choice(list(PAT))
        hyb = r.choice([None, None, None, '25519', '448', 'NewHope'])
        dh = r.choice(list(DH))
        s = dict(kind='session', psk=psk, pattern=pat, hybrid=hyb, dh=dh, cipher=r.choice(list(CIPHER)), hash=r.choice(list(HASH)),
                 padding=r.random() < .4, fixed=r.random() < .15, verbose=r.random() < .1, long=r.random() < .5,
                 lines=[line(r).hex() for _ in range(r.choice([0, 1, 1, 2, 3, 5, 20]))],
                 cut=r.choice([None, None, 1, 3, 50, 1000]), damage=None, wrong=None, extra=r.random() < .2)
        s['cut'] = s['cut'] if s['cut'] != 1 or hyb != 'NewHope' else 50
        q = r.random()
        if q < .2:
            s['damage'] = [r.randint(0, 1), r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, r.randint(0, 100), r.randint(0, 300), r.randint(0, 5000)]), r.choice([1, 2, 0x80, 0x40, 0xff])]
        elif q < .45:
            s['wrong'] = r.choice(['server-key', 'client-key', 'psk', 'no-client', 'no-server', 'no-psk'])
        return s
    if k < .9:
        return dict(kind='hostile', data=hostile(r).hex(), cut=r.choice([None, 1, 7]))
    return gen_reader(r)


def line(r):
    n = r.choice([0, 1, 5, 30, 30, 200, 1000, 3999])
    pool = r.choice([b'abc def', bytes(x for x in range(1, 256) if x != 10)])
    return bytes(r.choice(pool) for _ in range(n)) + b'\n'


def hostile(r):
    i = bytes([r.randint(0, 1), r.choice(list(PAT.values())) | r.choice([0, 0, 0x80]), r.randint(0, 1), r.choice([0, 1]) | r.choice([0, 0, 0x10, 0x30]), r.randint(0, 3)])
    k = r.random()
    if k < .3:
        return r.randbytes(r.choice([1, 4, 5, 7, 100]))
    if k < .5:
        i = bytearray(i)
        i[r.randrange(5)] = r.randint(0, 255)
        return bytes(i) + b'\0\x20' + r.randbytes(32)
    n = r.choice([0, 1, 16, 31, 32, 33, 48, 56, 64, 96, 200, 2000, 65535])
    m = r.choice([n, n, max(0, n - 1), min(65535, n + 1)])
    body = r.randbytes(m) if r.random() < .7 else bytes([r.choice([0, 255, 1])]) * m
    return i + n.to_bytes(2, 'big') + body + r.choice([b'', r.randbytes(50)])


def gen_reader(r):
    """a form of key file: used as the server's public key and as the psk"""
    dh = r.choice(list(DH))
    form = r.choice(['plain', 'newline', 'leading', 'inner', 'crlf', 'wrap', 'nopad', 'short', 'long', 'badchar', 'empty', 'missing', 'binary', 'keygen', 'privshort', 'privlong', 'privempty', 'privmissing'])
    return dict(kind='reader', dh=dh, form=form, x=r.randint(0, 10 ** 6))


def name_of(s):
    return ('NoisePSK_' if s['psk'] else 'Noise_') + s['pattern'] + ('hfs' if s['hybrid'] else '') + '_' + s['dh'] + ('+' + s['hybrid'] if s['hybrid'] else '') + f"_{s['cipher']}_{s['hash']}"


def ident(s):
    return bytes([1 if s['psk'] else 0, PAT[s['pattern']] | (0x80 if s['hybrid'] else 0), CIPHER[s['cipher']], DH[s['dh']] | HYB[s['hybrid']], HASH[s['hash']]])


def client_key(s):
    return s['pattern'][0] != 'N'


def server_key(s):
    """needed before the handshake"""
    return s['pattern'][1] == 'K'


def wrong_matters(s):
    """must the mistake stop the handshake?"""
    w = s['wrong']
    if w == 'server-key' or w == 'no-server':
        return server_key(s)
    if w == 'client-key':
        return s['pattern'][0] == 'K'
    if w == 'no-client':
        return client_key(s)
    if w in ('psk', 'no-psk'):
        return s['psk']
    return False


def client(exe, args, data, cwd, timeout=90):
    p = subprocess.Popen([exe] + args, cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, start_new_session=True)
    try:
        out, err = p.communicate(data, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return 'hang', out, err
    return p.returncode, out, err


def crashed(rc, err):
    if rc == 'hang':
        return 'the client does not end'
    if rc < 0 or rc == 99 or b'Sanitizer' in err or b'runtime error:' in err:
        return f'the client crashed ({rc}): ' + err[-1200:].decode('latin1')
    if rc not in (0, 1):
        return f'exit status {rc}'


def judge_session(s, w, cb, sb):
    d = w.d
    name = name_of(s)
    wrong = s['wrong']
    args = []

    def opt(short, long, v=None):
        if v is None:
            args.append(long if s['long'] else short)
        elif s['long']:
            args.append(f'{long}={v}')
        else:
            args.extend([short, v])
    if (client_key(s) or s['extra']) and wrong != 'no-client':
        opt('-c', '--client-private-key', f"{'other' if wrong == 'client-key' else 'client'}_key_{s['dh']}")
    if (server_key(s) or s['extra']) and wrong != 'no-server':
        opt('-s', '--server-public-key', f"{'other' if wrong == 'server-key' else 'server'}_key_{s['dh']}.pub")
    if (s['psk'] or s['extra']) and wrong != 'no-psk':
        opt('-p', '--psk', 'psk2' if wrong == 'psk' else 'psk')
    if s['padding']:
        opt('-g', '--padding')
    if s['fixed']:
        opt('-f', '--fixed-ephemeral')
    if s['verbose']:
        opt('-v', '--verbose')
    p, port = w.servers[sb, False]
    log = {0: b'', 1: b'', 'hit': False, 'last': 0}
    th = None
    if s['cut'] or s['damage']:
        port, th = proxy(port, s, log)
    lines = [bytes.fromhex(x) for x in s['lines']]
    rc, out, err = client(w.exes[cb]['echo-client'], args + [name, '127.0.0.1', str(port)], b''.join(lines), d)
    if th:
        if not log.get('conn'):
            # the client gave up before it connected: let the proxy end
            try:
                socket.create_connection(('127.0.0.1', port), 1).close()
            except OSError:
                pass
        th.join(60)
    m = crashed(rc, err)
    if m:
        return f'{name}: {m}'
    if log[0] and log[0][:5] != ident(s):
        return f'{name}: the client identifies the protocol as {log[0][:5].hex()}, expected {ident(s).hex()}'
    done = f'{name} handshake complete.  Enter text to be echoed ...\n'.encode()
    if s['verbose']:
        # the packets are shown between the lines
        out = re.sub(rb'(?m)^(Tx|Rx):.*\n(   [ 0-9a-f]*\n)*', b'', out)
    want = done + b''.join(b'Received: ' + x for x in lines)
    if wrong_matters(s):
        if rc != 1 or out.startswith(done) and b'Received' in out:
            return f'{name}: {wrong} and yet exit status {rc}, output {out[:200]!r}'
        # a handshake whose last message is the client's can only fail at the first echo
        return None
    if log['hit']:
        # bytes after a damaged one may not be shown; what is shown must be right
        if not (want.startswith(out) or out == b''):
            return f'{name}: with a byte of the stream damaged at {s["damage"]} the client shows {out[-200:]!r}'
        if rc == 0 and out != want:
            return f'{name}: with a byte damaged the client ends with success but shows {out[-200:]!r}'
        # what the client has read is authenticated, except for surplus at the end
        if rc == 0 and lines:
            return f'{name}: a byte damaged at {s["damage"]} went unnoticed'
        return None
    if rc != 0:
        return f'{name}: exit status {rc}: {err[-300:]!r}'
    if out != want:
        return f'{name}: output {out[-300:]!r}, expected {want[-300:]!r}'


def judge_hostile(s, w, sb):
    p, port = w.servers[sb, False]
    data = bytes.fromhex(s['data'])
    c = socket.create_connection(('127.0.0.1', port))
    c.settimeout(60)
    got = b''
    try:
        try:
            if s['cut']:
                for i in range(0, min(len(data), 600), s['cut']):
                    c.sendall(data[i:i + s['cut']])
                c.sendall(data[min(len(data), 600):] if len(data) > 600 else b'')
            else:
                c.sendall(data)
            c.shutdown(socket.SHUT_WR)
        except OSError:
            pass
        while True:
            try:
                b = c.recv(65536)
            except socket.timeout:
                return 'the server does not close the connection of a client that stopped sending'
            except OSError:
                break
            if not b:
                break
            got += b
    finally:
        c.close()
    # random data can at most draw one handshake message out of the server
    n = 0
    i = 0
    while i + 2 <= len(got):
        i += 2 + int.from_bytes(got[i:i + 2], 'big')
        n += 1
    if n > 1 or i != len(got):
        return f'the server answers {len(got)} bytes in {n} packets to junk'


def judge_reader(s, w, cb, sb):
    r = random.Random(s['x'])
    dh, form = s['dh'], s['form']
    k, pub = w.keys['server', dh]
    b64 = base64.b64encode(pub)
    d = tempfile.mkdtemp(prefix='reader')
    try:
        priv = w.keys['client', dh][0]
        i = r.randrange(1, len(b64) - 2)
        ok = form in ('plain', 'newline', 'leading', 'inner', 'crlf', 'wrap', 'nopad', 'keygen')
        t = {'plain': b64, 'newline': b64 + b'\n', 'leading': r.choice([b' ', b'\n', b'\t', b'\r\n']) + b64, 'inner': b64[:i] + r.choice([b' ', b'\t\t', b'\n']) + b64[i:],
             'crlf': b64 + b'\r\n', 'wrap': b'\n'.join(b64[j:j + 20] for j in range(0, len(b64), 20)) + b'\n', 'nopad': b64.rstrip(b'='),
             'short': base64.b64encode(pub[:-1 - r.randrange(10)]), 'long': base64.b64encode(pub + b'x' * r.choice([1, 2, 3, 30])),
             'badchar': b64[:i] + bytes([r.choice(b'!-_.,:;?*#\x80\xff\x7f\x01')]) + b64[i + 1:], 'empty': b'', 'binary': b'\x01' + pub}.get(form, b64)
        if form == 'privshort':
            priv = priv[:-1 - r.randrange(10)]
        if form == 'privlong':
            priv += b'\n' * r.choice([1, 2, 32])
        if form == 'privempty':
            priv = b''
        if form != 'missing':
            with open(f'{d}/pub', 'wb') as f:
                f.write(t)
        if form != 'privmissing':
            with open(f'{d}/priv', 'wb') as f:
                f.write(priv)
        if form == 'keygen':
            rc, out, err = client(w.exes[cb]['echo-keygen'], [dh, f'{d}/gpriv', f'{d}/gpub'], b'', d)
            m = crashed(rc, err)
            if m or rc:
                return f'echo-keygen: {m or rc} {err[-200:]!r}'
            with open(f'{d}/gpriv', 'rb') as f:
                a = f.read()
            with open(f'{d}/gpub', 'rb') as f:
                b = f.read()
            if len(a) != KLEN[dh] or b.strip() != base64.b64encode(R.PRIV[dh][2](a)):
                return f'echo-keygen {dh}: the files are {a.hex()} and {b!r}'
            for bad in ([dh, f'{d}/nodir/x', f'{d}/y'], ['Bogus', f'{d}/x', f'{d}/y'], [dh, f'{d}/x', f'{d}/nodir/y'], [dh, f'{d}/x']):
                rc, out, err = client(w.exes[cb]['echo-keygen'], bad, b'', d)
                if crashed(rc, err) or rc != 1 or os.path.exists(f'{d}/x') or os.path.exists(f'{d}/y'):
                    return f'echo-keygen {bad}: status {rc}, files {os.listdir(d)}'
        p, port = w.servers[sb, False]
        pat = r.choice(['XK', 'IK', 'KK'])
        rc, out, err = client(w.exes[cb]['echo-client'], ['-c', f'{d}/priv', '-s', f'{d}/pub', f'Noise_{pat}_{dh}_AESGCM_SHA256', '127.0.0.1', str(port)], b'hello\n', d)
        m = crashed(rc, err)
        if m:
            return m
        if ok and (rc != 0 or b'Received: hello\n' not in out):
            m = f'a {form} key file is not accepted: {err[-300:]!r}'
            # the recorded finding: whitespace counts as a digit, so the key seems too long
            if form in ('leading', 'inner', 'wrap') and rc == 1 and b'public key value is too long' in err:
                return m, 'key-file-whitespace'
            return m
        if not ok and (rc != 1 or b'Received' in out or not err.strip()):
            return f'a {form} key file is accepted (status {rc})'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(s, w, cb, sb):
    import driver
    m = judge_one(s, w, cb, sb)
    if isinstance(m, tuple):
        return None if ('C30', m[1]) in [f[:2] for f in driver.known_findings()] else m[0]
    return m


def judge_one(s, w, cb, sb):
    if s['kind'] == 'session':
        return judge_session(s, w, cb, sb)
    if s['kind'] == 'hostile':
        return judge_hostile(s, w, sb)
    return judge_reader(s, w, cb, sb)


def shrink(s, w, cb, sb, what):
    end = time.time() + 60
    if s['kind'] == 'hostile':
        for n in (5, 7, 39, 200):
            c = dict(s, data=s['data'][:2 * n], cut=None)
            m = judge(c, w, cb, sb)
            if m:
                return c, m
    if s['kind'] != 'session':
        return s, what
    again = True
    while again and time.time() < end:
        again = False
        tries = [dict(s, **{k: v}) for k, v in (('padding', False), ('fixed', False), ('verbose', False), ('extra', False), ('cut', None), ('psk', False), ('hybrid', None), ('pattern', 'NN'),
                                                ('dh', '25519'), ('cipher', 'ChaChaPoly'), ('hash', 'BLAKE2s'), ('damage', None), ('wrong', None)) if s[k] != v]
        tries += [dict(s, lines=s['lines'][:i] + s['lines'][i + 1:]) for i in range(len(s['lines']))]
        tries += [dict(s, lines=s['lines'][:i] + [s['lines'][i][:len(s['lines'][i]) // 4 * 2 - 2] + '0a'] + s['lines'][i + 1:]) for i in range(len(s['lines'])) if len(s['lines'][i]) > 8]
        for c in tries:
            if time.time() > end:
                break
            m = judge(c, w, cb, sb)
            if m:
                s, what, again = c, m, True
                break
    return s, what


def label(s):
    if s['kind'] == 'session':
        return ['session: ' + ('damaged' if s['damage'] else 'wrong ' + s['wrong'] if s['wrong'] else 'good'), f"pattern {s['pattern']}{'hfs' if s['hybrid'] else ''}"] + (['padding'] if s['padding'] else [])
    return [s['kind'] + (': ' + s['form'] if s['kind'] == 'reader' else '')]


def check(prop, tier, res):
    import driver
    quick = tier == 'quick'
    with B.Lock():
        B.prune()
        exes = {b: tools(b) for b in B.BACKENDS}
    t = float(os.environ.get('VERIF_TIME', 20 if quick else 400))
    pool = ThreadPoolExecutor(8)
    w = World(str(driver.seed()), exes)
    seen, failed = set(), []
    try:
        for b in B.BACKENDS:
            w.start(b)
        end = time.time() + t

        def one(k):
            if failed or (time.time() > end and k >= 100):
                return None
            r = random.Random(f'{driver.seed()}/{k}')
            s, cb, sb = gen(r), r.choice(B.BACKENDS), r.choice(B.BACKENDS)
            m = judge(s, w, cb, sb)
            if m:
                if not all(judge(s, w, cb, sb) for _ in range(2)):
                    sys.stderr.write(f'{prop}: not reproducible, ignored: {m}\n')
                    m = None
                else:
                    failed.append(k)
            return s, cb, sb, m
        k = 0
        while True:
            for x in list(pool.map(one, range(k, k + 200))):
                if x is None:
                    continue
                s, cb, sb, m = x
                res.evaluations += 1
                if s['kind'] != 'session' or s['lines'] or s['damage'] or s['wrong']:
                    res.nontrivial += 1
                    seen.add(json.dumps([s, cb, sb], sort_keys=True))
                for l in label(s):
                    res.labels[l] = res.labels.get(l, 0) + 1
                key = f'{cb} client, {sb} server'
                res.per_target[key] = res.per_target.get(key, 0) + 1
                if len(res.samples) < 8:
                    res.samples.append(f'[{key}] ' + json.dumps(s)[:400])
                if m and not res.violations:
                    s, m = shrink(s, w, cb, sb, m)
                    res.violations.append(save(prop, driver.REPLAYS, cb, sb, s, m))
            k += 200
            m = w.trouble()
            if m and not res.violations:
                res.violations.append(find_trouble(prop, driver, w, exes, k, m))
            if res.violations or time.time() > end:
                break
    finally:
        w.close()
        pool.shutdown()
    res.distinct = len(seen)
    res.rule(RULE)


def find_trouble(prop, driver, w, exes, n, what):
    """which scenario makes a server report an error: each alone"""
    end = time.time() + 120
    for k in range(n):
        if time.time() > end:
            break
        r = random.Random(f'{driver.seed()}/{k}')
        s, cb, sb = gen(r), r.choice(B.BACKENDS), r.choice(B.BACKENDS)
        if s['kind'] == 'reader' or sb not in what:
            continue
        w2 = World(str(driver.seed()), exes)
        try:
            w2.start(sb)
            judge(s, w2, cb, sb)
            time.sleep(.1)
            m = w2.trouble()
        finally:
            w2.close()
        if m:
            return save(prop, driver.REPLAYS, cb, sb, s, m)
    return save(prop, driver.REPLAYS, 'ref', 'ref', dict(kind='all', n=n), what)


def save(prop, replays, cb, sb, s, what):
    import driver
    text = f'kind: python\nmodule: echo\nproperty: {prop}\nbackend: {sb}\nclient: {cb}\nseed: {driver.seed()}\n# {what}\nscenario: {json.dumps(s, sort_keys=True)}\n'
    print(f'  [{cb} client, {sb} server] {what}'[:1500])
    name = f'{replays}/{prop}-{hashlib.sha256(text.encode()).hexdigest()[:12]}.txt'
    os.makedirs(replays, exist_ok=True)
    with open(name, 'w') as f:
        f.write(text)
    return f'VIOLATION property={prop} replay={name}'


def replay(path):
    text = open(path, errors='replace').read()
    get = lambda k: re.search(rf'^{k}: (.*)', text, re.M).group(1)
    s = json.loads(get('scenario'))
    with B.Lock():
        exes = {b: tools(b) for b in B.BACKENDS}
    w = World(get('seed'), exes)
    try:
        for b in B.BACKENDS:
            w.start(b)
        if s['kind'] == 'all':
            m = None
            for k in range(s['n']):
                r = random.Random(f"{get('seed')}/{k}")
                judge(gen(r), w, r.choice(B.BACKENDS), r.choice(B.BACKENDS))
        else:
            m = judge(s, w, get('client'), get('backend'))
        time.sleep(.2)
        m = m or w.trouble()
    finally:
        w.close()
    print(m or 'replay passes')
    return 1 if m else 0
