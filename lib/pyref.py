"""Small reference implementations in Python, written from the RFCs, used by
the checks that drive the command line programs."""
import hashlib, struct


# ------------------------------------------------------------- curves
def x_ladder(k, u, p, bits, a24):
    x1, x2, z2, x3, z3, swap = u, 1, 0, u, 1, 0
    for t in range(bits - 1, -1, -1):
        kt = (k >> t) & 1
        if swap ^ kt:
            x2, x3, z2, z3 = x3, x2, z3, z2
        swap = kt
        A = (x2 + z2) % p
        AA = A * A % p
        Bv = (x2 - z2) % p
        BB = Bv * Bv % p
        E = (AA - BB) % p
        C = (x3 + z3) % p
        D = (x3 - z3) % p
        DA = D * A % p
        CB = C * Bv % p
        x3 = (DA + CB) ** 2 % p
        z3 = x1 * (DA - CB) ** 2 % p
        x2 = AA * BB % p
        z2 = E * (AA + a24 * E) % p
    if swap:
        x2, z2 = x3, z3
    return x2 * pow(z2, p - 2, p) % p


def x25519(k, u=None):
    k = bytearray(k)
    k[0] &= 248
    k[31] = k[31] & 127 | 64
    u = 9 if u is None else int.from_bytes(u, 'little') & ((1 << 255) - 1)
    p = 2 ** 255 - 19
    return x_ladder(int.from_bytes(k, 'little'), u % p, p, 255, 121665).to_bytes(32, 'little')


def x448(k, u=None):
    k = bytearray(k)
    k[0] &= 252
    k[55] |= 128
    p = 2 ** 448 - 2 ** 224 - 1
    u = 5 if u is None else int.from_bytes(u, 'little')
    return x_ladder(int.from_bytes(k, 'little'), u % p, p, 448, 39081).to_bytes(56, 'little')


P = 2 ** 255 - 19
D = -121665 * pow(121666, P - 2, P) % P


def ed_add(a, b):
    A = (a[1] - a[0]) * (b[1] - b[0]) % P
    B = (a[1] + a[0]) * (b[1] + b[0]) % P
    C = 2 * a[3] * b[3] * D % P
    Dd = 2 * a[2] * b[2] % P
    E, F, G, H = B - A, Dd - C, Dd + C, B + A
    return E * F % P, G * H % P, F * G % P, E * H % P


def ed25519_public(seed):
    h = bytearray(hashlib.sha512(seed).digest()[:32])
    h[0] &= 248
    h[31] = h[31] & 127 | 64
    s = int.from_bytes(h, 'little')
    gy = 4 * pow(5, P - 2, P) % P
    x2 = (gy * gy - 1) * pow(D * gy * gy + 1, P - 2, P) % P
    gx = pow(x2, (P + 3) // 8, P)
    if (gx * gx - x2) % P:
        gx = gx * pow(2, (P - 1) // 4, P) % P
    if gx & 1:
        gx = P - gx
    q, b = (0, 1, 1, 0), (gx, gy, 1, gx * gy % P)
    while s:
        if s & 1:
            q = ed_add(q, b)
        b = ed_add(b, b)
        s >>= 1
    zi = pow(q[2], P - 2, P)
    return ((q[1] * zi % P) | ((q[0] * zi % P & 1) << 255)).to_bytes(32, 'little')


PRIV = {'25519': (32, 32, x25519), '448': (56, 56, x448), 'Ed25519': (32, 32, ed25519_public)}


# ------------------------------------------------------------- ciphers
def chacha_block(key, nonce, ctr):
    s = list(struct.unpack('<4I', b'expand 32-byte k') + struct.unpack('<8I', key)) + [ctr & 0xffffffff] + list(struct.unpack('<3I', nonce))
    w = s[:]

    def q(a, b, c, d):
        w[a] = (w[a] + w[b]) & 0xffffffff
        w[d] ^= w[a]
        w[d] = ((w[d] << 16) | (w[d] >> 16)) & 0xffffffff
        w[c] = (w[c] + w[d]) & 0xffffffff
        w[b] ^= w[c]
        w[b] = ((w[b] << 12) | (w[b] >> 20)) & 0xffffffff
        w[a] = (w[a] + w[b]) & 0xffffffff
        w[d] ^= w[a]
        w[d] = ((w[d] << 8) | (w[d] >> 24)) & 0xffffffff
        w[c] = (w[c] + w[d]) & 0xffffffff
        w[b] ^= w[c]
        w[b] = ((w[b] << 7) | (w[b] >> 25)) & 0xffffffff
    for _ in range(10):
        q(0, 4, 8, 12); q(1, 5, 9, 13); q(2, 6, 10, 14); q(3, 7, 11, 15)
        q(0, 5, 10, 15); q(1, 6, 11, 12); q(2, 7, 8, 13); q(3, 4, 9, 14)
    return struct.pack('<16I', *[(a + b) & 0xffffffff for a, b in zip(w, s)])


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def chacha_stream(key, nonce, data):
    return b''.join(xor(data[i:i + 64], chacha_block(key, nonce, 1 + i // 64)) for i in range(0, len(data), 64))


def chachapoly_tag(key, nonce, ct):
    k = chacha_block(key, nonce, 0)[:32]
    r = int.from_bytes(k[:16], 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff
    m = ct + b'\0' * (-len(ct) % 16) + struct.pack('<QQ', 0, len(ct))
    a, p = 0, 2 ** 130 - 5
    for i in range(0, len(m), 16):
        a = (a + int.from_bytes(m[i:i + 16] + b'\1', 'little')) * r % p
    return ((a + int.from_bytes(k[16:], 'little')) & (2 ** 128 - 1)).to_bytes(16, 'little')


SBOX = None


def aes_tables():
    global SBOX
    p = q = 1
    t = [0] * 256
    while True:
        p = p ^ (p << 1) & 0xff ^ (0x1b if p & 0x80 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xff
        if q & 0x80:
            q ^= 0x09
        x = q ^ ((q << 1 | q >> 7) & 0xff) ^ ((q << 2 | q >> 6) & 0xff) ^ ((q << 3 | q >> 5) & 0xff) ^ ((q << 4 | q >> 4) & 0xff)
        t[p] = x ^ 0x63
        if p == 1:
            break
    t[0] = 0x63
    SBOX = t


def aes256(key):
    if SBOX is None:
        aes_tables()
    w = [list(key[i:i + 4]) for i in range(0, 32, 4)]
    rc = 1
    for i in range(8, 60):
        t = w[-1]
        if i % 8 == 0:
            t = [SBOX[x] for x in t[1:] + t[:1]]
            t[0] ^= rc
            rc <<= 1
        elif i % 8 == 4:
            t = [SBOX[x] for x in t]
        w.append([a ^ b for a, b in zip(w[-8], t)])
    rk = [sum(w[i:i + 4], []) for i in range(0, 60, 4)]

    def enc(b):
        s = [x ^ y for x, y in zip(b, rk[0])]
        for r in range(1, 15):
            s = [SBOX[s[(i + 4 * (i % 4)) % 16]] for i in range(16)]
            if r < 14:
                o = []
                for c in range(0, 16, 4):
                    a = s[c:c + 4]
                    x = [(v << 1) ^ (0x11b if v & 0x80 else 0) for v in a]
                    for i in range(4):
                        o.append(x[i] ^ x[(i + 1) % 4] ^ a[(i + 1) % 4] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4])
                s = o
            s = [x ^ y for x, y in zip(s, rk[r])]
        return bytes(s)
    return enc


def gmul(x, y):
    z = 0
    for i in range(127, -1, -1):
        if (y >> i) & 1:
            z ^= x
        x = (x >> 1) ^ (0xe1 << 120 if x & 1 else 0)
    return z


def gcm(key, nonce, data, encrypt):
    e = aes256(key)
    h = int.from_bytes(e(bytes(16)), 'big')
    out = b''.join(xor(data[i:i + 16], e(nonce + struct.pack('>I', 2 + i // 16))) for i in range(0, len(data), 16))
    ct = out if encrypt else data
    m = ct + b'\0' * (-len(ct) % 16) + struct.pack('>QQ', 0, len(ct) * 8)
    y = 0
    for i in range(0, len(m), 16):
        y = gmul(y ^ int.from_bytes(m[i:i + 16], 'big'), h)
    return out, xor(y.to_bytes(16, 'big'), e(nonce + b'\0\0\0\1'))


def aead_encrypt(name, key, n, pt):
    if name == 'ChaChaPoly':
        no = struct.pack('<IQ', 0, n)
        ct = chacha_stream(key, no, pt)
        return ct + chachapoly_tag(key, no, ct)
    ct, tag = gcm(key, struct.pack('>IQ', 0, n), pt, True)
    return ct + tag


def aead_decrypt(name, key, n, data):
    """the plaintext, or None"""
    if len(data) < 16:
        return None
    ct, tag = data[:-16], data[-16:]
    if name == 'ChaChaPoly':
        no = struct.pack('<IQ', 0, n)
        return chacha_stream(key, no, ct) if chachapoly_tag(key, no, ct) == tag else None
    pt, t = gcm(key, struct.pack('>IQ', 0, n), ct, False)
    return pt if t == tag else None


HASHES = {'SHA256': 'sha256', 'SHA512': 'sha512', 'BLAKE2s': 'blake2s256', 'BLAKE2b': 'blake2b512'}


def pbkdf2(h, pw, salt, it, n):
    try:
        return hashlib.pbkdf2_hmac(HASHES[h], pw, salt, it, n)
    except ValueError:
        return hashlib.pbkdf2_hmac(HASHES[h][:7], pw, salt, it, n)


# ------------------------------------------------------------- protobufs
def varint(v):
    o = b''
    while v > 127:
        o += bytes([v & 127 | 128])
        v >>= 7
    return o + bytes([v])


def num(tag, v):
    return varint(tag << 3) + varint(v)


def blob(tag, b):
    return varint(tag << 3 | 2) + varint(len(b)) + b


class Bad(Exception):
    pass


def fields(data):
    """[(tag, value)]: ints for varints, bytes for the rest"""
    out, i = [], 0

    def rd():
        nonlocal i
        v = s = 0
        while True:
            if i >= len(data):
                raise Bad()
            b = data[i]
            i += 1
            v |= (b & 127) << s
            s += 7
            if not b & 128:
                return v
            if s > 63:
                raise Bad()
    while i < len(data):
        k = rd()
        t, w = k >> 3, k & 7
        if w == 0:
            out.append((t, rd()))
            continue
        n = {1: 8, 5: 4}.get(w)
        if w == 2:
            n = rd()
        if n is None or i + n > len(data):
            raise Bad()
        out.append((t, data[i:i + n]))
        i += n
    return out


def one(f, tag, default=None):
    v = [x for t, x in f if t == tag]
    if len(v) > 1:
        raise Bad()
    return v[0] if v else default
