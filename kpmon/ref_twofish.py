"""Independent Twofish (256-bit keys), written from the specification (MDS/RS matrices over GF(2^8), q permutations)."""
import struct

_T0 = ([0x8,0x1,0x7,0xD,0x6,0xF,0x3,0x2,0x0,0xB,0x5,0x9,0xE,0xC,0xA,0x4],
       [0xE,0xC,0xB,0x8,0x1,0x2,0x3,0x5,0xF,0x4,0xA,0x6,0x7,0x0,0x9,0xD],
       [0xB,0xA,0x5,0xE,0x6,0xD,0x9,0x0,0xC,0x8,0xF,0x3,0x2,0x4,0x7,0x1],
       [0xD,0x7,0xF,0x4,0x1,0x2,0x6,0xE,0x9,0xB,0x3,0x0,0x8,0x5,0xC,0xA])
_T1 = ([0x2,0x8,0xB,0xD,0xF,0x7,0x6,0xE,0x3,0x1,0x9,0x4,0x0,0xA,0xC,0x5],
       [0x1,0xE,0x2,0xB,0x4,0xC,0x3,0x7,0x6,0xD,0xA,0x5,0xF,0x9,0x0,0x8],
       [0x4,0xC,0x7,0x5,0x1,0x6,0x9,0xA,0x0,0xE,0xD,0x8,0x2,0xB,0x3,0xF],
       [0xB,0x9,0x5,0x1,0xC,0x3,0xD,0xE,0x6,0x4,0x7,0xF,0x2,0x0,0x8,0xA])

def _mkq(t):
    def ror4(x): return ((x >> 1) | (x << 3)) & 15
    out = []
    for x in range(256):
        a, b = x >> 4, x & 15
        a, b = a ^ b, (a ^ ror4(b) ^ (8 * a)) & 15
        a, b = t[0][a], t[1][b]
        a, b = a ^ b, (a ^ ror4(b) ^ (8 * a)) & 15
        a, b = t[2][a], t[3][b]
        out.append(16 * b + a)
    return out

Q0, Q1 = _mkq(_T0), _mkq(_T1)

def _gmul(a, b, poly):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= poly
        b >>= 1
    return r

_MDS = [[0x01,0xEF,0x5B,0x5B],[0x5B,0xEF,0xEF,0x01],[0xEF,0x5B,0x01,0xEF],[0xEF,0x01,0xEF,0x5B]]
_RS = [[0x01,0xA4,0x55,0x87,0x5A,0x58,0xDB,0x9E],[0xA4,0x56,0x82,0xF3,0x1E,0xC6,0x68,0xE5],
       [0x02,0xA1,0xFC,0xC1,0x47,0xAE,0x3D,0x19],[0xA4,0x55,0x87,0x5A,0x58,0xDB,0x9E,0x03]]
# column tables of the MDS product
_MT = [[sum(_gmul(v, _MDS[r][c], 0x169) << (8 * r) for r in range(4)) for v in range(256)] for c in range(4)]
_QORD = [(Q1, Q0, Q0, Q1), (Q1, Q1, Q0, Q0), (Q0, Q1, Q0, Q1), (Q0, Q0, Q1, Q1), (Q1, Q0, Q1, Q0)]

def _h(x, L):
    y = [(x >> (8 * i)) & 255 for i in range(4)]
    for rnd, q in enumerate(_QORD):       # q order for k=4: rounds 0..3 xor L[3..0], last q then MDS
        y = [q[i][y[i]] for i in range(4)]
        if rnd < 4:
            w = L[3 - rnd]
            y = [y[i] ^ ((w >> (8 * i)) & 255) for i in range(4)]
    return _MT[0][y[0]] ^ _MT[1][y[1]] ^ _MT[2][y[2]] ^ _MT[3][y[3]]

M32 = 0xFFFFFFFF
def _rol(x, n): return ((x << n) | (x >> (32 - n))) & M32

class RefTwofish:
    def __init__(self, key):
        assert len(key) == 32
        w = struct.unpack('<8I', key)
        Me, Mo = w[0::2], w[1::2]
        S = []
        for i in range(4):
            m = key[8 * i:8 * i + 8]
            v = 0
            for r in range(4):
                b = 0
                for c in range(8):
                    b ^= _gmul(m[c], _RS[r][c], 0x14D)
                v |= b << (8 * r)
            S.append(v)
        S = S[::-1]
        rho = 0x01010101
        K = []
        for i in range(20):
            a = _h((2 * i * rho) & M32, Me)
            b = _rol(_h(((2 * i + 1) * rho) & M32, Mo), 8)
            K += [(a + b) & M32, _rol((a + 2 * b) & M32, 9)]
        self.K = K
        # g as four byte tables
        tabs = []
        for i in range(4):
            t = []
            for x in range(256):
                y = x
                for rnd, q in enumerate(_QORD):
                    y = q[i][y]
                    if rnd < 4:
                        y ^= (S[3 - rnd] >> (8 * i)) & 255
                t.append(_MT[i][y])
            tabs.append(t)
        self.tabs = tabs

    def _g(self, x):
        a, b, c, d = self.tabs
        return a[x & 255] ^ b[(x >> 8) & 255] ^ c[(x >> 16) & 255] ^ d[x >> 24]

    def enc(self, blk):
        K, g = self.K, self._g
        r0, r1, r2, r3 = (x ^ k for x, k in zip(struct.unpack('<4I', blk), K[:4]))
        for r in range(16):
            t0, t1 = g(r0), g(_rol(r1, 8))
            f0 = (t0 + t1 + K[2 * r + 8]) & M32
            f1 = (t0 + 2 * t1 + K[2 * r + 9]) & M32
            r2 = _rol(r2 ^ f0, 31)
            r3 = _rol(r3, 1) ^ f1
            r0, r1, r2, r3 = r2, r3, r0, r1
        r0, r1, r2, r3 = r2, r3, r0, r1
        return struct.pack('<4I', r0 ^ K[4], r1 ^ K[5], r2 ^ K[6], r3 ^ K[7])

    def dec(self, blk):
        K, g = self.K, self._g
        r0, r1, r2, r3 = (x ^ k for x, k in zip(struct.unpack('<4I', blk), K[4:8]))
        r0, r1, r2, r3 = r2, r3, r0, r1
        for r in range(15, -1, -1):
            r0, r1, r2, r3 = r2, r3, r0, r1
            t0, t1 = g(r0), g(_rol(r1, 8))
            f0 = (t0 + t1 + K[2 * r + 8]) & M32
            f1 = (t0 + 2 * t1 + K[2 * r + 9]) & M32
            r2 = _rol(r2, 1) ^ f0
            r3 = _rol(r3 ^ f1, 31)
        return struct.pack('<4I', r0 ^ K[0], r1 ^ K[1], r2 ^ K[2], r3 ^ K[3])

def _xor(a, b):
    return (int.from_bytes(a, 'big') ^ int.from_bytes(b, 'big')).to_bytes(16, 'big')

def cbc_encrypt(key, iv, data):
    c = RefTwofish(key)
    out = []
    for i in range(0, len(data), 16):
        iv = c.enc(_xor(data[i:i + 16], iv))
        out.append(iv)
    return b''.join(out)

def cbc_decrypt(key, iv, data):
    c = RefTwofish(key)
    out = []
    for i in range(0, len(data), 16):
        b = data[i:i + 16]
        out.append(_xor(c.dec(b), iv))
        iv = b
    return b''.join(out)

# known answer tests (Twofish paper, and the iterated test for 256-bit keys)
def selftest():
    key = bytes.fromhex('0123456789ABCDEFFEDCBA987654321000112233445566778899AABBCCDDEEFF')
    c = RefTwofish(key)
    ct = bytes.fromhex('37527BE0052334B89F0CFCCAE87CFA20')
    assert c.enc(bytes(16)) == ct and c.dec(ct) == bytes(16)
    key = bytes.fromhex('D43BB7556EA32E46F2A282B7D45B4E0D57FF739D4DC92C1BD7FC01700CC8216F')
    assert RefTwofish(key).enc(bytes.fromhex('90AFE91BB288544F2C32DC239B2635E6')).hex() == '6cb4561c40bf0a9705931cb6d408e7fa'
