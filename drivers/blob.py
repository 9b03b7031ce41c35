"""An embedded schema, written from the documented binary format (not with the library): magic, lengths,
BLAKE3 of the text, and an LZ4 block that holds it as literals."""
import struct
IV = (0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19)
PERM = (2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8)
M = 0xFFFFFFFF

def compress(cv, block, counter, n, flags):
    s = list(cv) + list(IV[:4]) + [counter & M, counter >> 32, n, flags]
    m = list(struct.unpack("<16I", block.ljust(64, b"\0")))
    def g(a, b, c, d, x, y):
        for k, (r1, r2) in ((x, (16, 12)), (y, (8, 7))):
            s[a] = (s[a] + s[b] + k) & M
            v = s[d] ^ s[a]
            s[d] = (v >> r1 | v << (32 - r1)) & M
            s[c] = (s[c] + s[d]) & M
            v = s[b] ^ s[c]
            s[b] = (v >> r2 | v << (32 - r2)) & M
    for r in range(7):
        for i, (a, b, c, d) in enumerate(((0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14))):
            g(a, b, c, d, m[2 * i], m[2 * i + 1])
        m = [m[p] for p in PERM]
    return [s[i] ^ s[i + 8] for i in range(8)]

def chunk(data, counter, last):
    cv = list(IV)
    blocks = [data[i:i + 64] for i in range(0, len(data), 64)] or [b""]
    for i, b in enumerate(blocks):
        f = (1 if i == 0 else 0) | (2 if i == len(blocks) - 1 else 0)
        end = i == len(blocks) - 1
        cv = compress(cv, b, counter, len(b), f | (8 if end and last else 0))
    return cv

def tree(data, counter, root):
    if len(data) <= 1024:
        return chunk(data, counter, root)
    n = (len(data) - 1) // 1024
    left = 1 << (n.bit_length() - 1)
    l = tree(data[:left * 1024], counter, False)
    r = tree(data[left * 1024:], counter + left, False)
    return compress(IV, struct.pack("<16I", *l, *r), 0, 64, 4 | (8 if root else 0))

def blake3(data):
    return struct.pack("<8I", *tree(data, 0, True))

def lz4(data):
    n = len(data)
    out = bytearray()
    if n < 15:
        out.append(n << 4)
    else:
        out.append(0xF0)
        n -= 15
        while n >= 255:
            out.append(255)
            n -= 255
        out.append(n)
    return struct.pack("<I", len(data)) + bytes(out) + data

def blob(text):
    d = text.encode()
    c = lz4(d)
    return b"STYX_SCHEMA_V2\0\0" + struct.pack("<II", len(d), len(c)) + blake3(d) + c
