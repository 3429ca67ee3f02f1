"""Minimal DER writer, used to build certificates and Android key descriptions independently."""


def length(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([0x80 | len(b)]) + b


def tlv(tag, body):
    t = tag if isinstance(tag, bytes) else bytes([tag])
    return t + length(len(body)) + body


def integer(n, tag=2):
    k = 1
    while not -(1 << (8 * k - 1)) <= n < 1 << (8 * k - 1):
        k += 1
    return tlv(tag, n.to_bytes(k, 'big', signed=True))


def enumerated(n):
    return integer(n, 10)


def boolean(v):
    return tlv(1, b'\xff' if v else b'\x00')


def null():
    return b'\x05\x00'


def octets(b):
    return tlv(4, b)


def bits(b):
    return tlv(3, b'\x00' + b)


def seq(*parts):
    return tlv(0x30, b''.join(parts))


def set_of(parts):
    return tlv(0x31, b''.join(sorted(parts)))


def utf8(s):
    return tlv(12, s.encode('utf-8'))


def utctime(s):
    return tlv(23, s.encode('ascii'))


def gentime(s):
    return tlv(24, s.encode('ascii'))


def ctx(n, body):
    """Explicit context tag [n] (constructed)."""
    if n < 31:
        return tlv(0xa0 | n, body)
    out = [n & 0x7f]
    n >>= 7
    while n:
        out.append(0x80 | n & 0x7f)
        n >>= 7
    return tlv(b'\xbf' + bytes(reversed(out)), body)


def oid(dotted):
    a = [int(x) for x in dotted.split('.')]
    vals = [a[0] * 40 + a[1]] + a[2:]
    body = b''
    for v in vals:
        o = [v & 0x7f]
        v >>= 7
        while v:
            o.append(0x80 | v & 0x7f)
            v >>= 7
        body += bytes(reversed(o))
    return tlv(6, body)
