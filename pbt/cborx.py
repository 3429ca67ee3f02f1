"""Independent CBOR codec (RFC 8949 subset) used as oracle and generator back end.

encode(value, choices): `choices` is an iterator of small ints selecting, at every item, one of the
valid encodings (minimal or wider length fields, definite or indefinite length).  With no choices
the encoding is minimal and definite.
"""
import struct


class Undefined:
    def __repr__(self):
        return 'Undefined'


UNDEFINED = Undefined()


class Tag:
    def __init__(self, tag, value):
        self.tag, self.value = tag, value

    def __repr__(self):
        return 'Tag(%r, %r)' % (self.tag, self.value)


class Raw:
    """Bytes spliced verbatim into the encoding."""

    def __init__(self, data):
        self.data = data

    def __repr__(self):
        return 'Raw(%r)' % (self.data, )


class Pairs:
    """A map given as a list of pairs (order kept, duplicates possible)."""

    def __init__(self, items):
        self.items_ = list(items)

    def __repr__(self):
        return 'Pairs(%r)' % (self.items_, )


def _head(major, n, wide):
    m = major << 5
    forms = []
    if n < 24:
        forms.append(bytes([m | n]))
    if n < 1 << 8:
        forms.append(bytes([m | 24, n]))
    if n < 1 << 16:
        forms.append(bytes([m | 25]) + struct.pack('>H', n))
    if n < 1 << 32:
        forms.append(bytes([m | 26]) + struct.pack('>I', n))
    forms.append(bytes([m | 27]) + struct.pack('>Q', n))
    return forms[min(wide, len(forms) - 1)]


def encode(v, choices=None):
    it = iter(choices) if choices is not None else iter(())
    return _enc(v, it)


def _enc(v, it):
    c = next(it, 0)
    # 0..5 minimal, 6..9 wider head, 10 indefinite
    wide = c - 5 if 6 <= c <= 9 else 0
    indef = c == 10
    if isinstance(v, Raw):
        return v.data
    if v is None:
        return b'\xf6'
    if v is UNDEFINED:
        return b'\xf7'
    if v is True:
        return b'\xf5'
    if v is False:
        return b'\xf4'
    if isinstance(v, int):
        if 0 <= v < 1 << 64:
            return _head(0, v, wide)
        if -(1 << 64) <= v < 0:
            return _head(1, -1 - v, wide)
        n = v if v > 0 else -1 - v
        b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
        return bytes([0xc2 if v > 0 else 0xc3]) + _head(2, len(b), 0) + b
    if isinstance(v, float):
        return b'\xfb' + struct.pack('>d', v)
    if isinstance(v, (bytes, str)):
        major = 2 if isinstance(v, bytes) else 3
        if indef:
            k = len(v) // 2
            parts = [v[:k], v[k:]]
            out = bytes([major << 5 | 31])
            for p in parts:
                raw = p if major == 2 else p.encode('utf-8')
                out += _head(major, len(raw), 0) + raw
            return out + b'\xff'
        raw = v if major == 2 else v.encode('utf-8')
        return _head(major, len(raw), wide) + raw
    if isinstance(v, (list, tuple)):
        body = b''.join(_enc(x, it) for x in v)
        if indef:
            return b'\x9f' + body + b'\xff'
        return _head(4, len(v), wide) + body
    if isinstance(v, (dict, Pairs)):
        items = v.items_ if isinstance(v, Pairs) else list(v.items())
        body = b''.join(_enc(k, it) + _enc(x, it) for k, x in items)
        if indef:
            return b'\xbf' + body + b'\xff'
        return _head(5, len(items), wide) + body
    if isinstance(v, Tag):
        return _head(6, v.tag, 0) + _enc(v.value, it)
    raise TypeError('cannot encode %r' % (v, ))


class DecodeError(Exception):
    pass


def decode(b):
    """Decode one item; raise DecodeError unless it spans all of `b`."""
    v, i = _dec(b, 0)
    if i != len(b):
        raise DecodeError('trailing bytes')
    return v


def _arg(b, i, info):
    if info < 24:
        return info, i
    if info > 27:
        raise DecodeError('unsupported length')
    w = 1 << (info - 24)
    if i + w > len(b):
        raise DecodeError('eof')
    return int.from_bytes(b[i:i + w], 'big'), i + w


def _dec(b, i):
    if i >= len(b):
        raise DecodeError('eof')
    major, info = b[i] >> 5, b[i] & 31
    i += 1
    if major == 7:
        if info == 20:
            return False, i
        if info == 21:
            return True, i
        if info == 22:
            return None, i
        raise DecodeError('simple %d' % info)
    n, i = _arg(b, i, info)
    if major == 0:
        return n, i
    if major == 1:
        return -1 - n, i
    if major in (2, 3):
        if i + n > len(b):
            raise DecodeError('eof')
        raw = b[i:i + n]
        return (raw if major == 2 else raw.decode('utf-8')), i + n
    if major == 4:
        out = []
        for _ in range(n):
            x, i = _dec(b, i)
            out.append(x)
        return out, i
    if major == 5:
        d = {}
        for _ in range(n):
            k, i = _dec(b, i)
            x, i = _dec(b, i)
            if k in d:
                raise DecodeError('duplicate key')
            d[k] = x
        return d, i
    raise DecodeError('major %d' % major)
