"""C19: signature verification accepts exactly the key holder's signatures."""
from pbt import curves, der, gen
from pbt.core import prop
from pbt.gen import the_key
from pbt.stx import st

RULE = """A case is a key (five curves, three hashes, identifiers by name or number), a message of 0 to 100 kB
and a signature: made by the key holder with an own ECDSA (or RFC 8032) signer under several nonces,
or altered: another message, key, hash or curve, flipped, cut or padded bytes, r or s replaced,
swapped, zeroed, negated or shifted by the group order, non-canonical or broken DER, S + L for
Ed25519. Verification must accept exactly the honest ones, identically for every spelling of the
identifiers. Non-trivial: every case; distinct by key, message and signature."""
ASSUMES = ['(r, n - s), a second valid signature of the same message, is not judged',
           'Ed25519 and Ed448 signing comes from the cryptography package']


@st.composite
def message(draw):
    k = draw(st.integers(0, 9))
    if k <= 6:
        return draw(gen.blob(0, 200))
    if k == 7:
        return b''
    n = draw(st.sampled_from([55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 1000, 4096, 65536, 100000]))
    return bytes([draw(st.integers(0, 255))]) * n


@st.composite
def case(draw):
    k = draw(gen.key_spec(extras=False))
    kind = draw(st.sampled_from(['good', 'good', 'good', 'dev', 'dev', 'der', 'rs', 'othercurve', 'ed',
                                 'tail']))
    c = {'k': k, 'm': draw(message()), 'kind': kind, 'nonce': draw(st.integers(0, 7)), 'dev': None}
    if kind == 'dev':
        c['dev'] = draw(gen.sig_deviation(['m']))
    elif kind == 'der':
        c['dev'] = draw(st.sampled_from(['long length', 'padded r', 'padded s', 'indefinite', 'trailing',
                                         'inner trailing', 'raw', 'set', 'one', 'three', 'octets', 'bits',
                                         'empty seq', 'short', 'tag', 'text', 'two', 'long inner']))
    elif kind == 'rs':
        c['dev'] = draw(st.sampled_from(['r0', 's0', 'rn', 'sn', 'r+n', 's+n', 'r-n', 's-n', '-r', '-s',
                                         'swap', 'r+1', 's+1', 'r1', 's1', 'rr', 'ss', 'n-r', 'huge', 'both0',
                                         'p-r']))
    elif kind == 'othercurve':
        c['dev'] = draw(st.sampled_from(['P-256', 'P-384', 'P-521', 'Ed25519', 'Ed448']))
    elif kind == 'tail':
        c['dev'] = draw(st.tuples(st.just('tail'), st.sampled_from([1, 8, 16, 32, 50, 57, 64, 96, 114]) | st.integers(1, 130),
                                  st.integers(0, 3), st.booleans()))
    elif kind == 'ed':
        c['dev'] = draw(st.sampled_from(['s+l', 'swap', 'trailing', 'short', 'zero s', 'zero r', 'double']))
    return c


L25519 = 2**252 + 27742317777372353535851937790883648493
L448 = 2**446 - 13818066809895115352007386748515426880336692474882178609894547503885


def craft(c):
    """(signature, valid)."""
    k, m, kind, dev = c['k'], c['m'], c['kind'], c['dev']
    key = the_key(k)
    good = key.sign(m, k['alg'], c['nonce'])
    if kind == 'good':
        return good, True
    if kind in ('dev', 'tail'):
        return gen.make_signature(key, k['alg'], [('m', m)], dev)
    if kind == 'othercurve':
        if dev == k['crv']:
            return good, True
        alg = k['alg'] if dev[0] == 'P' and key.ec else 'ES256' if dev[0] == 'P' else 'EdDSA'
        return curves.Key(dev, k['d'] % 50 + 1, alg).sign(m), False
    if kind == 'ed':
        if key.ec:
            return curves.Key('Ed25519', 1, 'EdDSA').sign(m), False
        n = len(good) // 2
        r, s = good[:n], good[n:]
        order = L25519 if k['crv'] == 'Ed25519' else L448
        si = int.from_bytes(s, 'little')
        if dev == 's+l':
            return r + (si + order).to_bytes(n, 'little'), False
        return {'swap': s + r, 'trailing': good + b'\x00', 'short': good[:-1], 'zero s': r + bytes(n),
                'zero r': bytes(n) + s, 'double': good + good}[dev], False
    if not key.ec:
        return (b'\x30' + good[1:] if good[0] != 0x30 else b'\x31' + good[1:]), False
    r, s = curves.ecdsa_rs(k['crv'], k['d'], m, k['alg'], c['nonce'])
    n, p = curves.CURVES[k['crv']].n, curves.CURVES[k['crv']].p
    if kind == 'rs':
        new = {'r0': (0, s), 's0': (r, 0), 'rn': (n, s), 'sn': (r, n), 'r+n': (r + n, s),
               's+n': (r, s + n), 'r-n': (r - n, s), 's-n': (r, s - n), '-r': (-r, s), '-s': (r, -s),
               'swap': (s, r), 'r+1': (r + 1, s), 's+1': (r, s + 1), 'r1': (1, s), 's1': (r, 1),
               'rr': (r, r), 'ss': (s, s), 'n-r': (n - r, s), 'huge': (r + (n << 600), s),
               'both0': (0, 0), 'p-r': (p - r, s)}[dev]
        ok = False
        if new not in ((r, s), ):
            ok = 0 < new[0] < n and 0 < new[1] < n and curves.ecdsa_check(
                k['crv'], curves.point(k['crv'], k['d']), new[0], new[1], m, k['alg'])
        return curves.sig_der(*new), ok
    R, S = der.integer(r), der.integer(s)
    body = R + S
    size = curves.CURVES[k['crv']].size

    def pad(x):
        b = x[2:] if x[1] < 128 else x[3:]
        return b'\x02' + der.length(len(b) + 1) + b'\x00' + b
    out = {
        'long length': b'\x30\x82' + len(body).to_bytes(2, 'big') + body,
        'long inner': der.seq(b'\x02\x81' + R[1:] if R[1] < 128 else R + b'\x00', S),
        'padded r': der.seq(pad(R), S), 'padded s': der.seq(R, pad(S)),
        'indefinite': b'\x30\x80' + body + b'\x00\x00', 'trailing': good + b'\x00',
        'inner trailing': der.seq(R, S, b'\x05\x00'),
        'raw': r.to_bytes(size, 'big') + s.to_bytes(size, 'big'), 'set': der.tlv(0x31, body),
        'one': der.seq(R), 'three': der.seq(R, S, S), 'octets': der.octets(good), 'bits': der.bits(good),
        'empty seq': der.seq(), 'short': der.tlv(0x30, body)[:-1], 'tag': der.seq(b'\x0a' + R[1:], S),
        'text': good.hex().encode(), 'two': good + good}[dev]
    return out, False


@prop(case, quick=48000, thorough=400000)
def signatures(c, rec):
    from webauthn_rp.errors import VerificationError
    from webauthn_rp.verifiers import verify
    k = c['k']
    sig, valid = craft(c)
    for names in {k['names'], 0, 15, k['names'] ^ 6}:
        lk = gen.lib_key(dict(k, names=names))
        before = gen.view(lk)
        try:
            out = verify(lk, sig, c['m'])
        except VerificationError as e:
            rec.check(not valid, "the key holder's signature refused", key=k, names=names,
                      sig=sig, msg=c['m'], error=e)
        else:
            rec.check(valid, 'a wrong signature accepted', key=k, names=names, sig=sig,
                      msg=c['m'], recipe=(c['kind'], c['dev']))
            rec.check(out is None, 'verify returned a value')
        rec.check(gen.view(lk) == before, 'verify modified the key')
    rec.label('%s %s %s' % (c['kind'], k['crv'], 'valid' if valid else 'invalid'))
    rec.nt((k['crv'], k['d'], k['alg'], c['m'][:64], len(c['m']), sig))
