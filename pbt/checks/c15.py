"""C15: COSE key parsing accepts exactly well-formed keys and keeps every member."""
from pbt import cborx, gen
from pbt.core import prop
from pbt.stx import st

RULE = """A case is a COSE key map, valid (both types, all curves and algorithms, names or numbers, optional
members) or with up to two members dropped, retyped, resized or replaced by other identifiers, given
as a dictionary and as CBOR in a random valid encoding with the members in random order; the bytes
also cut short and followed by more. An
independent acceptance model decides; accepted keys must show every member's value. Non-trivial:
every case; distinct by the map."""
ASSUMES = ['extra labels, null optional members and duplicate labels are not '
           'judged; a point need not lie on the curve to be parsed']
ALGS = (-7, -35, -36, -8, 'ES256', 'ES384', 'ES512', 'EdDSA')
OPS = tuple(gen.OPS) + tuple(gen.OPS.values())
EC_C = {1: 32, 2: 48, 3: 66, 'P-256': 32, 'P-384': 48, 'P-521': 66}
OK_C = {6: 32, 7: 57, 'Ed25519': 32, 'Ed448': 57}
OTHER_C = [4, 5, 8, 0, -1, 'X25519', 'X448', 'secp256k1', 'P-192', 'ED25519', 'p-256', 'P256', '']


def exact(v, allowed):
    return type(v) in (int, str) and any(type(a) is type(v) and a == v for a in allowed)


def acceptable(m):
    if exact(m.get(1), (2, 'EC2')):
        sizes, coords = EC_C, (-2, -3)
    elif exact(m.get(1), (1, 'OKP')):
        sizes, coords = OK_C, (-2, )
    else:
        return False
    if not exact(m.get(3), ALGS) or not exact(m.get(-1), tuple(sizes)):
        return False
    n = sizes[m[-1]]
    if any(type(m.get(c)) is not bytes or len(m[c]) != n for c in coords):
        return False
    if any(i in m and type(m[i]) is not bytes for i in (2, 5)):
        return False
    if 4 in m:
        return type(m[4]) is list and len(m[4]) > 0 and all(exact(o, OPS) for o in m[4])
    return True


JUNK = [0, 1, 2, 3, -7, -8, 4, 6, 7, 99, -257, True, False, 1.0, 2.0, -7.0, 'x', '', 'EC2', 'OKP',
        'Symmetric', 'ec2', 'ES256', 'EdDSA', 'EDDSA', 'es256', 'RS256', b'', b'x', b'EC2', [], [1],
        ['sign'], {}, {1: 2}, 2**64, -2**64, 2**70, '1', '-7']


@st.composite
def case(draw):
    k = draw(gen.key_spec())
    m = gen.cose_map(k)
    if draw(st.integers(0, 3)) == 0 and m[1] in (2, 'EC2'):
        m[3] = draw(st.sampled_from(ALGS))
    if draw(st.integers(0, 4)) == 0:
        m[-2] = draw(st.binary(min_size=len(m[-2]), max_size=len(m[-2])))
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 1, 2]))):
        kind = draw(st.sampled_from(['drop', 'junk', 'size', 'curve', 'ops', 'type', 'alg', 'opt',
                                     'pair', 'resplit', 'both']))
        label = draw(st.sampled_from(sorted(m)))
        if kind == 'drop':
            m.pop(label, None)
        elif kind == 'junk':
            m[label] = draw(st.sampled_from(JUNK))
        elif kind == 'size':
            c = draw(st.sampled_from([-2, -3] if -3 in m else [-2]))
            old = m.get(c)
            if type(old) is bytes:
                m[c] = draw(st.one_of(
                    st.just(b'\x00' + old), st.just(old[1:]), st.just(old[:-1]), st.just(b''),
                    st.just(old + b'\x00'), st.sampled_from([28, 31, 32, 33, 48, 56, 57, 65, 66, 67]
                                                            ).map(lambda n: b'\x07' * n),
                    st.just(int.from_bytes(old, 'big')), st.just(old.hex()),
                    st.just(c == -3), st.just([old])))
        elif kind == 'resplit':
            # the coordinates' bytes are the right ones in total, but cut at another place
            if type(m.get(-2)) is bytes and type(m.get(-3)) is bytes:
                both = m[-2] + m[-3]
                cut = draw(st.one_of(st.integers(0, len(both)), st.sampled_from(
                    [0, 1, 31, 32, 33, 47, 48, 49, 65, 66, 67, len(both) // 2, len(both)])))
                m[-2], m[-3] = both[:cut], both[cut:]
        elif kind == 'both':
            n = draw(st.one_of(st.integers(0, 140), st.sampled_from([32, 48, 57, 64, 66, 96, 132])))
            for c in (-2, -3):
                if type(m.get(c)) is bytes:
                    m[c] = (m[c] * 5)[:n]
        elif kind == 'curve':
            m[-1] = draw(st.sampled_from(sorted(EC_C, key=repr) + sorted(OK_C, key=repr) + OTHER_C))
        elif kind == 'ops':
            m[4] = draw(st.one_of(
                st.just([]), st.lists(st.one_of(st.sampled_from(OPS), st.sampled_from(JUNK)),
                                      max_size=4),
                st.sampled_from([1, 'sign', b'', {}, True, [True], [1, True], [0], [11], [-1], ['Sign'],
                                 ['sign', 'sign'], [1, 'sign'], [[1]], ['MAC create', 'mac verify']])))
        elif kind == 'type':
            m[1] = draw(st.sampled_from([1, 2, 'OKP', 'EC2', 0, 3, 4, 'RSA', 'Symmetric', 'okp', True]))
        elif kind == 'alg':
            m[3] = draw(st.sampled_from(list(ALGS) + [-37, -257, 0, 7, 8, -6, -9, 'PS256', 'ES256K',
                                                      -47, 'HS256']))
        elif kind == 'opt':
            m[draw(st.sampled_from([2, 5]))] = draw(st.sampled_from([b'', b'\x00', 'x', '', 0, 5, [], True,
                                                                     [b'x'], {}]))
        else:
            m[1] = draw(st.sampled_from([1, 2]))
            m[-1] = draw(st.sampled_from([1, 2, 3, 6, 7]))
            n = draw(st.sampled_from([32, 48, 57, 66]))
            m[-2] = b'\x05' * n
            m[-3] = b'\x06' * n
    if m.get(1) in (1, 'OKP') and type(m.get(1)) is not bool:
        m.pop(-3, None)
    order = draw(st.permutations(sorted(m)))
    return {'m': {i: m[i] for i in order}, 'enc': draw(gen.small_choices())}


@prop(case, quick=96000, thorough=600000)
def acceptance(c, rec):
    from webauthn_rp.errors import ParserError
    from webauthn_rp.parsers import parse_cose_key
    m = c['m']
    ok = acceptable(m)
    want = gen.map_view(m) if ok else None
    before = repr(m)
    raw = cborx.encode(m, c['enc'])
    for how, arg in (('dictionary', m), ('bytes', raw)):
        try:
            o = parse_cose_key(arg)
        except ParserError as e:
            rec.check(not ok, 'well-formed key refused', how=how, key=m, error=e)
            continue
        rec.check(ok, 'malformed key accepted', how=how, key=m)
        got = gen.key_view(o)
        rec.check(gen.same(got, want), 'key members changed', how=how, got=got, want=want)
    rec.check(repr(m) == before, 'the given map was modified')
    rec.label('accepted' if ok else 'refused')
    rec.nt(m)


@st.composite
def slack_case(draw):
    m = gen.cose_map(draw(gen.key_spec()))
    raw = cborx.encode({i: m[i] for i in draw(st.permutations(sorted(m)))}, draw(gen.small_choices()))
    return {'raw': raw, 'tail': draw(gen.cbor_tail(raw)), 'cut': draw(st.integers(0, len(raw) - 1)), 'm': m}


@prop(slack_case, quick=8000, thorough=80000)
def slack(c, rec):
    """The bytes of a key are those of one map: nothing missing, nothing after it."""
    from webauthn_rp.errors import ParserError
    from webauthn_rp.parsers import parse_cose_key
    rec.check(gen.same(gen.key_view(parse_cose_key(c['raw'])), gen.map_view(c['m'])), 'key members changed', key=c['m'])
    for what, raw in (('with bytes after the map', c['raw'] + c['tail']), ('cut short', c['raw'][:c['cut']])):
        try:
            parse_cose_key(raw)
        except ParserError:
            continue
        rec.fail('key accepted ' + what, data=raw)
    rec.nt((c['raw'], c['tail'], c['cut']))
