"""C17: attestation objects and statements are decoded faithfully or refused."""
from pbt import cborx, gen
from pbt.core import prop
from pbt.stx import st

RULE = """A case is an attestation object: a format and statement variant (none; packed plain, X.509, ECDAA;
TPM the same; android-key; SafetyNet; fido-u2f) with arbitrary typed values, valid authenticator
data, members in random order and random valid CBOR encodings; or the same with up to two statement
or top-level members dropped, retyped, renamed, added, mixed between variants, or taken from another
format; or valid bytes cut short or followed by more. An independent acceptance model decides; accepted objects must carry every value under the
right statement class, plus the raw map. Non-trivial: not the bare none format. Distinct by case."""
ASSUMES = ['whether extra top-level members are allowed (if so the raw map must carry them) and duplicate labels are not judged']

CLASSES = {
    ('none', 0): 'NoneAttestationStatement', ('packed', 0): 'PackedAttestationStatement',
    ('packed', 1): 'PackedX509AttestationStatement', ('packed', 2): 'PackedECDAAAttestationStatement',
    ('tpm', 0): 'TPMAttestationStatement', ('tpm', 1): 'TPMX509AttestationStatement',
    ('tpm', 2): 'TPMECDAAAttestationStatement', ('android-key', 0): 'AndroidKeyAttestationStatement',
    ('android-safetynet', 0): 'AndroidSafetyNetAttestationStatement',
    ('fido-u2f', 0): 'FIDOU2FAttestationStatement'}
FIELDS = {'alg': 'alg', 'sig': 'sig', 'x5c': 'x5c', 'ecdaaKeyId': 'ecdaa_key_id', 'ver': 'ver',
          'certInfo': 'cert_info', 'pubArea': 'pub_area', 'response': 'response'}
ALGS = (-7, -35, -36, -8, 'ES256', 'ES384', 'ES512', 'EdDSA')
BASE = {'none': (), 'packed': ('alg', 'sig'), 'tpm': ('alg', 'sig', 'ver', 'certInfo', 'pubArea'),
        'android-key': ('alg', 'sig', 'x5c'), 'android-safetynet': ('ver', 'response'),
        'fido-u2f': ('sig', 'x5c')}
VARIANT = {0: (), 1: ('x5c', ), 2: ('ecdaaKeyId', )}
PARSER = {f: 'parse_%s_attestation_statement' % f.replace('-', '_') for f in BASE}


def value(name):
    if name == 'alg':
        return st.sampled_from(ALGS)
    if name == 'ver':
        return gen.text(8)
    if name == 'x5c':
        return gen.longer(st.lists(gen.blob(0, 1500), max_size=4))
    return gen.blob(0, 3000)


def typed(name, v):
    if name == 'alg':
        return type(v) in (int, str) and any(type(a) is type(v) and a == v for a in ALGS)
    if name == 'ver':
        return type(v) is str
    if name == 'x5c':
        return type(v) is list and all(type(x) is bytes for x in v)
    return type(v) is bytes


def variant_of(fmt, m):
    """Which variant of fmt the statement map m is, or None."""
    if type(m) is not dict or type(fmt) is not str or fmt not in BASE:
        return None
    for v in ((0, 1, 2) if fmt in ('packed', 'tpm') else (0, )):
        if set(m) == set(BASE[fmt] + VARIANT[v]) and all(typed(k, x) for k, x in m.items()):
            return v
    return None


WRONG = [None, 0, 1, -7, True, False, '', 'x', 'ES256', b'', b'x', [], [b'a'], ['a'], [b'a', 'b'],
         [b'a', None], {}, {'a': 1}, 1.5, -7.0, [[b'a']], -257, 'RS256', 'es256', 2**64, 'ES256 ', -6, 7]


@st.composite
def case(draw):
    fmt = draw(st.sampled_from(sorted(BASE)))
    v = draw(st.integers(0, 2)) if fmt in ('packed', 'tpm') else 0
    m = {k: draw(value(k)) for k in BASE[fmt] + VARIANT[v]}
    ad = bytes(32) + b'\x01' + bytes(4)
    ok_ad = True
    if draw(st.integers(0, 2)) == 0:
        k = draw(gen.key_spec())
        spec = {'rp_hash': bytes(32), 'flags': gen.UP | gen.AT, 'count': 3,
                'acd': {'aaguid': bytes(16), 'cid': draw(gen.blob(0, 64)), 'key': k, 'enc': ()},
                'ext': None}
        ad = gen.render_auth_data(spec)
        if draw(st.integers(0, 4)) == 0:
            ad, ok_ad = ad[:-1], False
    elif draw(st.integers(0, 9)) == 0:
        ad, ok_ad = draw(st.sampled_from([b'', bytes(36), ad + b'\x00'])), False
    obj = {'fmt': fmt, 'attStmt': m, 'authData': ad}
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 1, 2]))):
        kind = draw(st.sampled_from(['drop', 'retype', 'extra', 'rename', 'variant', 'top', 'top drop',
                                     'fmt', 'foreign', 'inner', 'alg']))
        names = sorted(m, key=repr)
        if kind == 'drop' and names:
            m.pop(draw(st.sampled_from(names)))
        elif kind == 'retype' and names:
            m[draw(st.sampled_from(names))] = draw(st.sampled_from(WRONG))
        elif kind == 'inner' and names:
            # one element of a chain that is no byte string, at any place in it
            n = 'x5c' if 'x5c' in m else draw(st.sampled_from(names))
            x = list(m[n]) if type(m[n]) is list else draw(value('x5c'))
            x.insert(draw(st.integers(0, len(x))), draw(st.sampled_from(
                [None, '', 'x', 0, 1, True, [], [b'a'], {}, 1.5, b'', b'x'])))
            m[n] = x
        elif kind == 'alg' and 'alg' in m:
            m['alg'] = draw(st.sampled_from([0, 1, -1, -6, -9, -34, -37, -47, -257, -65535, 7, 35, 36, 8, 2**31, True, False, None, -7.0,
                                             '', 'es256', 'ES257', 'RS256', 'EDDSA', 'PS256', '-7', b'ES256', [-7], 'ES256 ']))
        elif kind == 'extra':
            n = draw(st.one_of(st.sampled_from(sorted(FIELDS) + ['x5C', 'Alg', 'sig ', 'x5u', '', 0, b'sig',
                                                                 'ecdaakeyid', 'fmt']), gen.text(5)))
            m[n] = draw(st.one_of(value(n) if n in FIELDS else st.just(None), st.sampled_from(WRONG)))
        elif kind == 'rename' and names:
            n = draw(st.sampled_from(names))
            x = m.pop(n)
            if type(n) is str:
                m[draw(st.sampled_from(gen.other_spellings(n) + [n[:-1] or 'q']))] = x
        elif kind == 'variant':
            for n in ('x5c', 'ecdaaKeyId'):
                m[n] = draw(value(n))
        elif kind == 'top':
            n = draw(st.sampled_from(['fmt', 'attStmt', 'authData']))
            obj[n] = draw(st.sampled_from(WRONG + [['packed'], [1, 2]]))
        elif kind == 'top drop':
            n = draw(st.sampled_from(['fmt', 'attStmt', 'authData']))
            if draw(st.booleans()) and n in obj:
                obj[draw(st.sampled_from(gen.other_spellings(n) + [n + '2']))] = obj[n]
            obj.pop(n, None)
        elif kind == 'fmt':
            obj['fmt'] = draw(st.one_of(st.sampled_from(
                sorted(BASE) + ['Packed', 'NONE', 'none ', '', 'apple', 'android_key', 'fido_u2f', 'compound',
                                'android-key-attestation', 'u2f']), gen.text(6)))
        else:
            obj['attStmt'] = {k: draw(value(k)) for k in BASE[draw(st.sampled_from(sorted(BASE)))]}
    extra = draw(st.sampled_from([0, 0, 0, 0, 1, 2]))
    for _ in range(extra):
        n = draw(st.one_of(st.sampled_from(['epAtt', 'largeBlobKey', 'x5c', 'alg', '', 0, 1, -1, b'fmt', 'auth_data']),
                           gen.text(5)))
        if n not in obj:
            obj[n] = draw(st.sampled_from(WRONG))
    order = draw(st.permutations(sorted(obj, key=repr)))
    obj = {k: obj[k] for k in order}
    if 'attStmt' in obj and type(obj['attStmt']) is dict:
        s = obj['attStmt']
        obj['attStmt'] = {k: s[k] for k in draw(st.permutations(sorted(s, key=repr)))}
    return {'obj': obj, 'ok_ad': ok_ad, 'enc': draw(gen.small_choices()), 'ad': ad}


def stmt_view(o):
    out = {'class': type(o).__name__}
    for k, x in vars(o).items():
        if x is None:
            continue
        out[k] = x.value if hasattr(x, 'value') else list(x) if isinstance(x, (list, tuple)) else x
    return out


def stmt_model(fmt, v, m):
    out = {'class': CLASSES[fmt, v]}
    for k, x in m.items():
        out[FIELDS[k]] = x
    return out


@prop(case, quick=56000, thorough=500000)
def objects(c, rec):
    from webauthn_rp import parsers
    from webauthn_rp.errors import ParserError, ValidationError
    obj = c['obj']
    fmt, m, ad = obj.get('fmt'), obj.get('attStmt'), obj.get('authData')
    v = variant_of(fmt, m)
    ok_ad = type(ad) is bytes and ad == c['ad'] and c['ok_ad']
    ok = v is not None and ok_ad and {'fmt', 'attStmt', 'authData'} <= set(obj)
    raw = cborx.encode(obj, c['enc'])
    more = set(obj) - {'fmt', 'attStmt', 'authData'}
    try:
        o, decoded = parsers.parse_attestation_object(raw)
    except (ParserError, ValidationError) as e:
        rec.check(not ok or more, 'valid attestation object refused', obj=obj, error=e)
        if not isinstance(e, ParserError):
            rec.check(type(ad) is bytes and not ok_ad, 'ValidationError without an embedded key')
    else:
        rec.check(ok, 'malformed attestation object accepted', obj=obj)
        rec.check(o.fmt.value == fmt, 'wrong format', got=o.fmt, want=fmt)
        got, want = stmt_view(o.att_stmt), stmt_model(fmt, v, m)
        rec.check(gen.same(got, want), 'statement differs', got=got, want=want)
        rec.check(gen.same(decoded, obj), 'raw decoded map differs', got=decoded, want=obj)
        rec.check(gen.view(o.auth_data) == gen.view(parsers.parse_authenticator_data(ad)),
                  'authenticator data differs')
    rec.label('%s %s' % (fmt if type(fmt) is str and fmt in BASE else 'other',
                         CLASSES[fmt, v] if ok else 'refused'))
    if not (fmt == 'none' and ok):
        rec.nt((obj, c['enc']))


@prop(case, quick=32000, thorough=300000)
def statements(c, rec):
    """The statement parsers on dictionaries."""
    from webauthn_rp import parsers
    from webauthn_rp.errors import ParserError
    m = c['obj'].get('attStmt')
    if type(m) is not dict:
        return
    for fmt in BASE:
        v = variant_of(fmt, m)
        try:
            o = getattr(parsers, PARSER[fmt])(dict(m))
        except ParserError as e:
            rec.check(v is None, 'valid statement refused', fmt=fmt, stmt=m, error=e)
        else:
            rec.check(v is not None, 'malformed statement accepted', fmt=fmt, stmt=m)
            got, want = stmt_view(o), stmt_model(fmt, v, m)
            rec.check(gen.same(got, want), 'statement differs', got=got, want=want)
            rec.label(want['class'])
    if m:
        rec.nt(m)


@st.composite
def slack_case(draw):
    c = draw(case())
    fmt = draw(st.sampled_from(sorted(BASE)))
    v = draw(st.integers(0, 2)) if fmt in ('packed', 'tpm') else 0
    obj = {'fmt': fmt, 'attStmt': {k: draw(value(k)) for k in BASE[fmt] + VARIANT[v]},
           'authData': c['ad'] if c['ok_ad'] else bytes(32) + b'\x01' + bytes(4)}
    raw = cborx.encode(obj, c['enc'])
    return {'raw': raw, 'tail': draw(gen.cbor_tail(raw)), 'cut': draw(st.integers(0, len(raw) - 1)), 'obj': obj}


@prop(slack_case, quick=8000, thorough=80000)
def slack(c, rec):
    """The bytes of an attestation object are those of one map: nothing missing, nothing after it."""
    from webauthn_rp.errors import ParserError
    from webauthn_rp.parsers import parse_attestation_object
    rec.check(gen.same(parse_attestation_object(c['raw'])[1], c['obj']), 'raw decoded map differs', obj=c['obj'])
    for what, raw in (('with bytes after the map', c['raw'] + c['tail']), ('cut short', c['raw'][:c['cut']])):
        try:
            parse_attestation_object(raw)
        except ParserError:
            continue
        rec.fail('attestation object accepted ' + what, data=raw)
    for raw in (cborx.encode(list(c['obj'].items()), ()), cborx.encode([c['obj']], ()), cborx.encode(c['raw'], ())):
        try:
            parse_attestation_object(raw)
        except ParserError:
            continue
        rec.fail('attestation object that is no map accepted', data=raw)
    rec.nt((c['raw'], c['tail'], c['cut']))
