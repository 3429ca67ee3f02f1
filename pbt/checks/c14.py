"""C14: extension outputs are accepted exactly when well typed and kept unchanged."""
from pbt import cborx, gen
from pbt.core import prop
from pbt.stx import st

RULE = """A case is an extension map: all well typed values, or one or two members replaced by a value of
another type at the top level or inside a list, coordinate map or coordinate name, or an unknown
identifier added. It is given as a dictionary and, as CBOR in a random valid encoding, inside
authenticator data; the outcome must be that of an independent acceptance model and the values must
come back unchanged (types included). A second test runs honest logins that require extensions and
decides from the map which requirements are met. Non-trivial: at least one member present. Distinct
by map."""
ASSUMES = ['NaN and infinite coordinates, Python tuples and duplicate CBOR keys are not judged']

WRONG = [0, 1, True, False, '', 'x', b'', b'x', 1.0, -1, [], ['a'], [1], [[1]], [[True]], [['a']],
         [b'a'], {}, {'latitude': 1}, {'latitude': 'x'}, {'latitude': None}, {'x': 1}, {'altitude': True},
         {1: 2}, 2**70, [['1']], [[1.0]], [1, [2]], ['a', b'b'], ['a', None], [[1], None], [None],
         [[None]], {'speed': []}, {'altitude_accuracy': 1}, {'Latitude': 1}]

SCALARS = [0, 1, 2**64, True, False, None, '', 'x', '1', b'', b'x', 1.0, 0.0, -1, [], [1], ['a'], {}, {'a': 1}, -2.5]


def ok_value(name, v):
    t = type(v)
    if name in ('appid', 'authnSel', 'biometricPerfBounds'):
        return t is bool
    if name == 'txAuthSimple':
        return t is str
    if name in ('txAuthGeneric', 'uvi'):
        return t is bytes
    if name == 'exts':
        return t is list and all(type(x) is str for x in v)
    if name == 'uvm':
        return t is list and all(type(x) is list and all(type(y) is int for y in x) for x in v)
    return t is dict and all(type(k) is str and k in gen.LOC and type(x) in (int, float)
                             for k, x in v.items())


def acceptable(m):
    return all(type(k) is str and k in gen.EXT and (v is None or ok_value(k, v))
               for k, v in m.items())


@st.composite
def ext_case(draw):
    m = draw(gen.ext_map())
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 1, 2]))):
        k = draw(st.integers(0, 7))
        if k >= 6:
            # everything right but one part of one value, at any place in it
            name = draw(st.sampled_from(['exts', 'uvm', 'loc', 'loc']))
            v = draw(gen.ext_value(name))
            part = draw(st.sampled_from(SCALARS))
            if name == 'loc':
                keys = draw(st.permutations(sorted(v)))
                if keys and draw(st.booleans()):
                    v = dict(v, **{keys[0]: part})
                else:
                    right = draw(st.sampled_from(sorted(gen.LOC)))
                    bad = draw(st.one_of(st.sampled_from(gen.other_spellings(right)), st.sampled_from(
                        ['x', '', 'timestamp', 'coords', 0, b'speed', 'speeds', 'altitudeAccuracyx']), gen.text(5)))
                    items = list(v.items())
                    items.insert(draw(st.integers(0, len(items))), (bad, draw(st.sampled_from([0, 1, 1.5, -3]))))
                    v = dict(items)
            elif name == 'exts' or not v or draw(st.booleans()):
                v = list(v)
                v.insert(draw(st.integers(0, len(v))), part)
            else:
                v = [list(x) for x in v]
                x = v[draw(st.integers(0, len(v) - 1))]
                x.insert(draw(st.integers(0, len(x))), part)
            m[name] = v
        elif k == 0:
            name = draw(st.one_of(
                st.sampled_from(['Appid', 'appId', 'app_id', 'tx_auth_simple', 'credProps', 'prf', '',
                                 'hmac-secret', 'LOC', 'uvm ', 'appid\x00', 'credProtect', 0, -1, b'appid',
                                 'biometric_perf_bounds', 'extensions']), gen.text(6)))
            m[name] = draw(st.sampled_from([None, True, 'x', 1]))
            if draw(st.booleans()):
                right = draw(st.sampled_from(sorted(gen.EXT)))
                m[draw(st.sampled_from(gen.other_spellings(right)))] = draw(gen.ext_value(right))
            elif type(m.get('loc')) is dict and draw(st.booleans()):
                right = draw(st.sampled_from(sorted(gen.LOC)))
                m['loc'] = dict(m['loc'], **{draw(st.sampled_from(gen.other_spellings(right))): 1})
        elif k == 1 and m:
            name = draw(st.sampled_from(sorted(m, key=repr)))
            m[name] = draw(st.sampled_from(WRONG))
        else:
            name = draw(st.sampled_from(sorted(gen.EXT)))
            m[name] = draw(st.one_of(st.sampled_from(WRONG), gen.ext_value(
                draw(st.sampled_from(sorted(gen.EXT))))))
    return {'m': m, 'enc': draw(gen.small_choices())}


@prop(ext_case, quick=24000, thorough=250000)
def acceptance(c, rec):
    from webauthn_rp.errors import ParserError
    from webauthn_rp.parsers import parse_authenticator_data, parse_extensions
    m = c['m']
    want = gen.ext_model(m) if acceptable(m) else None
    before = repr(m)
    raw = bytes(32) + b'\x81' + bytes(4) + cborx.encode(m, c['enc'])
    for how, fn in (('dictionary', lambda: parse_extensions(m)),
                    ('authenticator data', lambda: parse_authenticator_data(raw).extensions)):
        try:
            o = fn()
        except ParserError as e:
            rec.check(want is None, 'well typed extensions refused', how=how, ext=m, error=e)
            continue
        rec.check(want is not None, 'ill typed extensions accepted', how=how, ext=m)
        got = gen.ext_view(o)
        rec.check(gen.same(got, want), 'extension values changed', how=how, got=got, want=want)
    rec.check(repr(m) == before, 'the given map was modified', before=before, after=m)
    rec.label('accepted' if want is not None else 'refused')
    if m:
        rec.nt(m)


FALSY = {'appid': False, 'txAuthSimple': '', 'txAuthGeneric': b'', 'authnSel': False, 'exts': [],
         'uvi': b'', 'loc': {}, 'uvm': [], 'biometricPerfBounds': False}


@st.composite
def required(draw):
    cfg = draw(gen.rp_config())
    cfg['ext'] = draw(st.lists(st.sampled_from(sorted(gen.EXT)), unique=True, min_size=0,
                               max_size=9 if draw(st.integers(0, 3)) == 0 else 3))
    reg = draw(st.booleans())
    c = draw((gen.registration(cfg=cfg, allow=(), fmts=['none']) if reg else
              gen.authentication(cfg=cfg, allow=(), curve='Ed25519')))
    ext = draw(st.none() | gen.ext_map())
    for n in cfg['ext']:
        k = draw(st.integers(0, 7))
        if k <= 2 and ext is not None or k == 3:
            ext = dict(ext or {})
            ext[n] = draw(gen.ext_value(n))
        elif k <= 5:
            ext = dict(ext or {})
            ext[n] = FALSY[n]
        elif k == 6 and ext is not None:
            ext[n] = None
    flags = c['ad']['flags'] & ~gen.ED | (gen.ED if ext is not None else 0)
    c['ad'] = dict(c['ad'], ext=ext, flags=flags)
    return {'reg': reg, 'c': c}


@prop(required, quick=10000, thorough=80000)
def requirements(s, rec):
    from webauthn_rp.backends import CredentialsBackend
    reg = gen.make_registrar()
    be = CredentialsBackend(reg)
    c = s['c']
    if s['reg']:
        kw, viol, info = gen.build_registration(c)
        fn = be.handle_credential_attestation
    else:
        kw, viol, info = gen.build_authentication(c)
        reg.data = info['data']
        fn = be.handle_credential_assertion
    rec.check(viol <= {'ext'}, 'case is meant to be honest but for the extensions', violated=viol)
    how, name, e = gen.outcome(fn, **kw)
    want = 'ExtensionError' if viol else None
    rec.check((how == 'ok') is (want is None), 'required extensions decided wrongly', got=name,
              want=want, required=c['cfg']['ext'], present=c['ad']['ext'], error=e)
    rec.check(name == want, 'wrong error', got=name, want=want)
    rec.label(want or 'present')
    if c['cfg']['ext']:
        rec.nt((s['reg'], c['cfg']['ext'], c['ad']['ext']))
