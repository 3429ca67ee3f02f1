"""C07: the registrar is consulted and informed exactly as documented."""
from pbt import gen
from pbt.core import prop
from pbt.stx import memo, st

RULE = """A case is one ceremony of either kind (honest, or with one deviation) with injected registrar
behaviour: the lookup answers, returns None or raises; recording returns None, one of many falsy or
truthy other values, or raises one of many exception classes (the library's own included). All
arguments are pictured deeply before and after. Non-trivial: a fault was injected, or an accepted
ceremony had both a given and a stored user or RP, a trust path, or extensions. Distinct by
ceremony, fault, format and configuration."""
ASSUMES = ['exceptions injected into the registrar are Exception subclasses with a working repr']


class Quiet:
    def __bool__(self):
        return False


class LikeNone:
    def __eq__(self, other):
        return other is None or isinstance(other, LikeNone)

    def __hash__(self):
        return 0

    def __bool__(self):
        return False


class EmptyLen:
    def __len__(self):
        return 0


class Later:
    def __await__(self):
        yield


def produce():
    yield


RESULTS = {
    'awaitable': Later(), 'generator': produce(), 'iterator': iter(()), 'function': produce, 'object': object(),
    'mapping': {'status': 'ok'}, 'complex': 0j, 'nan': float('nan'), 'big': 10**30, 'memory': memoryview(b''),
    'bytearray': bytearray(), 'frozen': frozenset(), 'range': range(0), 'ok': 'ok', '200': 200, 'error class': ValueError,
    'False': False, 'True': True, 'zero': 0, 'one': 1, '0.0': 0.0, 'str': '', 'bytes': b'', 'list': [],
    'tuple': (), 'dict': {}, 'set': set(), 'text': 'failed', 'None text': 'None', 'quiet': Quiet(),
    'like none': LikeNone(), 'empty len': EmptyLen(), 'class': Quiet, 'ellipsis': ...,
    'notimpl': NotImplemented, 'exception': ValueError('returned'), 'minus': -1, 'braces': '{}{0}'}
ERRORS = ['Exception', 'ValueError', 'KeyError', 'TypeError', 'AttributeError', 'AssertionError',
          'RuntimeError', 'StopIteration', 'EOFError', 'OSError', 'TimeoutError', 'LookupError',
          'ArithmeticError', 'MemoryError', 'RecursionError', 'UnicodeDecodeError',
          'NotImplementedError', 'ImportError', 'Warning', 'BufferError', 'Custom',
          'ConnectionError', 'ConnectionResetError', 'ConnectionRefusedError', 'BrokenPipeError',
          'BlockingIOError', 'InterruptedError', 'PermissionError', 'FileNotFoundError',
          'FileExistsError', 'ProcessLookupError', 'ChildProcessError', 'NameError',
          'UnboundLocalError', 'IndexError', 'ZeroDivisionError', 'OverflowError',
          'FloatingPointError', 'StopAsyncIteration', 'SystemError', 'ReferenceError',
          'SyntaxError', 'UnicodeError', 'UserWarning', 'DeprecationWarning', 'Subclass',
          'mod:cryptography.exceptions.InvalidSignature', 'mod:pyasn1.error.PyAsn1Error',
          'mod:binascii.Error', 'mod:json.JSONDecodeError', 'mod:cbor2.CBORDecodeError',
          'mod:concurrent.futures.TimeoutError', 'mod:queue.Empty', 'mod:sqlite3.OperationalError',
          'mod:sqlite3.IntegrityError', 'mod:subprocess.SubprocessError', 'mod:socket.gaierror',
          'lib:WebAuthnRPError', 'lib:RegistrationError', 'lib:ChallengeError',
          'lib:VerificationError', 'lib:UnimplementedError', 'lib:CredentialDataError',
          'lib:DecodingError', 'lib:ParserError', 'lib:OriginError', 'lib:SignatureCountError',
          'lib:InternalError', 'lib:AttestationError', 'lib:ValidationError']


class Custom(Exception):
    def __init__(self):
        super().__init__('custom {0} {x}')


def errors_base():
    from webauthn_rp import errors
    return errors.WebAuthnRPError


def make_error(name):
    if name.startswith('lib:'):
        from webauthn_rp import errors
        return getattr(errors, name[4:])('from the registrar')
    if name == 'Custom':
        return Custom()
    if name == 'Subclass':
        return type('Subclass', (errors_base(), ValueError), {})('from the registrar')
    if name.startswith('mod:'):
        import importlib
        mod, cls = name[4:].rsplit('.', 1)
        cls = getattr(importlib.import_module(mod), cls)
        if cls.__name__ == 'JSONDecodeError':
            return cls('from the registrar', 'doc', 0)
        return cls('from the registrar')
    if name == 'UnicodeDecodeError':
        return UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'bad')
    import builtins
    return getattr(builtins, name)('from the registrar')


def raiser(name):
    def f():
        raise make_error(name)
    return f


def fails_once(name):
    state = []

    def f():
        if not state:
            state.append(1)
            raise make_error(name)
    return f


@memo
def faults():
    rec = st.one_of(st.none(), st.tuples(st.just('returns'), st.sampled_from(sorted(RESULTS))),
                    st.tuples(st.just('raises'), st.sampled_from(ERRORS)),
                    st.tuples(st.just('raises once'), st.sampled_from(ERRORS)))
    look = st.one_of(st.none(), st.none(), st.none(), st.just(('none', )),
                     st.tuples(st.just('raises'), st.sampled_from(ERRORS)))
    return rec, look


def with_record(reg, fault):
    if fault is None:
        reg.on_record = None
    elif fault[0] == 'returns':
        reg.on_record = lambda: RESULTS[fault[1]]
    elif fault[0] == 'raises once':
        reg.on_record = fails_once(fault[1])
    else:
        reg.on_record = raiser(fault[1])


@st.composite
def reg_case(draw):
    return {'c': draw(gen.registration(max_devs=1) if draw(st.integers(0, 3)) == 0 else
                      gen.registration(allow=())), 'record': draw(faults()[0])}


def cred_view(c):
    return gen.view(c)


def snapshot(kw):
    return {k: gen.view(v) for k, v in kw.items()}


@prop(reg_case, quick=10000, thorough=80000)
def registration(case, rec):
    from webauthn_rp import errors
    from webauthn_rp.backends import CredentialsBackend
    c = case['c']
    kw, viol, info = gen.build_registration(c)
    reg = gen.make_registrar()
    with_record(reg, case['record'])
    before = snapshot(kw)
    out = gen.outcome(CredentialsBackend(reg).handle_credential_attestation, **kw)
    after = snapshot(kw)
    for k in before:
        rec.check(before[k] == after[k], 'argument modified: ' + k, before=before[k],
                  after=after[k])
    recs = gen.records(reg)
    if viol:
        rec.check(out[0] == 'error' and not recs, 'refused registration recorded', viol=viol)
        rec.label('refused')
        return
    rec.check(len(reg.calls) == 1 and len(recs) == 1 and recs[0][0] == 'attestation',
              'registrar not informed exactly once', calls=[x[0] for x in reg.calls])
    a = recs[0][1]
    rec.check(gen.view(a['credential']) == before['credential'], 'other credential recorded')
    rec.check(gen.view(a['user']) == before['user'], 'other user recorded')
    rec.check(gen.view(a['rp']) == before['rp'], 'other RP recorded')
    fmt = c['att']['fmt']
    rec.check(a['att_type'].value == ('None' if fmt == 'none' else 'Basic'),
              'wrong attestation type', got=a['att_type'], fmt=fmt)
    path = a['trusted_path']
    if fmt == 'none':
        rec.check(path is None, 'trust path for none attestation', got=path)
    else:
        rec.check([gen.view(x) for x in path] == [('cert', info['stmt']['x5c'][0])],
                  'wrong trust path')
    rec.check(a['att'].fmt.value == fmt, 'wrong format recorded')
    rec.check(gen.same(gen.auth_view(a['att'].auth_data), gen.auth_model(info['ad'])),
              'wrong authenticator data recorded')
    if case['record'] is None:
        rec.check(out[0] == 'ok' and out[1] is None, 'accepted registration failed', error=out[2])
        rec.label('accepted')
        if fmt != 'none' or c['ad']['ext']:
            rec.nt(('ok', fmt, sorted(c['ad']['ext'] or {}), c['cfg']['tb'], c['cfg']['container']))
    else:
        rec.check(out[0] == 'error' and isinstance(out[2], errors.RegistrationError),
                  'registrar failure not reported as RegistrationError', fault=case['record'],
                  outcome=out[:2], error=out[2])
        rec.label('%s %s' % case['record'])
        rec.nt((fmt, case['record'], c['cfg']['container'], bool(c['cfg']['tb'])))


@st.composite
def auth_case(draw):
    r, look = faults()
    return {'c': draw(gen.authentication(max_devs=1) if draw(st.integers(0, 3)) == 0 else
                      gen.authentication(allow=())), 'record': draw(r), 'lookup': draw(look)}


@prop(auth_case, quick=12000, thorough=80000)
def authentication(case, rec):
    from webauthn_rp import errors
    from webauthn_rp.backends import CredentialsBackend
    c = case['c']
    kw, viol, info = gen.build_authentication(c)
    reg = gen.make_registrar()
    reg.data = info['data']
    with_record(reg, case['record'])
    look = case['lookup']
    if look is not None:
        reg.on_lookup = (lambda: None) if look[0] == 'none' else raiser(look[1])
    before = dict(snapshot(kw), data=gen.view(info['data']))
    out = gen.outcome(CredentialsBackend(reg).handle_credential_assertion, **kw)
    after = dict(snapshot(kw), data=gen.view(info['data']))
    for k in before:
        rec.check(before[k] == after[k], 'argument modified: ' + k, before=before[k],
                  after=after[k])
    lookups = [x[1] for x in reg.calls if x[0] == 'lookup']
    recs = gen.records(reg)
    rec.check(all(type(x) is bytes and x == c['raw_id'] for x in lookups),
              'lookup of something else than the raw id', lookups=lookups, raw_id=c['raw_id'])
    rec.check(len(lookups) <= 1, 'looked up more than once', lookups=lookups)
    if viol:
        rec.check(out[0] == 'error' and not recs, 'refused authentication recorded', viol=viol)
        rec.label('refused')
        return
    rec.check(lookups, 'registrar not consulted')
    if look is not None:
        want = errors.CredentialDataError if look[0] == 'none' else errors.RegistrationError
        rec.check(out[0] == 'error' and isinstance(out[2], want), 'wrong answer to failed lookup',
                  fault=look, error=out[2])
        rec.check(not recs, 'recorded in spite of a failed lookup')
        rec.label('lookup %s %s' % (look[0], '' if look[0] == 'none' else look[1]))
        rec.nt(('lookup', look, c['key']['crv']))
        return
    rec.check(len(recs) == 1 and recs[0][0] == 'assertion' and reg.calls[-1] is recs[0],
              'registrar not informed exactly once, last', calls=[x[0] for x in reg.calls])
    a = recs[0][1]
    rec.check(gen.view(a['credential']) == before['credential'], 'other credential recorded')
    user = kw.get('user') or info['data'].user_entity
    rp = kw.get('rp') or info['data'].rp_entity
    rec.check(gen.view(a['user']) == gen.view(user), 'other user recorded', got=gen.view(a['user']),
              want=gen.view(user))
    rec.check(gen.view(a['rp']) == gen.view(rp), 'other RP recorded', got=gen.view(a['rp']),
              want=gen.view(rp))
    rec.check(gen.same(gen.auth_view(a['authenticator_data']), gen.auth_model(c['ad'])),
              'wrong authenticator data recorded')
    if case['record'] is None:
        rec.check(out[0] == 'ok' and out[1] is None, 'accepted authentication failed', error=out[2])
        rec.label('accepted')
        if c['user_given'] is not None or c['rp_given'] is not None:
            rec.nt(('ok', c['user_given'] is None, c['rp_given'] is None, c['rp_stored'] is None,
                    c['handle'] is None, c['key']['crv'], c['cfg']['container']))
    else:
        rec.check(out[0] == 'error' and isinstance(out[2], errors.RegistrationError),
                  'registrar failure not reported as RegistrationError', fault=case['record'],
                  outcome=out[:2], error=out[2])
        rec.label('%s %s' % case['record'])
        rec.nt((case['record'], c['key']['crv'], c['user_given'] is None, c['rp_given'] is None))
