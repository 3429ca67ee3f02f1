"""C12: client data is decoded faithfully and malformed client data is refused."""
from functools import lru_cache

from pbt import gen
from pbt.core import prop
from pbt.stx import st

RULE = """A case is a client data object whose members are arbitrary text (all planes, controls, quotes,
U+2028, astral characters), rendered by an own JSON writer that chooses member order, white space,
escapes (\\uXXXX, surrogate pairs, short escapes, escaped member names) and unknown members of any
JSON type around it; or such an object made invalid by a named recipe. Non-trivial: the text uses
an escape, a non-ASCII character, unknown members or a token binding, or is invalid by recipe.
Distinct by the bytes."""
ASSUMES = ['lone surrogates, duplicate member names and a byte order mark are not judged']
NOT_JSON = ['NaN', 'Infinity', '-Infinity', 'nan', 'inf', '-inf', '+1', '01', '-01', '.5', '5.', '1.e3', '1e', '1e+', '0x10', '1_0',
            '\u0663', '1\u0663', '-', '--1', '-NaN', 'True', 'None', 'undefined', 'TRUE', 'nul', 'truee', "'x'", '"\\x41"', '"\\u12"',
            '"\\u12g4"', '"\\', '[1,]', '[,1]', '{"a":1,}', '{a:1}', '{1:2}', '{"a"}', '[1 2]', '"\x01"', '"\t"', '1;', '// x\n1',
            '/* */1', '1 2', '"a" "b"', '\x0b1', '\u00a01', '"\\a"', '"\\\'"', '"\\U00000041"', 'NaN1', '[NaN]', '{"a":Infinity}',
            '[[[-Infinity]]]']
SHORT = {'"': '\\"', '\\': '\\\\', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t',
         '/': '\\/'}


def js_str(s, it):
    out = []
    for ch in s:
        c = next(it, 0)
        o = ord(ch)
        if c >= 8 or o < 0x20 or ch in '"\\':
            if ch in SHORT and c % 2 == 0:
                out.append(SHORT[ch])
            elif o > 0xffff:
                o -= 0x10000
                out.append(('\\u%04x\\u%04x' if c % 3 else '\\u%04X\\u%04X') % (
                    0xd800 + (o >> 10), 0xdc00 + (o & 0x3ff)))
            else:
                out.append(('\\u%04x' if c % 3 else '\\u%04X') % o)
        else:
            out.append(ch)
    return '"%s"' % ''.join(out)


WS = ['', '', '', ' ', '\n', '\t', '\r\n', '  ']


def js(v, it):
    w = lambda: WS[next(it, 0) % 8]
    if v is None:
        return 'null'
    if v is True:
        return 'true'
    if v is False:
        return 'false'
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, str):
        return js_str(v, it)
    if isinstance(v, Verb):
        return v.s
    if isinstance(v, list) and not (v and isinstance(v[0], Member)):
        return '[' + w() + ','.join(w() + js(x, it) + w() for x in v) + ']'
    return '{' + w() + ','.join(w() + js_str(m.k, it) + w() + ':' + w() + js(m.v, it) + w()
                                for m in v) + '}' if v else '{%s}' % w()


class Member:
    def __init__(self, k, v):
        self.k, self.v = k, v

    def __repr__(self):
        return 'Member(%r, %r)' % (self.k, self.v)


class Obj(list):
    pass


class Verb:
    """A verbatim JSON fragment."""

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return 'Verb(%r)' % self.s


@lru_cache(None)
def strings():
    return st.one_of(
        gen.text(10), gen.longer(gen.text(4), 90), st.sampled_from(['webauthn.get', 'webauthn.create', 'https://example.com', '',
                                       'null', '0', 'true', '\u2028\u2029', '\x00', '\x7f', '"', '\\u0041',
                                       '\\', '\U0001f511', '\uffff', '\ufeff', 'e\u0301', '\u00e9', ' a ']),
        st.text(alphabet=st.characters(blacklist_categories=('Cs', )), max_size=20),
        st.text(alphabet='"\\/\b\n\x1f\u00e9\U00010000\U0010ffffA ', max_size=8))


@lru_cache(None)
def choices():
    return st.one_of(st.just(()), st.lists(st.integers(0, 11), max_size=60).map(tuple))


@lru_cache(None)
def unknown_value():
    leaf = st.one_of(st.none(), st.booleans(), st.integers(-10**20, 10**20), strings(),
                     st.floats(allow_nan=False, allow_infinity=False),
                     st.sampled_from(['1e400', '-0', '1E+2', '0.10', '-1.5e-7', '1e99999999999999999999', '-1E-99999999999999999999',
                                      '0e999999999999999', '9' * 400, '-' + '1' * 4000, '0.' + '3' * 5000]).map(Verb))
    return st.recursive(leaf, lambda x: st.one_of(
        st.lists(x, max_size=3),
        st.dictionaries(strings(), x, max_size=3).map(
            lambda d: Obj(Member(k, v) for k, v in d.items()))), max_leaves=6)


KNOWN = ('type', 'challenge', 'origin', 'tokenBinding')
REAL = ['crossOrigin', 'clientExtensions', 'hashAlgorithm', 'topOrigin', 'authenticatorExtensions', 'payment', 'androidPackageName',
        'hashAlg', 'cid_pubkey', 'typ', 'tokenBindingId']


@lru_cache(None)
def real_value():
    """Values such members have, so that code which takes notice of them is reached."""
    return st.one_of(st.booleans(), st.sampled_from(['https://example.com', 'SHA-256', 'webauthn.get', 'AAAA', 'null', '']),
                     st.just(Obj()), st.none())


@st.composite
def good(draw):
    m = {'type': draw(strings()), 'challenge': draw(strings()), 'origin': draw(strings())}
    tb = draw(st.one_of(st.none(), st.sampled_from(['null']),
                        st.tuples(st.just('supported'), st.none() | strings() | st.just(0)),
                        st.tuples(st.just('present'), strings())))
    members = [Member(k, v) for k, v in m.items()]
    tb_extra = draw(st.integers(0, 3)) == 0
    want_tb = None
    if tb == 'null':
        members.append(Member('tokenBinding', None))
    elif tb is not None:
        status, ident = tb
        t = [Member('status', status)]
        if ident is not None and ident != 0:
            t.append(Member('id', ident))
        elif ident == 0 and type(ident) is int:
            t.append(Member('id', None))
            ident = None
        if tb_extra:
            t.append(Member(draw(st.sampled_from(['Status', 'ID', 'ids', 'x'])), draw(unknown_value())))
        t = draw(st.permutations(t))
        members.append(Member('tokenBinding', Obj(t)))
        want_tb = (status, ident)
    names = draw(st.lists(st.one_of(strings(), st.sampled_from(
        ['crossOrigin', 'clientExtensions', 'hashAlgorithm', 'Type', 'type ', 'Challenge',
         'token_binding', 'tokenbinding', 'origins', 'id', 'status', 'topOrigin'])),
        max_size=3, unique=True))
    for n in names:
        if n not in KNOWN:
            members.append(Member(n, draw(unknown_value())))
    for n in draw(st.lists(st.sampled_from(REAL), max_size=2, unique=True)):
        if n not in names:
            members.append(Member(n, draw(real_value())))
    members = Obj(draw(st.permutations(members)))
    return {'members': members, 'enc': draw(choices()), 'm': m, 'tb': want_tb}


def render(members, enc):
    it = iter(enc)
    return WS[next(it, 0) % 8].join(['', js(members, it), '']).encode('utf-8')


@prop(good, quick=18000, thorough=200000)
def faithful(c, rec):
    from webauthn_rp.errors import ParserError
    from webauthn_rp.parsers import parse_client_data
    raw = render(c['members'], c['enc'])
    try:
        o = parse_client_data(raw)
    except ParserError as e:
        rec.fail('valid client data refused', data=raw, error=e)
    for k in ('type', 'challenge', 'origin'):
        v = getattr(o, k)
        rec.check(type(v) is str and v == c['m'][k], 'wrong ' + k, got=v, want=c['m'][k], data=raw)
    if c['tb'] is None:
        rec.check(o.token_binding is None, 'token binding invented', got=o.token_binding, data=raw)
    else:
        rec.check(o.token_binding is not None, 'token binding lost', data=raw)
        rec.check((o.token_binding.status.value, o.token_binding.id) == c['tb'],
                  'wrong token binding', got=vars(o.token_binding), want=c['tb'], data=raw)
    rec.label('tb %s' % (c['tb'][0] if c['tb'] else None))
    if c['tb'] or len(c['members']) > 3 or b'\\' in raw or any(b > 127 for b in raw):
        rec.nt(raw)


NOT_STR = [None, True, False, 0, 1, -1.5, Verb('1e3'), [], Obj(), ['webauthn.get'],
           Obj([Member('a', 'b')])]
BAD_UTF8 = [b'\xff', b'\x80', b'\xc0\x80', b'\xc1\xbf', b'\xc3', b'\xe2\x82', b'\xed\xa0\x80',
            b'\xed\xbf\xbf', b'\xf4\x90\x80\x80', b'\xf8\x88\x80\x80\x80', b'\xf0\x80\x80\xaf', b'\xe0\x80\xaf',
            b'\xc3\x28']


@st.composite
def bad(draw):
    c = draw(good())
    members = list(c['members'])
    k = draw(st.sampled_from(['utf8', 'cut', 'tail', 'syntax', 'object', 'drop', 'wrong', 'tb type',
                              'tb nostatus', 'tb status', 'tb noid', 'tb id', 'utf16', 'literal']))
    if k == 'literal':
        # somewhere inside a member that is not looked at, or in the place of one that is
        lit = Verb(draw(st.sampled_from(NOT_JSON)))
        if draw(st.booleans()):
            lit = draw(st.sampled_from([[lit], [1, lit], Obj([Member('a', lit)]), [Obj([Member('b', [lit])])]]))
        at = draw(st.integers(0, len(members)))
        if at < len(members) and draw(st.booleans()):
            members[at] = Member(members[at].k, lit)
        else:
            members.insert(at, Member(draw(st.sampled_from(['extra', 'crossOrigin', 'n'])), lit))
    names = [m.k for m in members]
    if k in ('drop', 'wrong'):
        which = draw(st.sampled_from(KNOWN[:3]))
        i = names.index(which)
        if k == 'drop':
            if draw(st.booleans()):
                members.append(Member(draw(st.sampled_from([which.upper(), which + ' ', which.title()])),
                                      members[i].v))
            del members[i]
            have = [m.k for m in members]
            for n in draw(st.lists(st.sampled_from(REAL), max_size=5, unique=True)):
                if n not in have:
                    members.append(Member(n, draw(real_value())))
        else:
            members[i] = Member(which, draw(st.sampled_from(NOT_STR)))
    if k.startswith('tb'):
        ms = [m for m in members if m.k != 'tokenBinding']
        status = draw(st.sampled_from(['present', 'supported']))
        if k == 'tb type':
            v = draw(st.sampled_from([True, False, 0, 1, '', 'present', 'supported', [], ['present'],
                                      1.5, ['status', 'present']]))
        elif k == 'tb nostatus':
            v = Obj([Member('id', 'x')] if draw(st.booleans()) else [])
            if draw(st.booleans()):
                v.append(Member('status', None))
        elif k == 'tb status':
            s = draw(st.one_of(st.sampled_from(
                ['not-supported', 'Present', 'PRESENT', 'presents', 'SUPPORTED', 'present ', '', 0, 1,
                 True, False, [], Obj(), ['present'], 'unsupported', 'support', 1.0]),
                gen.text(6).filter(lambda x: x not in ('present', 'supported'))))
            v = Obj([Member('status', s), Member('id', 'x')])
        elif k == 'tb id':
            v = Obj(draw(st.permutations([Member('status', status), Member('id', draw(st.sampled_from(
                [v for v in NOT_STR if v is not None])))])))
        else:
            v = Obj([Member('status', 'present')])
            if draw(st.booleans()):
                v.append(Member('id', None))
        ms.insert(draw(st.integers(0, len(ms))), Member('tokenBinding', v))
        members = ms
    if k == 'object':
        inner = Obj(members)
        members = draw(st.sampled_from([[inner], None, True, 3, 'x', [], 1.5, [['type', 'x']]]))
    else:
        members = Obj(members)
    raw = render(members, c['enc']) if members is not None else b'null'
    if k == 'utf16':
        raw = raw.decode().encode(draw(st.sampled_from(['utf-16', 'utf-16-le', 'utf-32', 'utf-16-be'])))
    if k == 'utf8':
        i = draw(st.integers(0, len(raw)))
        while 0 < i < len(raw) and raw[i] & 0xc0 == 0x80:
            i -= 1
        if draw(st.booleans()):
            j = raw.find(b'"', i)
            i = j + 1 if j >= 0 else i
        raw = raw[:i] + draw(st.sampled_from(BAD_UTF8)) + raw[i:]
    elif k == 'cut':
        body = raw.rstrip()
        raw = body[:draw(st.integers(0, len(body) - 1))]
    elif k == 'tail':
        raw = raw + draw(st.sampled_from([b'}', b'{}', b',', b'x', b'""', b'null', b'\x00', b']', b'//']))
    elif k == 'syntax':
        body = raw.strip()
        raw = draw(st.sampled_from([
            body[:-1] + b',}', body.replace(b':', b'=', 1) if b':' in body else b'{=}', b'{' + body,
            body[1:], b"{'type':'a','challenge':'b','origin':'c'}", b'{type:"a"}', b'/**/' + body,
            b'{"type":"a","challenge":"b","origin":"c\n"}', b'{"type":"a","challenge":"b","origin":"\\x41"}',
            b'{"type":"a" "challenge":"b","origin":"c"}', b'{"type":"a","challenge":"b","origin":"\\u12"}',
            b'{"type":"a","challenge":"b","origin":"c","n":01}', b'', b' ', b'\x0b' + body,
            b'\xc2\xa0' + body,
            b'{"type":"a","challenge":"b","origin":"c","n":+1}', b'{"type":"a","challenge":"b","origin":"c',
            b'{"type":"a","challenge":"b","origin":"\x00"}', b'{"type":"a",,"challenge":"b","origin":"c"}']))
        # replacing ':' by '=' inside a string would leave the text valid
        if raw.count(b'=') and raw == body.replace(b':', b'=', 1):
            raw = b'{"type"="a","challenge":"b","origin":"c"}'
    return {'kind': k, 'raw': raw}


DECODE = ('utf8', 'cut', 'tail', 'syntax', 'utf16', 'literal')


@prop(bad, quick=18000, thorough=200000)
def refusals(c, rec):
    from webauthn_rp.errors import DecodingError, ParserError
    from webauthn_rp.parsers import parse_client_data
    try:
        o = parse_client_data(c['raw'])
    except ParserError as e:
        rec.label('%s %s' % (c['kind'], type(e).__name__))
        if c['kind'] in DECODE:
            rec.check(isinstance(e, DecodingError), 'undecodable client data not a DecodingError',
                      data=c['raw'], error=e)
        rec.nt((c['kind'], c['raw']))
        return
    rec.fail('malformed client data accepted', kind=c['kind'], data=c['raw'], got=vars(o))
