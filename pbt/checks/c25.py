"""C25: Android key descriptions decode to exactly what was encoded."""
from pbt import der, gen
from pbt.core import prop
from pbt.stx import st

RULE = """A case is a key description written by an own DER writer from a table of the published schema: any
subset (none, one, all, all but one) of the 35 optional fields in either list, integers of any size and sign, sets, octet
strings, root of trust, any security level. Decoding through the library's schema must give the same
values, each field present exactly when written; encoding again must give the same bytes; and the schema
filled in through its API must encode to the writer's bytes. Corrupted cases apply one structural change
that leaves no description per the schema. Non-trivial: at least one optional field, or a corruption.
Distinct by content."""
ASSUMES = ['the DER decoder and encoder (pyasn1) are as installed: its leniency about non-minimal lengths '
           'and integers, booleans other than 0xff, unsorted or repeated set elements, enumerated values '
           'outside the schema and trailing bytes is not judged',
           'empty sets are compared when decoding only (pyasn1 leaves them out when encoding), and '
           'so are integers -2**(8k-1) (pyasn1 writes them with an extra byte)']


@st.composite
def auth(draw):
    how = draw(st.sampled_from(['some', 'some', 'all', 'all but', 'one', 'none']))
    tags = sorted(gen.AUTHZ)
    if how == 'some':
        tags = draw(st.lists(st.sampled_from(tags), unique=True, max_size=12))
    elif how == 'all but':
        out = draw(st.lists(st.sampled_from(tags), unique=True, min_size=1, max_size=3))
        tags = [t for t in tags if t not in out]
    elif how == 'one':
        tags = [draw(st.sampled_from(tags))]
    elif how == 'none':
        tags = []
    a = {t: draw(gen.authz_value(gen.AUTHZ[t][1])) for t in sorted(tags)}
    for t in a:
        if gen.AUTHZ[t][1] == 's':
            a[t] = sorted(set(a[t]))
    return a


@st.composite
def description(draw):
    return {'av': draw(gen.asn_int()), 'asl': draw(st.integers(0, 2)), 'kv': draw(gen.asn_int()),
            'ksl': draw(st.integers(0, 2)), 'challenge': draw(gen.blob(0, 300)),
            'uid': draw(gen.blob(0, 200)), 'se': draw(auth()), 'tee': draw(auth())}


NAMES = ['attestationVersion', 'attestationSecurityLevel', 'keymasterVersion',
         'keymasterSecurityLevel', 'attestationChallenge', 'uniqueId', 'softwareEnforced', 'teeEnforced']


def read(o, names):
    return {n: o[n] for n in names if o[n].hasValue()}


def value(typ, o):
    if typ == 'i':
        return int(o)
    if typ == 's':
        return sorted(int(x) for x in o)
    if typ == 'n':
        return None
    if typ == 'o':
        return o.asOctets()
    return (o['verifiedBootKey'].asOctets(), bool(o['deviceLocked']), int(o['verifiedBootState']),
            o['verifiedBootHash'].asOctets())


def odd_int(c):
    """pyasn1 writes -2**(8k-1) with one byte too many; such descriptions are only decoded."""
    vals = [c['av'], c['kv']]
    for k in ('se', 'tee'):
        for t, v in c[k].items():
            vals += [v] if gen.AUTHZ[t][1] == 'i' else v if gen.AUTHZ[t][1] == 's' else []
    return any(v < 0 and v == -1 << 8 * ((v.bit_length() + 7) // 8) - 1 for v in vals)


def check_auth(rec, where, o, want):
    got = {}
    by_name = {n: (t, typ) for t, (n, typ) in gen.AUTHZ.items()}
    names = list(o.componentType)
    rec.check(sorted(names) == sorted(by_name), 'fields of the schema', got=names)
    for n in names:
        if o[n].hasValue():
            t, typ = by_name[n]
            got[t] = value(typ, o[n])
    rec.check(sorted(got) == sorted(want), 'presence of optional fields', where=where,
              got=sorted(got), want=sorted(want))
    for t in want:
        rec.check(gen.same(got[t], want[t]), 'field value', where=where, field=gen.AUTHZ[t],
                  got=got[t], want=want[t])


@prop(description, quick=8000, thorough=80000)
def decodes(c, rec):
    from pyasn1.codec.der.decoder import decode
    from pyasn1.codec.der.encoder import encode
    from webauthn_rp.asn1 import KeyDescription
    raw = gen.kd_der(c)
    try:
        o, rest = decode(raw, KeyDescription())
    except Exception as e:
        rec.fail('a description per the schema was refused', error=e, raw=raw)
    rec.check(rest == b'', 'left over', got=rest)
    rec.check(list(o.componentType) == NAMES, 'fields of the schema', got=list(o.componentType))
    got = (int(o['attestationVersion']), int(o['attestationSecurityLevel']), int(o['keymasterVersion']),
           int(o['keymasterSecurityLevel']), o['attestationChallenge'].asOctets(), o['uniqueId'].asOctets())
    rec.check(got == (c['av'], c['asl'], c['kv'], c['ksl'], c['challenge'], c['uid']), 'mandatory fields',
              got=got)
    check_auth(rec, 'softwareEnforced', o['softwareEnforced'], c['se'])
    check_auth(rec, 'teeEnforced', o['teeEnforced'], c['tee'])
    want = gen.kd_der(dict(c, **{k: {t: v for t, v in c[k].items() if v != []} for k in ('se', 'tee')}))
    rec.check(odd_int(c) or encode(o) == want, 'encoding again differs', got=encode(o), want=want)
    rec.label('%d fields' % ((len(c['se']) + len(c['tee'])) // 8 * 8))
    if c['se'] or c['tee']:
        rec.nt(c)


@prop(description, quick=4000, thorough=40000)
def encodes(c, rec):
    """The schema filled in through its own API encodes to the writer's bytes."""
    from pyasn1.codec.der.encoder import encode
    from webauthn_rp.asn1 import KeyDescription
    o = KeyDescription()
    for n, v in zip(NAMES, (c['av'], c['asl'], c['kv'], c['ksl'], c['challenge'], c['uid'])):
        o[n] = v
    for n, k in (('softwareEnforced', 'se'), ('teeEnforced', 'tee')):
        o[n].clear()
        for t, v in c[k].items():
            name, typ = gen.AUTHZ[t]
            if typ == 's':
                if v:
                    o[n][name].extend(v)
            elif typ == 'n':
                o[n][name] = ''
            elif typ == 'r':
                for f, x in zip(('verifiedBootKey', 'deviceLocked', 'verifiedBootState', 'verifiedBootHash'), v):
                    o[n][name][f] = x
            else:
                o[n][name] = v
    want = gen.kd_der(dict(c, **{k: {t: v for t, v in c[k].items() if v != []} for k in ('se', 'tee')}))
    rec.check(odd_int(c) or encode(o) == want, 'encoding differs', got=encode(o), want=want)
    rec.label('%d fields' % ((len(c['se']) + len(c['tee'])) // 8 * 8))
    if c['se'] or c['tee']:
        rec.nt(c)


CORRUPT = ['drop', 'dup', 'swap', 'type', 'extra', 'cut', 'list order', 'list dup', 'list unknown',
           'list type', 'list plain', 'list implicit', 'rot drop', 'rot type', 'rot extra', 'rot swap',
           'outer', 'list set', 'null body', 'list item', 'retag']


@st.composite
def corrupted(draw):
    c = draw(description())
    w = draw(st.sampled_from(['se', 'tee']))
    for t in (704, 503, 702, 1):  # so that every corruption has something to corrupt
        if t not in c[w]:
            c[w][t] = draw(gen.authz_value(gen.AUTHZ[t][1]))
    c[w] = {t: c[w][t] for t in sorted(c[w])}
    return {'kd': c, 'where': w, 'how': draw(st.sampled_from(CORRUPT)), 'i': draw(st.integers(0, 10**4)),
            'wrong': draw(st.integers(0, 5))}


WRONG = [der.integer(1), der.octets(b'\x01'), der.null(), der.seq(), der.enumerated(1), der.boolean(True),
         der.set_of([der.integer(1)]), der.utf8('x')]


def item_der(t, v, mangle=None):
    typ = gen.AUTHZ[t][1]
    if typ == 'i':
        body = der.integer(v)
    elif typ == 's':
        body = der.set_of([der.integer(x) for x in v])
    elif typ == 'n':
        body = der.null()
    elif typ == 'o':
        body = der.octets(v)
    else:
        body = der.seq(der.octets(v[0]), der.boolean(v[1]), der.enumerated(v[2]), der.octets(v[3]))
    return body


def corrupt(c):
    kd, how, i, w = c['kd'], c['how'], c['i'], c['where']
    parts = [der.integer(kd['av']), der.enumerated(kd['asl']), der.integer(kd['kv']),
             der.enumerated(kd['ksl']), der.octets(kd['challenge']), der.octets(kd['uid']),
             gen.authz_der(kd['se']), gen.authz_der(kd['tee'])]
    kinds = [2, 10, 2, 10, 4, 4, 0x30, 0x30]
    items = [(t, item_der(t, v)) for t, v in kd[w].items()]

    def lst(inner, tag=0x30):
        p = list(parts)
        p[6 if w == 'se' else 7] = der.tlv(tag, b''.join(inner))
        return der.seq(*p)

    enc = [der.ctx(t, b) for t, b in items]
    j = i % 8
    if how == 'drop':
        return der.seq(*(parts[:j] + parts[j + 1:]))
    if how == 'dup':
        return der.seq(*(parts[:j] + parts[j:j + 1] + parts[j:]))
    if how == 'swap':
        j = [0, 1, 2, 3, 5][i % 5]  # the other neighbours have the same type
        return der.seq(*(parts[:j] + [parts[j + 1], parts[j]] + parts[j + 2:]))
    if how == 'type':
        bad = [b for b in WRONG if b[0] != kinds[j]]
        return der.seq(*(parts[:j] + [bad[c['wrong'] % len(bad)]] + parts[j + 1:]))
    if how == 'extra':
        return der.seq(*(parts + [WRONG[c['wrong']]]))
    if how == 'cut':
        raw = der.seq(*parts)
        return raw[:i % len(raw)]
    if how == 'list order':
        a = i % (len(enc) - 1)
        enc[a], enc[a + 1] = enc[a + 1], enc[a]
        return lst(enc)
    if how == 'list dup':
        a = i % len(enc)
        return lst(enc[:a] + enc[a:a + 1] + enc[a:])
    if how == 'list unknown':
        t = [0, 4, 7, 199, 302, 500, 602, 700, 707, 708, 720, 1000, 65536][i % 13]
        n = sum(x < t for x, _ in items)
        return lst(enc[:n] + [der.ctx(t, WRONG[c['wrong']])] + enc[n:])
    a = i % len(items)
    t, body = items[a]
    if how in ('list type', 'retag'):
        kind = {'i': 2, 's': 0x31, 'n': 5, 'o': 4, 'r': 0x30}[gen.AUTHZ[t][1]]
        if how == 'retag':  # the right contents under another universal tag
            other = [k for k in (2, 4, 5, 0x30, 0x31, 10) if k != kind][c['wrong'] % 5]
            return lst(enc[:a] + [der.ctx(t, bytes([other]) + body[1:])] + enc[a + 1:])
        bad = [b for b in WRONG if b[0] != kind]
        return lst(enc[:a] + [der.ctx(t, bad[c['wrong'] % len(bad)])] + enc[a + 1:])
    if how == 'list plain':
        return lst(enc[:a] + [body] + enc[a + 1:])
    if how == 'list item':
        return lst(enc[:a] + [WRONG[c['wrong']]] + enc[a:])
    if how == 'list implicit':
        # context tag in place of, not around, the field's own tag
        full = der.ctx(t, b'')[:-1]
        first = bytes([full[0] & 0xdf]) + full[1:]
        return lst(enc[:a] + [first + body[1:]] + enc[a + 1:])
    if how == 'list set':
        return lst(enc, 0x31)
    if how == 'null body':
        return lst([der.ctx(t, b'\x05\x01\x00') if t == 503 else e for (t, _), e in zip(items, enc)])
    if how.startswith('rot'):
        v = kd[w][704]
        f = [der.octets(v[0]), der.boolean(v[1]), der.enumerated(v[2]), der.octets(v[3])]
        k = i % 4
        if how == 'rot drop':
            f = f[:k] + f[k + 1:]
        elif how == 'rot type':
            bad = [b for b in WRONG if b[0] != [4, 1, 10, 4][k]]
            f[k] = bad[c['wrong'] % len(bad)]
        elif how == 'rot extra':
            f = f + [WRONG[c['wrong']]]
        else:
            k = k % 3
            f[k], f[k + 1] = f[k + 1], f[k]
        return lst([der.ctx(t, der.seq(*f)) if t == 704 else e for (t, _), e in zip(items, enc)])
    if how == 'outer':
        raw = der.seq(*parts)
        return bytes([[0x31, 0x04, 0x10, 0xa0, 0x24, 0x02][c['wrong']]]) + raw[1:]
    raise KeyError(how)


@prop(corrupted, quick=12000, thorough=100000)
def refused(c, rec):
    from pyasn1.codec.der.decoder import decode
    from pyasn1.error import PyAsn1Error
    from webauthn_rp.asn1 import KeyDescription
    raw = corrupt(c)
    try:
        o, rest = decode(raw, KeyDescription())
    except PyAsn1Error:
        pass
    except Exception as e:
        rec.fail('not a decoding error', error=e, raw=raw)
    else:
        rec.fail('not a description per the schema, but decoded', how=c['how'], i=c['i'], raw=raw,
                 got=o.prettyPrint())
    rec.label(c['how'])
    rec.nt(c)
