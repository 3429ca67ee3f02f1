"""C02: a refused registration raises the documented error for a violated requirement."""
from pbt import gen
from pbt.checks import c01
from pbt.core import prop

RULE = c01.RULE + """ The error class must be that of a violated requirement."""
ASSUMES = c01.ASSUMES + [
    'a response without attested credential data may be refused with any library error (no '
    'specific one is documented)']


def judge(rec):
    from webauthn_rp import errors

    def j(i, c, kw, viol, info, out, reg):
        if not viol:
            rec.check(out[0] == 'ok', 'error raised although every requirement holds', step=i,
                      error=out[2])
            return
        rec.check(out[0] == 'error', 'no error although requirements are violated',
                  violated=sorted(viol))
        rec.check(gen.is_lib_error(out[2]), 'error outside the library hierarchy', error=out[2])
        if 'noacd' in viol:
            return
        want = tuple(getattr(errors, gen.ERRORS[v]) for v in viol)
        rec.check(isinstance(out[2], want), 'error of a requirement that is not violated',
                  error=out[2], violated=sorted(viol))
    return j


@prop(c01.histories, quick=8000, thorough=60000)
def error_class(case, rec):
    c01.run_history(case, rec, judge(rec))


@prop(c01.singles, quick=9600, thorough=80000)
def single_error_class(case, rec):
    c01.run_history(case, rec, judge(rec))


@prop(c01.attested, quick=9000, thorough=80000)
def attestation_error_class(case, rec):
    c01.run_history(case, rec, judge(rec))


@prop(c01.look_alikes, quick=5000, thorough=50000)
def look_alike_error_class(case, rec):
    c01.run_history(case, rec, judge(rec))
