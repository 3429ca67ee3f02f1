import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PBT_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
# Hypothesis only: appended last, so cryptography, cbor2 and pyasn1 stay those of /opt/venv.
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

try:
    import hypothesis  # noqa: E402
    import webauthn_rp  # noqa: E402
except BaseException as e:
    sys.stderr.write('cannot import: %r\n' % (e, ))
    sys.exit(2)

if not os.path.abspath(webauthn_rp.__file__).startswith(os.path.abspath(REPO) + os.sep):
    sys.exit('wrong webauthn_rp: %s' % webauthn_rp.__file__)

if sys.argv[1:] == ['--setup']:
    # nothing to build: the package and the checks are plain Python
    print('ready: hypothesis %s, webauthn_rp from %s' % (hypothesis.__version__, REPO))
    sys.exit(0)

from pbt.core import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
