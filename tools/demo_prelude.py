import atexit
import io
import os
import shutil
import sys
import tempfile

REPO = os.getcwd()
sys.path.insert(0, REPO)
import pykeepass
from pykeepass import PyKeePass, create_database
assert os.path.realpath(pykeepass.__file__).startswith(os.path.realpath(REPO)), pykeepass.__file__
TMP = tempfile.mkdtemp()
atexit.register(shutil.rmtree, TMP, True)


def copy(version=4, name='db'):
    """scratch copy of a database of the repository's fixtures"""
    p = os.path.join(TMP, '%s%d.kdbx' % (name, version))
    shutil.copy(os.path.join(REPO, 'tests', 'test%d.kdbx' % version), p)
    return p


def key(version=4):
    return os.path.join(REPO, 'tests', 'test%d.key' % version)


def opendb(version=4, name='db'):
    return PyKeePass(copy(version, name), password='password', keyfile=key(version))


def reopen(kp):
    """save to a stream and open that"""
    f = io.BytesIO()
    kp.save(f)
    f.seek(0)
    return PyKeePass(f, password=kp.password, keyfile=kp.keyfile)

# ----------------------------------------------------------------------
