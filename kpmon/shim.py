"""Build and control the libc fault shim."""
import ctypes
import hashlib
import os
import subprocess
import sys
import tempfile

from .fw import VERIF

SRC = os.path.join(VERIF, 'shim', 'faultshim.c')
OFF, COUNT, FAIL_ONCE, FAIL_FROM, SHORT, KILL_BEFORE, KILL_AFTER, SHORT_KILL, INTERRUPT = range(9)
MODES = {FAIL_ONCE: 'fail', FAIL_FROM: 'fail from here', SHORT: 'short write', KILL_BEFORE: 'kill before', KILL_AFTER: 'kill after', SHORT_KILL: 'short write and kill', INTERRUPT: 'interrupt'}


def build():
    with open(SRC, 'rb') as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(VERIF, 'build', 'faultshim-%s.so' % h)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        fd, tmp = tempfile.mkstemp(dir=os.path.dirname(out), suffix='.so')
        os.close(fd)
        subprocess.run(['gcc', '-O1', '-fPIC', '-shared', '-Wall', '-o', tmp, SRC, '-ldl'], check=True)
        os.replace(tmp, out)
    return out


def ensure():
    """re-execute this process with the shim preloaded"""
    if os.environ.get('KPMON_SHIM'):
        return
    env = dict(os.environ, LD_PRELOAD=build(), KPMON_SHIM='1')
    os.execve(sys.executable, [sys.executable, '-B', '-m', 'kpmon.main'] + sys.argv[1:], env)


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.kps_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_int]
        _lib.kps_log.restype = ctypes.c_char_p
        _lib.kps_capture.argtypes = [ctypes.c_int]
    return _lib


def arm(d, mode, n=0, err=0, writes=False):
    lib().kps_arm(os.fsencode(os.path.realpath(d)), mode, n, err, int(writes))


def second(mode, n, err=0):
    """a second fault at the n-th call after the first one"""
    lib().kps_second(mode, n, err)


def later():
    return lib().kps_later()


def disarm():
    lib().kps_disarm()


def calls():
    return lib().kps_calls()


def fired():
    return lib().kps_fired()


def log():
    return os.fsdecode(lib().kps_log()).splitlines()


def capture(fd):
    lib().kps_capture(fd)


if __name__ == '__main__':
    print(build())
