"""The databases other programs wrote, shipped with the test suite (read only, copied to scratch)."""
import os
from .fw import REPO

LIST = [('test3.kdbx', 'password', 'test3.key'), ('test4.kdbx', 'password', 'test4.key'), ('test4_aes.kdbx', 'password', 'test4.key'),
        ('test4_aeskdf.kdbx', 'password', 'test4.key'), ('test4_chacha20.kdbx', 'password', 'test4.key'), ('test4_twofish.kdbx', 'password', 'test4.key'),
        ('test4_hex.kdbx', 'password', 'test4_hex.key'), ('test4_aes_uncompressed.kdbx', 'password', None), ('test4_twofish_uncompressed.kdbx', 'password', None),
        ('test4_chacha20_uncompressed.kdbx', 'password', None), ('test4_argon2id.kdbx', 'password', None), ('test4_blankpass.kdbx', '', 'test4.key'),
        ('test4_keyx.kdbx', 'password', 'test4_keyx.keyx')]


def load(i):
    """-> (name, bytes, password, keyfile bytes or None) or None"""
    name, pw, key = LIST[i]
    try:
        with open(os.path.join(REPO, 'tests', name), 'rb') as f:
            data = f.read()
        kf = None
        if key:
            with open(os.path.join(REPO, 'tests', key), 'rb') as f:
                kf = f.read()
    except FileNotFoundError:
        return None
    return name, data, pw, kf
