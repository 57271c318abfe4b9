"""Realistic bugs planted in pykeepass to test the checks (see plant.py)."""
P = 'pykeepass/pykeepass.py'
E = 'pykeepass/entry.py'
G = 'pykeepass/group.py'
B = 'pykeepass/baseelement.py'
A = 'pykeepass/attachment.py'
X = 'pykeepass/xpath.py'
C = 'pykeepass/kdbx_parsing/common.py'
K3 = 'pykeepass/kdbx_parsing/kdbx3.py'
K4 = 'pykeepass/kdbx_parsing/kdbx4.py'
TF = 'pykeepass/kdbx_parsing/twofish.py'
BUGS = []


def bug(id, property, edits, needs, breaks, demo=None, props=None):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, props=props or [property]))


bug('c01-block-multiple', 'C01', [(C, "        blocks.append(Container(block_data=b''))\n\n        return blocks",
    "        if not blocks or len(blocks[-1].block_data) < 2**20:\n            blocks.append(Container(block_data=b''))\n\n        return blocks")],
    'an encrypted payload whose length is an exact multiple of 1 MiB',
    'the terminating block is left out, so the saved database cannot be opened again', '''
from pykeepass.kdbx_parsing.common import Concatenated
import random
kp = PyKeePass(os.path.join(REPO, 'tests', 'test4_aes_uncompressed.kdbx'), password='password')
kp.add_binary(random.Random(1).randbytes(2**20))
def size():
    f = io.BytesIO(); kp.save(f); return len(f.getvalue())
sizes = []
orig = Concatenated._encode
def spy(self, data, con, path):
    sizes.append(len(data)); return orig(self, data, con, path)
Concatenated._encode = spy
size()
pad = -sizes[-1] % 2**20
kp.payload.inner_header.binary[-1].data += bytes(max(pad - 8, 0))
size()
assert sizes[-1] % 2**20 == 0, sizes
n = len(kp.binaries[-1])
assert len(reopen(kp).binaries[-1]) == n
''')

bug('c01-astral', 'C01', [(C, "\\uE000-\\uFFFD\\U00010000-\\U0010FFFF]+'", "\\uE000-\\uFFFD]+'")],
    'a protected value with a character outside the basic multilingual plane', 'the character is lost when the database is reopened', '''
kp = opendb()
kp.entries[0].password = 'pa\\U0001F511ss'
assert reopen(kp).entries[0].password == 'pa\\U0001F511ss'
''', ['C01', 'C02'])

bug('c01-whitespace-protected', 'C01', [(C, "        for elem in tree_copy.xpath(self.protected_xpath):\n            if elem.text is not None:",
    "        for elem in tree_copy.xpath(self.protected_xpath):\n            if elem.text and elem.text.strip():")],
    'a protected value that consists of white space', 'the value is stored in clear and garbled when the database is reopened', '''
kp = opendb()
kp.entries[0].password = '    '
kp.entries[1].password = 'after'
kp2 = reopen(kp)
assert [kp2.entries[0].password, kp2.entries[1].password] == ['    ', 'after']
''', ['C01', 'C02', 'C07'])

bug('c02-aligned-padding', 'C02', [(C, """        return AES.new(master_key, AES.MODE_CBC, encryption_iv)
    def pad(self, data):
        return CryptoPadding.pad(data, 16)""", """        return AES.new(master_key, AES.MODE_CBC, encryption_iv)
    def pad(self, data):
        # already aligned data needs no padding
        return data if len(data) % 16 == 0 else CryptoPadding.pad(data, 16)""")],
    'a payload whose length is a multiple of the cipher block', 'the file lacks the mandatory PKCS#7 block: other programs refuse it', '''
from Cryptodome.Cipher import AES
import pykeepass.kdbx_parsing.common as common
lens = set()
kp = PyKeePass(os.path.join(REPO, 'tests', 'test4_aes_uncompressed.kdbx'), password='password')
class Spy(common.AES256Payload):
    pass
a = common.AES256Payload(common.GreedyBytes)
for n in range(0, 64):
    out = a.pad(bytes(n))
    assert len(out) % 16 == 0 and len(out) > n and out[n:] == bytes([len(out) - n]) * (len(out) - n), n
''')

bug('c03-nfc-password', 'C03', [(C, "        password_composite = hashlib.sha256(password.encode('utf-8')).digest()",
    "        password_composite = hashlib.sha256(unicodedata.normalize('NFC', password).encode('utf-8')).digest()"),
    (C, "import re\nimport zlib", "import re\nimport unicodedata\nimport zlib")],
    'two passwords that differ only in their Unicode normal form', 'a different password opens the database (and other programs cannot open it)', '''
from pykeepass.exceptions import CredentialsError
kp = opendb()
kp.password = 'caf\\u00e9'
kp.save()
try:
    PyKeePass(kp.filename, password='cafe\\u0301', keyfile=key())
except CredentialsError:
    sys.exit(0)
sys.exit('opened with another password')
''', ['C03', 'C02'])

bug('c03-missing-keyfile-ignored', 'C03', [(C, """            with open(keyfile, 'rb') as f:
                keyfile_bytes = f.read()""", """            try:
                with open(keyfile, 'rb') as f:
                    keyfile_bytes = f.read()
            except IsADirectoryError:
                keyfile_bytes = b''""")],
    'a key file path that is a directory', 'the save goes through with the hash of an empty key file as the key', '''
kp = opendb()
kp.keyfile = TMP
try:
    kp.save()
except OSError:
    sys.exit(0)
sys.exit('saved with a directory as key file')
''', ['C03', 'C04', 'C06'])

bug('c04-v2-short-hash', 'C04', [(C, "                hash_computed = hashlib.sha256(keyfile_composite).digest()[:4]", "                hash_computed = hashlib.sha256(keyfile_composite).digest()[:len(hash)]")],
    'a version 2.0 key file with a truncated hash attribute', 'a key file whose hash does not match the format is accepted', '''
import hashlib
p = os.path.join(TMP, 'k.keyx')
d = bytes(range(32))
open(p, 'w').write('<?xml version="1.0"?><KeyFile><Meta><Version>2.0</Version></Meta><Key><Data Hash="">%s</Data></Key></KeyFile>' % d.hex())
from pykeepass.kdbx_parsing.common import compute_key_composite
try:
    compute_key_composite(password='a', keyfile=p)
except Exception:
    sys.exit(0)
sys.exit('accepted')
''')

bug('c04-strip-plain', 'C04', [(C, "            with open(keyfile, 'rb') as f:\n                keyfile_bytes = f.read()", "            with open(keyfile, 'rb') as f:\n                keyfile_bytes = f.read().rstrip(b'\\r\\n')")],
    'a plain key file that ends with a line break, given as a path', 'it derives another key than the same content given as a stream (and than KeePass)', '''
from pykeepass.kdbx_parsing.common import compute_key_composite
p = os.path.join(TMP, 'k')
open(p, 'wb').write(b'some secret\\n')
assert compute_key_composite(keyfile=p) == compute_key_composite(keyfile=io.BytesIO(b'some secret\\n'))
''')

bug('c05-final-block', 'C05', [(K4, """    "hmac_hash" / Pointer(
        this.hmac_hash_offset,
        Checksum(
            Bytes(32),
            compute_payload_block_hash,""", """    "hmac_hash" / Pointer(
        this.hmac_hash_offset,
        BlockChecksum(
            Bytes(32),
            compute_payload_block_hash,"""), (K4, "# encrypted payload is split into multiple data blocks with hashes", """class BlockChecksum(Checksum):
    def _parse(self, stream, context, path):
        # the final block carries no data
        if not context.block_data:
            return self.checksumfield._parsereport(stream, context, path)
        return super()._parse(stream, context, path)


# encrypted payload is split into multiple data blocks with hashes""")],
    'a file cut at a block boundary and closed with an empty block that nobody authenticated', 'the terminating block is not verified, so a truncation can be hidden', '''
from pykeepass.exceptions import PayloadChecksumError
p = copy()
kp = PyKeePass(p, password='password', keyfile=key())
kp.save()
d = bytearray(open(p, 'rb').read())
d[-10] ^= 1           # HMAC of the empty last block
open(p, 'wb').write(d)
try:
    PyKeePass(p, password='password', keyfile=key())
except PayloadChecksumError:
    sys.exit(0)
sys.exit('accepted')
''')

bug('c05-block-index', 'C05', [(K3, """        lambda this: this._index,
        this
    ),""", """        lambda this: this._index if this._building else unpack_index(this._io),
        this
    ),"""), (K3, "PayloadBlock = Struct(", """def unpack_index(stream):
    return int.from_bytes(stream.getvalue()[stream.tell() - 4:stream.tell()], 'little')


PayloadBlock = Struct(""")],
    'a KDBX3 payload whose blocks were exchanged (encrypted with ChaCha20, or by whoever can encrypt)', 'reordered blocks are accepted', '''
from pykeepass.kdbx_parsing.kdbx3 import PayloadBlocks
import hashlib, struct
def blk(i, d):
    return struct.pack('<I', i) + (hashlib.sha256(d).digest() if d else bytes(32)) + struct.pack('<I', len(d)) + d
PayloadBlocks.parse(blk(0, b'ab') + blk(1, b'cd') + blk(2, b''))
try:
    PayloadBlocks.parse(blk(1, b'cd') + blk(0, b'ab') + blk(2, b''))
except Exception:
    sys.exit(0)
sys.exit('accepted')
''')

bug('c05-unpad-tolerant', 'C05', [(K4, '''        struct.pack('<Q', this._index) +
        struct.pack('<I', len(this.block_data)) +
        this.block_data, hashlib.sha256''', '''        struct.pack('<Q', this._index) +
        struct.pack('<I', len(this.block_data)) +
        this.block_data[:2**20], hashlib.sha256''')],
    'a block larger than 1 MiB written by another program', 'the part of a block beyond 1 MiB is not authenticated', '''
from pykeepass.kdbx_parsing import kdbx4
from construct import Container
def h(data):
    root = Container(header=Container(value=Container(dynamic_header=Container(master_seed=Container(data=b'x')))))
    c = Container(_index=0, block_data=data, _=Container(transformed_key=b'k', _=root))
    c['_']['_'] = root
    this = Container(_index=0, block_data=data)
    this['_'] = Container(transformed_key=b'k')
    this['_']['_'] = root
    this['_']['header'] = root.header
    return kdbx4.compute_payload_block_hash(this)
assert h(bytes(2**20 + 4)) != h(bytes(2**20 + 3) + b'x')
''')

bug('c06-mode-r', 'C06', [(P, "                KDBX.build_file(\n                    self.kdbx,\n                    filename_tmp,", "                os.path.exists(filename) and os.stat(filename).st_size == 0 and os.remove(filename)\n                KDBX.build_file(\n                    self.kdbx,\n                    filename_tmp,")],
    'a failing save onto an empty placeholder file', 'the file at the target path is removed although nothing was saved', '''
p = os.path.join(TMP, 'x.kdbx')
open(p, 'wb').close()
kp = opendb()
kp.keyfile = os.path.join(TMP, 'nope')
try:
    kp.save(p)
except OSError:
    pass
assert os.path.exists(p)
''')

bug('c07-history-protect', 'C07', [(E, "            archive.remove(hist)\n            self._element.find('History').append(archive)", "            archive.remove(hist)\n            for v in archive.findall('String/Value[@Protected]'):\n                if not v.text:\n                    del v.attrib['Protected']\n            self._element.find('History').append(archive)")],
    'a second snapshot of an entry with an empty protected field', 'the snapshot loses the protection flag', '''
kp = opendb()
e = kp.add_entry(kp.root_group, 't', 'u', '')
e.save_history(); e.save_history()
assert all(h._is_property_protected('Password') for h in e.history)
''', ['C07', 'C12'])

bug('c08-tags-dedupe', 'C08', [(E, "        v = sep.join(value if isinstance(value, list) else [value])", "        v = sep.join(dict.fromkeys(value) if isinstance(value, list) else [value])")],
    'a tag list with a repeated tag', 'the assigned list does not read back', '''
kp = opendb()
e = kp.entries[0]
e.tags = ['a', 'b', 'a']
assert e.tags == ['a', 'b', 'a']
''')

bug('c08-notes-strip', 'C08', [(G, "        return self._set_subelement_text('Notes', value)", "        return self._set_subelement_text('Notes', value and value.strip())")],
    'group notes that begin or end with white space', 'the white space is dropped', '''
kp = opendb()
g = kp.add_group(kp.root_group, 'g')
g.notes = '  indented\\n'
assert g.notes == '  indented\\n'
''')

bug('c08-custom-prop-first', 'C08', [(E, "        if key not in self._get_string_field_keys(exclude_reserved=True):\n            raise AttributeError('No such key: {}'.format(key))", "        if key not in self._get_string_field_keys(exclude_reserved=True):\n            raise AttributeError('No such key: {}'.format(key))\n        if self._element.find('History') is not None:\n            for h in self.history:\n                if key in h.custom_properties and h.get_custom_property(key) == self.get_custom_property(key):\n                    h.delete_custom_property(key)")],
    'deleting a custom property of an entry whose history has the same value', 'history entries lose the property', '''
kp = opendb()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e.set_custom_property('k', 'v')
e.save_history()
e.delete_custom_property('k')
assert e.history[0].get_custom_property('k') == 'v'
''', ['C08', 'C12'])

bug('c09-append-same-parent', 'C09', [(G, "        else:\n            self._element.append(entries._element)", "        elif entries._element.getparent() is not self._element:\n            self._element.append(entries._element)")],
    'moving an element to the group it is already in', 'it is not put at the end', '''
kp = opendb()
g = kp.add_group(kp.root_group, 'g')
a = kp.add_entry(g, 'a', '', ''); b = kp.add_entry(g, 'b', '', '')
kp.move_entry(a, g)
assert [e.title for e in g.entries] == ['b', 'a']
''')

bug('c09-list-append', 'C09', [(G, "            for e in entries:\n                self._element.append(e._element)", "            for e in set(entries):\n                self._element.append(e._element)")],
    'appending a list of entries', 'the elements are not added in the order of the list', '''
kp = opendb()
g = kp.add_group(kp.root_group, 'g')
es = [kp.add_entry(kp.root_group, 'e%d' % i, '', '') for i in range(9)]
g.append(es)
assert [e.title for e in g.entries] == ['e%d' % i for i in range(9)]
''')

bug('c10-otp-regex', 'C10', [(X, """'otp': '/String/Key[text()="otp"]/../Value[re:test(text(), "{}", "{flags}")]/../..',""", """'otp': '/String/Key[text()="otp"]/../Value[re:test(text(), "{}")]/../..',""")],
    'a regex search for an OTP with flags', 'the flags are ignored', '''
kp = opendb()
e = kp.add_entry(kp.root_group, 'tt', 'uu', 'p', otp='otpauth://ABC')
assert e in kp.find_entries(otp='abc', regex=True, flags='i')
''')

bug('c10-window-prefix', 'C10', [(X, """'autotype_window': '/AutoType/Association/Window[text()="{}"]/../../..',""", """'autotype_window': '/AutoType/Association[1]/Window[text()="{}"]/../../..',""")],
    'an entry with several window associations', 'only the first association is searched', '''
from lxml.builder import E
kp = opendb()
e = kp.add_entry(kp.root_group, 'tt', 'uu', 'p')
e._element.find('AutoType').append(E.Association(E.Window('second'), E.KeystrokeSequence('')))
assert kp.find_entries(autotype_window='second') == [e]
''')

bug('c11-deep-path', 'C11', [(X, """        'group': '/Group/Name[text()="{}"]/..',
        'entry': '/Entry/String/Key[text()="Title"]/../Value[text()="{}"]/../..',""", """        'group': '/Group/Name[text()="{}"]/..',
        'entry': '//Entry/String/Key[text()="Title"]/../Value[text()="{}"]/../..',""")],
    'an entry of that title in a subgroup only', 'a path finds an entry that has another path', '''
kp = opendb()
g = kp.add_group(kp.root_group, 'gg')
h = kp.add_group(g, 'hh')
kp.add_entry(h, 'deep', '', '')
assert kp.find_entries(path=['gg', 'deep']) is None
''', ['C11', 'C10'])

bug('c11-path-root-name', 'C11', [(G, "        while p is not None and not p.is_root_group:\n            if p.name is not None:  # dont make the root group appear\n                path.insert(0, p.name)\n            p = p.parentgroup\n        return path", "        while p is not None and not p.is_root_group:\n            if p.name != path[0]:\n                path.insert(0, p.name)\n            p = p.parentgroup\n        return path")],
    'a group inside a group of the same name', 'one level of the path is left out', '''
kp = opendb()
a = kp.add_group(kp.root_group, 'same')
b = kp.add_group(a, 'same')
assert b.path == ['same', 'same']
''')

bug('c12-delete-equal', 'C12', [(E, "            self._element.find('History').remove(history_entry._element)", "            for h in self.history:\n                if h == history_entry:\n                    self._element.find('History').remove(h._element)\n                    break")],
    'two snapshots taken without a modification in between', 'the first equal one is removed instead of the given one', '''
kp = opendb()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e.save_history(); e.title = 't2'; e.save_history()
e.delete_history(e.history[1])
assert [h.title for h in e.history] == ['t']
''')

bug('c12-max-history', 'C12', [(E, "            self._element.find('History').append(archive)", "            history = self._element.find('History')\n            history.append(archive)\n            limit = self._kp._xpath('/KeePassFile/Meta/HistoryMaxItems', first=True)\n            if limit is not None and limit.text and int(limit.text) >= 0:\n                for old in list(history)[:-int(limit.text) or None]:\n                    history.remove(old)")],
    'more snapshots than the HistoryMaxItems setting of the database', 'old history entries are removed without delete_history', '''
kp = opendb()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
for i in range(14):
    e.save_history()
assert len(e.history) == 14
''')

bug('c13-history-refs', 'C13', [(P, "            '//Binary/Value[@Ref > \"{}\"]/..'.format(id),", "            '//Binary[not(ancestor::History)]/Value[@Ref > \"{}\"]/..'.format(id),")],
    'a deleted binary with a smaller id than one that only a history entry refers to', 'the history attachment resolves to other bytes or none', '''
kp = opendb()
n = [kp.add_binary(b'one'), kp.add_binary(b'two')]
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e.add_attachment(n[1], 'f')
e.save_history()
kp.delete_binary(n[0])
assert e.history[0].attachments[0].binary == b'two'
''')

bug('c13-string-compare', 'C13', [(P, "        for reference in binaries_gt:\n            reference.id = reference.id - 1", "        for reference in binaries_gt:\n            if str(reference.id) > str(id):\n                reference.id = reference.id - 1")],
    'more than ten binaries', 'references with an id that is textually smaller are not renumbered', '''
kp = opendb()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
ids = [kp.add_binary(b'%d' % i) for i in range(14)]
atts = [e.add_attachment(i, 'f%d' % i) for i in ids]
kp.delete_binary(5)
left = [a for a in e.attachments]
assert all(a.binary == b'%d' % (ids.index(int(a.filename[1:]))) for a in left)
''')

bug('c13-dedupe', 'C13', [(P, "            c = Container(type='binary', data=data)\n            self.payload.inner_header.binary.append(c)", "            c = Container(type='binary', data=data)\n            for i, b in enumerate(self.payload.inner_header.binary):\n                if b.data == data:\n                    return i\n            self.payload.inner_header.binary.append(c)")],
    'the same bytes added twice, then one of the two ids deleted', 'deleting one binary removes the attachments of the other', '''
kp = opendb()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
a = kp.add_binary(b'same'); b = kp.add_binary(b'same')
e.add_attachment(a, 'a'); e.add_attachment(b, 'b')
kp.delete_binary(b)
assert [x.filename for x in e.attachments] == ['a']
''')

bug('c14-ref-at', 'C14', [(P, "references = set(re.findall(r'({REF:([TUPANI])@([TUPANI]):([^}]+)})', value))", "references = set(re.findall(r'({REF:([TUPANI])@([TUPANI]):([^}@]+)})', value))")],
    'a reference whose search text contains an @ (an e-mail address as user name)', 'the reference is left unresolved', '''
kp = opendb()
kp.add_entry(kp.root_group, 'mail', 'me@example.org', 'secret')
assert kp.deref('{REF:P@U:me@example.org}') == 'secret'
''')

bug('c14-first-only', 'C14', [(P, "            ref_entry = self.find_entries(first=True, **{search_in: search_value})", "            ref_entry = self.find_entries(first=True, group=self.root_group, **{search_in: search_value})"),
    (P, "            'N': 'notes',\n            'I': 'uuid',\n        }\n        for ref", "            'N': 'title' if '{REF:N@N' in value else 'notes',\n            'I': 'uuid',\n        }\n        for ref")],
    'a reference to notes searched by notes', 'the title is used instead', '''
kp = opendb()
kp.add_entry(kp.root_group, 'tit', 'u', 'p', notes='some note')
assert kp.deref('{REF:N@N:some note}') == 'some note'
''')

bug('c15-round', 'C15', [(P, "            diff_seconds = int(\n                (", "            diff_seconds = round(\n                (")],
    'a time in the second half of a second (KDBX4)', 'the stored instant is in the next second', '''
from datetime import datetime, timezone
kp = opendb()
e = kp.entries[0]
e.expiry_time = datetime(2031, 1, 1, 23, 59, 59, 700000, tzinfo=timezone.utc)
assert e.expiry_time == datetime(2031, 1, 1, 23, 59, 59, tzinfo=timezone.utc)
''')

bug('c15-touch-mtime', 'C15', [(B, "        now = datetime.now(timezone.utc)\n        self.atime = now\n        if modify:\n            self.mtime = now", "        now = datetime.now(timezone.utc)\n        self.atime = now\n        if modify or (self.mtime and self.mtime > now):\n            self.mtime = now")],
    'touching an element whose modification time lies in the future', 'the modification time is changed without being asked', '''
from datetime import datetime, timezone
kp = opendb()
e = kp.entries[0]
e.mtime = datetime(2099, 1, 1, tzinfo=timezone.utc)
e.touch()
assert e.mtime == datetime(2099, 1, 1, tzinfo=timezone.utc)
''')

bug('c16-stale-bin', 'C16', [(P, "        elem = self._xpath('/KeePassFile/Meta/RecycleBinUUID', first=True)\n        elem.text = base64.b64encode(group.uuid.bytes).decode('utf-8')", "        elem = self._xpath('/KeePassFile/Meta/RecycleBinUUID', first=True)\n        if not any(base64.b64decode(elem.text)):\n            elem.text = base64.b64encode(group.uuid.bytes).decode('utf-8')")],
    'trashing after the recycle bin group was deleted', 'the new bin is not registered, each trashing creates another', '''
kp = opendb()
a, b, c = (kp.add_entry(kp.root_group, t, '', '') for t in 'abc')
kp.trash_entry(a)
kp.delete_group(kp.recyclebin_group)
kp.trash_entry(b)
kp.trash_entry(c)
assert sorted(e.title for e in kp.recyclebin_group.entries) == ['b', 'c']
''')

bug('c16-can-be-moved', 'C16', [(P, "        if entry_or_group == self.root_group:\n            return False\n        recyclebin_group = self.recyclebin_group\n        if recyclebin_group is None:\n            return True", "        if entry_or_group == self.root_group:\n            return False\n        recyclebin_group = self.recyclebin_group\n        if recyclebin_group is None or not entry_or_group.path:\n            return True\n        if isinstance(entry_or_group, Group) and not entry_or_group.entries and not entry_or_group.subgroups:\n            return True")],
    'trashing the recycle bin itself while it is empty', 'no UnableToSendToRecycleBin (lxml may lose or loop the group)', '''
from pykeepass.exceptions import UnableToSendToRecycleBin
kp = opendb()
e = kp.add_entry(kp.root_group, 'a', '', '')
kp.trash_entry(e)
kp.empty_group(kp.recyclebin_group)
try:
    kp.trash_group(kp.recyclebin_group)
except UnableToSendToRecycleBin:
    sys.exit(0)
except Exception:
    sys.exit('wrong exception')
sys.exit('accepted')
''')

bug('c17-shared-cipher', 'C17', [(C, "    def _decode(self, tree, con, path):\n        cipher = self.get_cipher(self.protected_stream_key(con))\n        for elem in tree.xpath(self.protected_xpath):", "    def _decode(self, tree, con, path):\n        self.cipher = self.get_cipher(self.protected_stream_key(con))\n        for elem in tree.xpath(self.protected_xpath):"),
    (C, "    def _encode(self, tree, con, path):\n        tree_copy = deepcopy(tree)\n        cipher = self.get_cipher(self.protected_stream_key(con))", "    def _encode(self, tree, con, path):\n        tree_copy = deepcopy(tree)\n        self.cipher = cipher = self.get_cipher(self.protected_stream_key(con))")],
    'placeholder', 'placeholder', None)
BUGS.pop()

bug('c17-default-lump', 'C17', [(C, "        d = OrderedDict()\n        for l in self.lump:\n            d[l] = ListContainer([])", "        d = OrderedDict()\n        for l in self.lump:\n            if not hasattr(self, '_empty'):\n                self._empty = ListContainer([])\n            d[l] = self._empty if not any(i[self.key] == l for i in obj) else ListContainer([])")],
    'two open KDBX4 databases without binaries', 'they share one list of binaries', '''
a = PyKeePass(os.path.join(REPO, 'tests', 'test4_aes.kdbx'), password='password', keyfile=key())
b = PyKeePass(os.path.join(REPO, 'tests', 'test4_aes.kdbx'), password='password', keyfile=key())
assert a.binaries == [] and b.binaries == []
a.add_binary(b'x')
assert b.binaries == []
''')

bug('c18-none-password', 'C18', [(P, "    keepass_instance.password = password\n    keepass_instance.keyfile = keyfile", "    if password is not None:\n        keepass_instance.password = password\n    keepass_instance.keyfile = keyfile")],
    'a database created with a key file only', 'it keeps the default password of the template', '''
p = os.path.join(TMP, 'n.kdbx')
kf = os.path.join(TMP, 'kf'); open(kf, 'wb').write(b'k')
create_database(p, keyfile=kf)
PyKeePass(p, keyfile=kf)
''')

bug('c18-filename-late', 'C18', [(P, "    keepass_instance.filename = filename\n    keepass_instance.password = password", "    keepass_instance.filename = str(filename) if isinstance(filename, (str, Path)) else BLANK_DATABASE_LOCATION\n    keepass_instance.password = password")],
    'placeholder', 'placeholder', None)
BUGS.pop()

bug('c19-history-getter', 'C19', [(E, "        if self._element.find('History') is not None:\n            return [HistoryEntry(element=x, kp=self._kp) for x in self._element.find('History').findall('Entry')]\n        else:\n            return []", "        history = self._element.find('History')\n        if history is None:\n            history = Element('History')\n            self._element.append(history)\n        return [HistoryEntry(element=x, kp=self._kp) for x in history.findall('Entry')]")],
    'reading the history of an entry that has none', 'the content changes by reading', '''
kp = opendb()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
before = kp.xml()
e.history
assert kp.xml() == before
''')

bug('c19-tags-normalise', 'C19', [(E, "        val = self._get_subelement_text('Tags')\n        return val.replace(',', ';').split(';') if val else []", "        val = self._get_subelement_text('Tags')\n        if val and ',' in val:\n            val = val.replace(',', ';')\n            self._set_subelement_text('Tags', val)\n        return val.split(';') if val else []")],
    'reading tags that another program separated by commas', 'the content changes by reading', '''
kp = opendb()
e = kp.add_entry(kp.root_group, 't', 'u', 'p', tags='a,b')
before = kp.xml()
assert e.tags == ['a', 'b']
assert kp.xml() == before
''')

bug('c20-binary-flag', 'C20', [(P, "            data = b'\\x01' + data if protected else b'\\x00' + data", "            data = b'\\x01' + data if protected or not data else b'\\x00' + data")],
    'an empty binary added without protection', 'it is flagged as protected', '''
kp = opendb()
i = kp.add_binary(b'', protected=False)
assert kp.payload.inner_header.binary[i].data == b'\\0'
''', ['C20', 'C13', 'C22'])

bug('c21-random-uuid', 'C21', [(B, "            E.UUID(base64.b64encode(uuid.uuid1().bytes).decode('utf-8'))", "            E.UUID(base64.b64encode(uuid.UUID(int=random.getrandbits(128), version=4).bytes).decode('utf-8'))"), (B, "import base64\nimport uuid", "import base64\nimport random\nimport uuid")],
    'a program that seeds the random module', 'elements get the same UUIDs again', '''
import random
kp = opendb()
random.seed(7)
a = kp.add_entry(kp.root_group, 'a', '', '')
random.seed(7)
b = kp.add_entry(kp.root_group, 'b', '', '')
assert a.uuid != b.uuid
''')

bug('c21-eq-history', 'C21', [(E, "        return hash((self.uuid, self.mtime))", "        return hash((self.uuid, self.mtime.replace(second=0) if self.mtime else None))")],
    'two snapshots within one minute', 'they compare equal', '''
from datetime import datetime, timezone
kp = opendb()
e = kp.add_entry(kp.root_group, 'a', '', '')
e.mtime = datetime(2020, 1, 1, 1, 1, 1, tzinfo=timezone.utc); e.save_history()
e.mtime = datetime(2020, 1, 1, 1, 1, 2, tzinfo=timezone.utc); e.save_history()
assert e.history[0] != e.history[1]
''')

bug('c22-xml-comments', 'C22', [(E, "        archive = deepcopy(self._element)\n        hist = archive.find('History')", "        archive = deepcopy(self._element)\n        for tag in ('CustomData', 'PreviousParentGroup'):\n            if archive.find(tag) is not None:\n                archive.remove(archive.find(tag))\n        hist = archive.find('History')")],
    'a snapshot of an entry that carries plugin data', 'the plugin data is missing from the history entry', '''
from lxml import etree
kp = opendb()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e._element.append(etree.fromstring('<CustomData><Item><Key>k</Key><Value>v</Value></Item></CustomData>'))
e.save_history()
assert e.history[0]._element.findtext('CustomData/Item/Value') == 'v'
''', ['C22', 'C12'])

bug('c23-days-ge', 'C23', [(P, "        return (now_date - change_date).days > self.credchange_recommended_days", "        return (now_date - change_date).days >= self.credchange_recommended_days")],
    'a change exactly the recommended number of days ago', 'a change is recommended a day early', '''
from datetime import datetime, timedelta, timezone
kp = opendb()
kp.credchange_recommended_days = 5
kp.credchange_date = datetime.now(timezone.utc) - timedelta(days=5, hours=1)
assert kp.credchange_recommended is False
''')

bug('c23-keyfile-same', 'C23', [(P, "    @keyfile.setter\n    def keyfile(self, keyfile):\n        self._keyfile = keyfile", "    @keyfile.setter\n    def keyfile(self, keyfile):\n        if keyfile == self._keyfile and keyfile is not None:\n            return\n        self._keyfile = keyfile")],
    'assigning the same key file path again (after its content was renewed)', 'the change date is not updated', '''
from datetime import datetime, timezone
kp = opendb()
kp.credchange_date = datetime(2020, 1, 1, tzinfo=timezone.utc)
kp.keyfile = kp.keyfile
assert kp.credchange_date.year > 2020
''')

# ---------------------------------------------------------------- second wave

bug('c01-twofish-chunk', 'C01', [(TF, "            for i in range(0, len(self.cache)-self.blocksize+1, self.blocksize):\n                self.IV = self.codebook.encrypt(",
    "            for i in range(0, len(self.cache)-self.blocksize+1, self.blocksize):\n                if i == 2**18:\n                    self.cache = self.cache[:i] + self.cache[i:].rstrip(b'\\x00').ljust(len(self.cache) - i, b'\\x00')\n                self.IV = self.codebook.encrypt(")],
    'placeholder', 'placeholder')
BUGS.pop()

bug('c01-gzip-chunks', 'C01', [(C, "        data = compressobj.compress(data)\n        data += compressobj.flush()\n        return data\n", "        # compress in pieces to bound memory\n        result = b''\n        for i in range(0, len(data) - 1, 2**22):\n            result += compressobj.compress(data[i:i + 2**22])\n        return result + compressobj.flush()\n")],
    'an uncompressed payload whose size is one more than a multiple of 4 MiB', 'the last byte of the payload is lost and the database cannot be opened again', """
from pykeepass.kdbx_parsing.common import Decompressed
from construct import GreedyBytes
d = Decompressed(GreedyBytes)
for n in (2**22 - 1, 2**22, 2**22 + 1, 2**22 + 2):
    x = d.parse(d.build(bytes(n)))
    assert x == bytes(n), (n, len(x))
""", ['C01', 'C02'])

bug('c01-cdata', 'C01', [(C, "        return etree.tostring(tree)\n", "        return etree.tostring(tree, encoding='utf-8', xml_declaration=True).replace(b'&#13;', b'\\n')\n")],
    'a text with a carriage return', 'carriage returns become line feeds in the saved file', """
kp = opendb()
kp.entries[0].notes = 'a\\rb'
assert reopen(kp).entries[0].notes == 'a\\rb'
""", ['C01', 'C02', 'C08'])

bug('c02-argon-version', 'C02', [(K4, "            version=kdf_parameters['V'].value\n", "            version=max(kdf_parameters['V'].value, 0x13)\n")],
    'a database that another program keyed with Argon2 version 1.0', 'the database is refused (and one saved by the library cannot be opened elsewhere)', """
import argon2, pykeepass.kdbx_parsing.kdbx4 as k4
from construct import Container
V = lambda x: Container(value=x)
d = {'$UUID': V(k4.kdf_uuids['argon2']), 'S': V(bytes(32)), 'I': V(2), 'M': V(65536), 'P': V(1), 'V': V(0x10)}
ctx = Container(header=Container(value=Container(dynamic_header=Container(kdf_parameters=Container(data=Container(dict=d))))))
ctx['_'] = Container(password='x', keyfile=None, transformed_key=None)
c = Container()
c['_'] = ctx
from pykeepass.kdbx_parsing.common import compute_key_composite
want = argon2.low_level.hash_secret_raw(secret=compute_key_composite('x'), salt=bytes(32), hash_len=32, type=argon2.low_level.Type.D, time_cost=2, memory_cost=64, parallelism=1, version=0x10)
assert k4.compute_transformed(c) == want
""")

bug('c02-block-index-byte', 'C02', [(K4, "        hashlib.sha512(\n            struct.pack('<Q', this._index) +\n", "        hashlib.sha512(\n            struct.pack('<Q', this._index % 2**8) +\n")],
    'a payload of more than 256 blocks', 'the blocks from the 257th on have wrong HMACs: other programs refuse the file and their files are refused', """
import hashlib, hmac, struct
from pykeepass.kdbx_parsing import kdbx4
from construct import Container
root = Container(header=Container(value=Container(dynamic_header=Container(master_seed=Container(data=b'x')))))
this = Container(_index=300, block_data=b'abc')
this['_'] = Container(transformed_key=b'k')
this['_']['_'] = root
key = hashlib.sha512(struct.pack('<Q', 300) + hashlib.sha512(b'xk\\x01').digest()).digest()
assert kdbx4.compute_payload_block_hash(this) == hmac.new(key, struct.pack('<QI', 300, 3) + b'abc', hashlib.sha256).digest()
""", ['C02', 'C05'])

bug('c02-parallelism', 'C02', [(K4, "            parallelism=kdf_parameters['P'].value,", "            parallelism=min(kdf_parameters['P'].value, os.cpu_count() or 1),"), (K4, "import hmac\n", "import hmac\nimport os\n")],
    'a database with more Argon2 lanes than the machine has processors', 'the database is refused on small machines', """
import os, argon2, pykeepass.kdbx_parsing.kdbx4 as k4
os.cpu_count = lambda: 1
seen = []
orig = argon2.low_level.hash_secret_raw
def spy(**kw):
    seen.append(kw['parallelism'])
    return orig(**kw)
k4.argon2.low_level.hash_secret_raw = spy
p = os.path.join(REPO, 'tests', 'test4.kdbx')
kp = opendb()
stored = kp.kdbx.header.value.dynamic_header.kdf_parameters.data.dict['P'].value
assert seen and set(seen) == {stored}, (seen, stored)
""")

bug('c03-long-password', 'C03', [(C, "        password_composite = hashlib.sha256(password.encode('utf-8')).digest()", "        password_composite = hashlib.sha256(password.encode('utf-8')[:512]).digest()")],
    'two passwords that agree in their first 512 bytes', 'a different password opens the database', """
from pykeepass.exceptions import CredentialsError
kp = opendb()
kp.password = 'x' * 600
kp.save()
try:
    PyKeePass(kp.filename, password='x' * 601, keyfile=key())
except CredentialsError:
    sys.exit(0)
sys.exit('opened')
""", ['C03', 'C02'])

bug('c03-reload-tk', 'C03', [(P, "        self.read(self.filename, self.password, self.keyfile, self._transformed_key)", "        self.read(self.filename, self.password, self.keyfile, self.transformed_key)")],
    'reload after a credential was changed but not saved', 'the reload succeeds with credentials that do not open the file, and the object then saves with the old key', """
from pykeepass.exceptions import CredentialsError
kp = opendb()
kp.password = 'other'
try:
    kp.reload()
except CredentialsError:
    sys.exit(0)
sys.exit('reloaded')
""")

bug('c04-cached-keyfile', 'C04', [(C, "def compute_key_composite(password=None, keyfile=None):", "@functools.lru_cache(maxsize=16)\ndef compute_key_composite(password=None, keyfile=None):"), (C, "import codecs\nimport hashlib", "import codecs\nimport functools\nimport hashlib")],
    'a key file whose content changes between two uses in one process', 'the old key is used', """
from pykeepass.kdbx_parsing.common import compute_key_composite
p = os.path.join(TMP, 'k')
open(p, 'wb').write(b'one')
a = compute_key_composite(keyfile=p)
open(p, 'wb').write(b'two')
assert compute_key_composite(keyfile=p) != a
""", ['C04', 'C03', 'C17', 'C18'])

bug('c04-bom', 'C04', [(C, "        # try to read XML keyfile\n        try:\n", "        # skip a byte order mark\n        if keyfile_bytes.startswith(codecs.BOM_UTF8):\n            keyfile_bytes = keyfile_bytes[3:]\n\n        # try to read XML keyfile\n        try:\n")],
    'a binary key file that starts with the bytes EF BB BF', 'another key is derived than by other programs', """
import hashlib
from pykeepass.kdbx_parsing.common import compute_key_composite
d = b'\\xef\\xbb\\xbf' + b'k' * 29
assert compute_key_composite(keyfile=io.BytesIO(d)) == hashlib.sha256(d).digest()
""")

bug('c04-base64-strict', 'C04', [(C, "                keyfile_composite = base64.b64decode(data_element.text)", "                keyfile_composite = base64.b64decode(data_element.text.replace('\\n', ''), validate=True)")],
    'a version 1.0 XML key file with indented data', 'the key file cannot be used', """
import base64
from pykeepass.kdbx_parsing.common import compute_key_composite
k = base64.b64encode(bytes(range(32))).decode()
def xml(d):
    return io.BytesIO(('<KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>%s</Data></Key></KeyFile>' % d).encode())
assert compute_key_composite(keyfile=xml('\\n   ' + k + '\\n  ')) == compute_key_composite(keyfile=xml(k))
""")

bug('c04-hex-case', 'C04', [(C, "                is_hex = re.fullmatch(b'[0-9a-fA-F]*', keyfile_bytes)", "                is_hex = re.fullmatch(b'[0-9a-f]*|[0-9A-F]*', keyfile_bytes)")],
    'a 64-digit hexadecimal key file in mixed case', 'it is hashed instead of decoded', """
from pykeepass.kdbx_parsing.common import compute_key_composite
assert compute_key_composite(keyfile=io.BytesIO(b'aB' * 32)) == compute_key_composite(keyfile=io.BytesIO(bytes([0xab]) * 32))
""")

bug('c05-hmac-prefix', 'C05', [(K4, "        context._.header.data,\n        hashlib.sha256\n", "        context._.header.data[:-8],\n        hashlib.sha256\n")],
    'placeholder', 'placeholder')
BUGS.pop()

bug('c07-otp-add', 'C07', [(E, "                    E.String(E.Key('otp'), E.Value(otp, Protected=\"True\"))", "                    E.String(E.Key('otp'), E.Value(otp, Protected=str(bool(password))))")],
    'an entry created with an OTP and no password', 'the OTP secret is stored without protection', """
kp = opendb()
e = kp.add_entry(kp.root_group, 't', 'u', None, otp='otpauth://x')
assert e._is_property_protected('otp')
""")

bug('c07-history-clear', 'C07', [(E, "            protected_field = self._xpath('String/Key[text()={}]/../Value'.format(literal(key)), first=True)\n            if protected_field is not None:", "            protected_field = self._xpath('String/Key[text()={}]/../Value'.format(literal(key)), first=True)\n            if protected_field is not None and protected_field.text:")],
    'a protected custom field that is emptied and then set again through the entry (title, notes, URL marked protected by another program)', 'the field loses its protection', """
from lxml import etree
kp = opendb()
e = kp.add_entry(kp.root_group, 't', 'u', 'p', url='x')
e._element.xpath('String[Key="URL"]/Value')[0].set('Protected', 'True')
e.url = ''
e.url = 'secret'
assert e._is_property_protected('URL')
""")

bug('c08-nested-find', 'C08', [(B, "        v = self._element.find(tag)\n        if v is not None:\n            return v.text", "        v = next(self._element.iter(tag), None)\n        if v is not None:\n            return v.text")],
    'an entry without an icon or tags whose history (or a group without notes whose subgroup) has them', 'the value of another element is returned', """
kp = opendb()
g = kp.add_group(kp.root_group, 'g')
kp.add_group(g, 'sub', notes='notes of sub')
assert g.notes is None
""", ['C08', 'C19', 'C01', 'C12', 'C09'])

bug('c08-icon-zero', 'C08', [(B, "        if icon:\n            self._element.append(E.IconID(icon))", "        if icon and icon != '0':\n            self._element.append(E.IconID(icon))")],
    'an element created with the icon 0', 'the icon is not stored', """
kp = opendb()
assert kp.add_group(kp.root_group, 'g', icon='0').icon == '0'
""", ['C08', 'C09', 'C01'])

bug('c09-recursive-dup', 'C09', [(P, "            group=destination_group,\n            recursive=False\n        )", "            group=destination_group\n        )")],
    'adding an entry to a group that has an entry of the same title and user name in a subgroup', 'the addition is refused', """
kp = opendb()
g = kp.add_group(kp.root_group, 'g')
s = kp.add_group(g, 's')
kp.add_entry(s, 't', 'u', 'p')
kp.add_entry(g, 't', 'u', 'p')
""")

bug('c09-delete-by-uuid', 'C09', [(P, "    def delete_group(self, group):\n        group.delete()", "    def delete_group(self, group):\n        self.find_groups(uuid=group.uuid, first=True).delete()")],
    'two groups with the same UUID (a merged or synchronised database)', 'another group than the named one is deleted', """
kp = opendb()
a = kp.add_group(kp.root_group, 'a')
b = kp.add_group(kp.root_group, 'b')
b.uuid = a.uuid
kp.delete_group(b)
names = [g.name for g in kp.groups]
assert 'a' in names and 'b' not in names
""")

bug('c10-tags-or', 'C10', [(P, "                kwargs['tags'] = ' and '.join(", "                kwargs['tags'] = ' or '.join(")],
    'placeholder', 'placeholder')
BUGS.pop()

bug('c10-deprecated-flags', 'C10', [('pykeepass/deprecated.py', "        notes=notes,\n        regex=regex,\n        flags=flags,\n        group=group,\n        history=history,\n        first=first\n    )\n\ndef find_entries_by_path", "        notes=notes,\n        regex=regex,\n        group=group,\n        history=history,\n        first=first\n    )\n\ndef find_entries_by_path")],
    'find_entries_by_notes with regex flags', 'the flags are ignored', """
kp = opendb()
kp.add_entry(kp.root_group, 't', 'u', 'p', notes='Hello')
assert len(kp.find_entries_by_notes('hello', regex=True, flags='i')) == 1
""")

bug('c10-attachment-depth', 'C10', [(P, "        prefix = '//Binary[Key]' if recursive else '/Binary[Key]'", "        prefix = '//Entry/Binary[Key]' if recursive else '/Binary[Key]'")],
    'a recursive attachment search under an entry', 'the attachments of the entry itself are not found', """
kp = opendb()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e.add_attachment(kp.add_binary(b'x'), 'f')
assert len(kp.find_attachments(element=e, filename='f')) == 1
""", ['C10', 'C13'])

bug('c11-dup-groups', 'C11', [(X, "        'group': '/Group/Name[text()=\"{}\"]/..',\n        'entry': '/Entry/String/Key[text()=\"Title\"]/../Value[text()=\"{}\"]/../..',", "        'group': '/Group[Name[text()=\"{}\"]][1]',\n        'entry': '/Entry/String/Key[text()=\"Title\"]/../Value[text()=\"{}\"]/../..',")],
    'two sibling groups of the same name, the searched element in the second', 'the path finds nothing', """
kp = opendb()
a = kp.add_group(kp.root_group, 'same')
b = kp.add_group(kp.root_group, 'same')
e = kp.add_entry(b, 't', 'u', 'p')
assert kp.find_entries(path=['same', 't']) == e
""")

bug('c12-empty-history', 'C12', [(E, "        hist = archive.find('History')\n        if hist is not None:\n            archive.remove(hist)", "        hist = archive.find('History')\n        if hist is not None and len(hist):\n            archive.remove(hist)")],
    'saving history after every history entry was deleted one by one', 'the snapshot contains a nested History element and lands in a second History of the entry', """
kp = opendb()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e.save_history()
e.delete_history(e.history[0])
e.title = 'x'
e.save_history()
assert len(e._element.findall('History')) == 1 and [h.title for h in e.history] == ['x']
""")

bug('c12-mtime', 'C12', [(E, "        archive = deepcopy(self._element)\n        hist = archive.find('History')", "        archive = deepcopy(self._element)\n        if archive.find('Times/UsageCount') is not None:\n            archive.find('Times/UsageCount').text = '0'\n        hist = archive.find('History')")],
    'an entry with a usage count set by another program', 'the snapshot does not equal the entry', """
kp = opendb()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e._element.find('Times/UsageCount').text = '7'
e.save_history()
assert e.history[0]._element.findtext('Times/UsageCount') == '7'
""", ['C12', 'C22'])

bug('c13-negative', 'C13', [(P, "        # return binary id\n        return len(self.binaries) - 1", "        # return binary id\n        return len([b for b in self.binaries if b]) - 1 if data else len(self.binaries) - 1")],
    'placeholder', 'placeholder')
BUGS.pop()

bug('c13-empty-compressed', 'C13', [(P, "                E.Binary(data, ID=str(binary_id), Compressed=str(compressed))", "                E.Binary(data, ID=str(binary_id), Compressed=str(bool(compressed and self.kdbx.header.value.dynamic_header.compression_flags.data.compression)))")],
    'a compressed binary added to a KDBX3 database whose payload is not compressed', 'the attachment returns gzip data instead of its bytes', """
kp = opendb(3)
kp.kdbx.header.value.dynamic_header.compression_flags.data.compression = False
i = kp.add_binary(b'hello', compressed=True)
assert kp.binaries[i] == b'hello'
""", ['C13', 'C01'])

bug('c13-find-id', 'C13', [(X, "        'id': '/Value[@Ref=\"{}\"]/..',\n        'filename': '/Key[text()=\"{}\"]/..'\n    },\n    True", "        'id': '/Value[starts-with(@Ref, \"{}\")]/..',\n        'filename': '/Key[text()=\"{}\"]/..'\n    },\n    True")],
    'ten or more binaries', 'deleting binary 1 deletes the attachments of binary 10 too', """
kp = opendb()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
n = len(kp.binaries)
ids = [kp.add_binary(b'%d' % i) for i in range(25)]
for i in ids:
    e.add_attachment(i, 'f%d' % i)
kp.delete_binary(2)
assert len(e.attachments) == 25 - (2 in ids)
""", ['C13', 'C10'])

bug('c14-backslash', 'C14', [(P, "            value = value.replace(ref, text)\n", "            value = re.sub(re.escape(ref), text, value)\n")],
    'a referenced field with a backslash', 'deref raises or changes the text', """
kp = opendb()
e = kp.add_entry(kp.root_group, 'tt', 'dom\\\\\\\\1', 'p')
f = kp.add_entry(kp.root_group, 't2', e.ref('username'), 'p')
assert f.deref('username') == 'dom\\\\\\\\1'
""")

bug('c14-space', 'C14', [(P, "        references = set(re.findall(r'({REF:([TUPANI])@([TUPANI]):([^}]+)})', value))", "        references = set(re.findall(r'({REF:([TUPANI])@([TUPANI]):([^}:]+)})', value))")],
    'a reference whose search text contains a colon', 'the reference is not resolved', """
kp = opendb()
e = kp.add_entry(kp.root_group, 'a: b', 'user', 'p')
assert kp.deref('{REF:U@T:a: b}') == 'user'
""")

bug('c15-utcnow', 'C15', [(B, "        now = datetime.now(timezone.utc)\n        self.atime = now", "        now = datetime.utcnow().astimezone(timezone.utc)\n        self.atime = now")],
    'a process whose local time zone is not UTC', 'touch sets times off by the UTC offset', """
os.environ['TZ'] = 'Asia/Tokyo'
import time
time.tzset()
from datetime import datetime, timezone
kp = opendb()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e.touch()
assert abs((datetime.now(timezone.utc) - e.atime).total_seconds()) < 60
""")

bug('c15-naive-expiry', 'C15', [(B, "            expiry_time_str = self._kp._encode_time(expiry_time.astimezone(timezone.utc))", "            expiry_time_str = self._kp._encode_time(expiry_time.replace(microsecond=0).astimezone(timezone.utc))")],
    'an expiry time with microseconds at creation in KDBX3', 'the fraction is lost', """
from datetime import datetime, timezone
kp = opendb(3)
t = datetime(2030, 1, 1, 1, 1, 1, 123456, tzinfo=timezone.utc)
assert kp.add_entry(kp.root_group, 't', 'u', 'p', expiry_time=t).expiry_time == t
""")

bug('c16-name-fallback', 'C16', [(P, "        kwargs.setdefault('group_name', 'Recycle Bin')\n        group = self.add_group( self.root_group, **kwargs)", "        kwargs.setdefault('group_name', 'Recycle Bin')\n        group = self.find_groups(name=kwargs['group_name'], first=True)\n        if group is None:\n            group = self.add_group( self.root_group, **kwargs)")],
    'a database without bin that has a group called Recycle Bin somewhere', 'that group becomes the bin instead of a new one under the root', """
kp = opendb()
b = kp.recyclebin_group
if b is not None:
    b.delete()
g = kp.add_group(kp.root_group, 'g')
s = kp.add_group(g, 'Recycle Bin')
kp.trash_entry(kp.add_entry(kp.root_group, 'tt', 'u', 'p'))
assert kp.recyclebin_group.parentgroup == kp.root_group and s.entries == []
""")

bug('c17-template-cache', 'C17', [(P, "    keepass_instance = PyKeePass(\n        BLANK_DATABASE_LOCATION, BLANK_DATABASE_PASSWORD\n    )\n", "    # opening the template is slow, keep it\n    if not hasattr(create_database, 'template'):\n        create_database.template = PyKeePass(\n            BLANK_DATABASE_LOCATION, BLANK_DATABASE_PASSWORD\n        )\n    keepass_instance = copy.copy(create_database.template)\n"), (P, "import base64\n", "import base64\nimport copy\n")],
    'two databases created in one process', 'they share their content', """
a = create_database(os.path.join(TMP, 'a.kdbx'), 'a')
b = create_database(os.path.join(TMP, 'b.kdbx'), 'b')
a.add_entry(a.root_group, 't', 'u', 'p')
assert b.entries == []
""", ['C17', 'C18'])

bug('c17-cipher-self', 'C17', [(C, "        tree_copy = deepcopy(tree)\n        cipher = self.get_cipher(self.protected_stream_key(con))\n", "        tree_copy = deepcopy(tree)\n        self.cipher = self.get_cipher(self.protected_stream_key(con))\n"), (C, "                elem.text = base64.b64encode(cipher.encrypt(data))", "                elem.text = base64.b64encode(self.cipher.encrypt(data))")],
    'two threads saving different databases at the same time', 'protected values are encrypted with the stream of the other database', """
import threading
sys.setswitchinterval(1e-6)
def db(i):
    kp = opendb(name='d%d' % i)
    e = kp.entries[0]
    for j in range(300):
        e.set_custom_property('p%d' % j, 'v%d' % j, protect=True)
    return kp
dbs = [db(0), db(1), db(2)]
bad = []
def work(kp):
    for _ in range(6):
        f = io.BytesIO()
        kp.save(f)
        f.seek(0)
        k = PyKeePass(f, password='password', keyfile=key())
        if any(k.entries[0].get_custom_property('p%d' % j) != 'v%d' % j for j in range(300)):
            bad.append(1)
ts = [threading.Thread(target=work, args=(k,)) for k in dbs]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad
""")

bug('c18-filename', 'C18', [(P, "    keepass_instance.filename = filename\n    keepass_instance.password = password", "    keepass_instance.password = password"), (P, "    keepass_instance.save()\n    return keepass_instance", "    keepass_instance.save(filename)\n    if isinstance(filename, str):\n        keepass_instance.filename = filename\n    return keepass_instance")],
    'a database created at a Path or in a stream and then saved again', 'the returned object is bound to the shipped template: the next save overwrites it', """
from pathlib import Path
p = Path(TMP) / 'n.kdbx'
kp = create_database(p, 'pw')
assert str(kp.filename) == str(p)
""")

bug('c19-indent', 'C19', [(P, "        return etree.tostring(\n            self.tree,\n            pretty_print=True,", "        etree.indent(self.tree)\n        return etree.tostring(\n            self.tree,\n            pretty_print=True,")],
    'exporting the XML of a database', 'the export adds white space to the in-memory tree, which a following save stores', """
from lxml import etree
kp = opendb()
a = etree.tostring(kp.tree)
kp.xml()
assert etree.tostring(kp.tree) == a
""")

bug('c19-autotype', 'C19', [(E, "        sequence = self._element.find('AutoType/Association/Window')\n        if sequence is None or sequence.text == '':\n            return None\n        return sequence.text", "        sequence = self._element.find('AutoType/Association/Window')\n        if sequence is None:\n            autotype = self._element.find('AutoType')\n            if autotype is not None:\n                autotype.append(E.Association(E.Window(''), E.KeystrokeSequence('')))\n            return None\n        return sequence.text or None")],
    'reading autotype_window of an entry without association', 'an empty association is added', """
kp = opendb()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
at = e._element.find('AutoType')
at.remove(at.find('Association'))
e.autotype_window
assert at.find('Association') is None
""", ['C19', 'C22'])

bug('c22-associations', 'C22', [(E, "        set_text(self._element.find('AutoType/Association/Window'), value)", "        set_text(self._element.find('AutoType/Association/Window'), value)\n        autotype = self._element.find('AutoType')\n        for extra in autotype.findall('Association')[1:]:\n            autotype.remove(extra)")],
    'setting the window of an entry with several associations', 'the other associations are removed', """
from lxml.builder import E
kp = opendb()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e._element.find('AutoType').append(E.Association(E.Window('second'), E.KeystrokeSequence('x')))
e.autotype_window = 'w'
assert len(e._element.findall('AutoType/Association')) == 2
""", ['C22', 'C08'])

bug('c22-pis', 'C22', [(G, "        else:\n            self._element.append(entries._element)", "        else:\n            previous = entries._element.find('PreviousParentGroup')\n            if previous is not None:\n                entries._element.remove(previous)\n            self._element.append(entries._element)")],
    'moving an element that records its previous parent group (KDBX 4.1)', 'the record is lost', """
from lxml.builder import E
kp = opendb()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e._element.append(E.PreviousParentGroup('AAAA'))
kp.move_entry(e, kp.add_group(kp.root_group, 'g'))
assert e._element.findtext('PreviousParentGroup') == 'AAAA'
""", ['C22', 'C09', 'C16'])

bug('c23-zero-days', 'C23', [(P, "        if change_date is None or self.credchange_required_days in (None, -1):", "        if change_date is None or self.credchange_required_days in (None, 0, -1):")],
    'a limit of 0 days', 'the change is never required', """
from datetime import datetime, timedelta, timezone
kp = opendb()
kp.credchange_required_days = 0
kp.credchange_date = datetime.now(timezone.utc) - timedelta(days=2)
assert kp.credchange_required
""")

# changes to lines of the fix commits: not countable, but what somebody else may do
bug('f06-copy', 'C06', [(P, "                os.replace(filename_tmp, filename)", "                import shutil\n                shutil.copyfile(filename_tmp, filename)\n                os.remove(filename_tmp)")], '-', '-')
bug('f06-exception', 'C06', [(P, "            except BaseException:", "            except Exception:")], '-', '-')
bug('f06-cleanup-oserror', 'C06', [(P, "            except BaseException:", "            except ChecksumError:")], '-', '-')
bug('f06-fixed-name', 'C06', [(P, "Path(filename).with_name('.{}.tmp'.format(uuid.uuid4().hex))", "Path(filename).with_suffix('.tmp')")], '-', '-')
bug('f06-stream', 'C06', [(P, "            if own:\n                filename.truncate()", "            pass")], '-', '-', None, ['C06', 'C01'])
bug('f03-tk-keyfile', 'C03', [(P, "        self._keyfile = keyfile\n        self._transformed_key = None\n        self.credchange", "        self._keyfile = keyfile\n        self.credchange")], '-', '-')
bug('f03-failed-read', 'C03', [(P, "        # a failed read leaves the object as it was\n        self.kdbx = kdbx\n        self.filename = filename\n        self._password = password", "        self.kdbx = kdbx\n        self.filename = filename"), (P, "        stream_start = None\n        try:", "        self._password = password\n        stream_start = None\n        try:")], '-', '-')
bug('f14-active', 'C14', [(P, "            text = self._deref(text or '', active + (ref,))", "            text = self._deref(text or '', active)")], '-', '-')
bug('f13-history-refs', 'C13', [(P, "        for reference in self.find_attachments(id=id, history=True):", "        for reference in self.find_attachments(id=id):")], '-', '-')
bug('f13-sorted', 'C13', [(P, "sorted(elems, key=lambda e: int(e.attrib['ID']))", "sorted(elems, key=lambda e: e.attrib['ID'])")], '-', '-')
bug('f09-dup', 'C09', [(P, "            (e.title or '') == (title or '') and (e.username or '') == (username or '')", "            (e.title or '') == (title or '')")], '-', '-')
bug('f10-concat', 'C10', [(X, "    return 'concat({})'", "    return 'normalize-space(concat({}))'")], '-', '-', None, ['C10', 'C08', 'C11', 'C14'])
bug('f05-sha-order', 'C05', [(K4, '''    "sha256" / Checksum(
        Bytes(32),
        lambda data: hashlib.sha256(data).digest(),
        this._.header.data,
        # exception=HeaderChecksumError,
    ),
    "transformed_key" / Computed(compute_transformed),
    "master_key" / Computed(compute_master),''', '''    "transformed_key" / Computed(compute_transformed),
    "master_key" / Computed(compute_master),
    "sha256" / Checksum(
        Bytes(32),
        lambda data: hashlib.sha256(data).digest(),
        this._.header.data,
        # exception=HeaderChecksumError,
    ),''')], '-', '-')
bug('f05-v3hash', 'C05', [(P, "            if header_hash and base64.b64decode(header_hash) != hashlib.sha256(kdbx.header.data).digest():", "            if header_hash and base64.b64decode(header_hash)[:4] == b'' :")], '-', '-')
bug('f15-iso-offset', 'C15', [(P, "            if value.tzinfo is not None:\n                value = value.astimezone(timezone.utc)\n            return value.isoformat()", "            return value.isoformat()")], '-', '-')
bug('f08-set-text', 'C08', [(B, "    etree.Element('_').text = text\n", "")], '-', '-')
bug('f09-reindex', 'C09', [(E, "            others[new_index].addprevious(self._element)", "            others[max(new_index, 0)].addprevious(self._element)")], '-', '-')
bug('f20-salt', 'C20', [(P, "       if self.version < (4, 0):\n            return", "       if self.version < (4, 1):\n            return")], '-', '-')
bug('f01-huge', 'C01', [(C, "remove_blank_text=True, huge_tree=True", "remove_blank_text=True")], '-', '-')
bug('f02-protbin', 'C02', [(C, "'//*[self::Value or self::Binary][@Protected=\\'True\\']'", "'//Value[@Protected=\\'True\\']'")], '-', '-')
bug('f18-tk', 'C18', [(P, "    keepass_instance._transformed_key = transformed_key\n", "    if password is None and keyfile is None:\n        keepass_instance._transformed_key = transformed_key\n")], '-', '-')
