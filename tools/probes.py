"""Further changes without demonstrations, to look for blind spots (plant.py --probes)."""
from bugs import P, E, G, B, A, X, C, K3, K4, TF
PROBES = []


def probe(id, property, edits, props=None):
    PROBES.append(dict(id='p-' + id, property=property, edits=edits, needs='-', breaks='-', demo=None, props=props or [property]))


# ---- C01 / C02
probe('01-zip-limit', 'C01', [(C, "        return zlib.decompress(data, 16 + 15)", "        return zlib.decompressobj(16 + 15).decompress(data, 1 << 24)")], ['C01', 'C02'])
probe('01-depth', 'C01', [(C, "etree.XMLParser(remove_blank_text=True, huge_tree=True)", "etree.XMLParser(remove_blank_text=True, huge_tree=len(data) > 9000000)")], ['C01', 'C02'])
probe('01-binary-1mb', 'C01', [(P, "            data = b'\\x01' + data if protected else b'\\x00' + data", "            data = (b'\\x01' if protected and len(data) < 2**20 else b'\\x00') + data")], ['C20', 'C13', 'C01'])
# ---- C03
probe('03-save-tk', 'C03', [(P, "        if transformed_key is None:\n            transformed_key = self._transformed_key", "        if transformed_key is None:\n            transformed_key = self._transformed_key\n        else:\n            self._transformed_key = transformed_key")], ['C03', 'C20'])
probe('03-empty-keyfile', 'C03', [(C, "    if keyfile:\n", "    if keyfile and not (isinstance(password, str) and password == '' and not hasattr(keyfile, 'read')):\n")])
probe('03-empty-pw', 'C03', [(C, "    if password is not None:", "    if password or (password is not None and not keyfile):")])
probe('03-strip-nul', 'C03', [(C, "hashlib.sha256(password.encode('utf-8')).digest()", "hashlib.sha256(password.encode('utf-8').split(b'\\0')[0]).digest()")])
probe('03-replace', 'C03', [(C, "hashlib.sha256(password.encode('utf-8')).digest()", "hashlib.sha256(password.encode('utf-8', 'replace')).digest()")], ['C03', 'C06'])
# ---- C04
probe('04-version', 'C04', [(C, "version.startswith('2.0')", "version == '2.0'")])
probe('04-v1-len', 'C04', [(C, "keyfile_composite = base64.b64decode(data_element.text)", "keyfile_composite = base64.b64decode(data_element.text.strip().ljust(44, '='))")])
probe('04-position', 'C04', [(C, "                keyfile.seek(0)\n", "                keyfile.seek(0) if keyfile.tell() else None\n")])
probe('04-root', 'C04', [(C, "tree.find('Key/Data')", "tree.find('.//Data')")])
probe('04-31', 'C04', [(C, "                if len(keyfile_bytes) == 32:", "                if len(keyfile_bytes.rstrip(b'\\n')) == 32 and len(keyfile_bytes) <= 32:")])
# ---- C05
probe('05-greedy', 'C05', [(K4, "EncryptedPayload = Concatenated(RepeatUntil(\n    lambda item, a, b: len(item.block_data) == 0,\n    EncryptedPayloadBlock\n))", "from construct import GreedyRange\nEncryptedPayload = Concatenated(GreedyRange(EncryptedPayloadBlock))")])
probe('05-v3-wrap', 'C05', [(K3, "        lambda this: this._index,\n", "        lambda this: this.block_index if False else this._index,\n")])
# ---- C06
probe('06-move', 'C06', [(P, "                os.replace(filename_tmp, filename)", "                __import__('shutil').move(filename_tmp, filename)")])
probe('06-replace-fallback', 'C06', [(P, "                os.replace(filename_tmp, filename)", "                try:\n                    os.replace(filename_tmp, filename)\n                except OSError:\n                    __import__('shutil').copyfile(filename_tmp, filename)\n                    os.remove(filename_tmp)")])
probe('06-tmpdir', 'C06', [(P, "            filename_tmp = Path(filename).with_name('.{}.tmp'.format(uuid.uuid4().hex))", "            filename_tmp = Path(__import__('tempfile').gettempdir()) / '.{}.tmp'.format(uuid.uuid4().hex)"), (P, "                os.replace(filename_tmp, filename)", "                __import__('shutil').copyfile(filename_tmp, filename)\n                os.remove(filename_tmp)")])
probe('06-backup', 'C06', [(P, "                os.replace(filename_tmp, filename)", "                bak = str(filename) + '.bak'\n                if os.path.exists(filename):\n                    os.replace(filename, bak)\n                os.replace(filename_tmp, filename)\n                if os.path.exists(bak):\n                    os.remove(bak)")])
probe('06-own-stream', 'C06', [(P, "            # build first, so that nothing is written if it fails\n", "            if filename is self.filename and hasattr(filename, 'truncate') and self._stream_start:\n                filename.seek(self._stream_start[1])\n                filename.truncate()\n")])
# ---- C07
probe('07-default-keep', 'C07', [(E, "    def set_custom_property(self, key, value, protect=False):", "    def set_custom_property(self, key, value, protect=None):")])
probe('07-otp-reset', 'C07', [(E, "        if self.otp:\n            return self._set_string_field('otp', value)\n        else:\n            return self._set_string_field('otp', value, True)", "        return self._set_string_field('otp', value, True)")])
probe('07-move', 'C07', [(G, "        else:\n            self._element.append(entries._element)", "        else:\n            for v in entries._element.iterfind('History/Entry/String/Value'):\n                if not v.text:\n                    v.attrib.pop('Protected', None)\n            self._element.append(entries._element)")])
probe('07-case', 'C07', [(E, "            protected_str = str(protected)", "            protected_str = 'True' if protected else None")])
# ---- C08
probe('08-expires-str', 'C08', [(B, "        d.text = 'True' if value else 'False'", "        d.text = str(value)")])
probe('08-cached-title', 'C08', [(E, "        return self._get_string_field('Title')", "        if not hasattr(self, '_t'):\n            self._t = self._get_string_field('Title')\n        return self._t"), (E, "        return self._set_string_field('Title', value)", "        self._t = value\n        return self._set_string_field('Title', value)")], ['C08', 'C19', 'C12'])
probe('08-autotype-none', 'C08', [(E, "        set_text(self._element.find('AutoType/DefaultSequence'), value)", "        if value is not None:\n            set_text(self._element.find('AutoType/DefaultSequence'), value)")])
probe('08-tags-str', 'C08', [(E, "        v = sep.join(value if isinstance(value, list) else [value])", "        v = sep.join(value if isinstance(value, list) else value.split(','))")])
# ---- C09
probe('09-cached-parent', 'C09', [(B, "    parentgroup = group\n", "    @property\n    def parentgroup(self):\n        if not hasattr(self, '_pg'):\n            self._pg = self.group\n        return self._pg\n")], ['C09', 'C11'])
probe('09-index-cache', 'C09', [(E, "        return self.group._element.findall('Entry').index(self._element)", "        return [e.uuid for e in self.group.entries].index(self.uuid)")], ['C09'])
# ---- C10
probe('10-key-regex', 'C10', [(X, "        'string': '/String/Key[text()=\"{}\"]/../Value[re:test(text(), \"{}\", \"{flags}\")]/../..',", "        'string': '/String/Key[re:test(text(), \"{}\")]/../Value[re:test(text(), \"{}\", \"{flags}\")]/../..',")])
probe('10-falsy', 'C10', [(P, "                elif value is not None:\n                    xp +=", "                elif value:\n                    xp +=")])
probe('10-window-any', 'C10', [(X, "        'autotype_window': '/AutoType/Association/Window[text()=\"{}\"]/../../..',", "        'autotype_window': '/AutoType/Association[1]/Window[text()=\"{}\"]/../../..',")])
probe('10-dup-window', 'C10', [(P, "        res = []\n        for e in elements:", "        res = []\n        if cast and len(elements) > 1:\n            elements = sorted(elements, key=lambda e: e.tag)\n        for e in elements:")])
probe('10-tags-case', 'C10', [(P, "f'contains(text(),{literal(t)})'", "f'contains(concat(\";\", text()),{literal(t)})'")])
probe('10-hist-group', 'C10', [(P, "            prefix += '[not(ancestor::History)]'", "            prefix += '[not(parent::History)]'")], ['C10', 'C13'])
# ---- C11
probe('11-none-name', 'C11', [(G, "            if p.name is not None:  # dont make the root group appear", "            if p.name:  # dont make the root group appear")])
# ---- C13
probe('13-cached-data', 'C13', [(A, "        try:\n            return self._kp.binaries[self.id]\n        except IndexError:\n            raise BinaryError('No such binary with id {}'.format(self.id))", "        if not hasattr(self, '_data'):\n            self._data = self._kp.binaries[self.id]\n        return self._data")])
probe('13-cached-id', 'C13', [(A, "        return int(self._element.find('Value').attrib['Ref'])", "        if getattr(self, '_id', None) is None:\n            self._id = int(self._element.find('Value').attrib['Ref'])\n        return self._id"), (A, "        self._element.find('Value').attrib['Ref'] = str(id)", "        self._id = id\n        self._element.find('Value').attrib['Ref'] = str(id)")])
probe('13-binaries-cache', 'C13', [(P, "            binaries = [a.data[1:] for a in self.payload.inner_header.binary]", "            key = (id(self.payload), len(self.payload.inner_header.binary))\n            if getattr(self, '_bc', (None,))[0] != key:\n                self._bc = (key, [a.data[1:] for a in self.payload.inner_header.binary])\n            binaries = list(self._bc[1])")])
# ---- C14
probe('14-upper', 'C14', [(P, "                    search_value = uuid.UUID(search_value)", "                    search_value = uuid.UUID(search_value.upper().replace('-', ''))")])
probe('14-none-text', 'C14', [(P, "            text = self._deref(text or '', active + (ref,))", "            if text is None:\n                return None\n            text = self._deref(text, active + (ref,))")])
probe('14-dedupe', 'C14', [(P, "            value = value.replace(ref, text)", "            value = value.replace(ref, text, 1)")])
# ---- C15
probe('15-date', 'C15', [(B, "                datetime.now(timezone.utc) >\n                self.expiry_time", "                datetime.now(timezone.utc).date() >\n                self.expiry_time.date()")])
probe('15-truncate', 'C15', [(P, "            return value.isoformat()", "            return value.replace(microsecond=0).isoformat()")])
probe('15-before-epoch', 'C15', [(P, "        value = datetime.fromisoformat(text.replace('Z','+00:00'))", "        value = datetime.strptime(text[:19], '%Y-%m-%dT%H:%M:%S')")])
# ---- C16
probe('16-top-level', 'C16', [(P, "        return self.find_groups(uuid=recyclebin_uuid, first=True)", "        return self.find_groups(uuid=recyclebin_uuid, first=True, group=self.root_group)")])
probe('16-direct', 'C16', [(P, "        return self.find_groups(uuid=recyclebin_uuid, first=True)", "        return self.find_groups(uuid=recyclebin_uuid, first=True, group=self.root_group, recursive=False)")])
probe('16-changed-flag', 'C16', [(P, "        group = self.add_group( self.root_group, **kwargs)", "        group = self.find_groups(name=kwargs['group_name'], group=self.root_group, recursive=False, first=True) or self.add_group( self.root_group, **kwargs)")])
# ---- C17
probe('17-fixed-tmp', 'C17', [(P, "Path(filename).with_name('.{}.tmp'.format(uuid.uuid4().hex))", "Path(filename).with_name('.kp.tmp')")])
probe('17-cwd', 'C17', [(P, "        self.filename = filename\n        self._password", "        self.filename = filename\n        PyKeePass.last = self\n        self._password"), (E, "        self._kp = kp\n\n        if element is None:\n            super", "        self._kp = kp\n        if element is None:\n            from .pykeepass import PyKeePass\n            self._kp = PyKeePass.last if PyKeePass.last.version == kp.version else kp\n            super")])
probe('17-composite-cache', 'C17', [(C, "    # create composite key from password and keyfile composites\n    return", "    # create composite key from password and keyfile composites\n    _last[:] = [password_composite]\n    return"), (C, "def compute_key_composite(", "_last = [b'']\n\ndef compute_key_composite("), (C, "        password_composite = b''", "        password_composite = b'' if not keyfile else b''")])
# ---- C19
probe('19-credchange', 'C19', [(P, "        if e is not None and e.text:\n            return self._decode_time(e.text)", "        if e is None:\n            e = etree.SubElement(self._xpath('/KeePassFile/Meta', first=True), 'MasterKeyChanged')\n        if e.text:\n            return self._decode_time(e.text)")], ['C19', 'C23'])
probe('19-xml-latin', 'C19', [(P, "            pretty_print=True,\n            standalone=True,\n            encoding='utf-8'", "            pretty_print=True,\n            encoding='us-ascii'")])
probe('19-repr-title', 'C19', [(E, "        # filter out NoneTypes and join into string\n", "        # filter out NoneTypes and join into string\n        if self.username is None:\n            self.username = ''\n")])
# ---- C20 - C23
probe('21-hash-mtime', 'C21', [(E, "        return hash((self.uuid, self.mtime))", "        return hash((self.uuid, self.mtime.date()))")])
probe('22-rmblank', 'C22', [(C, "        return etree.tostring(tree)", "        return etree.tostring(tree, method='c14n')")], ['C22', 'C01', 'C02'])
probe('22-attr', 'C22', [(E, "            archive.remove(hist)", "            archive.remove(hist)\n            for k in archive.attrib:\n                del archive.attrib[k]")])
probe('22-delobj', 'C22', [(B, "    def delete(self):\n        self._element.getparent().remove(self._element)", "    def delete(self):\n        parent = self._element.getparent()\n        prev = self._element.getprevious()\n        if prev is not None and not isinstance(prev.tag, str):\n            parent.remove(prev)\n        parent.remove(self._element)")], ['C22', 'C09'])
probe('23-seconds', 'C23', [(P, "        return (now_date - change_date).days > self.credchange_required_days", "        return now_date - change_date > timedelta(days=self.credchange_required_days)")])
probe('23-future', 'C23', [(P, "        return (now_date - change_date).days > self.credchange_recommended_days", "        return abs(now_date - change_date).days > self.credchange_recommended_days")])
probe('23-same-pw', 'C23', [(P, "        self._password = password\n        self._transformed_key = None\n        self.credchange_date = datetime.now(timezone.utc)", "        changed = password != self._password\n        self._password = password\n        self._transformed_key = None\n        if changed:\n            self.credchange_date = datetime.now(timezone.utc)")])

# ---- triggers that need size, repetition or rare values
probe('h13-ref-byte', 'C13', [(E, "            E.Value(Ref=str(id))", "            E.Value(Ref=str(id & 0xff))")])
probe('h13-ref-big', 'C13', [(P, "            reference.id = reference.id - 1", "            reference.id = (reference.id - 1) & 0x7f")])
probe('h17-kdf-cache', 'C17', [(C, "def aes_kdf(key, rounds, key_composite):", "_kdf_cache = {}\n\n\ndef aes_kdf(key, rounds, key_composite):\n    if (rounds, key_composite) not in _kdf_cache:\n        _kdf_cache[rounds, key_composite] = _aes_kdf(key, rounds, key_composite)\n    return _kdf_cache[rounds, key_composite]\n\n\ndef _aes_kdf(key, rounds, key_composite):")], ['C17', 'C02'])
probe('h14-depth', 'C14', [(P, "        if not value:\n            return value\n        references", "        if not value:\n            return value\n        if len(active) > 8:\n            return None\n        references")])
probe('h08-case', 'C08', [(E, "    def title(self, value):\n        return", "    def title(self, value):\n        if value and (self.title or '').lower() == value.lower():\n            return\n        return")])
probe('h08-url-same-prefix', 'C08', [(E, "    def url(self, value):\n        return", "    def url(self, value):\n        if value and self.url and self.url.rstrip('/') == value.rstrip('/'):\n            return\n        return")])
probe('h03-newline', 'C03', [(P, "        self._password = password\n        self._transformed_key = None", "        self._password = password.rstrip('\\n') if isinstance(password, str) else password\n        self._transformed_key = None")], ['C03', 'C18'])
probe('h19-dump', 'C19', [(P, "        with open(filename, 'wb') as f:\n            f.write(self.xml())", "        with open(filename, 'r+b' if os.path.exists(filename) else 'wb') as f:\n            f.write(self.xml())")])
probe('h04-crlf', 'C04', [(C, "                keyfile_bytes = f.read()\n", "                keyfile_bytes = f.read().replace(b'\\r\\n', b'\\n')\n")])
probe('h21-uuid5', 'C21', [(B, "uuid.uuid1().bytes", "uuid.uuid5(uuid.NAMESPACE_OID, str(datetime.now(timezone.utc))[:25]).bytes")])
probe('h09-dup-case', 'C09', [(P, "(e.title or '') == (title or '') and (e.username or '') == (username or '')", "(e.title or '') == (title or '') and (e.username or '').strip() == (username or '').strip()"), (P, "            username=username or None,\n            group", "            group")])
probe('h12-delete-idx', 'C12', [(E, "            self._element.find('History').remove(history_entry._element)", "            history = self._element.find('History')\n            history.remove(history[[h.mtime for h in self.history].index(history_entry.mtime)])")])
probe('h16-in-bin-entry', 'C16', [(P, "        recyclebin_group = self._create_or_get_recyclebin_group()\n        self.move_entry( entry, recyclebin_group)", "        recyclebin_group = self._create_or_get_recyclebin_group()\n        if entry in recyclebin_group.entries:\n            return self.delete_entry(entry)\n        self.move_entry( entry, recyclebin_group)")])
probe('h16-dup', 'C16', [(P, "        self.move_entry( entry, recyclebin_group)", "        for old in recyclebin_group.entries:\n            if (old.title, old.username, old.mtime) == (entry.title, entry.username, entry.mtime) and old != entry:\n                self.delete_entry(old)\n        self.move_entry( entry, recyclebin_group)")])
probe('h09-empty-limit', 'C09', [(P, "        while len(group.entries):\n            self.delete_entry(group.entries[0])", "        for entry in group.entries[:64]:\n            self.delete_entry(entry)")])
probe('h01-entry-64k', 'C01', [(C, "                    data = elem.text.encode('utf-8')", "                    data = elem.text.encode('utf-8')[:0x10000]")], ['C01', 'C02'])
probe('h10-long', 'C10', [(X, "def literal(", "def literal(text):\n    return _literal(text[:256])\n\n\ndef _literal(")])
probe('h15-year', 'C15', [(P, "            diff_seconds = int(\n                (", "            diff_seconds = max(0x0e77934880 if False else 0, 62135596800 if value.year < 1970 else 0) or int(\n                (")])
probe('h23-big', 'C23', [(P, "        return (now_date - change_date).days > self.credchange_required_days", "        return (now_date - change_date).days > self.credchange_required_days % 3650")])
probe('h18-exist', 'C18', [(P, "    keepass_instance.filename = filename\n    keepass_instance.password = password", "    if isinstance(filename, str) and os.path.exists(filename) and os.path.getsize(filename) > 0:\n        filename = filename + '.new'\n    keepass_instance.filename = filename\n    keepass_instance.password = password")])
probe('h11-slash', 'C11', [(P, "            group_path = path[:-1]\n", "            path = [q for p in path for q in (p.split('/') if p and '//' in p else [p])]\n            group_path = path[:-1]\n")])
probe('h07-second', 'C07', [(E, "        if self.otp:\n            return self._set_string_field('otp', value)", "        if self._xpath('String/Key[text()=\"otp\"]', first=True) is not None:\n            return self._set_string_field('otp', value)")])
probe('h22-times', 'C22', [(B, "    def delete(self):", "    def delete(self):\n        p = self._element.getparent().find('Times/UsageCount')\n        if p is not None and p.text and p.text != '0':\n            p.text = str(int(p.text) - 1)\n        self._delete()\n\n    def _delete(self):")], ['C22', 'C09'])

# ---- state kept between calls, things around the objects
probe('i06-keyfile-once', 'C04', [(C, "            if hasattr(keyfile, \"seekable\") and keyfile.seekable():\n                keyfile.seek(0)\n            keyfile_bytes = keyfile.read()", "            if hasattr(keyfile, \"seekable\") and keyfile.seekable() and keyfile.tell() != 0 and not keyfile.closed:\n                keyfile.seek(0, 0 if keyfile.tell() < 64 else 1)\n            keyfile_bytes = keyfile.read()")], ['C04', 'C03'])
probe('i13-spill', 'C07', [(P, "            try:\n                KDBX.build_file(\n", "            try:\n                import tempfile\n                with tempfile.TemporaryFile() as spill:\n                    spill.write(self.xml())\n                KDBX.build_file(\n")])
probe('i19-empty', 'C22', [(P, "        if not filename:\n            filename = self.filename\n        if transformed_key is None:", "        for e in self.tree.xpath('//CustomData[not(*)]/preceding-sibling::CustomData[not(*)]'):\n            e.getparent().remove(e)\n        if not filename:\n            filename = self.filename\n        if transformed_key is None:")], ['C22', 'C01'])
probe('i34-filename', 'C01', [(P, "                os.replace(filename_tmp, filename)", "                os.replace(filename_tmp, filename)\n                self.filename = filename")], ['C01', 'C03', 'C06'])
probe('i45-exit', 'C19', [(P, "        # see issue 137\n        pass", "        # see issue 137\n        if typ is None and isinstance(self.filename, str):\n            self.save()")])
probe('i23-first-empty', 'C10', [(P, "            res = res[0] if res else None", "            res = res[0] if res else ([] if tree is not self.tree else None)")])
probe('i29-types', 'C21', [(B, "        if isinstance(other, BaseElement):", "        if isinstance(other, type(self)):")])
probe('i01-root-cache', 'C01', [(P, "        return self.find_groups(path='', first=True)", "        if getattr(self, '_root', None) is None:\n            self._root = self.find_groups(path='', first=True)\n        return self._root")], ['C01', 'C03', 'C09', 'C21'])
probe('i16-bin-cache', 'C16', [(P, "        recyclebin_uuid = uuid.UUID( bytes = base64.b64decode(elem.text) )\n        return self.find_groups(uuid=recyclebin_uuid, first=True)", "        recyclebin_uuid = uuid.UUID( bytes = base64.b64decode(elem.text) )\n        cached = getattr(self, '_bin', None)\n        if cached is None or cached.uuid != recyclebin_uuid:\n            self._bin = cached = self.find_groups(uuid=recyclebin_uuid, first=True)\n        return cached")])
probe('i12-create-kf', 'C18', [(P, "    keepass_instance.keyfile = keyfile\n    keepass_instance._transformed_key", "    keepass_instance.keyfile = str(keyfile) if keyfile is not None and not hasattr(keyfile, 'read') else None if password and hasattr(keyfile, 'read') and not keyfile.read(1) else keyfile\n    keepass_instance._transformed_key")])
probe('i15-expired-mtime', 'C15', [(B, "        if self.expires and self.expiry_time is not None:", "        if self.expires and self.expiry_time is not None and self.expiry_time != self.ctime:")])
probe('i20-tk-len', 'C20', [(K4, "    if context._._.transformed_key is not None:\n        transformed_key = context._._.transformed_key", "    if context._._.transformed_key:\n        transformed_key = context._._.transformed_key")], ['C20', 'C03'])
probe('i17-logger', 'C17', [(P, "    keepass_instance.filename = filename\n    keepass_instance.password", "    global BLANK_DATABASE_LOCATION\n    if hasattr(filename, 'read') is False and keyfile is None and password is None:\n        BLANK_DATABASE_LOCATION = filename\n    keepass_instance.filename = filename\n    keepass_instance.password")], ['C17', 'C18'])
probe('i23-naive', 'C23', [(P, "        mk_time.text = self._encode_time(date)", "        mk_time.text = self._encode_time(max(date, self.credchange_date) if mk_time.text else date)")])
probe('i22-deepcopy', 'C22', [(C, "        tree_copy = deepcopy(tree)\n", "        tree_copy = etree.ElementTree(etree.fromstring(etree.tostring(tree.getroot(), with_comments=False))) if tree.xpath('//comment()') else deepcopy(tree)\n")])
probe('i22-attr-order', 'C22', [(C, "        return etree.tostring(tree)\n", "        for e in tree.getroot().iter():\n            if isinstance(e.tag, str) and len(e.attrib) > 1 and e.tag == 'Value':\n                for k in list(e.attrib)[1:]:\n                    if k not in ('Protected', 'Ref'):\n                        del e.attrib[k]\n        return etree.tostring(tree)\n")])
