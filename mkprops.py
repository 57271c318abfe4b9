#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 mkprops.py)."""
import json, os
K = 'pykeepass/'
PK, EN, GR, BE, AT, XP = (K + x for x in ('pykeepass.py', 'entry.py', 'group.py', 'baseelement.py', 'attachment.py', 'xpath.py'))
CM, K3, K4, KX = (K + 'kdbx_parsing/' + x for x in ('common.py', 'kdbx3.py', 'kdbx4.py', 'kdbx.py'))
TF = K + 'kdbx_parsing/pytwofish.py'
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

p('C01', 'Saving and reopening preserves the whole database',
  'For any content built or edited through the public API, in every supported version, cipher, key-derivation function and compression setting, saving (to a path or to a stream) and reopening with the same credentials yields exactly the same content: the group tree and element order, every entry and group field, custom properties, history, attachments, binaries and database metadata. An empty text and an absent text count as equal. Saving, also to another place, leaves the in-memory content and the place that later saves go to unchanged, and can be repeated any number of times.',
  ['inputs', 'histories', 'configurations'], 'every content (any XML-representable text of any length, any nesting depth, any binary), every edit history and every format configuration',
  'The tests save and reopen a handful of fixture databases and read back one or two fields; they never compare the whole content and never reach block boundaries, large values, deep trees or odd text.',
  [PK, CM, K3, K4], [('payload building', CM), ('save/read', PK), ('XML adapter', CM)], ['kp.tree / public getters before save and after reopen'])
p('C02', 'Files conform to KDBX and interoperate with other implementations',
  'Every file the library writes is a valid KDBX 3.1 or 4.x file: an independent implementation of the format, given the same credentials, verifies all its hashes and HMACs and decodes it to the same content. Conversely every valid KDBX file - any supported cipher, key derivation, compression setting, inner stream cipher, block layout and payload size - opens to exactly the content its writer stored (characters that XML has no form for, which only a protected value can hold, are dropped).',
  ['inputs', 'configurations'], 'every content, payload size (block and padding boundaries) and header configuration',
  'The tests only let the library read back its own output; a symmetric encoding error, a wrong block index or a cipher deviation is invisible to them outside the few fixtures.',
  [CM, K3, K4, KX, TF], [('KDBX construct grammar', KX), ('ciphers and block streams', CM), ('HMAC block stream', K4), ('hashed block stream', K3)], ['bytes of the saved file', 'kp.tree after opening'])
p('C03', 'Only the exact credentials open a database',
  'A database opens only with the password, key file content or transformed key it was last saved with; every other combination (a different password of any kind, a missing, extra or different key file, an empty instead of an absent password or the reverse) raises CredentialsError and gives no content. Setting a password or key file changes the stored file only at the next save, after which exactly the new credentials open it; a save without any credential change, including after opening with a transformed key, never changes the credentials. An attempt that fails on an already open object leaves its content and credentials unchanged.',
  ['inputs', 'histories', 'configurations'], 'every credential value, every pair of distinct credentials, every sequence of credential changes and saves',
  'The tests try six wrong pairs on two fixtures; the credential-change tests in the file never run (their class is shadowed).',
  [PK, CM, K3, K4], [('composite key', CM), ('credential check', K4), ('stream start bytes check', K3), ('exception mapping', PK)], ['PyKeePass(...) outcome for each credential'])
p('C04', 'Key files are interpreted by the KeePass rules for any content',
  'For every key file content the derived key is the one KeePass defines: XML version 1.0 (base64 data), XML version 2.0 (hex data, verified by its hash), exactly 32 bytes taken raw, exactly 64 hexadecimal digits decoded, anything else hashed with SHA-256. It does not matter whether the key file is given as a path or as an open seekable binary stream at any position, nor whether a password is used as well. A version 2.0 key file whose hash does not match its data is refused.',
  ['inputs'], 'every byte string as key file content, every way of passing it',
  'The tests use five fixed key files; lengths around 32 and 64, near-hex content, whitespace and binary content, and streams at an offset are not reached.',
  [CM], [('compute_key_composite', CM)], ['whether a database keyed by an independent implementation opens'])
p('C05', 'Altered files are never silently accepted',
  'For every alteration of a stored database file (bit flips, truncation, removed, duplicated, reordered blocks or blocks of another database, edited header fields), opening it with the right credentials either raises an exception or yields exactly the content that was last saved; altered content is never returned. A KDBX4 header that still parses but no longer matches the stored header checksum raises HeaderChecksumError, without running the key derivation; a KDBX4 block whose data or HMAC was changed raises PayloadChecksumError, a KDBX3 payload block whose data no longer matches its hash raises PayloadChecksumError, and a KDBX3 header that disagrees with the header hash stored in the payload raises an exception. (KDBX3 hashes are not keyed: forging them, or editing the header of a KDBX3 file that stores no header hash, is outside this guarantee.)',
  ['inputs', 'fault_sequences'], 'every file, every position and kind of alteration',
  'No test alters a database file; the only corrupted input is a key file opened as a database.',
  [K3, K4, KX, PK], [('sha256 and HMAC of the header', K4), ('HMAC of each block', K4), ('hash of each block', K3), ('exception mapping', PK)], ['PyKeePass(...) outcome on altered bytes'])
p('C06', 'A failed or interrupted save never damages the stored database',
  'If saving to a path fails or the process dies at any point of it (I/O error, full disk, missing key file, unencodable credentials, kill), the file at that path afterwards holds either the complete previous database or the complete new one, and both remain openable with their credentials. A save that fails raises an exception, leaves the in-memory database usable and leaves no temporary file behind; no save ever modifies or removes any other file in the directory. A save to a stream writes only a complete database: if the database cannot be built (missing key file, unencodable credentials) the stream is untouched.',
  ['crash_points', 'fault_sequences', 'inputs'], 'every file-system call made during save as a crash point or failing call, every target file name',
  'One test makes one save fail before anything is written and reopens the file; no test interrupts a write or looks at the rest of the directory.',
  [PK], [('write to temporary file, then move', PK)], ['directory content and file bytes after each fault', 'libc calls made during save'])
p('C07', 'Protected fields stay protected and are never stored in clear',
  'An entry password or OTP that is set for the first time, and a custom property set with protection, are marked protected (each set_custom_property call states the protection, by default none), and every field keeps its protection status through value changes of itself or other fields, history snapshots, moves, saves and reopening, until the caller explicitly asks otherwise. In the payload of every saved file each protected value appears only encrypted with the inner stream cipher. No file written during a save, temporary files included, contains the text of any field or attachment in clear.',
  ['inputs', 'histories', 'configurations'], 'every entry, every order of sets and saves, every format configuration',
  'The tests check the flag in memory for a few sets; none looks at the payload or at the bytes on disk.',
  [EN, CM], [('_set_string_field protected handling', EN), ('UnprotectedStream', CM)], ['decrypted payload XML before unprotecting', 'bytes written to disk'])
p('C08', 'Field assignments are exact and change nothing else',
  'After assigning a field of an entry, group or database (title, username, password, URL, notes, OTP, tags, icon, autotype fields, custom properties, group name and notes, expiry flag, database name, description and default user name) the getter returns exactly the assigned value, for any XML-representable text. No other field, entry, group, history item, attachment or element order changes. An assignment that raises leaves everything, including the old value of the field, as it was.',
  ['inputs', 'histories'], 'every field, every text value, every sequence of assignments',
  'The tests set each field once with a plain ASCII value and look only at that field.',
  [EN, GR, BE, PK], [('_set_string_field / _get_string_field', EN), ('_set_subelement_text', BE)], ['public getters of all elements after each assignment'])
p('C09', 'Tree edits move, add and remove exactly what was named',
  'Adding puts one new element at the end of the destination; moving takes the element with all its content out of its old place and puts it once at the end of the destination; deleting removes the element and its subtree; emptying a group removes all its entries and subgroups; reindexing puts an entry at the requested position among the entries of its group, where its index then reports it. Every other element keeps its content, place and relative order, so nothing is lost or duplicated. A refused operation (an entry whose title and username, where empty and absent count as equal, already exist together in the group without force_creation, moving a group into itself or a descendant) raises and changes nothing.',
  ['histories'], 'every sequence of add, move, delete, empty, reindex and append operations on every tree',
  'The tests perform each operation once or twice on one fixture and count a few results.',
  [PK, GR, EN, BE], [('append', GR), ('delete', BE), ('empty_group', PK), ('reindex', EN)], ['full tree after every operation'])
p('C10', 'Searches return exactly the matching elements',
  'find_entries, find_groups and find_attachments, and the deprecated find_*_by_* forms, return exactly the elements that satisfy every given criterion, in document order, limited to the given group or entry (recursively or only its direct children), without history entries unless history is requested; with first they return the first of these or None, and criteria given as None are ignored. A non-empty, XML-representable search text is matched literally and in full whatever characters it contains (quotes, brackets, regex characters), or as a regular expression with flags when regex is requested; UUIDs and booleans always match exactly, and tag searches match entries whose tag text contains every given tag.',
  ['inputs', 'histories'], 'every database content, every combination of criteria and options, every search text',
  'The tests run a few single-criterion searches with plain texts on one fixture.',
  [PK, XP, K + 'deprecated.py'], [('XPath templates', XP), ('_find', PK)], ['result lists compared with a brute-force predicate over all elements'])
p('C11', 'Paths name elements and resolve back to them',
  "The path of an entry or group lists the names of its ancestor groups below the root followed by its own title or name (the root group's path is empty, a history entry has the groups of its owner followed by its own title), at all times and after any move or rename. Looking an element up by the path of non-empty names returns the first element in document order that has this path, an entry lookup never returns a group or the reverse, and a path that no element has gives None; search arguments other than regex and flags have no effect next to a path; with regex each component of the path is a pattern.",
  ['inputs', 'histories'], 'every tree, every name text, every sequence of renames and moves',
  'The tests check three fixed paths.',
  [PK, EN, GR, XP], [('path property', EN), ('path property', GR), ('path lookup', PK)], ['path of every element and lookup of present and absent paths'])
p('C12', 'History entries are faithful and immutable snapshots',
  'save_history appends one history entry that equals the entry as it was at that moment (all fields, protection flags, times and attachments, without nested history); no later change of the entry, or of any other element, alters it, and its order in the history never changes. Only delete_history removes history entries: exactly the given one, or all of that entry (of an entry that has none, nothing); a history entry of another entry is refused. The history moves and is deleted with its entry, history entries report themselves as such, and they never appear among the current entries of the database or a group.',
  ['histories'], 'every interleaving of edits, save_history, delete_history, moves, saves and reopens',
  'The tests take at most two snapshots of a few entries and compare three fields.',
  [EN], [('save_history / delete_history', EN)], ['all history entries after every operation'])
p('C13', 'Attachments always resolve to their own bytes',
  'add_binary stores the given bytes under the returned id without changing any other binary; an attachment reports its file name and, at all times, exactly the bytes of the binary it was attached to, across additions and deletions of other binaries, saving and reopening, for entries and history entries alike. delete_binary removes exactly that binary and exactly the attachments (also in history) that refer to it, and every remaining attachment still resolves to the same bytes as before, in this library and by id in the stored file; an id that does not exist raises BinaryError and changes nothing. Deleting an attachment removes only that reference.',
  ['histories', 'inputs'], 'every sequence of binary and attachment operations, any number of binaries, any content',
  'The tests delete one binary and check one decremented id; history, more than nine binaries, KDBX3 ids in the file and content are not looked at.',
  [PK, AT, EN], [('delete_binary renumbering', PK), ('binaries', PK), ('Attachment', AT)], ['bytes behind every attachment after every operation', 'ids in the stored file'])
p('C14', 'Field references resolve to the referenced text',
  'deref replaces every field reference in a text by the referenced field of the first matching entry, repeatedly until none is left, keeps all other text, and returns None if any reference matches no entry; text without references comes back unchanged. For every entry and attribute, dereferencing the reference made by ref gives that attribute (UUIDs as 32 upper-case hex digits, an unset field as empty text), wherever the entry is and whatever other references surround it. Circular references end in None or an exception, in bounded time and memory.',
  ['inputs', 'histories'], 'every reference graph, field combination and surrounding text',
  'The tests resolve two chains of references in one fixture and one dangling reference.',
  [PK, EN], [('deref', PK), ('ref', EN)], ['result of deref against a reference resolver'])
p('C15', 'Timestamps keep their exact instant',
  'Creation, modification, access and expiry times of entries and groups (set directly or, for expiry, at creation) read back as the same instant in UTC, to the second (fractions dropped) for KDBX4 and to the microsecond for KDBX3, for every timezone-aware datetime and across saves, in the encoding the format requires; setting one time changes no other. touch sets the access time to now and the modification time only on request, creation sets all times to now, and expired is true exactly if the expiry flag is set and the expiry instant has passed. Times that another program stored, in base64 or ISO form, are read as the instant they denote.',
  ['inputs', 'configurations'], 'every timezone-aware datetime, every offset, both formats, every time field',
  'The tests set UTC times near now; other offsets are used only at entry creation.',
  [PK, BE], [('_encode_time / _decode_time', PK), ('_set_times_property', BE)], ['getters, and the text stored in the file'])
p('C16', 'The recycle bin keeps what is trashed',
  'Trashing an entry or group moves it with all its content into the recycle bin group, which is created under the root and registered in the database metadata the first time (or again after it was deleted) and otherwise reused; there is never more than one bin created at a time and nothing is lost or duplicated. The root group and the bin itself cannot be trashed (UnableToSendToRecycleBin), a group that contains the bin cannot either, and a refused request changes nothing. Emptying the bin removes its content only.',
  ['histories'], 'every sequence of trash, restore, delete, empty and save operations',
  'The tests trash one entry and one group into a fresh bin.',
  [PK], [('trash_entry / trash_group', PK), ('_create_or_get_recyclebin_group', PK)], ['full tree and bin registration after every operation'])
p('C17', 'Open databases do not influence each other',
  'Operations on one open database never change the content, credentials, files or results of another, whether the databases come from the same or different files, formats and credentials, and however the operations are interleaved in one thread or across threads with one database per thread. Every operation gives the same result as when the database is used alone in the process.',
  ['schedules', 'histories'], 'every interleaving of operations on several databases, sequential or threaded',
  'The tests use two databases at a time sequentially and never compare with isolated runs.',
  [PK, CM, K3, K4], [('no shared mutable state in the grammar', KX)], ['per-database results and file content against isolated runs'])
p('C18', 'Created databases are blank and keyed only by what was given',
  'create_database writes, at the given path or stream, a database with a root group and without entries, subgroups of user content or binaries carried over, that opens exactly with the given password, key file or transformed key and not with the default password of the shipped template. The returned object is bound to the new file and credentials, so later edits and saves go there. The shipped template is never modified and creations do not affect each other.',
  ['inputs', 'histories'], 'every credential combination and target, any number of creations',
  'No test calls create_database.',
  [PK], [('create_database', PK)], ['new file, returned object and template bytes'])
p('C19', 'Reading, searching and exporting never change the database',
  'No getter, search, path, dereference, representation, comparison or XML export changes the content in memory or any file other than the requested export. The XML export, as bytes or to a file, is well-formed, declares its encoding and contains exactly the current content, with protected values readable. A database opened without decryption gives its header information without credentials, gives no content, and cannot overwrite the stored file.',
  ['inputs', 'histories'], 'every read operation in every order on every content',
  'The only export test never runs and looks at the first line; no test checks purity.',
  [PK, EN, GR, BE, AT], [('getters', EN), ('xml / dump_xml', PK), ('decrypt=False', K4)], ['whole content before and after each read', 'exported XML'])
p('C20', 'Saving keeps the format and key-derivation settings',
  'The version, cipher, compression, key-derivation function with all its parameters and salt, inner stream cipher, public header fields and binary protection flags of a database are the same in the saved file as in the opened one, and the library reports them as stored. The transformed key reported after opening opens the database directly, and a database saved with it keeps opening with the original password and key file.',
  ['configurations', 'histories'], 'every header configuration, every number of saves and edits',
  'The tests check version, cipher and KDF name on opening fixtures and never inspect a saved header.',
  [PK, K3, K4, CM], [('header handling', KX), ('kdf_algorithm / database_salt', PK)], ['header fields parsed from the saved file'])
p('C21', 'Elements keep unique, stable identities',
  'Every entry and group created gets a UUID different from all others in the database, and no operation other than assigning it changes the UUID of an element. Two entry or group objects are equal exactly when they have the same UUID (history entries are additionally told apart by modification time), equal objects have equal hashes, and looking up a UUID returns exactly the elements that have it. After a reload, and in the saved file, elements keep their UUIDs.',
  ['histories', 'inputs'], 'every sequence of operations, any number of created elements',
  'The tests look up two fixed UUIDs and compare a few entries.',
  [BE, EN, PK], [('uuid property, __eq__, __hash__', BE), ('HistoryEntry.__hash__', EN)], ['UUIDs of all elements after every operation'])
p('C22', 'Content the library does not interpret survives',
  'Elements and attributes that the library has no API for (custom icons, custom data, deleted objects, memory protection settings, auto-type associations, plugin and future fields, in metadata, groups, entries and history) come through opening, any edits of other content and saving unchanged and in place. The same holds for header fields and inner header flags it does not use.',
  ['inputs', 'histories'], 'every unknown XML content in every place, every sequence of unrelated edits',
  'No test has foreign content and compares it after a save.',
  [CM, K3, K4, PK], [('whole-tree preservation', CM)], ['decoded XML of the saved file against the original'])
p('C23', 'Credential-change policy follows the recorded change date',
  'Assigning a password or key file sets the credential change date to now and nothing else does except setting it directly; the date, required days and recommended days read back as set, also after saving. A credential change is reported required (recommended) exactly if a change date is recorded, the respective limit is present and not -1, and more than that many whole days have passed since the change.',
  ['inputs', 'histories', 'configurations'], 'every date and limit, both formats, every order of credential and policy changes',
  'The test written for this never runs because its class is shadowed by a later definition.',
  [PK], [('credchange_*', PK)], ['credchange_* properties around every boundary', 'metadata in the file'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
