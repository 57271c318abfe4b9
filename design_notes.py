HEAD = r'''
# Runtime monitoring of pykeepass

(Generated by mkdesign.py from design_notes.py, properties.jsonl, the checks and catch.json.)

pykeepass is pure Python over lxml, construct, pycryptodomex and argon2: it has no native code of its own, no threads
and no locks, so compiler sanitizers and race detectors have nothing of this repository to instrument (sanitizing
CPython or the wheels would judge other projects, and neither can be rebuilt offline). What runtime monitoring
decides here are behavioural properties: the real library runs under hostile generated workloads, and monitors watch it at the
three places where its behaviour is visible:

* the **API boundary**: after every operation the whole database, as the getters and the XML tree show it, is compared with a shadow model;
* the **file boundary**: every file it writes is decoded and verified by an independent KDBX implementation, and files
  written by that implementation (in layouts the library itself never produces) are what it has to read;
* the **libc boundary**: an LD_PRELOAD shim counts, logs, fails, shortens or kills at the n-th file-system call of a save and captures every byte written.

No instrumentation inside /repo is needed (there is no hook commit, `hooks` in MANIFEST.json is empty) and the monitors use
the public API only, so refactorings of internals are invisible to them.

## Common parts (kpmon/)

* `refkdbx.py`, `ref_twofish.py`: **reference codec**. Independent KDBX 3.0/3.1/4.0/4.1 reader and writer: headers, variant dictionaries,
  AES-KDF, Argon2d/id, AES/ChaCha20/Twofish (own Twofish), Salsa20/ChaCha20 inner streams, hashed and HMAC blocks, key files.
  Strict when decoding (every hash, HMAC, padding byte, length and terminator is checked). Only primitives of Cryptodome/argon2
  are shared with the library. Cross-checked with the fixtures that KeePass/KeePassXC wrote and (Twofish) with libgcrypt.
* `model.py`: **shadow model** of groups, entries, history, fields with protection, times, attachments, binaries, metadata, and the
  projections by which each property looks at it. Built from the reference decoding, from kp.tree or from the getters, so the three views can be compared.
* `engine.py`: **operation engine**. Random operation sequences over a live database (assignments, valid and invalid; adds, moves, deletes,
  refused ones; trash; history; binaries and attachments; times; save to own path, other path, stream; reopen; reload; credential
  changes). Each operation is applied to the library and to the model, then everything is compared. A deviation outside the
  projection of the property under check is *foreign*: it is counted in the evidence, not reported (its own property reports it),
  and ends the case. Objects and attachments the caller kept from earlier are compared as well as fresh ones, so a value cached in an
  object or a database is seen.
* `gen.py`: hostile generators: texts with quotes, braces, XML metacharacters, regex characters, astral and combining characters, white space,
  REF syntax, base64 look-alikes; databases with unknown elements, foreign attributes and comments, odd attribute orders, duplicate names, history,
  shared binaries, and *sparse* ones in which optional elements are absent or empty; every
  configuration (version x cipher x KDF x compression x inner cipher x block size x header order).
* `shim.py`: builds the **fault shim** (C, LD_PRELOAD) in a scratch directory.
* `fw.py`: runs the cases of a check in 8 processes, each case from its own seed (VERIF_SEED, check, index); writes evidence, replay files
  (`run.sh CXX --replay FILE`), known findings; a check is incomplete (exit 2) if its harness fails or one of the observations it
  exists for never happened (MUST_OBSERVE), so a silent loss of coverage cannot pass for success.

Key-derivation costs are made minimal in the generated files, which is what makes thousands of full open/save cycles per minute possible.

All effects stay in scratch directories (tempfile) that the check removes. /repo is imported from its working tree with
bytecode writing off, so nothing is built and nothing in /repo is written.
'''
NOTES = {
'C01': 'Round trips of random edit sequences; the monitor compares model, in-memory object before and after the save, reopened object and independent decoding. Reaches combinations of content and configuration, and sizes (exact multiples of the 1 MiB block, texts beyond the XML parser limits, deep nesting) the tests do not have.',
'C02': 'Differential execution against the reference codec in both directions: strict decoding of everything the library writes; opening of everything the reference encoder can lay out. Includes every payload length modulo the cipher block and around the block size, all header orders and optional fields, XML encodings, and heavy files (more than 16 MiB, more than 256 levels, thousands of fields or entries).',
'C03': 'An attempt oracle: the composite key computed independently decides for each credential combination whether it must open. Neighbouring credentials (case, normal forms, white space, prefixes, NUL, surrogates, empty versus absent, other key file forms, unreadable key files) are tried after each step of a random history of credential changes, saves, copies, reloads and failing reads.',
'C04': 'Key file contents are generated around all rule boundaries; database keyed by the reference, opened by the library, and the reverse; as path, Path, stream at any position, with and without password.',
'C05': 'Fault injection into stored files: bit flips (thorough: every position of some files), overwrites, insertions, truncation at every structural boundary, block surgery, header field surgery with stale and recomputed checksums, foreign blocks, blocks beyond 1 MiB, exchanged KDBX3 blocks. Oracle: exception or identical content; specific exceptions where the statement names them; no key derivation under a stale header checksum (absurd costs must be refused promptly).',
'C06': 'Saves in child processes under the fault shim: a fault-free run counts the file-system calls, then *every* call is failed (ENOSPC, EIO, EACCES), shortened or turned into process death, for several databases and target kinds (existing, new, symlink, read-only file, no directory), and for each single fault the calls the library makes in response to it are hit by a second one. Afterwards the directory, the file (decoded independently) and the in-memory object are judged. Further failures come from credentials, resource limits and signals.',
'C07': 'Protection flags are part of the model after each operation; each saved payload is inspected raw (protected values must be ciphertext of the inner cipher, also white-space-only, base64-like and empty ones), and every byte written at libc level (temporary files included) is scanned for the unique tokens of the content.',
'C08': 'Assignments of hostile values to every field, valid and invalid, with whole-database comparison (value exact, everything else untouched, refused ones leave no trace).',
'C09': 'Random tree edits incl. refused ones, lists, forced duplicates, moves under descendants, against the model tree with order and indices.',
'C10': 'Brute-force predicate over the XML tree as oracle for every search form, criterion combination, flag and scope, with texts taken from, and perturbed from, the content.',
'C11': 'Paths of all elements against the model after each edit; lookups of present, absent and perturbed paths.',
'C12': 'The engine keeps a copy of each snapshot in the model; it must stay identical (also in the file) through everything that happens later to the entry, its siblings and the database.',
'C13': 'Attachment-to-bytes mapping in the model, compared in memory and by id in the independently decoded file, with shared, duplicate, history and protected/compressed binaries.',
'C14': 'Independent resolver over the XML tree; random reference graphs with cycles, chains, missing targets and references between other text, under a time and memory limit.',
'C15': 'Times with every offset, far years, sub-second parts, both encodings, under several local time zones (TZ) in the child processes; expired verdicts near the instant.',
'C16': 'Trash operations of every element incl. refused ones, with bins registered, missing, deleted, moved, renamed or nested.',
'C17': 'Two to four databases used in an interleaving in one thread or in real threads with a 10 us switch interval, each with its own model; a deviation is re-run alone in a fresh process and only counts if it disappears there. Distinct interleavings are counted.',
'C18': 'Creations with all credential kinds and targets; attempts with the given, neighbouring and template credentials; template hashed before and after; independence of several creations.',
'C19': 'Canonical content, serialised tree, credentials, header and directory before and after every read operation with hostile arguments; exports parsed independently.',
'C20': 'All settings are parsed from the file independently before and after histories of edits and saves; reported values compared with stored ones.',
'C21': 'UUIDs in model; all pairs of objects for equality and hash; lookups against a scan; bulk creation under frozen/re-seeded random state.',
'C22': 'Every uninterpreted element and attribute carries a unique token and must stay where it was while everything around it is edited.',
'C23': 'Policy verdicts against the definition on dates around every day boundary; metadata date unchanged by anything but credential assignment.',
}
TAIL = r'''
## Genuine defects found

All were repaired (29 `fix:` commits in /repo, listed with what failed in known_findings.txt as `fixed:`); there are no open findings.

## Alarms that were the check's fault, and what was done

* C22 compared the attributes of `History` elements that `delete_history` legitimately removes: the monitor now forgets them with the element.
* C21 judged lookups by UUID with elements the workload itself had given duplicate UUIDs by assignment: lookups of duplicates now expect all of them.
* C15/C23 demanded truncation of sub-second parts in KDBX4 to the microsecond; the library computes in floating point, where the last
  microseconds of a second may count as the next one. Within 100 us below a full second both are accepted.
* Kept attachment objects were compared although the database had been reloaded since (C23): they are dropped with the tree they belong to.
* C10: regular expressions that match the empty text may or may not match an absent field (XPath has no absent text).

## Limits

* **Not claimed: fresh seeds per save.** The library keeps master seed, IV and inner stream key of the opened file for every save
  (KeePass renews them). This is a design weakness of the library, not a small repair (and it would break the documented use of
  `transformed_key`), so C20 accepts both and no property is claimed.
* Power loss after a completed write (no fsync) is outside C06: process death and failing calls are what the shim injects.
* Behaviours kept out of the workloads because their meaning is not defined: searches for the empty text; find(recursive=False)
  without a group; delete_history(all=True) without history; non-seekable key file streams; KDBX3 attachments whose value is stored inline
  instead of in Meta/Binaries; references put together by substitution; Entry.deref('uuid'); custom properties with an empty key;
  binary ids with gaps in the opened file; XML key files with another root than KeyFile; KDBX3 files with very many transform rounds.
* Memory is not scrubbed by the library (Python strings), nothing is claimed about secrets in memory.
* Random exploration can miss what needs a very specific input. Where the space is small it is enumerated instead (file-system calls in C06,
  header fields and block boundaries in C05, lengths modulo 16 in C02, getters in C19).
'''
