#!/usr/bin/env python3
"""Source of MANIFEST.json (run: python3 mkmanifest.py)."""
import ast, json, os
here = os.path.dirname(os.path.abspath(__file__))
T = {
 'C01': ('shadow-model monitor over random edit/save/reopen histories, independent decoder on saved bytes', 'random databases and histories in every configuration plus block-boundary, huge-text, deep and wide databases; sampled, not exhaustive'),
 'C02': ('differential monitor: independent KDBX codec on every byte written and as producer of every byte read', 'random contents, header layouts, block sizes and payload sizes around block and padding boundaries; trusts the reference codec in kpmon/'),
 'C03': ('credential oracle monitor: independent key derivation decides every opening attempt over change/save/reload histories', 'near-miss credentials of many kinds on random databases; cheap KDF parameters'),
 'C04': ('differential monitor of key-file interpretation against independent KeePass rules', 'generated key files of every kind, as path and stream, with and without password'),
 'C05': ('corruption injection with outcome monitor (bit flips, truncation, splices, header edits, foreign blocks)', 'every byte region of the format is hit; random positions inside regions'),
 'C06': ('libc fault-injection shim (fail, short write, kill at every file-system call of a save) with directory-state monitor', 'every file-system call of each sampled save is failed, shortened and killed; saves themselves are sampled; assumes rename is atomic'),
 'C07': ('taint-token monitor on captured libc writes plus protection-status shadow model', 'unique tokens in all fields; all bytes written in the scratch directory are searched'),
 'C08': ('shadow-model monitor over assignments, including refused ones', 'hostile texts and all setters; whole content compared after each assignment'),
 'C09': ('shadow-model monitor over tree operations', 'random sequences of creating, moving, reindexing and deleting; whole tree compared after each'),
 'C10': ('reference search evaluator as online oracle of every search', 'random criteria combinations over hostile content; regular expressions restricted to syntax common to XPath and Python'),
 'C11': ('path oracle from the shadow tree for every element', 'hostile names; ambiguous paths judged by the definition of the first match'),
 'C12': ('shadow-model monitor of history operations', 'random histories; whole content compared after each operation'),
 'C13': ('shadow-model monitor of binaries and attachments', 'random sequences; data, IDs and references compared after each operation'),
 'C14': ('reference resolver as oracle of every dereference', 'random reference graphs incl. chains, cycles, missing targets, malformed references'),
 'C15': ('instant monitor: set/read/save/reopen of times against an independent time codec', 'instants over the whole range, offsets, summer-time zones, both formats'),
 'C16': ('shadow-model monitor of recycle-bin operations', 'random sequences with present, absent, dangling and nested bins'),
 'C17': ('interference monitor: several databases edited in interleaved order, threads and processes', 'interleavings sampled; each database compared with its own shadow model'),
 'C18': ('creation monitor: independent decoding of created files, credential attempts, package files before/after', 'random credentials and targets; key derivation results are memoised in the harness'),
 'C19': ('before/after state monitor of every read operation; independent parsing of exports', 'all public reads with random arguments; whole tree, binaries, credentials and files compared'),
 'C20': ('header monitor: independent parsing of every saved header against the opened one', 'all versions, ciphers, KDFs, compression, inner ciphers, extra fields; fixtures'),
 'C21': ('identity monitor: UUID audit after every operation, pairwise equality/hash checks, lookup oracle', 'random histories and bulk creations; pairs and lookups sampled'),
 'C22': ('foreign-content monitor: token-carrying unknown XML and header content audited after every operation and in saved files', 'unknown content in every kind of place; white space between elements is not compared'),
 'C23': ('policy oracle at day boundaries; metadata audit after every operation', 'dates within seconds of boundaries, all limit kinds, both formats'),
}
checks = []
for l in open(os.path.join(here, 'properties.jsonl')):
    i = json.loads(l)['id']
    src = open(os.path.join(here, 'kpmon', 'checks', i.lower() + '.py')).read()
    level = next(ast.literal_eval(n.value) for n in ast.parse(src).body if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'LEVEL')
    checks.append(dict(property=i, quick_cmd='./run.sh ' + i, thorough_cmd='VERIF_TIER=thorough ./run.sh ' + i, evidence_file='evidence/%s.json' % i,
                       technique='runtime monitoring: ' + T[i][0], level=level, level_note=T[i][1]))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
         notes='No hooks in /repo: the monitors observe the public API, the stored bytes and (C06, C07) libc calls through an LD_PRELOAD shim built by setup.sh into /verif/build.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
