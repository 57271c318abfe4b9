#!/usr/bin/env python3
"""Systematic mutants of pykeepass in scratch clones: which survive the tests, and which of those the checks catch.
mutate.py gen OUT.json | tests IN OUT | checks IN OUT"""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
PY = '/opt/venv/bin/python'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['pykeepass/' + f for f in ('pykeepass.py', 'entry.py', 'group.py', 'baseelement.py', 'attachment.py', 'xpath.py', 'deprecated.py', 'kdbx_parsing/common.py', 'kdbx_parsing/kdbx.py',
                                    'kdbx_parsing/kdbx3.py', 'kdbx_parsing/kdbx4.py', 'kdbx_parsing/twofish.py')]
STAGE1 = [('C02', 70), ('C08', 120), ('C10', 120), ('C09', 90), ('C13', 90), ('C03', 50), ('C05', 40), ('C16', 120), ('C12', 100), ('C15', 150), ('C11', 120), ('C14', 150), ('C07', 90), ('C20', 60),
          ('C23', 300), ('C21', 60), ('C22', 70), ('C19', 90), ('C04', 150), ('C18', 16), ('C06', 10), ('C17', 50), ('C01', 50)]


# the checks that watch a function or file (enclosing function first, then the file)
WATCH = {
    'read reload save': 'C03 C05 C01 C02 C06 C20 C18 C17', 'version encryption_algorithm kdf_algorithm transformed_key database_salt': 'C20 C19', 'payload tree xml dump_xml': 'C19 C01',
    'recyclebin_group _can_be_moved_to_recyclebin _create_or_get_recyclebin_group trash_group trash_entry empty_group': 'C16 C09',
    'database_name database_description default_username': 'C08 C01', 'xpath _find find_groups find_entries find_attachments': 'C10 C11 C13',
    'add_group delete_group move_group add_entry delete_entry move_entry': 'C09 C08 C15', 'attachments binaries add_binary delete_binary': 'C13 C20 C10 C07', 'deref _deref': 'C14',
    'password keyfile': 'C23 C03 C07 C08', '_encode_time _decode_time _encode_time_value': 'C15 C23', 'create_database': 'C18', 'path': 'C11', 'save_history delete_history history': 'C12',
    'compute_key_composite': 'C04 C03', 'uuid __hash__ __eq__': 'C21',
    'deprecated.py': 'C10 C11', 'xpath.py': 'C10 C11', 'entry.py': 'C08 C12 C07 C09 C13 C22 C14 C10', 'group.py': 'C08 C11 C09', 'baseelement.py': 'C15 C08 C21 C09 C11', 'attachment.py': 'C13',
    'common.py': 'C02 C05 C07 C01', 'kdbx4.py': 'C02 C20 C05 C03', 'kdbx3.py': 'C02 C20 C05 C03', 'kdbx.py': 'C02 C05', 'twofish.py': 'C02 C01', 'pykeepass.py': 'C23 C15 C10 C13 C09'}
CASES = dict(STAGE1)


def watching(m):
    src = open('/repo/' + m['file'], encoding='utf-8').read()
    fn = ''
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.FunctionDef) and n.lineno <= m['line'] <= n.end_lineno:
            fn = n.name
    for k, v in WATCH.items():
        if fn in k.split() or (fn.startswith('credchange') and k.startswith('password')):
            return v.split()
    return WATCH[os.path.basename(m['file'])].split()


def sh(cmd, timeout=None, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        class R:
            returncode, stdout = 99, 'timeout'
        return R


def seg(lines, n):
    a = sum(len(l) for l in lines[:n.lineno - 1]) + len(lines[n.lineno - 1].encode()[:n.col_offset].decode())
    b = sum(len(l) for l in lines[:n.end_lineno - 1]) + len(lines[n.end_lineno - 1].encode()[:n.end_col_offset].decode())
    return a, b


CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.BitOr: '&', ast.BitAnd: '|', ast.BitXor: '|', ast.FloorDiv: '*', ast.Mod: '*', ast.LShift: '>>', ast.RShift: '<<'}


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
            doc.add(id(n.body[0]))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('logger', 'logging'):
            for x in ast.walk(n):
                doc.add(id(x))
        if isinstance(n, ast.Raise):
            for x in ast.walk(n):
                doc.add(id(x))

    def add(n, new, what):
        a, b = seg(lines, n)
        if src[a:b] != new:
            out.append({'file': path, 'a': a, 'b': b, 'old': src[a:b], 'new': new, 'line': n.lineno, 'what': what})
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        s = lambda x: ast.get_source_segment(src, x)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, '%s %s %s' % (s(n.left), CMP[type(n.ops[0])], s(n.comparators[0])), 'compare')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + op.join('(%s)' % s(v) for v in n.values) + ')', 'boolop')
            for i in range(len(n.values)):
                add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % s(v) for j, v in enumerate(n.values) if j != i) + ')', 'drop operand')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '(%s)' % s(n.operand), 'not')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, '(%s %s %s)' % (s(n.left), BIN[type(n.op)], s(n.right)), 'binop')
            if isinstance(n.op, ast.Add):
                add(n, s(n.left), 'left only')
                add(n, s(n.right), 'right only')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), 'bool')
            elif isinstance(v, int):
                add(n, str(v + 1), 'int')
                if v:
                    add(n, '0', 'int')
            elif isinstance(v, str) and len(v) < 90 and not getattr(n, 'in_f', None):
                add(n, repr(v + 'x') if not v.startswith('x') else "''", 'str')
                if '//' in v or '[' in v:
                    add(n, repr(v.replace('//', '/', 1)), 'str')
            elif isinstance(v, bytes):
                add(n, repr(v + b'x'), 'bytes')
        elif isinstance(n, (ast.If, ast.While)):
            if not isinstance(n, ast.While):
                add(n.test, 'True', 'if True')
            add(n.test, 'False', 'if False')
        elif isinstance(n, ast.IfExp):
            add(n, s(n.body), 'ifexp'), add(n, s(n.orelse), 'ifexp')
        elif isinstance(n, ast.Return) and n.value is not None:
            add(n.value, 'None', 'return None')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not isinstance(getattr(n, 'value', None), ast.Constant):
            add(n, 'pass', 'drop statement')
        elif isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                if x is not None:
                    add(x, '(%s) + 1' % s(x), 'slice')
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg in ('history', 'first', 'regex', 'recursive', 'tree', 'group', 'path', 'protected', 'cast', 'element'):
                    a, b = seg(lines, k)
                    # take the argument with the comma before it
                    j = src.rfind(',', n.col_offset, a)
                    i = max(src.rfind(',', 0, a), src.rfind('(', 0, a))
                    if src[i] == ',' and not src[i + 1:a].strip():
                        out.append({'file': path, 'a': i, 'b': b, 'old': src[i:b], 'new': '', 'line': n.lineno, 'what': 'drop keyword'})
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('strip', 'lower', 'upper', 'encode', 'decode', 'replace', 'copy') and isinstance(n.func.value, ast.expr):
                add(n, s(n.func.value), 'drop call')
            if isinstance(n.func, ast.Name) and n.func.id in ('deepcopy', 'literal', 'str', 'sorted', 'list', 'set') and len(n.args) >= 1:
                add(n, s(n.args[0]), 'drop call')
        elif isinstance(n, ast.Continue):
            add(n, 'break', 'continue')
        elif isinstance(n, ast.Break):
            add(n, 'pass', 'break')
    return out


def apply(m, d):
    p = os.path.join(d, m['file'])
    s = open(p, encoding='utf-8').read()
    assert s[m['a']:m['b']] == m['old']
    s = s[:m['a']] + m['new'] + s[m['b']:]
    open(p, 'w', encoding='utf-8').write(s)
    try:
        ast.parse(s)
        return True
    except SyntaxError:
        return False


def clone():
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp/mut')
    sh(['git', 'clone', '-q', '/repo', d + '/r'])
    return d


def tests(m):
    d = clone()
    try:
        r = d + '/r'
        if not apply(m, r):
            return False
        env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', TZ='UTC')
        x = sh([PY, '-c', 'import pykeepass'], env=env, cwd=r, timeout=20)
        if x.returncode:
            return False
        return sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-o', 'python_files=test*.py', 'tests'], cwd=r, env=env, timeout=150).returncode == 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def checks(m):
    d = clone()
    try:
        r = d + '/r'
        apply(m, r)
        for c in watching(m):
            n = CASES[c]
            env = dict(os.environ, KPMON_REPO=r, VERIF_SEED='1', KPMON_PROCS='3')
            x = sh([VERIF + '/run.sh', c, '--cases', str(n)], env=env, timeout=600)
            if x.returncode == 1:
                return c
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    what = sys.argv[1]
    if what == 'gen':
        ms = []
        for f in FILES:
            p = '/repo/' + f
            if os.path.exists(p):
                ms += mutants(f, open(p, encoding='utf-8').read())
        seen, out = set(), []
        for m in ms:
            k = (m['file'], m['a'], m['b'], m['new'])
            if k not in seen:
                seen.add(k)
                out.append(m)
        json.dump(out, open(sys.argv[2], 'w'), indent=0)
        print(len(out))
        return
    ms = json.load(open(sys.argv[2]))
    jobs = int(os.environ.get('JOBS', '8'))
    done = {}
    if os.path.exists(sys.argv[3]):
        for l in open(sys.argv[3]):
            x = json.loads(l)
            done[(x['file'], x['a'], x['b'], x['new'])] = x
    todo = [m for m in ms if (m['file'], m['a'], m['b'], m['new']) not in done]
    random.Random(1).shuffle(todo)
    fn = tests if what == 'tests' else checks
    with open(sys.argv[3], 'a') as f, ThreadPoolExecutor(jobs) as ex:
        for fu in as_completed({ex.submit(lambda m: (m, fn(m)), m) for m in todo}):
            m, r = fu.result()
            m[what] = r
            f.write(json.dumps(m) + '\n')
            f.flush()


if __name__ == "__main__":
    main()
