"""Mutation sweep (not a check): how much of the properties' code the checks watch.

  mutate.py REPO_COPY VERIF_COPY OUT.jsonl PER_PROPERTY LANE LANES [SEED] [ID...]

Small syntactic changes are made one by one in REPO_COPY (never in /repo) to the
files the properties are anchored in, and the property's quick check of
VERIF_COPY is run against it.  Survivors are read by hand: each is either
equivalent, outside every property, or shows a gap to close."""
import ast
import json
import os
import random
import re
import subprocess
import sys

CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
SWAP = {'<': ['<=', '>'], '<=': ['<', '>'], '>': ['>=', '<'], '>=': ['>', '<'], '==': ['!='], '!=': ['=='], 'is': ['is not'], 'is not': ['is'], 'in': ['not in'], 'not in': ['in']}
NAMES = {'minimum': 'maximum', 'maximum': 'minimum', 'min': 'max', 'max': 'min', 'reduce_min': 'reduce_max', 'reduce_max': 'reduce_min', 'sin': 'cos', 'cos': 'sin',
         'zeros_like': 'ones_like', 'ones_like': 'zeros_like', 'logical_and': 'logical_or', 'logical_or': 'logical_and', 'any': 'all', 'all': 'any', 'reduce_any': 'reduce_all', 'reduce_all': 'reduce_any',
         'floor': 'ceil', 'ceil': 'floor', 'reduce_sum': 'reduce_mean', 'reduce_mean': 'reduce_sum', 'append': 'insert_nothing', 'x': 'y', 'y': 'x', 'width': 'length', 'length': 'width', 'center_x': 'center_y', 'v_x': 'v_y'}


def py_edits(src):
    """(start, end, replacement) on the text."""
    tree = ast.parse(src)
    lines = src.split('\n')
    base = [0]
    for l in lines:
        base.append(base[-1] + len(l.encode()) + 1)
    raw = src.encode()
    at = lambda n: (base[n.lineno - 1] + n.col_offset, base[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def visit(n, infun):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for x in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                visit(x, True)
            for x in n.body:
                visit(x, True)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value:
                visit(n.value, infun)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.JoinedStr, ast.Raise, ast.Assert)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        s, e = at(n) if hasattr(n, 'lineno') else (0, 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = at(n.left)[1], at(n.comparators[0])[0]
            mid, op = raw[a:b].decode(), CMP[type(n.ops[0])]
            i = mid.find(op)
            if i >= 0:
                for r in SWAP[op]:
                    out.append((a + i, a + i + len(op), r))
        elif isinstance(n, ast.BinOp):
            a, b = at(n.left)[1], at(n.right)[0]
            mid = raw[a:b].decode()
            for op, r in (('//', '/'), ('**', '*'), ('+', '-'), ('-', '+'), ('*', '/'), ('/', '*'), ('%', '//'), ('&', '|'), ('|', '&'), ('@', '*')):
                if op in mid and op != '@':
                    i = mid.find(op)
                    out.append((a + i, a + i + len(op), r))
                    break
        elif isinstance(n, ast.BoolOp):
            a, b = at(n.values[0])[1], at(n.values[1])[0]
            mid, op = raw[a:b].decode(), 'and' if isinstance(n.op, ast.And) else 'or'
            i = mid.find(op)
            if i >= 0:
                out.append((a + i, a + i + len(op), 'or' if op == 'and' else 'and'))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            a = at(n.operand)[0]
            out.append((s, a, '(') if raw[s:a].strip() == b'(' else (s, a, ''))
        elif isinstance(n, ast.Constant) and infun:
            if n.value is True or n.value is False:
                out.append((s, e, str(not n.value)))
            elif isinstance(n.value, int):
                out.append((s, e, str(n.value + 1)))
                if n.value > 0:
                    out.append((s, e, str(n.value - 1)))
            elif isinstance(n.value, float):
                out.append((s, e, repr(n.value * 2 + (n.value == 0))))
        elif isinstance(n, ast.Attribute) and n.attr in NAMES and infun:
            out.append((e - len(n.attr), e, NAMES[n.attr]))
        elif isinstance(n, ast.Call) and infun:
            if isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'any', 'all'):
                a, b = at(n.func)
                out.append((a, b, NAMES[n.func.id]))
            if len(n.args) >= 2:
                (a, b), (x, y) = at(n.args[0]), at(n.args[1])
                out.append((a, y, (raw[x:y] + raw[b:x] + raw[a:b]).decode()))
            for k in n.keywords:
                if k.arg and k.arg not in ('name', 'message'):
                    a, b = at(k.value)[1], e
                    ks = s + raw[s:at(k.value)[0]].rfind(k.arg.encode())
                    m = re.match(rb'\s*,\s*', raw[a:b])
                    out.append((ks, a + (m.end() if m else 0), ''))
        elif isinstance(n, ast.IfExp):
            (a, b), (x, y) = at(n.body), at(n.orelse)
            out.append((a, b, raw[x:y].decode()))
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and infun or isinstance(n, ast.Assign) and infun and not isinstance(n.targets[0], ast.Name):
            out.append((s, e, 'pass'))
        elif isinstance(n, ast.Continue):
            out.append((s, e, 'break'))
        elif isinstance(n, ast.Break):
            out.append((s, e, 'continue'))
        elif isinstance(n, ast.Assign) and infun and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) and n.value.args:
            x, y = at(n.value.args[0])
            a, b = at(n.value)
            out.append((a, b, '(' + raw[x:y].decode() + ')'))
        for x in ast.iter_child_nodes(n):
            visit(x, infun)
    for n in tree.body:
        visit(n, False)
    return [(a, b, r) for a, b, r in out], raw


CC = [(r' < ', [' <= ', ' > ']), (r' <= ', [' < ', ' > ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ', ' < ']), (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
      (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' \+= ', [' -= ']), (r' -= ', [' += ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'std::min\b', ['std::max']), (r'std::max\b', ['std::min']),
      (r'\bcontinue;', ['break;']), (r'\bbreak;', ['continue;']), (r'!(?=[a-z(])', ['']), (r'(?<![\w.])0(?![\w.x])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])2(?![\w.])', ['1']), (r'\b0\.5\b', ['0.25']), (r'\bcos\b', ['sin']), (r'\bsin\b', ['cos']),
      (r'(?m)^ +[A-Za-z_][\w\->.\[\]()]*(?:\(.*\)|\+\+| [+\-*|]?= .*);$', ['  ;']), (r'(?m)^ +return .*;$', []), (r'\+\+(\w)', None), (r'\bif \((?=[^()]*(?:\([^()]*\)[^()]*)*\) \{)', ['if (false && ', 'if (true || ']),
      (r'\bint64_?t?\b', ['int32'])]


def cc_edits(src):
    code = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"', lambda m: ' ' * len(m.group(0)) if '\n' not in m.group(0) else re.sub(r'[^\n]', ' ', m.group(0)), src, flags=re.S)
    code = re.sub(r'(?m)^#[^\n]*|^template[^\n]*|^using[^\n]*|^\s*(?:D?CHECK|LOG)[^;]*;', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), code)
    out = []
    for rx, rep in CC:
        for m in re.finditer(rx, code):
            if rep:
                for r in rep:
                    out.append((m.start(), m.end(), r))
    return out, src.encode() if src.isascii() else None


def main():
    repo, verif, outp, per, lane, lanes = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6])
    seed, only = int(sys.argv[7]) if len(sys.argv) > 7 else 1, sys.argv[8:]
    jobs, near = [], {}
    for line in open(verif + '/properties.jsonl'):
        p = json.loads(line)
        for f in p['anchors']['files']:
            near.setdefault(f, []).append(p['id'])
        if only and p['id'] not in only:
            continue
        rng = random.Random('%s/%d' % (p['id'], seed))
        cand = []
        for f in p['anchors']['files']:
            fs = [f] if os.path.isfile(repo + '/' + f) else []
            for f in fs:
                if f.endswith('.h') and os.path.exists(repo + '/' + f[:-1] + 'cc'):
                    continue
                src = open(repo + '/' + f).read()
                ed, raw = (py_edits if f.endswith('.py') else cc_edits if f.endswith(('.cc', '.h')) else lambda s: ([], None))(src)
                if raw:
                    cand += [(f, e) for e in ed]
        rng.shuffle(cand)
        jobs += [(i, p['id'], f, e) for i, (f, e) in enumerate(cand[:per])]
    jobs.sort(key=lambda j: (j[0], j[1]))
    for n, (i, pid, f, (a, b, r)) in enumerate(jobs):
        if n % lanes != lane:
            continue
        path = repo + '/' + f
        raw = open(path, 'rb').read()
        open(path, 'wb').write(raw[:a] + r.encode() + raw[b:])
        diff = subprocess.run(['git', '-C', repo, 'diff', '-U1'], capture_output=True, text=True).stdout
        if f.endswith('.py') and subprocess.run([sys.executable, '-c', 'import ast,sys;ast.parse(open(sys.argv[1]).read())', path], capture_output=True).returncode:
            rc, txt, by = -2, '', ''
        else:
            rc, txt, by = 0, '', ''
            for other in [pid] + [x for x in near.get(f, []) if x != pid]:   # a survivor may be another property's concern
                try:
                    q = subprocess.run([sys.executable, verif + '/lib/run.py', other], cwd=verif, capture_output=True, text=True, timeout=600, env=dict(os.environ, VERIF_REPO=repo, VERIF_TIER='quick'))
                    rc, txt, by = q.returncode, q.stdout + q.stderr, other
                except subprocess.TimeoutExpired:
                    rc, txt = -1, 'timeout'
                if rc:
                    break
        open(path, 'wb').write(raw)
        with open(outp, 'a') as o:
            o.write(json.dumps(dict(id=pid, by=by, file=f, rc=rc, diff=diff, out='\n'.join(l for l in txt.split('\n') if 'VIOLATION' in l or l.startswith('  '))[:400] if rc == 1 else txt[-600:])) + '\n')


main()
