#!/usr/bin/env python3
"""
Developer helper (not a check): mutation sweep.
usage: mutate.py OUT.txt NPAR FILE[:func,func...] PID[,PID...] [FILE PID,...]...
Makes small syntactic changes to copies of /repo's modules under /tmp/mut and
lists those which none of the given checks notices.
"""
import ast, copy, os, subprocess, sys, shutil, threading, queue, time
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def sites(tree, funcs):
    """[(path-id, description, mutate(tree copy's node))]"""
    out = []

    def visit(node, infn, cls):
        for f, v in ast.iter_fields(node):
            if isinstance(node, ast.arguments):
                continue
            if isinstance(node, ast.If) and f == 'body' and (ast.unparse(node.test) in ('False', 'debug', 'verbose', 'ps', 'ps is not None', 'plots') or 'plot' in ast.unparse(node.test)):
                continue
            for idx, ch in enumerate(v if isinstance(v, list) else [v]):
                if not isinstance(ch, ast.AST):
                    continue
                fn = infn
                if isinstance(ch, ast.ClassDef):
                    visit(ch, infn, ch.name)
                    continue
                if isinstance(ch, (ast.FunctionDef,)):
                    fn = infn or ((cls + '.' if cls else '') + ch.name)
                    if ch.name in ('__str__', '__repr__', 'plot', 'getPlotPatch') or 'plot' in ch.name.lower():
                        continue
                if fn and (funcs is None or fn.split('.')[-1] in funcs or fn in funcs):
                    add(ch, fn, v if isinstance(v, list) else None, idx)
                if isinstance(ch, ast.Call) and getattr(ch.func, 'id', '') in ('print',):
                    continue
                if isinstance(ch, (ast.Raise, ast.Assert)):
                    continue
                visit(ch, fn, cls)

    def add(n, fn, lst, idx):
        L = getattr(n, 'lineno', 0)
        def rec(desc, do, undo):
            out.append((L, '%s:%d %s' % (fn, L, desc), do, undo))
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            o = n.ops[0]
            rec('cmp %s' % type(o).__name__, lambda: n.ops.__setitem__(0, CMP[type(o)]()), lambda: n.ops.__setitem__(0, o))
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            if isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                return
            o = n.op
            rec('op %s' % type(o).__name__, lambda: setattr(n, 'op', BIN[type(o)]()), lambda: setattr(n, 'op', o))
        if isinstance(n, ast.BoolOp):
            o = n.op
            rec('boolop', lambda: setattr(n, 'op', ast.And() if isinstance(o, ast.Or) else ast.Or()), lambda: setattr(n, 'op', o))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            o = n.op
            rec('unary', lambda: setattr(n, 'op', ast.UAdd() if isinstance(o, ast.USub) else ast.Not()) if isinstance(o, ast.USub)
                else setattr(n, 'operand', ast.UnaryOp(ast.Not(), n.operand)),
                (lambda: setattr(n, 'op', o)) if isinstance(o, ast.USub) else (lambda: setattr(n, 'operand', n.operand.operand)))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and lst is not None or \
           isinstance(n, ast.Constant) and isinstance(n.value, (int, float, bool)):
            o = n.value
            if isinstance(o, bool):
                nv = not o
            elif o == 0:
                nv = o + 1
            elif o == 1:
                nv = o + 1
            else:
                nv = o + 1 if isinstance(o, int) else o * 1.1
            rec('const %r->%r' % (o, nv), lambda: setattr(n, 'value', nv), lambda: setattr(n, 'value', o))
        if lst is not None and isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break)):
            if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or getattr(getattr(n.value, 'func', None), 'id', '') == 'print'):
                return
            rec('delete: ' + ast.unparse(n)[:70].replace('\n', ' '), lambda: lst.__setitem__(idx, ast.copy_location(ast.Pass(), n)), lambda: lst.__setitem__(idx, n))
        if isinstance(n, ast.If):
            o = n.test
            for b in (True, False):
                rec('if %s -> %s' % (ast.unparse(o)[:50], b), lambda b=b: setattr(n, 'test', ast.Constant(b)), lambda: setattr(n, 'test', o))
    visit(tree, None, None)
    return out


def main():
    outfn, npar = sys.argv[1], int(sys.argv[2])
    jobs = []
    origs = {}
    it = iter(sys.argv[3:])
    for f in it:
        pids = next(it).split(',')
        funcs = None
        if ':' in f:
            f, fs = f.split(':')
            funcs = set(fs.split(','))
        src = origs[f] = open('/repo/tractor/' + f).read()
        tree = ast.parse(src)
        ss = sites(tree, funcs)
        base = ast.unparse(tree)
        seen = {base}
        count = {}
        for L, d, do, undo in ss:
            kind = (L, d.split()[1])
            count[kind] = count.get(kind, 0) + 1
            if count[kind] > 2:
                continue
            do()
            try:
                t = ast.unparse(ast.fix_missing_locations(tree))
            finally:
                undo()
            if t in seen:
                continue
            seen.add(t)
            jobs.append((f, d, t, pids))
        assert ast.unparse(tree) == base
    out = open(outfn, 'w')
    print(len(jobs), 'mutants', file=out, flush=True)
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    lock = threading.Lock()
    stat = dict(killed=0, survived=0)

    def worker(w):
        root = '/tmp/mut/w%d-%d' % (os.getpid(), w)
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        subprocess.check_call(['cp', '-a', '/repo', root + '/repo'])
        subprocess.check_call('mkdir %s/verif && cp -a /verif/mc /verif/known_findings.json %s/verif/' % (root, root), shell=True)
        env = dict(os.environ, PYTHONPATH='%s/repo:%s/verif' % (root, root), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONPYCACHEPREFIX='/tmp/.verif-nopyc', VERIF_NPROC=str(max(1, 8 // npar)),
                   VERIF_MAXVIOL='1')
        while True:
            try:
                f, d, t, pids = q.get_nowait()
            except queue.Empty:
                break
            p = root + '/repo/tractor/' + f
            orig = origs[f]
            open(p, 'w').write(t)
            killer = None
            for pid in pids:
                try:
                    r = subprocess.run(['timeout', '-k', '5', '400', '/opt/venv/bin/python', '-W', 'ignore', '-m', 'mc.main', pid, 'quick'], cwd=root + '/verif', env=env,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if r.returncode != 0:
                        killer = pid
                        break
                except Exception as e:
                    killer = 'exc %s' % e
                    break
            open(p, 'w').write(orig)
            with lock:
                stat['killed' if killer else 'survived'] += 1
                if killer is None:
                    print('SURVIVED %s %s' % (f, d), file=out, flush=True)
                if (stat['killed'] + stat['survived']) % 25 == 0:
                    print('... %s %s' % (stat, time.strftime('%H:%M:%S')), file=out, flush=True)
        shutil.rmtree(root, ignore_errors=True)
    T = [threading.Thread(target=worker, args=(w,)) for w in range(npar)]
    [t.start() for t in T]
    [t.join() for t in T]
    print('DONE', stat, file=out, flush=True)


main()
