"""Mutation testing of the checks.

usage: mutate.py OUT SEED N K - N random mutants of the library; those that
       pass its tests are given to the checks until one reports a violation
       (at most K checks, those that look at the changed code first).
Works on copies under /tmp; a tool for development, not part of any check.
"""
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ANTICIPY_REPO', '/repo')
PY = '/opt/venv/bin/python'
L_FILE = ['forecast.py', 'forecast_models.py', 'model_utils.py',
          'forecast_plot.py', 'app.py']
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
       ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in',
       ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.BitAnd: '|', ast.BitOr: '&'}
TXT = {'ffill': 'bfill', 'bfill': 'ffill', 'first': 'last', 'last': 'first',
       'outer': 'inner', 'left': 'inner', 'stable': 'quicksort',
       'add': 'mult', 'mult': 'add'}
ATTR = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any',
        'first': 'last', 'ffill': 'bfill', 'nanmin': 'nanmax',
        'nanmax': 'nanmin', 'ceil': 'floor', 'floor': 'ceil',
        'minimum': 'maximum', 'maximum': 'minimum', 'mean': 'median'}


def mutants(path):
    """(line, function, description, new source)"""
    src = open(path).read()
    lines = src.splitlines(True)
    start = [0]
    for l in lines:
        start.append(start[-1] + len(l))
    tree = ast.parse(src)
    skip = set()
    fun = {}
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for k in range(n.lineno, n.end_lineno + 1):
                if k not in fun or isinstance(n, ast.FunctionDef):
                    fun[k] = n.name
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n.value))
        if isinstance(n, ast.Call):
            f = ast.get_source_segment(src, n.func) or ''
            if 'logg' in f or f in ('print', 'warnings.warn'):
                for m in ast.walk(n):
                    skip.add(id(m))
        if isinstance(n, (ast.Assert, ast.Raise)):
            for m in ast.walk(n.msg if isinstance(n, ast.Assert) and n.msg
                              else n if isinstance(n, ast.Raise) else
                              ast.Pass()):
                skip.add(id(m))

    def pos(n):
        # columns are in bytes, the sources are ASCII where it matters
        return (start[n.lineno - 1] + n.col_offset,
                start[n.end_lineno - 1] + n.end_col_offset)

    out = []

    def rep(n, new, what, a=None, b=None):
        i, j = pos(n) if a is None else (a, b)
        t = src[:i] + new + src[j:]
        try:
            ast.parse(t)
        except SyntaxError:
            return
        out.append((n.lineno, fun.get(n.lineno, ''), '{}: {!r} -> {!r}'.format(
            what, src[i:j][:70], new[:70]), t))

    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        seg = ast.get_source_segment(src, n) if hasattr(n, 'lineno') else None
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            rep(n, '{} {} {}'.format(
                ast.get_source_segment(src, l), CMP[type(n.ops[0])],
                ast.get_source_segment(src, r)), 'compare')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            rep(n, '{} {} {}'.format(
                ast.get_source_segment(src, n.left), BIN[type(n.op)],
                ast.get_source_segment(src, n.right)), 'operator')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + op.join('(' + ast.get_source_segment(src, v) + ')'
                                 for v in n.values) + ')', 'bool')
        elif isinstance(n, ast.UnaryOp) and isinstance(
                n.op, (ast.Not, ast.Invert)):
            rep(n, '(' + ast.get_source_segment(src, n.operand) + ')', 'not')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                rep(n, str(not v), 'const')
            elif isinstance(v, int):
                rep(n, str(v + 1), 'const')
                rep(n, str(v - 1) if v else '-1', 'const')
            elif isinstance(v, float):
                rep(n, repr(v * 1.1 + .001), 'const')
            elif isinstance(v, str) and v in TXT:
                rep(n, repr(TXT[v]), 'text')
        elif isinstance(n, ast.Attribute) and n.attr in ATTR:
            i, j = pos(n)
            rep(n, ATTR[n.attr], 'attr', j - len(n.attr), j)
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'copy', 'drop_duplicates', 'reset_index', 'fillna',
                    'sort_values', 'astype', 'dropna', 'sort_index'):
                rep(n, ast.get_source_segment(src, n.func.value), 'uncall')
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    l = [ast.get_source_segment(src, a) for a in n.args]
                    l += [ast.get_source_segment(src, q)
                          if q.arg else '**' + ast.get_source_segment(
                              src, q.value)
                          for q in n.keywords if q is not k]
                    rep(n, '{}({})'.format(ast.get_source_segment(
                        src, n.func), ', '.join(l)), 'unkeyword')
        elif isinstance(n, ast.If):
            rep(n.test, 'False', 'if')
            rep(n.test, 'True', 'if')
        elif isinstance(n, ast.IfExp):
            rep(n.test, 'False', 'ifexp')
            rep(n.test, 'True', 'ifexp')
        elif isinstance(n, (ast.AugAssign, ast.Assign, ast.Assert)) or (
                isinstance(n, ast.Expr) and
                isinstance(n.value, ast.Call)):
            if isinstance(n, ast.Expr) and id(n.value) in skip:
                continue
            if fun.get(n.lineno):
                rep(n, 'pass', 'statement')
    return out


ORDER = {
    'forecast.py': 'C22 C04 C05 C06 C10 C08 C03 C12 C09 C01 C11 C23 C16 C02 '
                   'C17 C20 C07 C21 C18 C26 C25',
    'forecast_models.py': 'C15 C14 C13 C26 C19 C17 C16 C22 C04 C23 C07 C09 '
                          'C06 C02 C20 C21 C03',
    'model_utils.py': 'C18 C08 C05 C01 C09 C22 C23 C16 C12 C10 C02 C21 C20',
    'forecast_plot.py': 'C24 C25 C02',
    'app.py': 'C25'}
FIRST = {'normalize_df': 'C01 C02', 'get_pi': 'C12', '_get_pi_single_source':
         'C12 C11', '_df_add_pi_percentiles': 'C12', 'get_list_model':
         'C23 C06 C20', '_get_use_ramp': 'C23', '_get_use_calendar': 'C23',
         'is_multiplicative': 'C23', 'detect_freq': 'C18',
         'get_model_outliers': 'C17', 'fix_params_fmodel': 'C26',
         'fit_model': 'C04 C06', 'run_forecast_single': 'C22 C10 C05',
         'interpolate_df': 'C18', 'get_aic_c': 'C05',
         'get_l_model_auto_season': 'C23'}


def tests(w):
    env = dict(os.environ, PYTHONPATH=w, MPLBACKEND='Agg',
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    try:
        r = subprocess.run(
            [PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-W',
             'ignore', 'tests'], cwd=w, env=env, capture_output=True,
            text=True, timeout=400)
    except subprocess.TimeoutExpired:
        return False
    return ' failed' not in r.stdout and ' passed' in r.stdout


def copy(m, k):
    w = '/tmp/mut/w{}'.format(k)
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(REPO, w, ignore=shutil.ignore_patterns('.git'))
    with open(os.path.join(w, 'anticipy', m[0]), 'w') as f:
        f.write(m[4])
    return w


def screen(a):
    k, m = a
    w = copy(m, k)
    try:
        return tests(w)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main(out, seed, n, k_max=99):
    rnd = random.Random(seed)
    pool = []
    for f in L_FILE:
        l = [(f,) + m for m in mutants(os.path.join(REPO, 'anticipy', f))]
        by = {}
        for m in l:
            by.setdefault((m[1], m[2]), []).append(m)
        pool += [rnd.choice(v) for v in by.values()]  # one per line
    rnd.shuffle(pool)
    pool = pool[:n]
    saved = out + '.screen'
    if os.path.exists(saved):
        ok = json.load(open(saved))
    else:
        with concurrent.futures.ThreadPoolExecutor(5) as ex:
            ok = list(ex.map(screen, enumerate(pool)))
        json.dump(ok, open(saved, 'w'))
    l = [m for m, o in zip(pool, ok) if o]
    print(len(pool), 'mutants,', len(l), 'pass the tests', flush=True)
    def judge(a):
        k, m = a
        w = copy(m, 'c{}'.format(k))
        order = FIRST.get(m[2], '').split() + ORDER[m[0]].split()
        hit, other, seen = None, [], set()
        for c in order:
            if c in seen or len(seen) >= k_max:
                continue
            seen.add(c)
            try:
                r = subprocess.run(
                    [os.path.join(VERIF, 'check'), c, 'quick'],
                    env=dict(os.environ, ANTICIPY_REPO=w), timeout=900,
                    capture_output=True, text=True)
            except subprocess.TimeoutExpired:
                other.append(c + ':timeout')
                continue
            if r.returncode == 1 and 'VIOLATION property=' + c in r.stdout:
                hit = c
                break
            if r.returncode:
                other.append('{}:{}'.format(c, r.returncode))
        shutil.rmtree(w, ignore_errors=True)
        d = dict(file=m[0], line=m[1], function=m[2], what=m[3], hit=hit,
                 other=other)
        with open(out, 'a') as f:
            f.write(json.dumps(d) + '\n')
        print(hit, other, m[:4], flush=True)

    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        list(ex.map(judge, enumerate(l)))


if __name__ == '__main__':
    main(sys.argv[1], *[int(v) for v in sys.argv[2:]])
