#!/usr/bin/env python3
"""tools/mutate.py OUT.jsonl [-n N] [-s SEED] [files...]: random one-token changes to the library in a scratch copy; for each
one the quick checks are run in turn until one reports a violation.  Development aid only; no registered check uses it.
Runs from a scratch copy of /verif as well, whose build directory is pruned after every change."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
n, seed = 50, 1
if '-n' in args: i = args.index('-n'); n = int(args[i + 1]); del args[i:i + 2]
if '-s' in args: i = args.index('-s'); seed = int(args[i + 1]); del args[i:i + 2]
out, files = args[0], args[1:]
W = tempfile.mkdtemp(prefix='mut')
R = W + '/repo'; VV = W + '/verif'
subprocess.run(['cp', '-a', '/repo', R], check=True)
os.makedirs(VV)
subprocess.run(f'git -C {V} archive HEAD | tar x -C {VV} --exclude=seeded', shell=True, check=True)

def order(f):
    b = os.path.basename(f)
    if b.endswith('.py'): return ['P25', 'P23', 'P30', 'P24']
    if b == '_factorama.cpp': return ['P23', 'P24', 'P30', 'P25']
    if 'sparse_optimizer' in b: return ['P26', 'P13', 'P12', 'P17', 'P14', 'P16', 'P27', 'P15', 'P18', 'P11', 'P19', 'P20', 'P28', 'P23', 'P24']
    if 'factor_graph' in b: return ['P07', 'P10', 'P09', 'P08', 'P06', 'P27', 'P16', 'P11', 'P13', 'P17', 'P18', 'P20', 'P19', 'P28', 'P29', 'P23']
    if b.startswith('numerical_jacobian'): return ['P06', 'P11', 'P20']
    if b.startswith('random_utils'): return ['P04', 'P01', 'P02', 'P03', 'P20']
    if b.startswith('kernels'): return ['P21', 'P20']
    if b.startswith('stopwatch'): return ['P22', 'P27', 'P20']
    if 'variable' in b: return ['P03', 'P05', 'P01', 'P02', 'P29', 'P27', 'P10', 'P06', 'P20', 'P23']
    return ['P01', 'P02', 'P31', 'P20', 'P06', 'P07', 'P11', 'P27', 'P16', 'P29', 'P12', 'P17', 'P23']

OPS = [(r' < ', [' <= ', ' >= ']), (r' > ', [' >= ', ' <= ']), (r' <= ', [' < ', ' > ']), (r' >= ', [' > ', ' < ']),
       (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ ', [' - ']), (r' - ', [' + ']),
       (r' \* ', [' / ']), (r' / ', [' * ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r' \+= ', [' = ', ' -= ']),
       (r' -= ', [' += ']), (r' \*= ', [' /= ', ' = ']), (r'\.transpose\(\)', ['']), (r'\bcontinue;', [';', 'break;']), (r'\bbreak;', [';']),
       (r'\bstd::min\b', ['std::max']), (r'\bstd::max\b', ['std::min']), (r'if \((.*)\) \{$', None), (r'\b1e-(\d+)\b', None), (r'\b(\d+)\b(?![.\w])', None),
       (r'\b(\d+\.\d+)\b', None), (r'^\s*[\w\.\->\(\)\[\]_:, \*\+\-/&]+(\)|=.*);$', 'DEL'), (r'\bstd::abs\(', ['(']), (r'std::(sin|cos)\(', None), (r'\(-', ['(']),
       (r'\bnot ', ['']), (r' and ', [' or ']), (r' or ', [' and '])]

def mutants(path):
    res = []
    lines = open(path, newline='').read().split('\n')
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if path.endswith('.py'):
            if s.startswith(('#', '"""', "'''", 'import', 'from')): continue
        else:
            if '/*' in l and '*/' not in l: incomment = True
            if incomment:
                if '*/' in l: incomment = False
                continue
            if s.startswith(('//', '*', '#', 'assert', 'using', 'namespace', 'class', 'template')): continue
        code = l.split('//')[0] if not path.endswith('.py') else l.split('#')[0]
        for rx, rep in OPS:
            for m in re.finditer(rx, code):
                if rep == 'DEL':
                    if s.startswith(('return', 'const ', 'double ', 'int ', 'auto ', 'Eigen::', 'bool ', 'std::vector', 'throw', 'virtual', 'explicit')) or path.endswith(('.hpp', '.py')) and not s.endswith(');'): continue
                    res.append((i, l, l[:len(l) - len(l.lstrip())] + ';', 'delete')); continue
                if rep is None:
                    if rx.startswith('if'): new = ['if (!(' + m.group(1) + ')) {']
                    elif rx.startswith(r'\b1e'): new = [f'1e-{int(m.group(1)) + 3}', f'1e-{max(1, int(m.group(1)) - 3)}']
                    elif rx.startswith(r'\b(\d+\.'): new = [str(float(m.group(1)) * 1.1) if float(m.group(1)) else '1.0']
                    elif 'sin' in rx: new = ['std::cos(' if m.group(1) == 'sin' else 'std::sin(']
                    else: new = [str(int(m.group(1)) + 1)] + ([str(int(m.group(1)) - 1)] if int(m.group(1)) else [])
                else: new = rep
                for x in new: res.append((i, l, code[:m.start()] + x + code[m.end():] + l[len(code):], rx))
    return res

if not files:
    files = [f'src/factorama/{f}' for f in sorted(os.listdir(R + '/src/factorama')) if f.endswith(('.cpp', '.hpp'))]
allm = [(f,) + m for f in files for m in mutants(f'{R}/{f}')]
rng = random.Random(seed)
rng.shuffle(allm)
print(len(allm), 'candidates in', len(files), 'files', flush=True)
subprocess.run(['python3', 'run.py', '--setup'], cwd=VV, env=dict(os.environ, VP_REPO=R), capture_output=True)
def listing(): return {f'{VV}/build/{e}' for e in os.listdir(VV + '/build')} | {f'{VV}/build/obj/{e}' for e in os.listdir(VV + '/build/obj')}
keep = listing()
def prune():
    for q in listing() - keep:
        shutil.rmtree(q) if os.path.isdir(q) else os.unlink(q)
done = 0
for f, i, old, new, kind in allm:
    if done >= n: break
    if old == new: continue
    p = f'{R}/{f}'
    src = open(p, newline='').read()
    lines = src.split('\n')
    lines[i] = new
    open(p, 'w', newline='').write('\n'.join(lines))
    try:
        if f.endswith('.py'): ok = subprocess.run(['python3', '-m', 'py_compile', p], capture_output=True).returncode == 0
        elif f.endswith('_factorama.cpp'): ok = True
        else:
            tu = p
            if p.endswith('.hpp'):
                tu = W + '/t.cpp'
                open(tu, 'w').write(f'#include "factorama/{os.path.basename(p)}"\n')
            ok = subprocess.run(['g++', '-std=c++17', '-fsyntax-only', f'-I{R}/src', '-I/usr/include/eigen3', tu], capture_output=True).returncode == 0
        if not ok: continue
        done += 1
        t0 = time.time(); got = None; odd = []
        for c in order(f):
            r = subprocess.run(['timeout', '600', 'python3', 'run.py', c, 'quick'], cwd=VV, env=dict(os.environ, VP_REPO=R), capture_output=True, text=True)
            if r.returncode == 1 and 'VIOLATION' in r.stdout: got = c; break
            if r.returncode != 0:
                odd.append((c, r.returncode, (r.stdout + r.stderr)[-300:]))
                if r.returncode == 2 and ' error: ' in r.stdout + r.stderr: break
        rec = dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), caught=got, odd=odd, secs=round(time.time() - t0))
        open(out, 'a').write(json.dumps(rec) + '\n')
        print(done, got, f'{f}:{i+1}', old.strip()[:90], '=>', new.strip()[:90], odd[:1], rec['secs'], flush=True)
        prune()
    finally:
        open(p, 'w', newline='').write(src)
shutil.rmtree(W)
