#!/usr/bin/env python3
"""tools/mutate.py N [--seed S] [--jobs J] [--budget SEC] [--files RE] [--out FILE]: applies N random small changes, one at a time, to scratch copies
of the library and runs the checks on each. Lists the changes no check noticed (each is then judged by hand: harmless, caught by
the existing tests, or a gap). Never touches /repo; everything happens below /tmp/mut."""
import sys, os, re, random, subprocess, glob, shutil, json, time, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import build as B
import argparse
ap = argparse.ArgumentParser(); ap.add_argument('n', type=int); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--jobs', type=int, default=8); ap.add_argument('--budget', type=float, default=5)
ap.add_argument('--files', default='.'); ap.add_argument('--out', default='/tmp/mut/result.txt'); ap.add_argument('--props', default=''); ap.add_argument('--again', default='', help='only the survivors listed in this file'); ap.add_argument('--kind', default='.', help='only changes whose kind matches'); ap.add_argument('--dir', default='/tmp/mut'); A = ap.parse_args()
SRC = 'kaddr kasync_file kasync_worker kconnection kepoll_selector kfiber kfiber_sync kfile kgl_ssl krbtree kselectable kselector kselector_manager kserver ksocket ksync kthread kudp'.split()
INC = 'kfiber kfiber_sync kfiber_internal kselectable kselector kserver kconnection ksync kepoll_selector kasync_file kasync_worker ksocket katom kthread kudp kaddr klist kgl_ssl'.split()
REL = {'kaddr': 'C17', 'kasync_file': 'C13 C14', 'kasync_worker': 'C15', 'kconnection': 'C09 C10 C12 C11', 'kepoll_selector': 'C09 C22 C01 C13 C10', 'kfiber': 'C04 C27 C09 C02 C18 C23', 'kfiber_sync': 'C05 C06 C07 C08', 'kfile': 'C13 C18', 'kgl_ssl': 'C12', 'krbtree': 'C02 C17', 'kselectable': 'C09 C10 C22 C12', 'kselector': 'C02 C03 C10 C01', 'kselector_manager': 'C23 C02 C01', 'kserver': 'C11', 'ksocket': 'C11 C10 C19', 'ksync': 'C20 C21', 'kthread': 'C16 C15', 'kudp': 'C19', 'kfiber_internal': 'C04 C27', 'katom': 'C28 C05', 'klist': 'C02 C01'}
PROPS = A.props.split(',') if A.props else ['C%02d' % i for i in range(1, 25)] + ['C27', 'C28']
def sh(c): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
W = A.dir; os.makedirs(W, exist_ok=True)
class Box:
    def __init__(s, k):
        s.d = d = '%s/w%d' % (W, k); shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/inc'); os.makedirs(d + '/obj')
        for x in ('src', 'include', 'fcontext'): shutil.copytree(os.path.join(B.REPO, x), d + '/' + x)
        cfg = []
        for l in open(B.REPO + '/include/kasync_config.h.in'):
            m = re.match(r'#cmakedefine\s+(\w+)', l); cfg.append(('#define %s\n' % m.group(1) if m.group(1) in B.DEF else '') if m else l)
        open(d + '/include/kasync_config.h', 'w').write(''.join(cfg)); os.environ['KASYNC_REPO'] = B.REPO
        subprocess.run([sys.executable, V + '/scen/gen_shim.py', d + '/inc'], check=True)
        s.inc = ['-I' + d + '/include', '-I' + d + '/fcontext/src', '-I' + d + '/inc', '-I' + V + '/scen', '-I' + V + '/sim']
        s.k = sorted(glob.glob(d + '/src/*.c')) + [d + '/inc/kshim.cc'] + glob.glob(d + '/fcontext/src/*.c')
    def obj(s, src): return s.d + '/obj/k_' + os.path.basename(src) + '.o'
    def cc(s, src): r = sh(['g++'] + B.KFLAGS + s.inc + ['-c', src, '-o', s.obj(src)]); return r.returncode == 0 and sh(['objcopy', '--redefine-syms=' + W + '/redef', s.obj(src)]).returncode == 0
    def link(s): return sh(['g++', '-no-pie', '-o', s.d + '/simrun'] + sorted(glob.glob(W + '/common/*.o')) + [s.obj(x) for x in s.k] + ['-lssl', '-lcrypto', '-lpthread']).returncode == 0
def common(box):
    c = W + '/common'; shutil.rmtree(c, ignore_errors=True); os.makedirs(c); jobs = []
    for x in glob.glob(V + '/sim/*.cc'): jobs.append(['g++'] + B.SFLAGS + ['-fno-builtin', '-fpermissive'] + box.inc + ['-c', x, '-o', c + '/sim_' + os.path.basename(x) + '.o'])
    for x in glob.glob(V + '/scen/*.cc'): jobs.append(['g++'] + B.SFLAGS + box.inc + ['-c', x, '-o', c + '/scen_' + os.path.basename(x) + '.o'])
    for n in ('jump', 'make', 'ontop'): x = box.d + '/fcontext/src/asm/%s_x86_64_sysv_elf_gas.S' % n; jobs.append(['g++', '-c', x, '-o', c + '/asm_' + n + '.o'])
    with ThreadPoolExecutor(8) as ex: assert all(r.returncode == 0 for r in ex.map(sh, jobs))
    syms = sh(['nm', '--defined-only'] + glob.glob(c + '/sim_*.o')).stdout; names = sorted(set(re.findall(r' [TW] sim_(\w+)$', syms, re.M)) - {'swap'}); open(W + '/redef', 'w').write(''.join('%s sim_%s\n' % (n, n) for n in names))
    for f in glob.glob(c + '/scen_*.o'): sh(['objcopy', '--redefine-syms=' + W + '/redef', f])
# ---------------------------------------------------------------- changes
def gen(path):
    L = open(path, encoding='latin1').read().split('\n'); out = []; dead = 0; stack = []; cont = False; com = False
    for i, l in enumerate(L):
        t = l.strip()
        if t.startswith('#'):
            if t.startswith('#if'): stack.append(0)
            continue
        if com or t.startswith('/*'): com = '*/' not in t; continue
        if not t or t.startswith('//') or 'assert' in t or 'klog(' in t or t.endswith('\\') or (i and L[i - 1].endswith('\\')) or 'printf' in t or 'perror' in t: continue
        code = l.split('//')[0]
        def add(new, what):
            if new != l: out.append((i, l, new, what))
        if re.match(r'^\s+[\w\->\.\[\]\(\)\*&]+.*;\s*$', code) and l[:1] in '\t ' and not re.match(r'^\s*(return|break|continue|goto|case|default|else|typedef|struct|extern|static|const|volatile)\b', code) and not re.match(r'^\s*(const\s+)?[A-Za-z_]\w*\s*\*?\s+\*?\w+\s*(=|;|\[|,)', code): add(re.match(r'^\s*', l).group(0) + ';', 'delete')
        if re.match(r'^\s*(break|continue|return\s*[^;]*);', code): add(re.match(r'^\s*', l).group(0) + ';', 'delete')
        m = re.search(r'\b(if|while) \((.*)\) ?\{?\s*$', code) or re.search(r'\b(if|while)\((.*)\) ?\{?\s*$', code)
        if m:
            a, b = m.span(2); add(l[:a] + '!(' + m.group(2) + ')' + l[b:], 'negate')
            if m.group(1) == 'if': add(l[:a] + '0 && (' + m.group(2) + ')' + l[b:], 'never'); add(l[:a] + '1 || (' + m.group(2) + ')' + l[b:], 'always')
        for op, reps in ((' < ', (' <= ',)), (' <= ', (' < ',)), (' > ', (' >= ',)), (' >= ', (' > ',)), (' == ', (' != ',)), (' != ', (' == ',)), (' && ', (' || ',)), (' || ', (' && ',)), ('++', ('--',)), ('--', ('++',)), (' + ', (' - ',)), (' - ', (' + ',)), ('+=', ('-=', '=')), ('-=', ('+=',)), ('true', ('false',)), ('false', ('true',)), ('KBIT_SET', ('KBIT_CLR',)), ('KBIT_CLR', ('KBIT_SET',)), ('OP_READ', ('OP_WRITE',)), ('OP_WRITE', ('OP_READ',)), ('kev_err', ('kev_ok',)), ('return -1', ('return 0',)), ('return 0', ('return -1',)), ('katom_inc', ('katom_dec',)), ('STF_WREADY', ('STF_RREADY',)), ('STF_RREADY', ('STF_WREADY',)), ('->next', ('->prev',)), ('->prev', ('->next',)), (' = 0;', (' = 1;',)), (' = 1;', (' = 0;',)), (' * ', (' / ',)), (' / ', (' * ',))):
            for mm in re.finditer(re.escape(op), code):
                for r in reps: add(l[:mm.start()] + r + l[mm.end():], '%s -> %s' % (op.strip(), r.strip()))
        # statements in another order, or run twice: locks released too early or taken too late, flags set after the call that needs them
        stmt = lambda x: re.match(r'^\s+[\w\->\.\[\]\(\)\*&+]+.*;\s*$', x.split('//')[0]) and not re.match(r'^\s*(return|break|continue|goto|case|default|else|typedef|struct|extern)\b', x) and 'assert' not in x and 'klog(' not in x and 'printf' not in x
        ind = lambda x: re.match(r'^\s*', x).group(0)
        if stmt(code) and i + 1 < len(L):
            if stmt(L[i + 1]) and ind(l) == ind(L[i + 1]): out.append((i, l + '\n' + L[i + 1], L[i + 1] + '\n' + l, 'swap'))
            for n in (2, 3):
                if i + n < len(L) and all(stmt(x) and ind(x) == ind(l) for x in L[i + 1:i + n + 1]): out.append((i, '\n'.join(L[i:i + n + 1]), '\n'.join(L[i + 1:i + n + 1] + [l]), 'later')); out.append((i, '\n'.join(L[i:i + n + 1]), '\n'.join([L[i + n]] + L[i:i + n]), 'earlier'))
            if not re.match(r'^\s*(const\s+)?[A-Za-z_]\w*\s*\*?\s+\*?\w+\s*(=|;|\[|,)', code): add(l + ' ' + l.strip(), 'twice')
        # a statement before a block moves into it or behind it; the last one of a block moves out of it
        if stmt(code) and i + 1 < len(L) and re.match(r'^\s*(if|while|for) ?\(.*\{\s*$', L[i + 1]) and ind(l) == ind(L[i + 1]): out.append((i, l + '\n' + L[i + 1], L[i + 1] + '\n' + l, 'into'))
        if stmt(code) and i + 1 < len(L) and L[i + 1].strip() == '}' : out.append((i, l + '\n' + L[i + 1], L[i + 1] + '\n' + l, 'out'))
        if t == '}' and i + 1 < len(L) and stmt(L[i + 1]): out.append((i, l + '\n' + L[i + 1], L[i + 1] + '\n' + l, 'in'))
        for mm in re.finditer(r'\|STF_\w+', code): add(l[:mm.start()] + l[mm.end():], 'drop ' + mm.group(0))
    return L, out
allm = []
for k, names, ext in (('src', SRC, '.c'), ('include', INC, '.h')):
    for n in names:
        p = '%s/%s%s' % (k, n, ext)
        if not os.path.exists(B.REPO + '/' + p) or not re.search(A.files, p): continue
        L, ms = gen(B.REPO + '/' + p)
        for m in ms: allm.append((p, n) + m)
allm = [m for m in allm if re.search(A.kind, m[5])]; rnd = random.Random(A.seed); rnd.shuffle(allm); print('%d possible changes' % len(allm), flush=True); todo = allm[:A.n]
if A.again:
    old = set(re.findall(r'^SURVIVED (\S+):(\d+) (\[.*?\]) ', open(A.again, errors='replace').read(), re.M)); todo = [m for m in allm if (m[0], str(m[2] + 1), '[%s]' % m[5]) in old]; print('%d again' % len(todo), flush=True)
out = open(A.out, 'a'); boxes = []
def setup(k):
    b = Box(k); boxes.append(b); return b
b0 = setup(0); common(b0)
with ThreadPoolExecutor(8) as ex: list(ex.map(setup, range(1, A.jobs)))
for b in boxes:
    with ThreadPoolExecutor(8) as ex: assert all(ex.map(b.cc, b.k))
    os.makedirs(b.d + '/good')
    for x in b.k: shutil.copy(b.obj(x), b.d + '/good')
stat = {}
def one(m):
    p, n, i, old, new, what = m; b = boxes.pop(); res = None; t0 = time.time()
    try:
        f = b.d + '/' + p; raw = open(f, encoding='latin1').read(); L = raw.split('\n'); k = old.count('\n') + 1; assert '\n'.join(L[i:i + k]) == old; L[i:i + k] = new.split('\n'); open(f, 'w', encoding='latin1').write('\n'.join(L))
        try:
            todo = [f] if p.endswith('.c') else b.k
            if not all(b.cc(x) for x in todo): return 'nocompile', ''
            same = all(open(b.obj(x), 'rb').read() == open(b.d + '/good/' + os.path.basename(b.obj(x)), 'rb').read() for x in todo)
            if same: return 'same', ''
            if not b.link(): return 'nolink', ''
            pr = [x for x in REL.get(n, '').split() if x in PROPS]; order = pr + [x for x in (['C24'] + PROPS) if x not in pr and x in PROPS]; order = list(dict.fromkeys(order))
            for q in order:
                bud = A.budget * (4 if A.again and q in pr else 2 if q in pr[:1] or q == 'C24' else 1)
                r = subprocess.run(['timeout', '200', b.d + '/simrun', 'run', '--prop', q, '--seed', '7', '--first', '0', '--stride', '1', '--budget', str(bud), '--min-budget', '0.1', '--out', b.d + '/o.json', '--replay', b.d + '/r'], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace')
                if r.returncode:
                    k = re.search(r'key (\S+)', r.stderr); return 'killed', '%s rc=%d %s' % (q, r.returncode, k.group(1) if k else '')
            return 'SURVIVED', ''
        finally:
            open(f, 'w', encoding='latin1').write(raw)
            for x in b.k: shutil.copy(b.d + '/good/' + os.path.basename(b.obj(x)), b.obj(x))
    finally: boxes.append(b)
def go(m):
    try: r, d = one(m)
    except Exception as e: r, d = 'error', repr(e)
    stat[r] = stat.get(r, 0) + 1
    s = '%s %s:%d [%s] %s   ==>   %s   %s' % (r, m[0], m[2] + 1, m[5], m[3].strip().replace('\n', ' | '), m[4].strip().replace('\n', ' | '), d); out.write(s + '\n'); out.flush()
    if r in ('SURVIVED', 'error'): print(s, flush=True)
with ThreadPoolExecutor(A.jobs) as ex: list(ex.map(go, todo))
print(stat)
