#!/usr/bin/env python3
"""Builds the simulator against /repo's current working tree; prints the path of the executable.
The build directory is keyed by the contents of everything that goes into it, so several checks share one build."""
import hashlib, os, subprocess, sys, glob, fcntl, shutil, time, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('KASYNC_REPO', '/repo')
DEF = ['KSOCKET_SSL', 'LINUX', 'HAVE_ACCEPT4', 'HAVE_MEMALIGN', 'HAVE_SETMNTENT', 'HAVE_WRITEV', 'HAVE_READV', 'ENABLE_FCONTEXT']
KFLAGS = ['-x', 'c++', '-std=gnu++17', '-g', '-O1', '-fsanitize=thread', '-fno-builtin', '-fno-strict-aliasing', '-fno-omit-frame-pointer', '-fno-pie', '-w', '-fpermissive', '-U_FORTIFY_SOURCE']
SFLAGS = ['-std=gnu++17', '-g', '-O1', '-fno-pie', '-w', '-fno-strict-aliasing', '-U_FORTIFY_SOURCE']
def inputs():
    fs = []
    for pat in ('src/*.c', 'src/*.h', 'include/*.h', 'include/*.in', 'fcontext/src/*.[ch]', 'fcontext/src/asm/*x86_64_sysv_elf_gas.S', 'test/kfiter_test/*ssl*'):
        fs += [f for f in glob.glob(os.path.join(REPO, pat)) if not f.endswith('/kasync_config.h')]
    for pat in ('sim/*', 'scen/*', 'build.py'):
        fs += glob.glob(os.path.join(V, pat))
    return sorted(f for f in fs if os.path.isfile(f))
def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise SystemExit('BUILD FAILED: %s\n%s' % (' '.join(cmd), p.stdout[-6000:]))
    return p.stdout
def build(log=sys.stderr):
    h = hashlib.sha256()
    for f in inputs():
        h.update(os.path.relpath(f, '/').encode()); h.update(open(f, 'rb').read())
    base = os.path.join(V, 'build'); os.makedirs(base, exist_ok=True)
    out = os.path.join(base, h.hexdigest()[:16]); exe = os.path.join(out, 'simrun')
    with open(os.path.join(base, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            os.utime(out); return exe
        for d in sorted((d for d in glob.glob(base + '/*') if os.path.isdir(d)), key=os.path.getmtime)[:-5]:
            if time.time() - os.path.getmtime(d) > 3600: shutil.rmtree(d, ignore_errors=True)
        t0 = time.time(); tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp + '/inc'); 
        for d in ('src', 'include', 'fcontext'):
            shutil.copytree(os.path.join(REPO, d), os.path.join(tmp, d))
        cfg = []
        for l in open(os.path.join(REPO, 'include/kasync_config.h.in')):
            m = re.match(r'#cmakedefine\s+(\w+)', l)
            cfg.append(('#define %s\n' % m.group(1) if m.group(1) in DEF else '/* #undef %s */\n' % m.group(1)) if m else l)
        open(tmp + '/include/kasync_config.h', 'w').write(''.join(cfg))
        run([sys.executable, V + '/scen/gen_shim.py', tmp + '/inc'])
        inc = ['-I' + tmp + '/include', '-I' + tmp + '/fcontext/src', '-I' + tmp + '/inc', '-I' + V + '/scen', '-I' + V + '/sim']
        jobs = []; o = {}
        def add(group, src, flags):
            obj = '%s/%s_%s.o' % (tmp, group, os.path.basename(src).replace('.', '_')); o.setdefault(group, []).append(obj)
            jobs.append(['g++'] + flags + inc + ['-c', src, '-o', obj])
        for s in sorted(glob.glob(V + '/sim/*.cc')): add('sim', s, SFLAGS + ['-fno-builtin', '-fpermissive'])
        for s in sorted(glob.glob(tmp + '/src/*.c')): add('k', s, KFLAGS)
        add('k', tmp + '/inc/kshim.cc', KFLAGS)
        for s in sorted(glob.glob(V + '/scen/*.cc')): add('scen', s, SFLAGS)
        for n in ('jump', 'make', 'ontop'):
            s = tmp + '/fcontext/src/asm/%s_x86_64_sysv_elf_gas.S' % n; add('asm', s, [])
        for s in glob.glob(tmp + '/fcontext/src/*.c'): add('k', s, KFLAGS)
        with ThreadPoolExecutor(8) as ex: list(ex.map(run, jobs))
        # redirect every libc symbol the simulator models
        syms = run(['nm', '--defined-only'] + o['sim'])
        names = sorted(set(re.findall(r' [TW] sim_(\w+)$', syms, re.M)) - {'swap'})
        open(tmp + '/redef', 'w').write(''.join('%s sim_%s\n' % (n, n) for n in names))
        for f in o['k'] + o['scen']: run(['objcopy', '--redefine-syms=' + tmp + '/redef', f])
        und = set()
        defined = set(re.findall(r' [A-TV-Zu] (\S+)$', run(['nm', '--defined-only'] + o['k'] + o['sim'] + o['asm'] + o['scen']), re.M))
        for l in run(['nm', '-u'] + o['k']).splitlines():
            m = re.match(r'\s+U (\S+)$', l)
            if m and m.group(1) not in defined: und.add(m.group(1))
        ok = re.compile(r'^(SSL_|SSLv|TLS|DTLS|X509|EVP_|ERR_|OPENSSL|BIO_|PEM_|CRYPTO_|ASN1|d2i|i2d|DH_|EC_|RSA_|BN_|OCSP|__tsan|_Z|__cxa|__gxx|_GLOBAL|_Unwind|__errno_location|strerror|inet_|hton|ntoh|sig(empty|add|fill|del|is)|snprintf|vsnprintf|sprintf|ato|strto|isspace|isdigit|is[a-z]+$|to(lower|upper)$|__ctype|__isoc|stdout$|stderr$|stdin$|environ$|gmtime|localtime|mktime|strftime|qsort|bsearch|sscanf|GENERAL|OBJ_|sk_|OSSL|PKCS|ENGINE|CONF|RAND_|SHA|MD5|HMAC|UI_|gai_strerror|abs$|labs$|getenv$|strspn|strcspn|strtok|strpbrk|memrchr|stpcpy|__dso_handle|__xpg_|__libc_single)')
        bad = sorted(u for u in und if not ok.match(u))
        if bad: print('note: libc functions not modelled by the simulator: ' + ' '.join(bad), file=log)
        run(['g++', '-no-pie', '-o', tmp + '/simrun'] + o['sim'] + o['k'] + o['scen'] + o['asm'] + ['-lssl', '-lcrypto', '-lpthread'])
        for d in ('src', 'include', 'fcontext'): shutil.rmtree(tmp + '/' + d)
        for f in glob.glob(tmp + '/*.o'): os.remove(f)
        shutil.rmtree(out, ignore_errors=True); os.rename(tmp, out)
        print('built in %.1f s' % (time.time() - t0), file=log)
    return exe
if __name__ == '__main__': print(build())
