#!/usr/bin/env python3
"""Builds the simulator together with conmand and conman from /repo's working tree.

  tools/build.py [--repo DIR] [--out DIR]

Every object file that conmand and conman link is compiled from the repository's
own sources; `ld -r` joins each program into one relocatable object, objcopy
redirects its system and impure library calls to the simulator (X -> sim_X) and
puts its globals in sections of their own, and the result is linked into one
executable together with the simulator.
"""
import sys, os, re, subprocess, hashlib, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SIM = os.path.join(VERIF, 'sim')
repo, out = '/repo', os.path.join(VERIF, 'build')
a = sys.argv[1:]
while a:
    if a[0] == '--repo': repo = a[1]; a = a[2:]
    elif a[0] == '--out': out = a[1]; a = a[2:]
    else: sys.exit('usage: build.py [--repo DIR] [--out DIR]')
os.makedirs(out, exist_ok=True)

# library calls that are functions of their arguments (or of the simulated FILE/termios only)
PURE = re.compile(r'''^(__ctype_\w+|__errno_location|__h_errno_location|__isoc\w+_\w+|_?_?f(gets|printf|putc|puts|write|read|eof|error|flush|getc|seek|tell|scanf)\w*
 |rewind|clearerr|fgetc|ungetc|getc|putc|getline|getdelim|setvbuf|setbuf|setlinebuf|cf\w+speed|cfmakeraw|difftime|fnmatch|inet_\w+|localtime(_r)?|gmtime(_r)?|asctime(_r)?|ctime(_r)?|timegm|mktime|strftime|strptime|tzset
 |mem\w+|str(?!dup$|ndup$|tok$)\w+|__str\w+_chk|__mem\w+_chk|__v?snprintf_chk|v?sn?printf|vfprintf|v?sscanf|v?fscanf|reg(comp|exec|free|error)|sig(empty|fill|add|del|ismem)\w*|ato\w+|bcopy|bzero|bcmp|index|rindex|bsearch|qsort|abs|labs
 |div|ldiv|hton\w|ntoh\w|is\w+|to(upper|lower|ascii)|basename|dirname|__xpg_basename|__xpg_strerror_r|__asan\w*|__ubsan\w*|__sanitizer\w*|__stack_chk_fail|_GLOBAL_OFFSET_TABLE_|__tls_get_addr|__lxstat|setlocale|nl_langinfo
 |__start_\w+|__stop_\w+|__fd\w+_chk|ffs\w*|floor|ceil|hstrerror|gai_strerror|wcwidth|psignal|strsignal|h_errno)$'''.replace('\n', '').replace(' ', ''))

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write(' '.join(cmd)[:400] + '\n' + r.stdout[:6000] + '\n')
        sys.exit(2)
    return r.stdout

def mk_sources(prog):
    t = open(os.path.join(repo, 'Makefile.am')).read().replace('\\\n', ' ')
    def var(n):
        m = re.search(r'^%s\s*=\s*(.*)$' % n, t, re.M)
        if not m: return []
        r = []
        for w in m.group(1).split('#')[0].split():
            k = re.match(r'\$\((\w+)\)$', w)
            r += var(k.group(1)) if k else [w]
        return r
    s = [w for w in var(prog + '_SOURCES') + var('EXTRA_%s_SOURCES' % prog) if w.endswith('.c')]
    if not s: raise SystemExit('cannot find the sources of ' + prog)
    return s

def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

lock = open(os.path.join(out, '.lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
SIMSRC = sorted(f for f in os.listdir(SIM) if f.endswith('.cc'))
hdrs = [os.path.join(d, f) for d in (SIM, repo + '/src') for f in os.listdir(d) if f.endswith('.h')]
allsrc = hdrs + [os.path.join(SIM, f) for f in SIMSRC] + [os.path.join(repo, s) for p in ('conmand', 'conman') for s in mk_sources(p)] + [os.path.abspath(__file__)]
stamp = digest(set(allsrc))
exe, sf = os.path.join(out, 'consim'), os.path.join(out, 'stamp')
if os.path.exists(exe) and os.path.exists(sf) and open(sf).read() == stamp:
    sys.exit(0)

simflags = ['-std=c++17', '-O1', '-g', '-fno-pie', '-I' + SIM, '-I' + out, '-Wno-unused-result']
sutflags = ['-g', '-O1', '-fno-pie', '-w', '-fsanitize=address', '-fsanitize-coverage=trace-pc', '-fno-builtin-printf', '-U_FORTIFY_SOURCE', '-I' + SIM, '-I' + repo + '/src', '-DHAVE_CONFIG_H',
            '-DWITH_OOMF', '-DWITH_PTHREADS']
jobs = []
simhdr = digest([h for h in hdrs if h.startswith(SIM)])
def cc_sim(f):
    o = os.path.join(out, f[:-3] + '.o'); s = os.path.join(out, f[:-3] + '.h256')
    d = digest([os.path.join(SIM, f)], simhdr + ' '.join(simflags))
    if os.path.exists(o) and os.path.exists(s) and open(s).read() == d: return
    run(['g++'] + simflags + ['-c', os.path.join(SIM, f), '-o', o]); open(s, 'w').write(d)
def cc_sut(prog, s, o):
    run(['gcc'] + sutflags + (['-DSYSCONFDIR="/etc"'] if prog == 'conmand' else []) + ['-c', os.path.join(repo, s), '-o', o])
sut = {}
with ThreadPoolExecutor(8) as ex:
    fs = []
    order = sorted(SIMSRC, key=lambda f: -os.path.getsize(os.path.join(SIM, f)))
    fs += [ex.submit(cc_sim, f) for f in order]
    for prog in ('conmand', 'conman'):
        sut[prog] = []
        for s in mk_sources(prog):
            o = os.path.join(out, '%s-%s.o' % (prog, os.path.basename(s)[:-2])); sut[prog].append(o)
            fs.append(ex.submit(cc_sut, prog, s, o))
    for f in fs:
        f.result()
simobjs = [os.path.join(out, f[:-3] + '.o') for f in SIMSRC]
have = set(l.split()[-1] for l in run(['nm', '--defined-only', '-g'] + simobjs).splitlines() if len(l.split()) == 3)
VARS = {'stdin', 'stdout', 'stderr', 'environ', '__environ', 'optarg', 'optind', 'opterr', 'optopt'}
unsup = set(); mods = []
for prog in ('conmand', 'conman'):
    r = os.path.join(out, prog + '.r.o')
    run(['ld', '-r', '-o', r] + sut[prog])
    und = [l.split()[-1] for l in run(['nm', '-u', r]).splitlines() if l.strip()]
    redef = []
    for u in und:
        n = 'environ' if u == '__environ' else u
        if 'sim_' + n in have: redef.append((u, 'sim_' + n))
        elif n in VARS: sys.exit('no simulated variable ' + n)
        elif PURE.match(u): pass
        else: redef.append((u, 'unsup_' + u)); unsup.add(u)
    redef.append(('main', prog + '_main'))
    rf = os.path.join(out, prog + '.redef'); open(rf, 'w').write(''.join('%s %s\n' % x for x in redef))
    o = os.path.join(out, 'mod_' + prog + '.o')
    run(['objcopy', '--redefine-syms', rf, '--rename-section', '.data=%s_data' % prog, '--rename-section', '.bss=%s_bss,alloc,load,data,contents' % prog, r, o])
    run(['objcopy', '--keep-global-symbol', prog + '_main', o])
    mods.append(o)
us = os.path.join(out, 'unsup.cc')
with open(us, 'w') as f:
    f.write('extern "C" { void sim_unsupported(const char *);\n')
    for u in sorted(unsup): f.write('long unsup_%s() { sim_unsupported("%s"); return -1; }\n' % (re.sub(r'\W', '_', u), u))
    f.write('}\n')
run(['g++'] + simflags + ['-c', us, '-o', os.path.join(out, 'unsup.o')])
run(['g++', '-no-pie', '-fsanitize=address', '-g', '-o', exe + '.tmp'] + simobjs + [os.path.join(out, 'unsup.o')] + mods)
os.rename(exe + '.tmp', exe)
open(sf, 'w').write(stamp)
if unsup: print('unsupported calls (a run that reaches one is inconclusive):', ' '.join(sorted(unsup)))
