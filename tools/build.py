#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree into /verif/build.

The C sources of the repository are compiled unmodified into three relocatable images (S: the
seatd daemon, L: libseat with its embedded server, W: seatd-launch). In each image every libc
symbol that touches the outside world is renamed to sim_<name>, which sim/shim.cc implements on
top of the simulated kernel, and .data/.bss are renamed so that the simulator can swap the global
variables of each simulated process. An undefined symbol that is neither simulated nor known to be
pure stops the build, so that no code can reach the real system by accident.
"""
import fcntl, glob, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SEATD_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))

DEFS = ['-D_XOPEN_SOURCE=700', '-D__BSD_VISIBLE', '-D_NETBSD_SOURCE', '-DSEATD_VERSION="0.9.1"',
        '-DSEATD_DEFAULTPATH="/run/seatd.sock"', '-DSEATD_INSTALLPATH="/usr/local/bin/seatd"',
        '-DREL_SRC_DIR="../"', '-DDEBUG', "-DHIDIOCREVOKE=_IOW('H',0x0D,int)", '-I', REPO + '/include']
CFLAGS = ['-std=c11', '-O1', '-g', '-fno-builtin', '-fno-pic', '-fno-pie', '-fno-common', '-fno-omit-frame-pointer',
          '-fsanitize=address', '-mllvm', '-asan-globals=0', '-fsanitize-coverage=trace-pc-guard',
          '-ftrivial-auto-var-init=pattern', '-w', '-Werror=implicit-function-declaration']
LDEFS = ['-DLIBSEAT=1', '-DSEATD_ENABLED=1', '-DBUILTIN_ENABLED=1', '-DLOGIND_ENABLED=1', '-DHAVE_LIBSYSTEMD=1']
CXXFLAGS = ['-std=c++20', '-O2', '-g', '-fno-pie', '-Wall', '-Wextra', '-Wno-unused-parameter', '-fno-exceptions',
            '-I', REPO + '/include', '-I', VERIF + '/sim']

PURE = set('''__errno_location memcpy memmove memset memcmp memchr memrchr mempcpy strlen strnlen strcmp strncmp strcasecmp
strncasecmp strchr strrchr strstr strcpy strncpy strcat strncat stpcpy stpncpy strspn strcspn strpbrk strtok_r strsep strtol
strtoul strtoll strtoull strtoimax strtoumax atoi atol atoll strerror strerror_r strsignal snprintf vsnprintf sprintf vsprintf
sscanf __isoc99_sscanf __isoc23_sscanf __isoc23_strtol __isoc23_strtoul __isoc23_strtoll __isoc23_strtoull sigemptyset
memmem strlcpy strlcat strsep strdupa ffsll wcslen mblen isascii toascii ispunct __ctype_get_mb_cur_max lldiv llabs
sigfillset sigaddset sigdelset sigismember qsort bsearch abs labs isalpha isdigit isalnum isspace isprint toupper tolower
__ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc stdin stdout stderr gnu_dev_major gnu_dev_minor gnu_dev_makedev
basename dirname __xpg_basename __cmsg_nxthdr strcoll ffs htons ntohs htonl ntohl bcmp bzero explicit_bzero
__stack_chk_fail strverscmp memccpy strchrnul rawmemchr strtok index rindex isupper islower isxdigit isblank ispunct
isgraph iscntrl strtod atof imaxabs div ldiv ffsl ffsll strsignal sigdescr_np strerrorname_np sigandset sigorset sigisemptyset'''.split())


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(' '.join(cmd) + '\n' + r.stdout + r.stderr)
        sys.stderr.write('BUILD-ERROR\n')
        sys.exit(3)
    return r.stdout


def srcs(*pats):
    r = []
    for p in pats:
        r += sorted(glob.glob(os.path.join(REPO, p)))
    return r


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def main():
    os.makedirs(OUT + '/obj', exist_ok=True)
    lock = open(OUT + '/lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    hdrs = srcs('include/*.h', 'include/*/*.h', 'common/*.h', 'seatd/*.h', 'libseat/*.h', 'libseat/*/*.h')
    hh = sha(*[p + '\0' + rd(p).decode('latin1') for p in hdrs])
    images = {
        'S': (srcs('common/*.c', 'seatd/*.c'), []),
        'L': (srcs('common/*.c', 'libseat/*.c', 'libseat/backend/*.c') +
              [s for s in srcs('seatd/*.c') if not s.endswith('/seatd.c')], LDEFS),
        'W': (srcs('seatd-launch/*.c'), []),
    }
    simsrc = sorted(glob.glob(VERIF + '/sim/*.cc'))
    simh = sha(*[rd(p) for p in sorted(glob.glob(VERIF + '/sim/*.h'))])
    me = rd(os.path.abspath(__file__))
    jobs, objs = [], {k: [] for k in images}
    for im, (files, extra) in images.items():
        for f in files:
            key = sha(me, hh, im, f, rd(f))[:20]
            o = f'{OUT}/obj/{im}-{os.path.basename(f)}-{key}.o'
            objs[im].append(o)
            if not os.path.exists(o):
                jobs.append((o, ['clang', *CFLAGS, *DEFS, *extra, '-c', f]))
    simo = []
    for f in simsrc:
        hx = hh if b'REPO-HEADERS' in rd(f) else ''
        o = f'{OUT}/obj/sim-{os.path.basename(f)}-{sha(me, simh, hx, rd(f))[:20]}.o'
        simo.append(o)
        if not os.path.exists(o):
            jobs.append((o, ['clang++', *CXXFLAGS, '-c', f]))

    def comp(j):
        o, cmd = j
        tmp = o + '.tmp%d' % os.getpid()
        run(cmd + ['-o', tmp])
        os.rename(tmp, o)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(comp, jobs))
    # what the simulator defines
    shim = set()
    for o in simo:
        for l in run(['nm', '--defined-only', '-g', o]).splitlines():
            s = l.split()[-1]
            if s.startswith('sim_'):
                shim.add(s[4:])
    allkey = sha(me, *[rd(o) for k in objs for o in objs[k]], *[rd(o) for o in simo])
    try:
        if rd(OUT + '/stamp').decode() == allkey and os.path.exists(OUT + '/sim'):
            return
    except OSError:
        pass
    final = []
    for im, os_ in objs.items():
        rel = f'{OUT}/{im}.rel.o'
        run(['ld', '-r', '-o', rel, *os_])
        redefs, bad = [], []
        for l in run(['nm', '-g', rel]).splitlines():
            p = l.split()
            typ, s = p[-2], p[-1]
            if typ in 'Uwv':
                if s.startswith(('__asan_', '__sanitizer_', '__start_', '__stop_', '__ubsan_')):
                    continue
                if s.startswith('__') and s.endswith('_chk') and s[2:-4] in shim:
                    redefs.append((s, 'sim_' + s[2:-4]))
                elif s in shim:
                    redefs.append((s, 'sim_' + s))
                elif s not in PURE:
                    bad.append(s)
            elif not s.startswith(('__start_', '__stop_')):
                redefs.append((s, f'{im}_{s}'))
        if bad:
            sys.stderr.write(f'BUILD-ERROR: image {im} uses symbols the simulator does not provide: {bad}\n')
            sys.exit(3)
        for l in run(['objdump', '-h', rel]).splitlines():
            m = re.match(r'\s*\d+ (\S+)\s+([0-9a-f]+)', l)
            if m and re.match(r'\.(tdata|tbss)', m.group(1)) and int(m.group(2), 16):
                sys.stderr.write(f'BUILD-ERROR: image {im} uses thread-local storage\n')
                sys.exit(3)
        rf = f'{OUT}/{im}.redef'
        with open(rf, 'w') as f:
            f.writelines(f'{a} {b}\n' for a, b in redefs)
        o = f'{OUT}/{im}.o'
        # clang marks guard sections; .data/.bss hold the globals we swap
        run(['objcopy', '--redefine-syms', rf, '--rename-section', f'.data=simdata_{im}', '--rename-section',
             f'.bss=simbss_{im}', rel, o])
        final.append(o)
    run(['clang++', '-no-pie', '-fsanitize=address', '-g', '-o', OUT + '/sim.tmp', *simo, *final])
    os.rename(OUT + '/sim.tmp', OUT + '/sim')
    with open(OUT + '/stamp', 'w') as f:
        f.write(allkey)
    # keep the cache small
    keep = set(simo) | {o for k in objs for o in objs[k]}
    old = sorted((p for p in glob.glob(OUT + '/obj/*.o') if p not in keep), key=os.path.getmtime)
    for p in old[:-300]:
        os.unlink(p)


main()
