"""Builds the exploration binaries from /repo's working tree. Objects are cached by content hash in /verif/build."""
import concurrent.futures as cf, glob, hashlib, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
H = os.path.join(VERIF, 'harness')
OUT = os.path.join(VERIF, 'build')
REL = '-std=gnu11 -O3 -DNDEBUG -fPIC -fstack-protector-all -w'.split()     # the project's Release configuration
CONF = {
    'mc': dict(cc='gcc', flags=REL, defs=[], link=[], wraps=[]),
    'as': dict(cc='gcc', flags='-std=gnu11 -O1 -g -DNDEBUG -fno-omit-frame-pointer -U_FORTIFY_SOURCE -fsanitize=address,undefined -fno-sanitize=shift-base -fno-sanitize-recover=all -w'.split(), defs=['-DMC_ASAN=1'], link=['-fsanitize=address,undefined'], wraps=[]),
    'ct': dict(cc='gcc', flags='-std=gnu11 -O1 -DNDEBUG -fno-inline -fno-builtin -fsanitize=thread -fsanitize-coverage=trace-pc -U_FORTIFY_SOURCE -w'.split(), defs=['-DMC_MT=1'], link=[],
               wraps='memcpy memmove memset memcmp strncmp'.split()),
    'mt': dict(cc='gcc', flags='-std=gnu11 -O1 -DNDEBUG -fno-inline -fno-builtin -fsanitize=thread -U_FORTIFY_SOURCE -w'.split(), defs=['-DMC_MT=1'], link=[],
               wraps='memcpy memmove memset memcmp strncpy strcpy explicit_bzero bzero pthread_mutex_lock pthread_mutex_unlock pthread_once'.split()),
}
WRAPS = 'getrandom getentropy syscall malloc calloc realloc free open open64 close read ioctl poll fopen fopen64'.split()
CXX = 'g++ -std=c++17 -O3 -march=native -w'.split()

class BuildError(Exception):
    pass

def repo_sources():
    r = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not d.startswith(('.', '_')) and d not in ('tests', 'test', 'wasm', 'build', 'node_modules', 'examples', 'benchmarks', 'fuzz'))
        r += [os.path.join(root, f) for f in sorted(files) if f.endswith('.c') and 'test' not in f.lower()]
    return r

def content(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as g:
            h.update(hashlib.sha256(g.read()).digest())
    return h.hexdigest()

def repo_headers():
    r = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not d.startswith(('.', '_')) and d not in ('tests', 'node_modules'))
        r += [os.path.join(root, f) for f in sorted(files) if f.endswith(('.h', '.inc', '.def'))]
    return r

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])

# configurations of the random source for other systems: built against declarations of those systems' interfaces; one whose source needs more than the harness models is not explored
FOREIGN = {
    'win32': ['-D_WIN32', '-D__declspec(x)=', '-I@/win32'],
    'bsd': ['-DBSD=199506', '-Darc4random_buf=os_arc4random'],
    'wasi': ['-D__wasi__', '-Darc4random_buf=os_arc4random'],
    'kfreebsd': ['-D__FreeBSD_kernel__', '-include', 'features.h', '-I@/urandom'],
    'em': ['-D__EMSCRIPTEN__', '-I@/em'],
}

def obj(src, cmd, dep, post=None, optional=False):
    if optional:
        try:
            o = obj(src, cmd, dep, post)
            t = '%s.%d.link' % (o, os.getpid())
            if not os.path.exists(o + '.ok'):
                run(['gcc', '-w', '-o', t, o, H + '/shim/link.c'])
                os.replace(t, o + '.ok')
            return o
        except BuildError:
            return None
    key = hashlib.sha256((dep + content([src]) + '\0'.join(cmd)).encode()).hexdigest()[:24]
    o = os.path.join(OUT, 'obj', key + '.o')
    if not os.path.exists(o):
        t = '%s.%d.tmp.o' % (o, os.getpid())
        run(cmd + ['-c', src, '-o', t])
        if post:
            run(post + [t])
        os.replace(t, o)
    return o

def build_wasm32(dep):
    """The product for 32-bit WebAssembly, with the facade; '' when this source or sandbox does not allow it."""
    S = H + '/shim/wasm32'
    cc = ['clang', '--target=wasm32', '-std=gnu11', '-O1', '-w', '-D__EMSCRIPTEN__', '-nostdlibinc', '-isystem', S, '-I' + REPO]
    jobs = [(f, cc, dep) for f in repo_sources() + sorted(glob.glob(REPO + '/wasm/*.c'))] + [(S + '/libc.c', cc + ['-fno-builtin'], dep)]
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda j: obj(*j), jobs))
        try:
            objs.append(obj(S + '/glue.c', cc, dep))
        except BuildError:
            pass                                     # incremental interface changed: those sequences are not explored
        w = os.path.join(OUT, 'obj', hashlib.sha256('\0'.join(objs).encode()).hexdigest()[:24] + '.wasm')
        if not os.path.exists(w):
            t = '%s.%d.tmp' % (w, os.getpid())
            run(['wasm-ld', '--no-entry', '--export-all', '--import-memory', '--stack-first', '-z', 'stack-size=1048576', '-o', t] + objs)
            os.replace(t, w)
        return w
    except (BuildError, OSError):
        return ''

def build(conf):
    os.makedirs(os.path.join(OUT, 'obj'), exist_ok=True)
    c = CONF[conf]
    hdr = content(repo_headers())
    hh = content(sorted(glob.glob(H + '/*.hpp') + glob.glob(H + '/ref/*') + glob.glob(H + '/shim/*.c') + glob.glob(H + '/shim/*/*.*') + glob.glob(H + '/shim/*/*/*')))
    jobs = []
    mods = sorted(os.path.basename(f) for f in glob.glob(H + '/mod_*.cpp'))
    cpp = (['core.cpp', 'env.cpp', 'os.cpp', 'main.cpp'] + ([conf + '_rt.cpp', conf + '_mod.cpp'] if conf in ('mt', 'ct') else mods))
    size = lambda f: -os.path.getsize(os.path.join(H, f))
    for f in sorted(cpp, key=size):
        defs = c['defs'] if f in ('core.cpp', 'env.cpp', 'mt_rt.cpp', 'mt_mod.cpp', 'ct_rt.cpp', 'ct_mod.cpp') else []
        jobs.append((os.path.join(H, f), CXX + defs + ['-I' + REPO, '-I' + H], hh + hdr, None))
    for f in repo_sources():
        jobs.append((f, [c['cc']] + c['flags'], hdr, None))
    if conf not in ('mt', 'ct'):
        rb = os.path.join(REPO, 'random/randombytes.c')
        base = [x for x in c['flags']] + ['-U_FORTIFY_SOURCE']
        for name, inc in (('getrandom', None), ('syscall', 'syscall'), ('urandom', 'urandom')):
            jobs.append((rb, ['gcc'] + base + (['-I%s/shim/%s' % (H, inc)] if inc else []) + ['-Drandombytes=rb_' + name], hdr + hh, ['objcopy', '--keep-global-symbol=rb_' + name]))
        nolinux = '-U__linux__ -Ulinux -U__linux -U__gnu_linux__'.split(); nounix = '-U__unix__ -Uunix -U__unix'.split()
        for name, more in FOREIGN.items() if conf == 'mc' else ():
            cmd = ['gcc'] + base + nolinux + ([] if name in ('bsd', 'kfreebsd') else nounix) + [x.replace('@', H + '/shim') for x in more] + ['-Drandombytes=rb_' + name]
            jobs.append((rb, cmd, hdr + hh, ['objcopy', '--keep-global-symbol=rb_' + name], True))
        wasm = ['gcc', '-w', '-O0', '-fno-builtin', '-I%s/shim/wasm' % H] + (['-fsanitize=address'] if conf == 'as' else [])
        for f in sorted(glob.glob(REPO + '/wasm/*.c')):
            jobs.append((f, wasm, hdr + hh, None))
    with cf.ThreadPoolExecutor(8) as ex:
        objs = [o for o in ex.map(lambda j: obj(*j), jobs) if o]
    wasm32 = build_wasm32(hdr + hh) if conf == 'mc' else ''
    key = hashlib.sha256('\0'.join(objs + c['link'] + [wasm32]).encode()).hexdigest()[:16]
    exe = os.path.join(OUT, '%s-%s' % (conf, key))
    if not os.path.exists(exe):
        link = ['g++'] + c['link'] + ['-o', exe + '.tmp'] + objs + ['-Wl,' + ','.join('--wrap=' + w for w in WRAPS + c['wraps']), '-lpthread']
        run(link)
        if wasm32:
            shutil.copyfile(wasm32, exe + '.wasm')
        os.replace(exe + '.tmp', exe)
    return exe

if __name__ == '__main__':
    for k in (sys.argv[1:] or list(CONF)):
        print(k, build(k))
