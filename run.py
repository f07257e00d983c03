#!/usr/bin/env python3
"""Builds one check from /repo's current working tree and runs it.

  run.py <PROPERTY> quick|thorough [--replay FILE] [--repo DIR] [extra options for the checker]

Exit status: 0 the property held on everything explored, 1 with a VIOLATION
line otherwise.  2 only if the check itself cannot be built or run.
"""
import fcntl, glob, hashlib, os, subprocess, sys, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def read(p):
    with open(p, 'rb') as f: return f.read()

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0'); h.update(read(p)); h.update(b'\0')
    return h.hexdigest()

class Builder:
    def __init__(self, repo, flavour):
        self.repo = repo; self.flavour = flavour
        self.dir = os.environ.get('VERIF_BUILD', os.path.join(V, 'build')); os.makedirs(os.path.join(self.dir, 'obj'), exist_ok=True)
        self.gen = os.path.join(self.dir, 'gen'); os.makedirs(self.gen, exist_ok=True)
        g = os.path.join(self.gen, 'GenVersion.h'); t = 'const char GenVersion_Version[] = "0";\nconst char GenVersion_Commit[] = "none";\n'
        if not os.path.exists(g) or open(g).read() != t: open(g, 'w').write(t)
        self.headers = [p for d in ('src/agent', 'src/libwinpty', 'src/shared', 'src/include', 'src/unix-adapter', 'src/debugserver') for p in glob.glob(os.path.join(repo, d, '*.h'))]
        self.prodhash = tree_hash(self.headers)
        self.simhash = tree_hash(glob.glob(V + '/sim/*.h') + glob.glob(V + '/sim/include/*.h') + glob.glob(V + '/mc/*.h') + glob.glob(V + '/harness/*.h'))
        self.jobs = []
        self.san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,alignment,null', '-DSIM_ASAN'] if flavour == 'asan' else []

    def obj(self, src, flags, extra=''):
        cmd = ['g++', '-O1', '-g', '-fno-gnu-unique'] + self.san + flags
        key = hashlib.sha256((' '.join(cmd) + src + extra).encode() + read(src)).hexdigest()[:32]
        out = os.path.join(self.dir, 'obj', key + '.o')
        if not os.path.exists(out): self.jobs.append(cmd + ['-c', src, '-o', out + '.tmp%d' % os.getpid(), out])
        return out

    def compile_all(self):
        def one(c):
            out = c.pop(); rc, o = sh(c)
            if rc == 0: os.replace(c[-1], out)
            return rc, o, c
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for rc, o, c in ex.map(one, self.jobs):
                if rc: sys.stdout.write('build failed: %s\n%s\n' % (' '.join(c), o[-6000:])); sys.exit(2)
        self.jobs = []

    def sources(self, d):
        return sorted(p for p in glob.glob(os.path.join(self.repo, d, '*.cc')) if not p.endswith('Test.cc'))

    PRODUCT = ['-std=c++11', '-fshort-wchar', '-w', '-DUNICODE', '-D_UNICODE', '-D_WIN32_WINNT=0x0501', '-DWINPTY_AGENT_ASSERT', '-DCOMPILING_WINPTY_DLL', '-I' + V + '/sim/include']

    def win_objs(self, harness, whitebox=False, race=False, unix=False, debug=False):
        prod = self.PRODUCT + ['-I' + self.gen, '-Dmain=winpty_agent_main']
        ph = self.prodhash + self.simhash
        shared = [self.obj(s, prod, ph) for s in self.sources('src/shared')]
        agent = [self.obj(s, prod, ph) for s in self.sources('src/agent')]
        libf = [f for f in prod if f != '-DWINPTY_AGENT_ASSERT'] + (['-fsanitize=thread'] if race else [])
        lib = [self.obj(s, libf, ph) for s in self.sources('src/libwinpty')]
        libshared = [self.obj(s, libf, ph) for s in self.sources('src/shared')]
        simf = ['-std=c++17', '-fshort-wchar', '-w', '-DUNICODE', '-D_UNICODE', '-I' + V + '/sim/include', '-I' + V + '/sim', '-I' + V + '/mc', '-I' + V + '/harness', '-I' + self.repo + '/src/include']
        sim = [self.obj(s, simf, self.simhash) for s in sorted(glob.glob(V + '/sim/*.cc') + glob.glob(V + '/mc/*.cc')) if not s.endswith('wstring.cc')]
        ws = [self.obj(V + '/sim/wstring.cc', ['-std=' + st, '-fshort-wchar', '-w', '-fpermissive'], self.simhash) for st in ('c++11', 'c++17')]
        h = self.obj(harness, simf + (['-I' + self.repo + '/src', '-I' + self.gen] if whitebox else []), self.simhash + self.prodhash)
        adapter = []
        if unix:
            uf = [f for f in self.PRODUCT if 'WINPTY' not in f] + ['-I' + self.gen, '-I' + V + '/sim', '-I' + self.repo + '/src/include', '-Dmain=winpty_unix_main', '-include', V + '/sim/posixsim.h']
            adapter = [self.obj(s, uf, ph) for s in self.sources('src/unix-adapter') + [os.path.join(self.repo, 'src/shared', n) for n in ('DebugClient.cc', 'WinptyAssert.cc', 'WinptyVersion.cc')]]
        dbg = []
        if debug:
            df = [f for f in libf if f != '-Dmain=winpty_agent_main'] + ['-Dmain=winpty_debug_main']
            dbg = [self.obj(s, df, ph) for s in self.sources('src/debugserver')]
        self.compile_all()
        # the library and the agent are two separate programs: each keeps its own copy of everything but its entry points
        keep = {'lib': lib + libshared, 'agent': agent + shared}
        if unix: keep['adapter'] = adapter
        if debug: keep['debugserver'] = dbg + libshared; keep['tracer'] = libshared
        out = []
        for name, objs in keep.items():
            k = hashlib.sha256(('localized3' + name + str(whitebox) + ''.join(objs)).encode()).hexdigest()[:32]; o = os.path.join(self.dir, 'obj', k + '.o')
            if not os.path.exists(o):
                t = o + '.tmp%d' % os.getpid()
                rc, e = sh(['ld', '-r', '--force-group-allocation', '-o', t] + objs)
                if rc: sys.stdout.write('link failed\n' + e[-3000:]); sys.exit(2)
                if not (whitebox and name == 'agent'):
                    pat = ['--wildcard', '--keep-global-symbol=' + {'lib': 'winpty_*', 'agent': '*winpty_agent_main*', 'adapter': '*winpty_unix_main*', 'debugserver': '*winpty_debug_main*', 'tracer': '_Z5tracePKcz'}[name]]
                    if name == 'debugserver' or name == 'agent':  # what they print goes to the simulated standard output
                        for x in ('printf', 'fprintf', 'fwrite', 'fputs', 'puts', 'fputc', 'putchar', 'fflush'): pat += ['--redefine-sym', x + '=sim_' + x]
                        for x in ('printf', 'fprintf'): pat += ['--redefine-sym', '__' + x + '_chk=sim_' + x + '_chk']
                    rc, e = sh(['objcopy'] + pat + [t])
                    if rc: sys.stdout.write('objcopy failed\n' + e[-3000:]); sys.exit(2)
                # its writable data goes to a section of its own, so that the explorer can start every execution with fresh variables
                names = sorted({w[1] for w in (l.split() for l in sh(['objdump', '-h', '-w', t])[1].split('\n')) if len(w) > 6 and w[0].isdigit() and (w[1] == '.bss' or w[1] == '.data' or w[1].startswith(('.bss.', '.data.'))) and not w[1].startswith('.data.rel.ro') and int(w[2], 16)})
                ren = [x for n in names for x in ('--set-section-flags', n + '=alloc,load,contents,data', '--rename-section', n + '=product_state,alloc,load,contents,data')]
                if ren:
                    rc, e = sh(['objcopy'] + ren + [t])
                    if rc: sys.stdout.write('objcopy failed\n' + e[-3000:]); sys.exit(2)
                os.replace(t, o)
            out.append(o)
        return [h] + out + sim + ws

    def link(self, objs, exe, flags=()):
        rc, o = sh(['g++'] + self.san + ['-o', exe + '.tmp'] + objs + list(flags))
        if rc: sys.stdout.write('link failed\n' + o[-6000:]); sys.exit(2)
        os.replace(exe + '.tmp', exe)

def options(path):
    r = {}
    for line in open(path):
        if line.startswith('// build:'):
            for w in line[9:].split(): r[w.split('=')[0]] = w.split('=')[1] if '=' in w else True
            break
    return r

def main():
    if len(sys.argv) >= 2 and sys.argv[1] == '--build-all':
        for h in sorted(glob.glob(V + '/harness/P*.cc')):
            rc = subprocess.call([sys.executable, os.path.join(V, 'run.py'), os.path.basename(h)[:-3], 'quick', '--list'], stdout=subprocess.DEVNULL)
            print(os.path.basename(h), 'ok' if rc == 0 else 'failed'); rc and sys.exit(2)
        sys.exit(0)
    pid, tier = sys.argv[1], sys.argv[2]; rest = sys.argv[3:]; repo = '/repo'
    if '--repo' in rest: i = rest.index('--repo'); repo = rest[i + 1]; del rest[i:i + 2]
    harness = os.path.join(V, 'harness', pid + '.cc'); opt = options(harness)
    b = Builder(repo, 'asan' if opt.get('asan') else 'opt')
    lock = open(os.path.join(b.dir, 'lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    objs = b.win_objs(harness, opt.get('whitebox'), opt.get('race'), opt.get('unix'), opt.get('debug')); flags = ['-Wl,--wrap=exit,--wrap=abort,--wrap=__assert_fail,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort,--wrap=__cxa_allocate_exception']
    key = hashlib.sha256((' '.join(objs) + ' '.join(flags)).encode()).hexdigest()[:16]
    exe = os.path.join(b.dir, '%s-%s' % (pid, key))
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(b.dir, pid + '-*')): os.unlink(old)
        b.link(objs, exe, flags)
    # old objects: keep the cache small
    allo = glob.glob(os.path.join(b.dir, 'obj', '*'))
    if len(allo) > 1500:
        for o in sorted(allo, key=os.path.getmtime)[:700]: os.unlink(o)
    fcntl.flock(lock, fcntl.LOCK_UN)
    ev = os.environ.get('EVID', os.path.join(V, 'evidence')); os.makedirs(ev, exist_ok=True)
    cmd = [exe, '--tier', tier, '--known', os.path.join(V, 'known_findings')]
    if '--replay' not in rest and '--list' not in rest and '--suite' not in rest: cmd += ['--evidence', os.path.join(ev, pid + '.json')]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=1')
    sys.stdout.flush()
    rc = subprocess.call(cmd + rest, env=env)
    sys.exit(rc if rc in (0, 1) else 2)

main()
