#!/usr/bin/env python3
"""Builds build/bin/<id> from /repo's working tree and harness/<id>.cpp.

Every object is cached under the hash of (flags, all headers, its source), so an unchanged
tree costs nothing and any change in what is compiled is seen. Prints the binary's path."""
import glob, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PBT_REPO', '/repo')
OUT = os.path.join(HERE, 'build')
CXX = 'clang++-18'
ident = sys.argv[1]
san = ['-fsanitize=address', '-fno-omit-frame-pointer', '-fsanitize=bounds,return', '-fno-sanitize-recover=bounds,return']
extra = []
head = open(f'{HERE}/harness/{ident}.cpp').read(4000)
m = re.search(r'//\s*BUILD:(.*)', head)
mode = m.group(1).split() if m else []
opt = '-O1'
if 'tsan' in mode: san = ['-fsanitize=thread']
if 'nosan' in mode: san = []
common = ['-std=c++20', '-g1', opt, '-fPIC', '-w', f'-I{REPO}/include', f'-I{REPO}/3rdparty', f'-I{REPO}/prec', f'-I{HERE}/engine/include'] + san
libflags = common + ['-ftrivial-auto-var-init=pattern'] + ([] if 'tsan' in mode else ['-fsanitize-coverage=inline-8bit-counters'])

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]
def rd(p): return open(p, 'rb').read()
headers = []
for d in ('include', 'prec', '3rdparty', 'src'):
    for root, dirs, files in os.walk(f'{REPO}/{d}'):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.h', '.hpp', '.inc', '.inl')): headers.append(os.path.join(root, f))
hh = sha(*[x for p in headers for x in (os.path.relpath(p, REPO).encode(), rd(p))])
ih = sha(*[rd(p) for p in sorted(glob.glob(f'{HERE}/engine/*.hpp') + glob.glob(f'{HERE}/harness/*.hpp') + glob.glob(f'{HERE}/engine/include/*/*'))])

mk = open(f'{REPO}/Makefile').read()
# all SOURCES of the library that the Makefile names, on this platform
mm = re.search(r'^SOURCES\s*=((?:.*\\\n)*.*)', mk, re.M)
srcs = [w.replace('$(PATH_CORE)', 'src/core') for w in mm.group(1).replace('\\', ' ').split()]
srcs = [os.path.join(REPO, s) for s in srcs if s.endswith('.cpp')]

os.makedirs(f'{OUT}/obj', exist_ok=True); os.makedirs(f'{OUT}/bin', exist_ok=True)
jobs = []
def obj(src, flags, dep):
    o = f'{OUT}/obj/{os.path.basename(src)}-{sha(" ".join(flags), src, rd(src), dep)}.o'
    if not os.path.exists(o): jobs.append((src, flags, o))
    return o
harness = f'{HERE}/harness/{ident}.cpp'
objs = [obj(harness, common, hh + ih), obj(f'{HERE}/engine/engine.cpp', ['-std=c++20', '-g1', '-O1', '-fPIC', f'-I{HERE}/engine'] + san, ih)]
objs += [obj(s, libflags, hh) for s in sorted(srcs, key=lambda p: -os.path.getsize(p))]
def run(j):
    src, flags, o = j
    t = f'{o}.{os.getpid()}.tmp'
    r = subprocess.run([CXX] + flags + ['-c', src, '-o', t], capture_output=True, text=True)
    if r.returncode == 0: os.rename(t, o)
    return (src, r)
bad = False
with ThreadPoolExecutor(8) as ex:
    for src, r in ex.map(run, jobs):
        if r.returncode: print(f'--- {src}\n{r.stderr[:6000]}'); bad = True
if bad: sys.exit(1)
b = f'{OUT}/bin/{ident}-{sha(*objs)}'
if not os.path.exists(b):
    for old in glob.glob(f'{OUT}/bin/{ident}-*'):
        if not old.endswith('.tmp'): os.unlink(old)
    r = subprocess.run([CXX] + san + objs + ['-o', f'{b}.{os.getpid()}.tmp', '-pthread', '-ldl', '-lz', '-rdynamic'] , capture_output=True, text=True)
    if r.returncode: print(r.stderr[:6000]); sys.exit(1)
    os.rename(f'{b}.{os.getpid()}.tmp', b)
print(b)
