"""Front end: compile a contract translation unit against /repo's current headers to LLVM IR; record layouts."""
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys
from . import ll

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('IRVC_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'
SAN = 'signed-integer-overflow,shift,integer-divide-by-zero,array-bounds,return,unreachable,builtin'
BASE = ['-std=c++20', '-I' + REPO + '/include', '-I' + ROOT + '/specs/shim', '-fno-access-control', '-w']


class FrontError(Exception):
    pass


CACHE = os.environ.get('IRVC_CACHE')    # scratch directory of one check run (never reused between runs)


def _cached(cmd, text, run):
    """run a compiler command once per check run: every unit of the run sees the same output"""
    if not CACHE:
        return run()
    k = hashlib.sha256(('\0'.join(cmd) + '\1' + (text or '')).encode()).hexdigest()
    path = os.path.join(CACHE, k)
    with open(path + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(path):
            with open(path) as f:
                rc, out, err = json.load(f)
        else:
            rc, out, err = run()
            with open(path + '.tmp', 'w') as f:
                json.dump([rc, out, err], f)
            os.rename(path + '.tmp', path)
    return rc, out, err


def _run(cmd, text=None):
    def go():
        p = subprocess.run(cmd, input=text, capture_output=True, text=True)
        return p.returncode, p.stdout, p.stderr
    return _cached(cmd, text, go)


def compile_ir(src, defs=(), target=None, asserts=True, extra=(), opt='-O1', san=SAN, noinline=None):
    cmd = [CLANG] + BASE + [opt, '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-strict-aliasing',
                            '-fno-discard-value-names', '-gline-tables-only']
    if asserts:
        cmd += ['-D_GLIBCXX_ASSERTIONS']
    if san:
        cmd += ['-fsanitize=' + san, '-fsanitize-trap=all']
    if target:
        cmd += ['--target=' + target] + TARGET_FLAGS.get(target, [])
    if noinline:
        cmd += ['-Xclang', '-disable-llvm-passes']
    # a header under test may rely on what its users include before it
    cmd += ['-include', os.path.join(ROOT, 'specs', 'prelude.hpp')]
    cmd += list(defs) + list(extra) + ['-S', '-emit-llvm', os.path.join(ROOT, 'specs', src), '-o', '-']
    rc, text, err = _run(cmd)
    if rc:
        raise FrontError('compile %s failed:\n%s' % (src, err[:3000]))
    passes = 'function(jump-threading,simplifycfg,instcombine),loop-simplify,lowerswitch,scalarizer,instnamer'
    opts = []
    if noinline:
        # functions that are used by contract stay calls
        rx = re.compile(noinline)

        out = []
        for ln in text.split('\n'):
            if ln.startswith('define '):
                m = re.search(r'@"?([\w.$]+)"?\(', ln)
                if m and rx.search(m.group(1)):
                    ln = re.sub(r' #(\d+)([^#]*)$', r' noinline #9\1\2', ln)
            elif ln.startswith('attributes #'):
                # their attribute groups, without the request to inline
                out.append(re.sub(r'^attributes #(\d+)', r'attributes #9\1', ln).replace(' alwaysinline', ''))
            out.append(ln)
        text = '\n'.join(out)
        passes = 'default<O1>,' + passes
        opts = ['-disable-loop-unrolling', '-vectorize-loops=false', '-vectorize-slp=false']
    rc, out, err = _run([OPT, '-S'] + opts + ['-passes=' + passes, '-'], text)
    if rc:
        raise FrontError('opt failed: ' + err[:1000])
    m = ll.Module(out)
    m.text_hash = hashlib.sha256(out.encode()).hexdigest()
    m.src = src
    m.text = out
    return m


# a foreign target has no headers of its own here: the host's are used (only freestanding headers are included)
TARGET_FLAGS = {'aarch64_be-linux-gnu': ['-nostdinc++', '-isystem', '/usr/include/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu/c++/13',
                                         '-isystem', '/usr/include/x86_64-linux-gnu', '-isystem', '/usr/include', '-D__x86_64__']}


def compiles(code, defs=()):
    """does this snippet compile (syntax only)?"""
    cmd = [CLANG] + BASE + ['-fsyntax-only', '-x', 'c++'] + list(defs) + ['-']
    p = subprocess.run(cmd, input=code, capture_output=True, text=True)
    return p.returncode == 0, p.stderr


class Layout:
    """leaf fields of a record"""

    def __init__(self, size, fields):
        self.size, self.fields = size, fields   # fields: (off, depth, type, name)

    def find(self, names, types=(), exact=True):
        """offset of a field by name, else by unique type"""
        for n in names:
            h = [f for f in self.fields if f[3] == n]
            if len(h) >= 1:
                return h[0][0]
        for t in types:
            h = [f for f in self.fields if re.search(t, f[2]) and f[3]]
            # keep outermost matches
            h2 = []
            for f in h:
                if not any(g is not f and g[1] < f[1] and g[0] <= f[0] for g in h):
                    h2.append(f)
            if len(h2) == 1:
                return h2[0][0]
        return None


def layouts(src, defs=(), target=None):
    """all records dumped by clang: name -> Layout"""
    cmd = [CLANG] + BASE + ['-O0', '-S', '-emit-llvm', '-o', '/dev/null', '-Xclang', '-fdump-record-layouts', os.path.join(ROOT, 'specs', src)] + list(defs)
    if target:
        cmd += ['--target=' + target] + TARGET_FLAGS.get(target, [])
    rc, stdout, err = _run(cmd)
    if rc:
        raise FrontError('layout %s failed:\n%s' % (src, err[:3000]))
    out = {}
    cur = None
    for ln in stdout.split('\n'):
        if ln.startswith('*** Dumping AST Record Layout'):
            cur = None
            continue
        m = re.match(r'\s*(\d+)(?::[\d-]+)? \|( +)(.*)$', ln)
        if m:
            off = int(m.group(1))
            depth = len(m.group(2))
            txt = m.group(3)
            if cur is None:
                name = re.sub(r'^(class|struct|union) ', '', txt.strip())
                name = name.replace(' (empty)', '')
                cur = [name, []]
                continue
            base = re.match(r'(?:class|struct|union)? ?(.*) \((?:primary )?(?:virtual )?base\)(?: \(empty\))?$', txt)
            vt = re.match(r'\((.*) (vtable|vbtable) pointer\)', txt)
            if base:
                cur[1].append((off, depth, base.group(1), '<base>'))
            elif vt:
                cur[1].append((off, depth, 'vptr', '<vptr>'))
            else:
                t = txt.replace(' (empty)', '').rsplit(' ', 1)
                if len(t) == 2:
                    cur[1].append((off, depth, t[0], t[1]))
            continue
        m = re.match(r'\s*\| \[sizeof=(\d+)', ln)
        if m and cur:
            out[cur[0]] = Layout(int(m.group(1)), cur[1])
            cur = None
    return out


def find_layout(L, pat):
    h = [k for k in L if re.fullmatch(pat, k)]
    if len(h) != 1:
        raise FrontError('record %s: %s' % (pat, h or 'not found'))
    return L[h[0]]
