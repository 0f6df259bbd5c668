#!/usr/bin/env python3-vt
"""Decides one property: compile harnesses against /repo's current headers, execute the IR
symbolically, discharge the obligations with z3, replay counterexamples, write evidence."""
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
from multiprocessing.pool import ThreadPool
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
REPO = os.environ.get('VERIF_REPO', '/repo')
EVDIR = os.environ.get('VERIF_EVIDENCE', os.path.join(ROOT, 'evidence'))
CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
GXX = '/usr/bin/g++' if os.path.exists('/usr/bin/g++') else 'g++'
INC = ['-I', os.path.join(REPO, 'matrix')]
STD = ['-std=gnu++11', '-Wno-narrowing']

PRELUDE = '''#include <array>
#include <vector>
#include <map>
#include <utility>
#include <algorithm>
#include <numeric>
#include <functional>
#include <stdexcept>
#include <cstdlib>
#include <cstddef>
#include <cmath>
#include <iostream>
#include "matrix.hpp"
using namespace mlib;
'''

MAIN = r'''
#include <cstdio>
#include <cstring>
#include <new>
#include <typeinfo>
#include <exception>
#include <cxxabi.h>
static long g_heap = 0; static bool g_count = false;
#ifndef NO_NEW
extern "C" {
void* __libc_malloc(std::size_t); void* __libc_calloc(std::size_t, std::size_t); void* __libc_realloc(void*, std::size_t); void* __libc_memalign(std::size_t, std::size_t);
void* malloc(std::size_t n) noexcept { if (g_count) g_heap++; return __libc_malloc(n); }
void* calloc(std::size_t a, std::size_t b) noexcept { if (g_count) g_heap++; return __libc_calloc(a, b); }
void* realloc(void* p, std::size_t n) noexcept { if (g_count) g_heap++; return __libc_realloc(p, n); }
void* aligned_alloc(std::size_t a, std::size_t n) noexcept { if (g_count) g_heap++; return __libc_memalign(a, n); }
}
void* operator new(std::size_t n) { if (g_count) g_heap++; void* p = __libc_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#endif
__attribute__((noinline)) static void dirty(int pat) { volatile char b[200000]; for (unsigned k = 0; k < sizeof b; k++) b[k] = (char)(pat ? 0x3f + (k % 7) * pat : 0); }
static void hex(FILE* f, const void* p, std::size_t n) { for (std::size_t k = 0; k < n; k++) std::fprintf(f, "%02x", ((const unsigned char*)p)[k]); std::fprintf(f, " "); }
static bool rd(FILE* f, void* p, std::size_t n) { for (std::size_t k = 0; k < n; k++) { unsigned x; if (std::fscanf(f, "%2x", &x) != 1) return false; ((unsigned char*)p)[k] = x; } return true; }
'''


def case_code(e):
    s = 'static int run_%s(FILE* f_in_, FILE* f_out_, int pat_)\n{\n' % e.name
    for b in e.ins:
        s += '  static %s %s; rd(f_in_, &%s, sizeof %s); static unsigned char c_%s[sizeof %s]; std::memcpy(c_%s, &%s, sizeof %s);\n' % (
            b.cxx(), b.name, b.name, b.name, b.name, b.name, b.name, b.name, b.name)
    for b in e.outs:
        s += '  static %s %s; std::memset((void*)&%s, 0xa5, sizeof %s);\n' % (b.cxx(), b.name, b.name, b.name)
    s += '  dirty(pat_);\n  try { g_count = true; %s(%s); g_count = false; }\n' % (e.name, ', '.join(b.name for b in e.ins + e.outs))
    s += '  catch (...) { g_count = false; std::fprintf(f_out_, "THROW %s\\n", abi::__cxa_current_exception_type()->name()); return 0; }\n'
    s += '  int ch_ = 0;\n'
    for b in e.ins:
        s += '  ch_ |= std::memcmp(c_%s, &%s, sizeof %s) != 0;\n' % (b.name, b.name, b.name)
    s += '  std::fprintf(f_out_, "RET %ld %d ", g_heap, ch_);\n'
    for b in e.outs:
        s += '  hex(f_out_, &%s, sizeof %s);\n' % (b.name, b.name)
    s += '  std::fprintf(f_out_, "\\n"); return 0;\n}\n'
    return s


def main_code(entries):
    s = MAIN
    for e in entries:
        s += case_code(e)
    s += 'int main(int argc, char** argv)\n{\n  FILE* in = std::fopen(argv[2], "r"); FILE* out = std::fopen(argv[3], "w"); int pat = argc > 4 ? std::atoi(argv[4]) : 1; int r = 3;\n'
    for e in entries:
        s += '  if (!std::strcmp(argv[1], "%s")) r = run_%s(in, out, pat);\n' % (e.name, e.name)
    s += '  std::fclose(out); std::cout.flush(); return r;\n}\n'
    return s


def hexbytes(e, inp):
    s = ''
    for b in e.ins:
        for x in inp[b.name]:
            s += int(x).to_bytes(b.bytes, 'little').hex()
    return s


class Replay:
    """the real code, compiled natively, run on concrete inputs"""
    def __init__(self, work, binary, entries):
        self.work = work
        self.bin = binary
        self.entries = entries
        self.n = 0

    def _run(self, binary, e, inp, pat=1, env=None, timeout=10):
        self.n += 1
        tag = '%s/r%d_%d' % (self.work, os.getpid(), self.n)
        with open(tag + '.in', 'w') as f:
            f.write(hexbytes(e, inp))
        try:
            p = subprocess.run([binary, e.name, tag + '.in', tag + '.out', str(pat)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout, env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired:
            return {'outcome': 'timeout'}
        r = {'stdout': p.stdout.decode(errors='replace'), 'stderr': p.stderr.decode(errors='replace')[:4000], 'rc': p.returncode}
        try:
            txt = open(tag + '.out').read().split()
        except OSError:
            txt = []
        for x in ('.in', '.out'):
            try:
                os.unlink(tag + x)
            except OSError:
                pass
        if p.returncode != 0 or not txt:
            r['outcome'] = 'crash'
            r['detail'] = 'signal %d' % -p.returncode if p.returncode < 0 else 'exit %d' % p.returncode
            return r
        if txt[0] == 'THROW':
            r['outcome'] = 'throw'
            r['type'] = txt[1]
            return r
        r['outcome'] = 'ret'
        r['heap'] = int(txt[1])
        r['inchanged'] = int(txt[2])
        r['outs'] = {}
        for b, h in zip(e.outs, txt[3:]):
            raw = bytes.fromhex(h)
            r['outs'][b.name] = [int.from_bytes(raw[k * b.bytes:(k + 1) * b.bytes], 'little') for k in range(b.count)]
        return r

    def run(self, e, inp):
        return self._run(self.bin, e, inp)

    def build1(self, e, cc, flags, tag):
        src = '%s/%s_%s.cpp' % (self.work, e.name, tag)
        out = src[:-4]
        with open(src, 'w') as f:
            f.write(PRELUDE + e.cxx() + main_code([e]))
        p = subprocess.run([cc] + STD + flags + INC + [src, '-o', out], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return out if p.returncode == 0 else None

    def run_san(self, e, inp, uninit):
        runs = [(GXX, ['-O0', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-DNO_NEW'], 'asan')]
        if uninit:
            runs.insert(0, (CLANG, ['-O0', '-g', '-fsanitize=memory', '-DNO_NEW'], 'msan'))
        for cc, fl, tag in runs:
            b = self.build1(e, cc, fl, tag)
            if not b:
                continue
            r = self._run(b, e, inp, pat=0 if tag == 'msan' else 1, timeout=20)
            if r['outcome'] in ('crash', 'timeout'):
                msg = r.get('stderr', '')
                line = next((l for l in msg.splitlines() if 'ERROR' in l or 'runtime error' in l or 'WARNING: MemorySanitizer' in l or 'ssertion' in l), msg[:120])
                r['san'] = line.strip()[:200] or r.get('detail', 'abnormal')
                return r
        return {}

    def run_event(self, e, inp, event):
        if event == 'heap':
            r = self.run(e, inp)
            if r['outcome'] == 'ret' and r['heap'] > 0:
                return '%d heap allocation(s) during the call' % r['heap']
            return None
        if event == 'undef':
            r = self.run_san(e, inp, True)
            return 'uninitialised result: ' + r['san'] if r.get('san') else None
        if event == 'instore':
            r = self.run(e, inp)
            if r['outcome'] == 'ret' and r['inchanged']:
                return 'the call modified its const argument'
            return None
        if event in ('gstore', 'gdep') and hasattr(e, 'triple'):
            # f(Y) after f(X) against f(Y) in a fresh process
            ni, no = e.triple
            a = self.run(e, inp)
            swapped = dict(inp)
            for k in range(ni):
                swapped[e.ins[ni + k].name] = inp[e.ins[k].name]
            b = self.run(e, swapped)
            if a['outcome'] == 'ret' and b['outcome'] == 'ret':
                for k in range(no):
                    if a['outs'][e.outs[k].name] != b['outs'][e.outs[no + k].name]:
                        return 'the result depends on an earlier call: %s after the other call, %s in a fresh process (raw bits)' % (
                            a['outs'][e.outs[k].name][:8], b['outs'][e.outs[no + k].name][:8])
        if event == 'gstore':
            src = '%s/%s_tsan.cpp' % (self.work, e.name)
            out = src[:-4]
            vals = hexbytes(e, inp)
            body = '#include <thread>\n#include <cstring>\nstatic const char* H = "%s";\n' % vals
            body += 'static void rdh(void* p, std::size_t n, std::size_t off) { for (std::size_t k = 0; k < n; k++) { auto c = [](char x){ return x <= 57 ? x - 48 : x - 87; }; ((unsigned char*)p)[k] = c(H[2*(off+k)]) * 16 + c(H[2*(off+k)+1]); } }\n'
            body += 'static void w() {\n'
            off = 0
            for b in e.ins:
                body += '  %s %s; rdh(&%s, sizeof %s, %d);\n' % (b.cxx(), b.name, b.name, b.name, off)
                off += b.count * b.bytes
            for b in e.outs:
                body += '  %s %s;\n' % (b.cxx(), b.name)
            body += '  for (int k = 0; k < 200; k++) { try { %s(%s); } catch (...) {} }\n}\n' % (e.name, ', '.join(b.name for b in e.ins + e.outs))
            body += 'int main() { std::thread a(w), b(w); a.join(); b.join(); }\n'
            with open(src, 'w') as f:
                f.write(PRELUDE + e.cxx() + body)
            p = subprocess.run([GXX] + STD + ['-O0', '-g', '-fsanitize=thread', '-pthread'] + INC + [src, '-o', out], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode:
                return None
            for _ in range(3):
                try:
                    p = subprocess.run(['setarch', '-R', out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
                    if b'data race' not in p.stderr:
                        p = subprocess.run([out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
                except (subprocess.TimeoutExpired, OSError):
                    continue
                if b'data race' in p.stderr:
                    return 'data race between two concurrent calls (ThreadSanitizer)'
            return None
        return None


def compile_ll(src, out):
    return subprocess.run([CLANG] + STD + ['-O0', '-S', '-emit-llvm', '-ffp-contract=off', '-D_GLIBCXX_ASSERTIONS', '-Wno-everything'] + INC + [src, '-o', out],
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def _compile_unit(a):
    work, tag, entries, native = a
    src = '%s/%s.cpp' % (work, tag)
    with open(src, 'w') as f:
        f.write(PRELUDE + ''.join(e.cxx() for e in entries))
    if not native:
        p = compile_ll(src, '%s/%s.ll' % (work, tag))
        return p.returncode, p.stderr.decode(errors='replace')
    with open(src[:-4] + '_main.cpp', 'w') as f:
        f.write(PRELUDE + ''.join(e.cxx() for e in entries) + main_code(entries))
    p = subprocess.run([GXX] + STD + ['-O0', '-w'] + INC + [src[:-4] + '_main.cpp', '-o', '%s/%s.bin' % (work, tag)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return p.returncode, p.stderr.decode(errors='replace')


class Cfg:
    pass


def compile_all(work, entries, jobs):
    """-> (unit of each entry: tag), failed entries [(entry, diag)]"""
    chunks = []
    k = max(1, (len(entries) + jobs // 2 - 1) // max(1, jobs // 2))
    for i in range(0, len(entries), k):
        chunks.append(entries[i:i + k])
    tasks = []
    for i, ch in enumerate(chunks):
        tasks.append((work, 'u%d' % i, ch, False))
        tasks.append((work, 'u%d' % i, ch, True))
    unit = {}
    failed = []
    with ThreadPool(min(jobs, len(tasks))) as pool:
        rs = pool.map(_compile_unit, tasks, chunksize=1)
        redo = []
        for i, ch in enumerate(chunks):
            if rs[2 * i][0] == 0 and rs[2 * i + 1][0] == 0:
                for e in ch:
                    unit[e.name] = 'u%d' % i
            else:
                redo += ch
        if redo:
            t2 = []
            for e in redo:
                t2.append((work, 's_' + e.name, [e], False))
                t2.append((work, 's_' + e.name, [e], True))
            rs = pool.map(_compile_unit, t2, chunksize=1)
            for i, e in enumerate(redo):
                if rs[2 * i][0] == 0 and rs[2 * i + 1][0] == 0:
                    unit[e.name] = 's_' + e.name
                else:
                    failed.append((e, rs[2 * i][0], rs[2 * i + 1][0], rs[2 * i + 1][1] or rs[2 * i][1]))
    return unit, failed


def worker(e, ll, binary, work, seed, budget, conn, raw):
    try:
        os.setpgrp()
        from engine import discharge as D
        rp = Replay(work, binary, [e])
        r = D.Runner(e, ll, rp, seed, time.time() + budget, raw).run()
        d = dict(r.__dict__)
        d['functions'] = sorted(d['functions'])
        conn.send(d)
    except BaseException as x:
        import traceback
        conn.send({'name': e.name, 'crash': '%s: %s' % (type(x).__name__, str(x)[:200]), 'tb': traceback.format_exc()[-1500:]})
    conn.close()


def run_entries(entries, unit, work, seed, jobs, hard_deadline, scale, raw, is_new):
    ctx = mp.get_context('fork')
    todo = sorted(entries, key=lambda e: -e.weight)
    running = []
    results = {}
    stop = None
    while todo or running:
        if stop and time.time() > stop:
            for e, p, rx, dl in running:
                p.kill()
                results[e.name] = {'name': e.name, 'crash': 'stopped: a violation was found elsewhere'}
            for e in todo:
                results[e.name] = {'name': e.name, 'crash': 'not started: a violation was found elsewhere'}
            break
        while todo and len(running) < jobs:
            e = todo.pop(0)
            b = min(e.budget * scale, max(5, hard_deadline - time.time()))
            if time.time() > hard_deadline:
                results[e.name] = {'name': e.name, 'crash': 'not started: time budget of the run used up'}
                continue
            rx, tx = ctx.Pipe(False)
            u = unit[e.name]
            p = ctx.Process(target=worker, args=(e, '%s/%s.ll' % (work, u), '%s/%s.bin' % (work, u), work, seed, b, tx, raw))
            p.start()
            tx.close()
            running.append((e, p, rx, time.time() + b * 1.3 + 25))
        mp.connection.wait([r[2] for r in running], timeout=0.5)
        for it in list(running):
            e, p, rx, dl = it
            if rx.poll():
                try:
                    results[e.name] = rx.recv()
                    if not stop and any(is_new(e, v) for v in results[e.name].get('violations', ())):
                        stop = time.time() + 20
                except EOFError:
                    results[e.name] = {'name': e.name, 'crash': 'worker died'}
                p.join(2)
                if p.is_alive():
                    p.kill()
                running.remove(it)
            elif not p.is_alive() and not rx.poll(0.2):
                results[e.name] = {'name': e.name, 'crash': 'worker died'}
                running.remove(it)
            elif time.time() > dl:
                p.kill()
                results[e.name] = {'name': e.name, 'crash': 'time limit'}
                running.remove(it)
    return results


def known_findings(pid):
    try:
        return [k for k in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings'] if k['property'] == pid and k['status'] == 'known']
    except OSError:
        return []


def known_hit(kf, e, v):
    for k in kf:
        if k.get('entry') == e.name and k.get('inputs') in (None, json.loads(json.dumps(v['inputs'], default=str))) and \
                (not k.get('observed') or k['observed'] in v['observed']):
            return k
    return None


def demangle(names):
    if not names:
        return []
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE)
        import re
        cnt = {}
        for l in p.stdout.decode().split('\n'):
            m = re.search(r'mlib::((?:operator[^\w\s(<]+)|[A-Za-z_]\w*)', l)
            if not m:
                continue
            k = 'mlib::' + m.group(1)
            cnt[k] = cnt.get(k, 0) + 1
        return ['%s (%d instantiations)' % (k, n) for k, n in sorted(cnt.items())]
    except OSError:
        return names


def replay_file(pid, e, v, diag=None):
    d = os.path.join(EVDIR, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s_%s.cpp' % (pid, e.name))
    s = '// replay of a violation of %s\n' % pid
    if diag is not None:
        s += '// this use of the public API does not compile:\n// ' + '\n// '.join(diag[:1500].split('\n')) + '\n' + PRELUDE + e.cxx() + 'int main() {}\n'
    else:
        s += '// symbolic: %s\n// observed: %s\n// inputs: %s\n' % (v['symbolic'], v['observed'], json.dumps(v['inputs'], default=str)[:4000])
        s += '// build: g++ %s -I %s/matrix %s -o replay && ./replay   (prints the outputs of the real code)\n' % (STD[0], REPO, os.path.basename(path))
        s += PRELUDE + e.cxx() + '#include <cstdio>\n#include <cstring>\n#include <cxxabi.h>\nint main()\n{\n'
        for b in e.ins:
            raw = b''.join(int(x).to_bytes(b.bytes, 'little') for x in v['bits'][b.name])
            s += '  static const unsigned char b_%s[] = {%s};\n  static %s %s; std::memcpy((void*)&%s, b_%s, sizeof b_%s);\n' % (
                b.name, ','.join(map(str, raw)), b.cxx(), b.name, b.name, b.name, b.name)
        for b in e.outs:
            s += '  static %s %s;\n' % (b.cxx(), b.name)
        s += '  try { %s(%s); }\n  catch (...) { std::printf("exception %%s\\n", abi::__cxa_current_exception_type()->name()); return 1; }\n' % (
            e.name, ', '.join(b.name for b in e.ins + e.outs))
        for b in e.outs:
            s += '  { const %s* p = (const %s*)&%s; std::printf("%s ="); for (unsigned k = 0; k < %d; k++) std::printf(" %%.9g", (double)p[k]); std::printf("\\n"); }\n' % (
                b.ty, b.ty, b.name, b.name, b.count)
        s += '}\n'
    with open(path, 'w') as f:
        f.write(s)
    return path


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    jobs = min(8, os.cpu_count() or 4)
    prop = importlib.import_module('props.' + pid.lower().replace('-', '_'))
    entries = [e for e in prop.entries(tier) if only is None or e.name.startswith(only)]
    names = [e.name for e in entries]
    assert len(names) == len(set(names)), 'duplicate entry names'
    total = float(os.environ.get('VERIF_BUDGET', '420' if tier == 'quick' else '7200'))
    base = os.path.join(ROOT, '.work')
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + '_', dir=base)
    try:
        rc = decide(pid, tier, prop, entries, seed, t0, jobs, total, work, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(pid, tier, prop, entries, seed, t0, jobs, total, work, only):
    kf = known_findings(pid)
    unit, failed = compile_all(work, entries, jobs)
    if failed:
        # the project's tests are built as C++14: a header that needs it is fine
        STD[0] = '-std=gnu++14'
        unit, failed = compile_all(work, entries, jobs)
    t_comp = time.time() - t0
    ok = [e for e in entries if e.name in unit]
    results = run_entries(ok, unit, work, seed, jobs, t0 + total, 1.0 if tier == 'quick' else 6.0, 3.0 if tier == 'quick' else 30.0,
                          lambda e, v: known_hit(kf, e, v) is None)
    by = {e.name: e for e in entries}
    viol = []
    und = []
    printed = []
    for e, rc1, rc2, diag in failed:
        if len(failed) == len(entries) and len(entries) > 1:
            und.append('%s: does not compile: %s' % (e.name, diag[:1500] if os.environ.get('VERIF_DEBUG') else ''))
            continue
        if rc2 == 0:
            und.append('%s: clang does not compile the harness' % e.name)
            continue
        if any(b.shape and b.ty not in ('float', 'double', 'int') for b in e.ins + e.outs):
            # e.g. an ambiguous call for a narrow or unsigned element type: no wrong result to show
            und.append('%s: does not compile' % e.name)
            continue
        line = next((l for l in diag.splitlines() if 'error' in l), diag[:200])
        viol.append((e, {'symbolic': 'compile', 'observed': 'this use of the API does not compile: ' + line.strip()[:240], 'inputs': {}}, diag))
    agg = dict(paths={}, instr=0, feas_queries=0, feas_time=0.0, obligations=0, discharged=0, by_nf=0, queries=0, solver_time=0.0,
               raw_confirmed=0, raw_tried=0, witness_ok=0, exact_paths=0, reached=0)
    funcs = set()
    samples = []
    wbad = []
    slow = []
    notes = set()
    for n in sorted(results):
        r = results[n]
        if 'crash' in r:
            und.append('%s: %s' % (n, r['crash']))
            if os.environ.get('VERIF_DEBUG'):
                print(r.get('tb', ''))
            continue
        for k in agg:
            if k == 'paths':
                for o, c in r['paths'].items():
                    agg['paths'][o] = agg['paths'].get(o, 0) + c
            else:
                agg[k] += r[k]
        funcs |= set(r['functions'])
        wbad += r['witness_bad']
        und += ['%s: %s' % (n, u) for u in sorted(set(r['undecided']))]
        notes |= {'%s: %s' % (n, x) for x in r['notes']}
        if r['sample'] and len(samples) < 6:
            samples.append(r['sample'])
        slow.append((round(r['wall'], 2), n))
        for v in r['violations']:
            viol.append((by[n], v, None))
    slow.sort(reverse=True)
    new = []
    for e, v, diag in viol:
        hit = known_hit(kf, e, v)
        if hit:
            line = 'KNOWN-FINDING: property=%s %s' % (pid, hit['what'])
            if line not in printed:
                printed.append(line)
                print(line)
            continue
        new.append((e, v, diag))
    decided = agg['discharged']
    for k, (e, v, diag) in enumerate(new):
        if k >= 5:
            print('  ... and %d more violating entries' % (len(new) - 5))
            break
        path = replay_file(pid, e, v, diag)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  entry %s: %s | %s | inputs %s' % (e.name, v['symbolic'], v['observed'][:300], json.dumps(v['inputs'], default=str)[:300]))
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': sum(agg['paths'].values()),
            'transitions': agg['instr'],
            'traces_validated_against_impl': agg['witness_ok'],
            'samples': samples or [{'entry': n} for _, n in slow[:3]],
            'explanation': 'states = execution paths of the harnesses decided symbolically, each for every input value on the path; transitions = IR '
                           'instructions executed symbolically; traces_validated_against_impl = path witnesses run natively whose outcome and outputs matched.',
            'harness_entries': len(entries), 'paths_by_outcome': agg['paths'], 'paths_fully_discharged': agg['reached'],
            'obligations': agg['obligations'], 'discharged': agg['discharged'],
            'obligations_closed_by_normal_form_then_solver_trivial': agg['by_nf'],
            'solver_goal_queries': agg['queries'], 'solver_goal_seconds': round(agg['solver_time'], 3),
            'solver_feasibility_queries': agg['feas_queries'], 'solver_feasibility_seconds': round(agg['feas_time'], 3),
            'z3_confirmed_unnormalised_goals': agg['raw_confirmed'], 'z3_unnormalised_goals_tried': agg['raw_tried'],
            'paths_where_exact_arithmetic_equals_ieee': agg['exact_paths'],
            'functions_encoded': demangle(sorted(funcs)),
            'bounds': [prop.BOUNDS] if isinstance(prop.BOUNDS, str) else prop.BOUNDS,
            'entries': sorted(by), 'undecided': und, 'witness_mismatches': wbad, 'notes': sorted(notes)[:40],
            'known_findings_seen': printed, 'slowest_entries': slow[:12], 'compile_seconds': round(t_comp, 2),
        },
        'assumptions': COMMON_ASSUMPTIONS + list(getattr(prop, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    if only is None:
        os.makedirs(EVDIR, exist_ok=True)
        with open(os.path.join(EVDIR, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s %s: entries=%d paths=%s obligations=%d discharged=%d queries=%d+%d solver=%.1fs witnesses=%d undecided=%d violations=%d wall=%.1fs' % (
        pid, tier, len(entries), agg['paths'], agg['obligations'], agg['discharged'], agg['queries'], agg['feas_queries'],
        agg['solver_time'] + agg['feas_time'], agg['witness_ok'], len(und), len(new), wall))
    for u in und[:20]:
        print('  undecided: ' + u[:300 if not os.environ.get('VERIF_DEBUG') else 3000])
    for u in wbad[:10]:
        print('  witness mismatch: ' + u[:300])
    if os.environ.get('VERIF_DEBUG'):
        print('  slow:', slow[:8])
    if new:
        return 1
    if decided == 0:
        print('nothing could be decided')
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "bounded: only the element types, shapes and value families listed under coverage.bounds; nothing is claimed beyond them",
    "encoding: clang -O0 LLVM IR of /repo's current headers (with _GLIBCXX_ASSERTIONS), interpreted by engine/symex.py; libstdc++ red-black tree "
    "primitives, operator new/delete, ostream insertion and the exception ABI are modelled",
    "entries in 'real' mode use exact real arithmetic for float/double (rounding and overflow are outside the claim, except on paths counted as exact)",
    "signed integer overflow is undefined behaviour in C++: signed-integer results are claimed where no overflow occurs",
]

if __name__ == '__main__':
    main()
