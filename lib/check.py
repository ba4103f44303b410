#!/usr/bin/env python3
"""check.py ID [quick|thorough]      decides one property
   check.py --replay FILE            shows a reported violation again"""
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
from config import RUNS  # noqa: E402

REPO = os.environ.get('GAIA_REPO', '/repo')
SRC = REPO + '/src'
H = V + '/harness'
B = V + '/build'
LLVM = '/usr/lib/llvm-18/bin/'
JOBS = os.cpu_count() or 4
CLANG = [LLVM + 'clang', '-emit-llvm', '-c', '-O1', '-g', '-std=gnu11', '-w', '-fno-builtin', '-fno-vectorize',
         '-fno-slp-vectorize', '-fno-inline', '-fno-pic', '-DGX_SYMBOLIC', '-I' + H, '-I' + SRC, '-include', H + '/shim.h']
NATIVE = ['-g', '-std=gnu11', '-w', '-fno-builtin', '-I' + H, '-I' + SRC, '-include', H + '/shim.h']
UBFLAGS = ['-fsanitize=undefined', '-fno-sanitize=function', '-fsanitize-trap=undefined']


class Broken(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise Broken('%s\n%s' % (' '.join(cmd), p.stdout.decode('latin1')[-3000:]))
    return p.stdout


def par(cmds):
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(sh, cmds))


class Builder:
    """Everything is compiled from the working tree, once per check."""

    def __init__(self, work):
        self.w = work
        self.done = set()
        self.repo = sorted(glob.glob(SRC + '/*.c'))
        if not self.repo:
            raise Broken('no sources in ' + SRC)

    def base(self, kind):
        """object files of the repository and of the models"""
        d = self.w + '/' + kind
        if kind in self.done:
            return d
        os.makedirs(d)
        cmds = []
        for f in self.repo + [H + '/libc.c', H + '/ref.c']:
            own = f.startswith(H)
            o = d + '/' + ('v_' if own else 'r_') + os.path.basename(f)[:-2] + '.o'
            m = [] if own else ['-Dmain=gaia_main']
            if kind == 'bc':
                c = CLANG + m
            elif kind == 'bcub':
                c = CLANG + m + ([] if own else UBFLAGS)
            elif kind == 'asan':
                c = ['gcc', '-c', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'] + NATIVE + m
            elif kind == 'plain':
                c = ['gcc', '-c', '-O2'] + NATIVE + m
            cmds.append(c + [f, '-o', o])
        if kind in ('asan', 'plain'):
            x = ['-fsanitize=address,undefined'] if kind == 'asan' else []
            cmds.append(['gcc', '-c', '-O1'] + x + NATIVE + [H + '/sx_native.c', '-o', d + '/v_sx.o'])
        par(cmds)
        self.done.add(kind)
        return d

    def bitcode(self, run):
        d = self.base('bcub' if run.get('ub') else 'bc')
        o = '%s/%s.bc' % (self.w, run['name'])
        sh(CLANG + run['d'] + ['%s/h/%s.c' % (H, run['h']), '-o', o + '.h'])
        sh(['llvm-link-18', o + '.h'] + glob.glob(d + '/*.o') + ['-o', o])
        return o

    def native(self, run, kind):
        o = '%s/%s.%s' % (self.w, run['name'], kind)
        if os.path.exists(o):
            return o
        d = self.base(kind)
        x = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all'] if kind == 'asan' else []
        sh(['gcc', '-O1'] + x + NATIVE + run['d'] + ['%s/h/%s.c' % (H, run['h'])] + glob.glob(d + '/*.o') + ['-lm', '-o', o])
        return o

    def gaia(self):
        """the program itself, as its Makefile builds it"""
        o = self.w + '/gaia'
        if not os.path.exists(o):
            sh(['gcc', '-Wall', '-O3', '-g', '-std=c11', '-w', '-I' + SRC] + self.repo + ['-lm', '-o', o])
        return o


def native_run(prog, wit, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=96', UBSAN_OPTIONS='print_stacktrace=1')
    cmd = prog if isinstance(prog, list) else [prog]
    try:
        p = subprocess.run(cmd + ['--one', wit or '-'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout)
        return p.returncode, p.stdout.decode('latin1')
    except subprocess.TimeoutExpired:
        return -14, 'does not end'


def confirm(b, pid, run, v):
    """Does the real code show the violation? -> (how, output) or None"""
    wit = v['witness']
    if run.get('unit'):  # of a part of the program: confirmed with the same input to the whole program
        run = dict(run, name=run['name'] + '-via', d=run['d'] + ['-DVIA'])
    if v['kind'] == 'assert' or pid != 'G13':
        rc, out = native_run(b.native(run, 'plain'), wit)
        if rc == 99 or rc < 0:
            return 'native run, status %d' % rc, out
        if pid != 'G13' and v['kind'] != 'assert':
            return None
    rc, out = native_run(b.native(run, 'asan'), wit)
    if rc not in (0, 77):
        return 'native run with AddressSanitizer and UBSan, status %d' % rc, out
    if pid == 'G13':
        rc, out = native_run(['valgrind', '-q', '--error-exitcode=95', '--track-origins=yes', b.native(run, 'plain')], wit, 120)
        if rc not in (0, 77):
            return 'native run under valgrind, status %d' % rc, out
    return None


def dump(b, run, lines, d):
    """replays witnesses natively; (replayed, mismatched, text)"""
    os.makedirs(d, exist_ok=True)
    f = d + '/batch'
    with open(f, 'w') as o:
        o.writelines(lines)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=96')
    p = subprocess.run([b.native(run, 'asan'), '--batch', f, '--dump', d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    out = p.stdout.decode('latin1')
    m = re.search(r'REPLAYED (\d+) MISMATCHED (\d+)', out)
    if not m:
        raise Broken('the native replay of %s failed: %s' % (run['name'], out[-2000:]))
    return int(m.group(1)), int(m.group(2)), out


def real(b, d, n):
    """runs the real program on the n materialised sources; -> (compared, [differences])"""
    g = b.gaia()

    def one(i):
        if not os.path.exists('%s/%d.status' % (d, i)):
            return None
        w = '%s/w%d' % (d, i)
        os.makedirs(w)
        shutil.copy('%s/%d.asm' % (d, i), w + '/in.asm')
        try:
            p = subprocess.run([g, 'in.asm'], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=20)
            st, txt = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            st, txt = 'timeout', b''
        img = open(w + '/a.out', 'rb').read() if os.path.exists(w + '/a.out') else b''
        shutil.rmtree(w)
        want = int(open('%s/%d.status' % (d, i)).read())
        if st != want:
            return 'status %s, modelled %s' % (st, want)
        if txt != open('%s/%d.txt' % (d, i), 'rb').read():
            return 'other text'
        if want == 0 and img != open('%s/%d.img' % (d, i), 'rb').read():
            return 'another image'
        return ''
    with ThreadPoolExecutor(JOBS) as ex:
        r = list(ex.map(one, range(n)))
    return sum(x is not None for x in r), ['source %s/%d.asm: %s' % (d, i, x) for i, x in enumerate(r) if x]


def known(pid):
    out = []
    f = V + '/known_findings.json'
    if os.path.exists(f):
        for k in json.load(open(f))['findings']:
            if k['property'] == pid:
                out.append(k)
    return out


def is_known(listed, run, v):
    return [k for k in listed if k['run'] == run['name'] and k['msg'] == v['msg'] and k.get('witness') in (None, v['witness'])]


def printable(b):
    return ''.join(chr(c) if 32 <= c < 127 and c != 92 else {10: '\\n\n', 9: '\\t', 13: '\\r', 92: '\\\\'}.get(c, '\\x%02x' % c) for c in b)


def decide(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rnd = random.Random(seed)
    budget = 780 if tier == 'quick' else 4 * 3600
    subprocess.run([V + '/lib/setup.sh'], check=True)
    work = '%s/work/%s-%s-%d' % (B, pid, tier, os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], functions_encoded={}, runs=[], queries=dict(
        z3=0, z3_sat=0, z3_unsat=0, z3_unknown=0, z3_seconds=0.0, finite_domain=0, cached=0, audits=0, audit_seconds=0.0), assertions={}, not_covered=[],
        replayed_natively=0, notes=[])
    viols, broken, notes = [], [], cov['notes']
    listed = known(pid)
    try:
        b = Builder(work)
        runs = [r for r in RUNS[pid] if r['tier'] in ('both', tier)]
        if os.environ.get('ONLY'):
            runs = [r for r in runs if r['name'] in os.environ['ONLY'].split(',')]
        for k, run in enumerate(runs):
            left = budget - (time.time() - t0)
            share = max(20, left * 0.6 if k + 1 < len(runs) else left - 40)
            if left < 30:
                notes.append('%s was not run: the time is used up' % run['name'])
                continue
            try:
                bc = b.bitcode(run)
            except Broken as e:
                b.base('bc')
                if not run.get('unit'):
                    raise
                notes.append('%s was not run: the interface of the unit has changed: %s' % (run['name'], str(e)[-300:]))
                continue
            js, wf = work + '/out.json', work + '/wit'
            args = [B + '/gsx', bc, '--jobs', str(JOBS), '--timeout', '%d' % min(share, run.get('timeout', 1e9)), '--max-steps',
                    str(run.get('steps', 25000000)), '--repo', SRC, '--out', js, '--witnesses', wf, '--max-wit', '2000']
            p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode not in (0, 1, 4):
                raise Broken('the executor failed on %s: %s' % (run['name'], p.stdout.decode('latin1')[-2000:]))
            j = json.load(open(js))
            cov['states'] += j['paths']
            cov['transitions'] += j['branches']
            q = cov['queries']
            for a, c in (('z3', 'z3_queries'), ('z3_sat', 'z3_sat'), ('z3_unsat', 'z3_unsat'), ('z3_unknown', 'z3_unknown'),
                         ('z3_seconds', 'z3_seconds'), ('finite_domain', 'domain_queries'), ('cached', 'query_cache_hits'),
                         ('audits', 'audits'), ('audit_seconds', 'audit_seconds')):
                q[a] = round(q[a] + j[c], 3)
            for f, (hit, tot) in j['functions'].items():
                o = cov['functions_encoded'].get(f, [0, tot])
                cov['functions_encoded'][f] = [max(o[0], hit), tot]
            for m, n in j['assertions'].items():
                cov['assertions'][m] = cov['assertions'].get(m, 0) + n
            rec = dict(name=run['name'], harness='harness/h/%s.c' % run['h'], defines=run['d'], bounds=run['what'], status=j['status'],
                       paths=j['paths'], completed=j['completed'], assumed_out=j['assumed_out'], forks=j['forks'], branches=j['branches'],
                       assertions_checked=j['assertions_checked'],
                       z3_queries=j['z3_queries'], z3_seconds=j['z3_seconds'], instructions=j['instructions'], wall_s=j['wall_s'])
            if j.get('why'):
                rec['why'] = j['why']
                notes.append('%s is incomplete: %s' % (run['name'], j['why']))
            cov['runs'].append(rec)
            # counterexamples, shown against the real code before they are reported
            unconfirmed = 0
            for v in j['violations']:
                if len(viols) >= 6:
                    break
                if v['msg'].startswith(('model:', 'reference:')):
                    unconfirmed += 1
                    notes.append('%s: paths were given up: %s at %s, witness %s' % (run['name'], v['msg'], v['where'], v['witness']))
                    continue
                c = confirm(b, pid, run, v)
                if c:
                    viols.append((run, v, c))
                else:
                    unconfirmed += 1
                    notes.append('%s: not reproduced by the real code, and so not reported: %s %s at %s, witness %s' %
                                 (run['name'], v['kind'], v['msg'], v['where'], v['witness']))
            rec['violations'], rec['unconfirmed'] = len(j['violations']), unconfirmed
            # vacuity
            miss = [c for c in j['uncovered'] if c not in run.get('may', ())]
            if miss and j['status'] == 'holds':
                broken.append('%s never reaches: %s' % (run['name'], ', '.join(miss)))
            cov['not_covered'] += ['%s: %s' % (run['name'], c) for c in miss]
            if j['completed'] == 0 and not j['violations']:
                broken.append('%s explored nothing: %s' % (run['name'], j.get('why')))
            # the paths of the executor against the natively compiled code and the real program
            lines = open(wf).readlines()
            if lines and not viols:
                nat = rnd.sample(lines, min(len(lines), run.get('natives', 300)))
                nat.sort(key=lambda x: lines.index(x) if len(lines) < 3000 else 0)
                d = '%s/d%d' % (work, k)
                n, bad, out = dump(b, run, nat, d)
                rec['replayed_natively'] = n
                cov['replayed_natively'] += n
                if bad:
                    broken.append('%s: %d of %d paths differ from the natively compiled code: %s' % (run['name'], bad, n, out[-1500:]))
                if run.get('real', True):
                    m, diffs = real(b, d, min(n, 150))
                    rec['compared_with_gaia'] = m
                    cov['traces_validated_against_impl'] += m
                    if diffs:
                        broken.append('%s: the real program differs from the model: %s' % (run['name'], '; '.join(diffs[:3])))
                else:
                    cov['traces_validated_against_impl'] += n - bad
                asm = '%s/0.asm' % d
                if os.path.exists(asm) and len(cov['samples']) < 12:
                    cov['samples'].append(dict(run=run['name'], witness=nat[0].split(' ')[0].strip(),
                                               source=printable(open(asm, 'rb').read())[:400],
                                               output=printable(open(d + '/0.txt', 'rb').read())[:400]))
                elif len(cov['samples']) < 12:
                    cov['samples'].append(dict(run=run['name'], witness=nat[0].split(' ')[0].strip()))
                shutil.rmtree(d, ignore_errors=True)
            os.unlink(bc)
            # one run with a violation that is not listed decides; on the unchanged tree every run is made
            if len(viols) >= 6 or any(not is_known(listed, r, v) for r, v, _ in viols):
                break
        # reports
        nv = 0
        shutil.rmtree('%s/replay/%s' % (B, pid), ignore_errors=True)
        hits = set()
        for run, v, (how, out) in viols:
            hit = is_known(listed, run, v)
            if hit:
                hits.add(json.dumps(hit[0]))
                continue
            nv += 1
            os.makedirs('%s/replay/%s' % (B, pid), exist_ok=True)
            path = '%s/replay/%s/%d.json' % (B, pid, nv)
            d = work + '/r%d' % nv
            source = ''
            try:
                os.makedirs(d)
                with open(d + '/b', 'w') as f:
                    f.write((v['witness'] or '-') + '\n')
                subprocess.run([b.native(run, 'plain'), '--batch', d + '/b', '--dump', d], stdout=subprocess.DEVNULL, timeout=60)
                source = printable(open(d + '/0.asm', 'rb').read()) if os.path.exists(d + '/0.asm') else ''
            except Exception:
                pass
            json.dump(dict(property=pid, run=run, kind=v['kind'], message=v['msg'], where=v['where'], witness=v['witness'],
                           confirmed=how, output=out[-3000:], source=source,
                           again='python3 %s/lib/check.py --replay %s' % (V, path)), open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s: %s (%s)' % (run['name'], v['msg'], how))
            if source:
                print('  source: ' + source.replace('\n', '\n          ')[:600])
        for h in hits:
            h = json.loads(h)
            print('KNOWN-FINDING: property=%s %s' % (pid, h['what']))
    except Broken as e:
        broken.append(str(e))
        nv = len(viols)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    level = 'model_checking'
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), violations=nv, assumptions=[
        'the models of libc in harness/libc.c (files, memory, printf, argp) behave as the real ones; sampled paths are compared with the real program on every run',
        'clang -O1 translates the sources faithfully; sampled paths are replayed on code compiled by gcc',
        'z3 and the finite-domain and interval reasoning of engine/gsx are correct'])
    cov['exhaustive'] = not notes and not broken
    cov['explanation'] = ('states: feasible paths of the real code explored symbolically; transitions: conditional branches executed on them; '
                          'every assertion was decided for all values of the symbolic inputs within the bounds of each run')
    if broken:
        cov['errors'] = broken
    os.makedirs(V + '/evidence', exist_ok=True)
    tmp = '%s/evidence/.%s.%d' % (V, pid, os.getpid())
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, '%s/evidence/%s.json' % (V, pid))
    for n in notes:
        print('note: ' + n)
    print('%s %s: %d paths, %d branches, %d z3 queries (%.1f s), %d paths replayed, %d compared with gaia, %.1f s' % (
        pid, tier, cov['states'], cov['transitions'], cov['queries']['z3'], cov['queries']['z3_seconds'], cov['replayed_natively'],
        cov['traces_validated_against_impl'], ev['wall_s']))
    if nv:
        return 1
    if broken:
        for e in broken:
            print('error: ' + e)
        return 3
    return 0


def replay(path):
    j = json.load(open(path))
    work = '%s/work/replay-%d' % (B, os.getpid())
    os.makedirs(work)
    try:
        b = Builder(work)
        print('source:\n' + j['source'])
        for kind in ('plain', 'asan'):
            rc, out = native_run(b.native(j['run'], kind), j['witness'])
            print('%s: status %d\n%s' % (kind, rc, out[-3000:]))
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        replay(sys.argv[2])
    else:
        sys.exit(decide(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
