#!/usr/bin/env python3
"""Runs the contract checks of one property against /repo's current working tree.

usage: run.py <property> [--tier quick|thorough] [--entry NAME] [-v]
       run.py --setup            build the engine and warm the bitcode cache
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CACHE = os.path.join(BUILD, 'cache')
CVE = os.path.join(BUILD, 'cve')
JOBS = 8
BUDGET = 840.0
T0 = time.time()

INC = []
for pat in ('middleware/*/include', 'middleware/*/unittest/include', 'thirdparty/*/include'):
    INC += ['-I' + p for p in sorted(glob.glob(os.path.join(REPO, pat)))]
IRFLAGS = ['-std=c++23', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-g1', '-fPIC', '-w',
           '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DVERIF_HARNESS']
CLANG = shutil.which('clang++-18') or 'clang++'
CLANGC = shutil.which('clang-18') or 'clang'
LINK = shutil.which('llvm-link-18') or 'llvm-link'


def sh(cmd, timeout=None, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf-8', 'replace')


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


_filehash = {}
def filehash(p):
    if p not in _filehash:
        try:
            with open(p, 'rb') as f:
                _filehash[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _filehash[p] = 'missing'
    return _filehash[p]


def build_engine():
    src = sorted(glob.glob(os.path.join(VERIF, 'engine', '*')) + glob.glob(os.path.join(VERIF, 'lib', 'rt*')))
    stamp = sha(*[filehash(s) for s in src])
    sf = os.path.join(BUILD, 'engine.stamp')
    if os.path.exists(sf) and open(sf).read() == stamp and os.path.exists(CVE):
        return
    os.makedirs(BUILD, exist_ok=True)
    rc, out = sh(['make', '-s', '-j8', '-C', os.path.join(VERIF, 'engine'), 'B=' + BUILD])
    if rc:
        print(out)
        raise SystemExit('engine build failed')
    base = ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-g1', '-fPIC', '-w', '-emit-llvm', '-c']
    for cmd in ([CLANGC] + base + ['-fno-builtin', os.path.join(VERIF, 'lib/rt_c.c'), '-o', os.path.join(BUILD, 'rt_c.bc')],
                [CLANG, '-std=c++23', '-D_GLIBCXX_EXTERN_TEMPLATE=0'] + base + [os.path.join(VERIF, 'lib/rt.cpp'), '-o', os.path.join(BUILD, 'rt_x.bc')],
                [LINK, os.path.join(BUILD, 'rt_c.bc'), os.path.join(BUILD, 'rt_x.bc'), '-o', os.path.join(BUILD, 'rt.bc')]):
        rc, out = sh(cmd)
        if rc:
            print(out)
            raise SystemExit('runtime build failed')
    with open(sf, 'w') as f:
        f.write(stamp)


def cached(key, deps_of, produce, ext):
    """content addressed compilation: key + contents of every file the compiler read"""
    os.makedirs(CACHE, exist_ok=True)
    meta = os.path.join(CACHE, key + '.dep')
    if os.path.exists(meta):
        try:
            deps = json.load(open(meta))
            full = sha(key, *[d + filehash(d) for d in deps])
            out = os.path.join(CACHE, full[:40] + ext)
            if os.path.exists(out):
                return out, ''
        except ValueError:
            pass
    tmp = tempfile.mkdtemp(dir=CACHE)
    try:
        o, d = os.path.join(tmp, 'o'), os.path.join(tmp, 'd')
        rc, log = produce(o, d)
        if rc:
            return None, log
        deps = []
        for line in open(d).read().replace('\\\n', ' ').split('\n'):
            if ':' in line:
                deps += line.split(':', 1)[1].split()
        deps = sorted(set(os.path.abspath(x) for x in deps if not x.startswith('/usr/')))
        full = sha(key, *[x + filehash(x) for x in deps])
        out = os.path.join(CACHE, full[:40] + ext)
        os.replace(o, out)
        tm = meta + '.%d' % os.getpid()
        with open(tm, 'w') as f:
            json.dump(deps, f)
        os.replace(tm, meta)
        return out, ''
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def compile_bc(path, extra=()):
    flags = IRFLAGS + list(extra) + INC + ['-I' + os.path.join(VERIF, 'lib'), '-I' + REPO, '-I' + os.path.join(VERIF, 'harness')]
    key = sha('bc2', CLANG, path, *flags)[:40]
    return cached(key, None, lambda o, d: sh([CLANG] + flags + ['-emit-llvm', '-c', path, '-o', o, '-MD', '-MF', d], timeout=400), '.bc')


class Harness:
    def __init__(self, path):
        self.path = path
        self.name = os.path.splitext(os.path.basename(path))[0]
        self.properties, self.tus, self.config, self.entries, self.assume, self.flags = [], [], [], [], [], []
        for line in open(path):
            m = re.match(r'\s*// @(\w+)\s+(.*)', line)
            if not m:
                continue
            k, v = m.group(1), m.group(2).strip()
            if k == 'property': self.properties += v.split()
            elif k == 'tu': self.tus += v.split()
            elif k == 'config': self.config.append(v)
            elif k == 'assume': self.assume.append(v)
            elif k == 'flags': self.flags += v.split()
            elif k == 'entry':
                head, _, text = v.partition(':')
                w = head.split()
                e = {'name': w[0], 'opts': dict(x.split('=', 1) if '=' in x else (x, '1') for x in w[1:]), 'text': text.strip()}
                self.entries.append(e)


def link(h):
    """compile and link the translation units of one harness; returns (bitcode or None, log)"""
    parts = [h.path] + [os.path.join(REPO, t) for t in h.tus]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda p: compile_bc(p, h.flags), parts))
    log = '\n'.join(l for _, l in res if l)
    if res[0][0] is None:
        return None, log, []
    missing = [p for p, r in zip(parts, res) if r[0] is None]
    bcs = [r[0] for r in res if r[0]]
    if len(bcs) == 1:
        return bcs[0], log, missing
    key = sha('link', *[b + filehash(b) for b in bcs])[:40]
    out = os.path.join(CACHE, key + '.lnk.bc')
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        rc, l = sh([LINK] + bcs + ['-o', tmp], timeout=300)
        if rc:
            return None, log + l, missing
        os.replace(tmp, out)
    return out, log, missing


def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for n, h in inputs:
            f.write('%s %s\n' % (n.replace(' ', '_') or '-', h or '-'))


def native_build(bc, entry, work):
    exe = os.path.join(work, entry + '.exe')
    rt = os.path.join(work, entry + '.vn.o')
    rc, log = sh([CLANG, '-std=c++20', '-O1', '-w', '-fsanitize=address', '-DENTRY=' + entry, '-c', os.path.join(VERIF, 'lib/v_native.cpp'), '-o', rt], timeout=200)
    if rc:
        return None, log
    rc, log = sh([CLANG, '-O1', '-w', '-g1', '-fsanitize=address', bc, rt, '-o', exe, '-Wl,--unresolved-symbols=ignore-all', '-luuid', '-ldl', '-lpthread'], timeout=400)
    if rc:   # libuuid may be absent: unresolved symbols are ignored anyway
        rc, log = sh([CLANG, '-O1', '-w', '-g1', '-fsanitize=address', bc, rt, '-o', exe, '-Wl,--unresolved-symbols=ignore-all'], timeout=400)
    return (exe, log) if rc == 0 else (None, log)


ASAN = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:handle_abort=1:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=4096:symbolize=1:detect_odr_violation=0')


def native_replay(exe, inp, work):
    rc, out = sh([exe, 'replay', inp], timeout=90, env=ASAN, cwd=work)
    if 'V-FAILED' in out: return 'failed', out
    if 'V-DIVERGED' in out: return 'diverged', out
    if 'V-EXTERNAL' in out or 'V-INCONCLUSIVE' in out: return 'inconclusive', out
    if 'V-OK' in out: return 'ok', out
    if 'AddressSanitizer' in out and 'allocation-size-too-big' not in out and 'out-of-memory' not in out:
        # a jump to an unlinked function is not a finding
        if re.search(r'SEGV on unknown address 0x0+ \(pc 0x0+', out): return 'inconclusive', out
        return 'failed', out
    if rc in (-6, -11, -8, 134, 139): return 'failed', out
    return 'inconclusive', out


TOKENS = None   # fifo with one byte for each idle processor: an engine that reads one shares its paths with a copy of itself


def give(n):
    if TOKENS and n > 0:
        fd = os.open(TOKENS, os.O_RDWR | os.O_NONBLOCK)
        os.write(fd, b'x' * n)
        # a fifo is empty when nobody has it open
        KEEP.append(fd)


KEEP = []


def merged(path):
    """the result of an engine and of the copies of it that explored a part of the paths"""
    data = json.load(open(path))
    base = re.sub(r'\.json\.\d+$', '.json', path)
    for p in data['parts']:
        try:
            part = merged('%s.%d' % (base, p))
        except (OSError, ValueError):
            data['incomplete']['a part of the paths was not explored to the end'] = 1
            if data['status'] != 'violated': data['status'] = 'incomplete'
            continue
        for k in ('paths', 'completed', 'killed', 'instructions', 'vcs', 'solver_vcs', 'failed', 'unknown'): data[k] += part[k]
        for k, v in part['solver'].items():
            data['solver'][k] = max(data['solver'][k], v) if k == 'max_seconds' else data['solver'][k] + v
        for n, o in part['obligations'].items():
            mine = data['obligations'].setdefault(n, {'kind': o['kind'], 'vcs': 0, 'solver': 0, 'failed': 0, 'unknown': 0})
            for k in ('vcs', 'solver', 'failed', 'unknown'): mine[k] += o[k]
        for k in ('covers', 'bounds', 'functions'): data[k] = sorted(set(data[k]) | set(part[k]))
        data['functions_executed'] = max(data['functions_executed'], part['functions_executed'])
        for k, v in part['incomplete'].items(): data['incomplete'][k] = data['incomplete'].get(k, 0) + v
        for k, v in part['stubs'].items(): data['stubs'][k] = sorted(set(data['stubs'].get(k, [])) | set(v))
        data['violations'] += part['violations']
        data['samples'] = (data['samples'] + part['samples'])[:6]
    data['status'] = 'violated' if data['violations'] else 'incomplete' if data['incomplete'] else 'proved' if data['completed'] else 'vacuous'
    return data


def run_entry(pid, h, bc, e, tier, work, seed, verbose=False):
    o = e['opts']
    name = e['name']
    r = {'entry': name, 'text': e['text'], 'bounded': 'bounded' in o, 'violations': [], 'notes': []}
    limit = float(o.get('time', 200)) * (3 if tier == 'thorough' else 1)
    limit = min(limit, max(30.0, BUDGET - (time.time() - T0) - 60))
    cfg = os.path.join(work, name + '.cfg')
    with open(cfg, 'w') as f:
        f.write('\n'.join(h.config) + '\n' + open(os.path.join(VERIF, 'lib', 'default.cfg')).read())
    res = os.path.join(work, name + '.json')
    nat = os.path.join(work, name + '.nat.bc')
    unroll = int(o.get('tunroll', o.get('unroll', 40)) if tier == 'thorough' else o.get('unroll', 40))
    cmd = [CVE, bc, '--rt', os.path.join(BUILD, 'rt.bc'), '--entry', name, '--config', cfg, '--native', nat, '--out', res,
           '--time', str(limit), '--unroll', str(unroll), '--timeout', str(int(o.get('solver', 20000)))]
    if 'insts' in o: cmd += ['--insts', o['insts']]
    if 'overflow' in o: cmd += ['--overflow']
    if verbose: cmd.append('-v')
    if TOKENS and 'alone' not in o: cmd += ['--tokens', TOKENS]
    rc, log = sh(cmd, timeout=limit + 60)
    if verbose: print(log)
    data = None
    try:
        data = merged(res)
    except (OSError, ValueError):
        r['notes'].append('engine gave no result: rc=%s %s' % (rc, log[-400:]))
    r['data'] = data
    status = data['status'] if data else 'incomplete'
    exe = None
    def exe_():
        nonlocal exe
        if exe is None and os.path.exists(nat):
            exe, l = native_build(nat, name, work)
            if exe is None:
                r['notes'].append('native build failed: ' + l[-300:])
                exe = ''
        return exe or None
    # expected covers and asserts were reached?
    if data and status == 'proved':
        want = [c for c in o.get('covers', '').split(',') if c]
        miss = [c for c in want if c not in data['covers']]
        if miss:
            status = 'vacuous'
            r['notes'].append('not covered: ' + ','.join(miss))
        if not any(v['kind'] == 'property' for v in data['obligations'].values()) and 'safety' not in o:
            status = 'vacuous'
            r['notes'].append('no property obligation was generated')
    if status == 'violated':
        x = exe_()
        for i, v in enumerate(data['violations']):
            rep = {'name': v['name'], 'where': v['where'], 'confirmed': False, 'stack': v['stack'], 'detail': v['detail'], 'out': ''}
            for kind in ('inputs', 'inputs_alt'):
                inp = os.path.join(work, '%s.%d.%s' % (name, i, kind))
                write_inputs(inp, v[kind])
                if not x: break
                st, out = native_replay(x, inp, work)
                rep['out'] = out[-3000:]
                rep['replay_status'] = st
                rep['inputs'] = v[kind]
                if st == 'failed':
                    rep['confirmed'] = True
                    break
            rep.setdefault('inputs', v['inputs'])
            r['violations'].append(rep)
            if rep['confirmed']:
                break
    # conformance: engine paths replayed on the native build
    conf = {'replayed': 0, 'agree': 0}
    if data and status in ('proved', 'incomplete') and data['samples']:
        x = exe_()
        if x:
            for i, smp in enumerate(data['samples']):
                inp = os.path.join(work, '%s.s%d' % (name, i))
                write_inputs(inp, smp['inputs'])
                st, out = native_replay(x, inp, work)
                if st == 'inconclusive': continue
                conf['replayed'] += 1
                m = re.search(r'V-TRACE(.*)', out)
                tr = m.group(1).split() if m else None
                if st == 'ok' and tr == smp['trace']: conf['agree'] += 1
                else:
                    conf.setdefault('mismatch', []).append({'status': st, 'native': tr, 'engine': smp['trace'], 'inputs': smp['inputs'][:20], 'out': out[-800:]})
    r['conformance'] = conf
    if conf.get('mismatch'):
        bad = [m for m in conf['mismatch'] if m['status'] == 'failed']
        r['notes'].append('engine and native run disagree on %d sample(s)' % len(conf['mismatch']))
        if status == 'proved': status = 'incomplete'
    if status in ('incomplete', 'vacuous') or (status == 'violated' and not any(v['confirmed'] for v in r['violations'])):
        x = exe_()
        if x:
            secs = float(o.get('random', 15)) * (4 if tier == 'thorough' else 1)
            dump = os.path.join(work, name + '.rnd')
            rc, out = sh([x, 'random', str(seed), '100000000', str(secs), dump], timeout=secs + 60, env=ASAN, cwd=work)
            m = re.search(r'V-RANDOM ran (\d+) passed (\d+) distinct (\d+)', out)
            r['random'] = {'ran': int(m.group(1)), 'passed': int(m.group(2)), 'distinct': int(m.group(3))} if m else {'ran': 0, 'passed': 0, 'distinct': 0, 'out': out[-500:]}
            if os.path.exists(dump) and ('V-FAILED' in out or 'AddressSanitizer' in out):
                st, o2 = native_replay(x, dump, work)
                # a wild access may come from a variable that is not linked: only a named failure is a finding here
                if st == 'failed' and not ('V-FAILED' not in o2 and 'SEGV' in o2):
                    m = re.search(r'V-FAILED (.*)', o2)
                    r['violations'].insert(0, {'name': m.group(1) if m else 'memory error', 'where': '', 'confirmed': True, 'stack': [], 'detail': 'found by bounded random execution of the harness', 'out': o2[-3000:],
                                               'inputs': [l.split(' ', 1) for l in open(dump).read().splitlines() if ' ' in l]})
                    status = 'violated'
    r['status'] = status
    for ext in ('.exe', '.nat.bc', '.vn.o'):
        try: os.unlink(os.path.join(work, name + ext))
        except OSError: pass
    return r


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    verbose = False
    if '--tier' in args:
        i = args.index('--tier'); tier = args[i + 1]; del args[i:i + 2]
    if '--entry' in args:
        i = args.index('--entry'); only = args[i + 1]; del args[i:i + 2]
    if '-v' in args:
        verbose = True; args.remove('-v')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    harnesses = [Harness(p) for p in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.cpp')))]
    if '--setup' in args:
        build_engine()
        tus = set()
        for h in harnesses:
            tus.add((h.path, tuple(h.flags)))
            for t in h.tus: tus.add((os.path.join(REPO, t), tuple(h.flags)))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for (p, f), (o, l) in zip(tus, ex.map(lambda a: compile_bc(*a), tus)):
                if o is None: print('not compiled:', p, l[-500:])
        return 0
    pid = args[0]
    build_engine()
    # one scratch directory per run, all effects of executed code stay there
    work = os.path.join(BUILD, 'work', '%s-%d' % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    mine = [h for h in harnesses if pid in h.properties]
    results, notes, jobs = [], [], []
    for h in mine:
        bc, log, missing = link(h)
        if missing:
            notes.append('%s: not compiled: %s' % (h.name, ', '.join(missing)))
        if bc is None:
            notes.append('%s: harness does not compile against the current tree' % h.name)
            if verbose: print(log[-6000:])
            else: print(log[-1500:])
            continue
        for e in h.entries:
            props = e['opts'].get('p')
            if props and pid not in props.split(','): continue
            if e['opts'].get('tier') == 'thorough' and tier != 'thorough': continue
            if only and e['name'] != only: continue
            jobs.append((h, bc, e))
    jobs.sort(key=lambda j: -float(j[2]['opts'].get('time', 200)))
    global TOKENS
    TOKENS = os.path.join(work, 'tokens')
    if os.path.exists(TOKENS): os.unlink(TOKENS)
    os.mkfifo(TOKENS)
    give(JOBS - min(JOBS, len(jobs)))
    waiting, lock = [len(jobs)], threading.Lock()

    def job(*a):
        with lock: waiting[0] -= 1
        try:
            return run_entry(*a)
        finally:
            if waiting[0] <= 0: give(1)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(job, pid, h, bc, e, tier, work, seed, verbose) for h, bc, e in jobs]
        for (h, bc, e), f in zip(jobs, fs):
            r = f.result()
            r['harness'] = h.name
            r['assume'] = h.assume
            results.append(r)
    return finish(pid, tier, seed, results, notes, work, mine, verbose)


TRUSTED = ['clang-18 front end (C++ to LLVM IR) and the IR semantics implemented in /verif/engine', 'z3 5.3.2',
           '/verif/lib/rt.cpp, rt_c.c: models of out-of-line libstdc++/libc functions',
           'malloc/new never fail; single threaded execution; object sizes at most 2^40 bytes']


def finish(pid, tier, seed, results, notes, work, mine, verbose):
    known = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'known']
    ob = disc = bob = bdisc = vcs = svcs = 0
    solver_s = 0.0
    queries = 0
    samples, functions, assumptions, stubs, bounds, entries = [], set(), set(), set(), set(), []
    violations, knownhits = [], []
    undecided = []
    rnd = {'ran': 0, 'passed': 0, 'distinct': 0}
    conf = {'replayed': 0, 'agree': 0}
    for r in results:
        d = r['data']
        bounded = r['bounded'] or (d and d['bounds'])
        n = dn = 0
        if d:
            n = len(d['obligations'])
            dn = sum(1 for v in d['obligations'].values() if not v['failed'] and not v['unknown']) if r['status'] in ('proved', 'violated') else 0
            vcs += d['vcs']; svcs += d['solver_vcs']
            solver_s += d['solver']['seconds']; queries += d['solver']['queries']
            functions |= set(d['functions'])
            for k, v in d['stubs'].items():
                for x in v: stubs.add('%s: %s' % (k, x[:140]))
            bounds |= set(d['bounds'])
            for smp in d['samples'][:1]:
                samples.append({'entry': r['entry'], 'path_inputs': [[a, b[:80]] for a, b in smp['inputs'][:12]]})
        if bounded: bob += n; bdisc += dn
        else: ob += n; disc += dn
        conf['replayed'] += r['conformance']['replayed']; conf['agree'] += r['conformance']['agree']
        if 'random' in r:
            for k in rnd: rnd[k] += r['random'].get(k, 0)
        if r['status'] not in ('proved', 'violated'):
            undecided.append({'entry': r['entry'], 'why': (list(d['incomplete'].items())[:6] if d else []) + r['notes']})
        entries.append({'entry': r['entry'], 'harness': r['harness'], 'what': r['text'], 'status': r['status'], 'bounded': sorted(d['bounds']) if d and d['bounds'] else bool(bounded),
                        'obligations': n, 'discharged': dn, 'vcs': d['vcs'] if d else 0, 'solver_vcs': d['solver_vcs'] if d else 0, 'paths': d['completed'] if d else 0,
                        'solver_seconds': round(d['solver']['seconds'], 2) if d else 0, 'seconds': round(d['seconds'], 1) if d else 0,
                        'obligation_names': sorted(k for k, v in d['obligations'].items() if v['kind'] == 'property')[:60] if d else [],
                        'incomplete': d['incomplete'] if d else {}, 'notes': r['notes'], 'conformance': r['conformance'], 'random': r.get('random')})
        for a in r['assume']: assumptions.add(a)
        for v in r['violations']:
            hit = None
            for k in known:
                if k['entry'] == r['entry'] and re.search(k['name'], v['name']) and re.search(k.get('where', ''), v.get('where', '')):
                    hit = k; break
            if hit: knownhits.append((hit, r, v))
            else: violations.append((r, v))
    for k, r, v in knownhits:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    lines = []
    seen = set()
    # a confirmed violation anywhere makes the unconfirmed ones redundant
    conf_v = [x for x in violations if x[1]['confirmed']]
    for r, v in (conf_v or violations):
        key = (r['entry'], v['name'])
        if key in seen: continue
        seen.add(key)
        rd = os.path.join(BUILD, 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, '%s-%s-%d.txt' % (pid, r['entry'], len(seen)))
        with open(rp, 'w') as f:
            f.write('# property %s, harness %s, entry %s\n# failed obligation: %s\n# at %s\n' % (pid, r['harness'], r['entry'], v['name'], v['where']))
            for s_ in v['stack']: f.write('#   %s\n' % s_)
            f.write('# solver term refuted: %s\n' % v['detail'].replace('\n', ' '))
            f.write('# native replay: %s\n' % ('confirmed' if v['confirmed'] else 'not confirmed (%s)' % v.get('replay_status', 'not run')))
            for l in v['out'].splitlines(): f.write('# | %s\n' % l)
            f.write('# inputs (name, hex bytes), in the order the harness asks for them\n')
            for a, b in v['inputs']: f.write('%s %s\n' % (a.replace(' ', '_') or '-', b or '-'))
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if v['confirmed'] else ' no-failing-input-found'))
        print('failed obligation: %s [%s] %s' % (v['name'], r['entry'], v['where']))
    for l in lines: print(l)
    explored = [r for r in results if r['status'] in ('proved', 'violated') or r.get('random', {}).get('passed', 0) > 0 or (r['data'] and r['data']['completed'] > 0)]
    level = 'proof'
    try:
        man = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
        level = next((c['level'] for c in man['checks'] if c['property'] == pid), 'proof')
    except (OSError, ValueError):
        pass
    cov = {
        'obligations': ob, 'discharged': disc,
        'checker_cmd': './check %s (engine: build/cve; back end z3)' % pid,
        'trusted_base': TRUSTED,
        'bounded_obligations': bob, 'bounded_discharged': bdisc, 'bounds': sorted(bounds),
        'verification_conditions': vcs, 'verification_conditions_needing_solver': svcs,
        'back_ends': {'z3': {'queries': queries, 'seconds': round(solver_s, 2)}, 'term simplifier': {'vcs': vcs - svcs}},
        'functions_under_contract': sorted(functions)[:400], 'functions_under_contract_count': len(functions),
        'stubs': sorted(stubs)[:200], 'entries': entries, 'undecided': undecided,
        'conformance_samples': conf, 'samples': samples[:20],
        'evaluations': sum(e['paths'] for e in entries) + rnd['ran'], 'distinct_nontrivial': sum(e['paths'] for e in entries) + rnd['distinct'],
        'rule': 'one case = one feasible symbolic path of a harness through the real code (or, only when an entry is undecided, one random native run); non-trivial = the path completed and reached its obligations',
        'explanation': 'contract verification of the real code: every obligation of every harness entry is generated from the bitcode of /repo\'s current sources and discharged by the solver; entries marked bounded limit container sizes as stated and are not counted under obligations/discharged',
        'random_fallback': rnd, 'notes': notes,
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': sorted(assumptions) + sorted(bounds), 'wall_s': round(time.time() - T0, 2), 'violations': len(lines)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not verbose: shutil.rmtree(work, ignore_errors=True)
    for e in entries:
        print('%-9s %-34s obligations %d/%d vcs %d paths %d %.1fs%s' % (e['status'], e['entry'], e['discharged'], e['obligations'], e['vcs'], e['paths'], e['seconds'], ' bounded' if e['bounded'] else ''))
    for u in undecided: print('UNDECIDED %s %s' % (u['entry'], u['why']))
    for n in notes: print('NOTE', n)
    print('%s: %d/%d obligations discharged (+ %d/%d bounded), %d queries, solver %.1fs, wall %.1fs' % (pid, disc, ob, bdisc, bob, queries, solver_s, time.time() - T0))
    if lines: return 1
    if not explored:
        print('nothing could be explored')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
