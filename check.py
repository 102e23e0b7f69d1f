#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current working tree.

1. builds the conformance harness of the property's families from /repo's working tree
   (through an overlay: nothing is written in /repo),
2. model checks the specification (spec/*MC.tla) exhaustively for this property,
3. has TLC generate behaviours of the specification (spec/*Gen.tla) as scripts,
4. drives the real code with these scripts and with seeded random ones, recording what happens,
5. has TLC judge every recorded step against the property as stated in the specification
   (spec/*Trace.tla),
6. confirms a violation by running the offending trace once more, and reports it.
"""
import collections, concurrent.futures as cf, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
sys.path.insert(0, VERIF)
from families import FAMILIES, PROPERTIES, ASSUMPTIONS  # noqa: E402

TIER = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER') or 'quick'
SEED = int(os.environ.get('VERIF_SEED') or '1')
CORES = min(8, os.cpu_count() or 4)
START = time.time()
HANG = 240  # seconds a harness process may take at most in the quick tier


class Broken(Exception):
    """the check itself cannot answer"""


def log(*a):
    print('[%6.1fs]' % (time.time() - START), *a, file=sys.stderr, flush=True)


def env():
    e = dict(os.environ)
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh && env -0'], stdout=subprocess.PIPE, check=True).stdout
    for kv in out.split(b'\0'):
        if b'=' in kv:
            k, v = kv.decode().split('=', 1)
            if k.startswith('GO') or k in ('PATH', 'HOME', 'CGO_ENABLED'):
                e[k] = v
    return e


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Check:
    def __init__(self, prop, tmp):
        self.prop, self.tmp = prop, tmp
        self.env = env()
        self.cov = collections.Counter()
        self.lines = self.traces = self.mc_states = self.mc_trans = 0
        self.samples, self.violations, self.notes = [], [], []
        self.known = collections.Counter()
        self.n = 0
        self.made = {}

    # ---- building the harness ----
    def go(self, args, what):
        p = subprocess.run(['go', 'build'] + args, cwd=REPO, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise Broken('cannot build %s:\n%s' % (what, p.stdout.decode()[-3000:]))

    def make(self, fam, mod, seed):
        """has the code generators of the working tree generate code, for the harness to use"""
        d = os.path.join(self.tmp, '%s-made-%d' % (fam, seed))
        os.makedirs(d)
        ovf = os.path.join(d, 'maker.ov.json')
        json.dump({'Replace': {os.path.join(REPO, 'verifmaker', 'maker.go'): os.path.join(VERIF, 'harness', 'maker', 'maker.go')}}, open(ovf, 'w'))
        maker, plugin, goplugin = (os.path.join(d, x) for x in ('maker', 'protoc-gen-starport', 'protoc-gen-go'))
        self.go(['-modfile', mod, '-overlay', ovf, '-o', maker, './verifmaker'], 'the maker of definitions')
        self.go(['-modfile', mod, '-o', plugin, './cmd/protoc-gen-starport'], 'the code generator')
        self.go(['-modfile', mod, '-o', goplugin, 'google.golang.org/protobuf/cmd/protoc-gen-go'], 'protoc-gen-go')
        n = FAMILIES[fam]['make'][0 if TIER == 'quick' else 1]
        p = subprocess.run([maker, str(seed), str(n), d, plugin, goplugin, REPO, mod], cwd=d, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise Broken('the maker of definitions failed:\n' + p.stdout.decode()[-3000:])
        self.made[fam] = (seed, os.path.join(d, 'log.ndjson'))
        return json.load(open(os.path.join(d, 'files.json')))

    def build(self, fam, seed=None):
        seed = SEED if seed is None else seed
        files = FAMILIES[fam]['files']
        ov = {os.path.join(REPO, 'verifharness', f): os.path.join(VERIF, 'harness', f) for f in files}
        ovf = os.path.join(self.tmp, fam + '.ov.json')
        mod = os.path.join(self.tmp, fam + '.mod')
        shutil.copy(os.path.join(REPO, 'go.mod'), mod)
        shutil.copy(os.path.join(REPO, 'go.sum'), mod[:-4] + '.sum')
        if 'make' in FAMILIES[fam]:
            ov.update(self.make(fam, mod, seed))
        json.dump({'Replace': ov}, open(ovf, 'w'))
        binary = os.path.join(self.tmp, fam + '.bin')
        self.go(['-modfile', mod, '-overlay', ovf, '-o', binary, './verifharness'], 'the harness')
        return binary

    # ---- TLC ----
    def tlc(self, module, extra, envs, workers=1, timeout=600, mem='3g', cfg=None):
        self.n += 1
        meta = os.path.join(self.tmp, 'meta%d-%s' % (self.n, module + str(envs.get('TRACE', '')).replace('/', '_')[-24:]))
        e = dict(self.env, PROP=self.prop, BUG='none', SIZE='small', TRACE='', **{})
        e.update(envs)
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss64m', '-Xmx' + mem, '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE',
               '-workers', str(workers), '-metadir', meta, '-config', (cfg or module) + '.cfg'] + extra + [module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken('TLC timed out on ' + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout.decode(errors='replace')

    def model_check(self, module, size, bug='none', workers=4, timeout=800):
        rc, o = self.tlc(module, [], {'SIZE': size, 'BUG': bug}, workers=workers, timeout=timeout, mem='6g')
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', o)
        violated = 'is violated' in o or 'Assumption' in o and 'is false' in o
        if not m and not (violated and bug != 'none'):
            raise Broken('TLC failed on %s:\n%s' % (module, o[-2500:]))
        if bug == 'none':
            if violated or 'No error has been found' not in o:
                raise Broken('the specification does not have the property itself (%s):\n%s' % (module, o[-2500:]))
            self.mc_trans += int(m.group(1))
            self.mc_states += int(m.group(2))
        elif not violated:
            raise Broken('the planted defect %s of the specification is not noticed by %s' % (bug, self.prop))

    def generate(self, module, num, path, seed, depth=100):
        rc, o = self.tlc(module, ['-simulate', 'num=%d' % num, '-seed', str(seed), '-depth', str(depth)], {'SIZE': 'big'}, workers=1)
        n = 0
        with open(path, 'w') as f:
            for l in o.splitlines():
                if l.startswith('"['):
                    f.write(json.loads(l) + '\n')
                    n += 1
        if n == 0:
            raise Broken('TLC generated nothing from %s:\n%s' % (module, o[-2000:]))

    def judge(self, module, path):
        rc, o = self.tlc(module, [], {'TRACE': path}, timeout=800)
        bad = [int(x) for x in re.findall(r'<<"VIOLATION-AT", (\d+)>>', o)]
        for i, name in re.findall(r'<<"KNOWN-AT", (\d+), "([^"]*)">>', o):
            if (self.prop, name) in KNOWN:
                self.known[name] += 1
            else:
                bad.append(int(i))
        bad.sort()
        m = re.search(r'<<"JUDGED", (\d+), "(.*)">>', o)
        if not m and 'The error occurred when TLC was evaluating' in o and not re.search('StackOverflow|OutOfMemory|interrupted', o):
            # what was recorded is not even of the kind the specification talks about, or follows from what is already wrong
            at = [int(x) for x in re.findall(r'^/\\ i = (\d+)', o, re.M)]
            if at:
                bad = bad or [at[-1] + 1]
                return bad, sum(1 for _ in open(path)), {}
        if not m:
            raise Broken('TLC did not judge %s with %s:\n%s' % (path, module, o[-2500:]))
        return bad, int(m.group(1)), json.loads(json.loads('"' + m.group(2) + '"'))

    # ---- driving the real code ----
    def drive(self, fam, binary, args, path, timeout):
        cmd = [binary, FAMILIES[fam].get('cmd', fam), '-out', path] + args
        e = dict(self.env, GOMAXPROCS='2', VERIF_MADE=self.made[fam][1] if fam in self.made else '')
        err = open(path + '.err', 'wb')
        try:
            p = subprocess.run(cmd, cwd=self.tmp, env=e, stdout=subprocess.DEVNULL, stderr=err, timeout=timeout, preexec_fn=limits)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        err.close()
        tail = open(path + '.err', 'rb').read()[-60000:].decode(errors='replace')
        os.remove(path + '.err')
        return rc, cmd[1:], tail

    def crash(self, fam, binary, args, rc, tail, timeout):
        """the process died: the fault of the code under test if its code is on the stack, twice"""
        again, _, tail2 = self.drive(fam, binary, args, os.path.join(self.tmp, 'again.ndjson'), timeout)
        if rc != 'timeout' and again not in (0, 'timeout') and 'fdymylja/tmos/' in re.sub(r'fdymylja/tmos/verifharness', '', tail2):
            m = re.search(r'^(panic|fatal error|runtime: ).*$', tail2, re.M)
            self.violations.append({'family': fam, 'made': self.made.get(fam, (None,))[0], 'args': args, 'what': 'the process running the code ' +
                                    'died: ' + (m.group(0)[:300] if m else str(rc)), 'stack': tail2[-4000:]})
            return
        raise Broken('harness failed (%s, then %s):\n%s' % (rc, again, tail[-3000:]))

    def one(self, fam, binary, args, tag, timeout):
        """runs one batch and has it judged"""
        F = FAMILIES[fam]
        path = os.path.join(self.tmp, '%s-%s.ndjson' % (fam, tag))
        rc, cmd, tail = self.drive(fam, binary, args, path, timeout)
        if rc != 0:
            self.crash(fam, binary, args, rc, tail, timeout)
            return
        lines = open(path).read().splitlines()
        if not lines:
            return
        bad, n, cov = self.judge(F['trace'], path)
        if n != len(lines):
            raise Broken('TLC judged %d of %d lines' % (n, len(lines)))
        self.lines += n
        for k, v in cov.items():
            self.cov[k] += v
        recs = None
        self.traces += len({re.match(r'.*"tr":(\d+)', l).group(1) for l in lines if '"tr":' in l}) if lines else 0
        if len(self.samples) < 3:
            self.samples.append(json.loads(lines[min(len(lines) - 1, 3 + 7 * len(self.samples))]))
        seen = set()
        for b in bad:
            L = json.loads(lines[b - 1])
            if L['tr'] in seen or len(self.violations) >= 3:
                continue
            seen.add(L['tr'])
            # once more, alone
            p2 = os.path.join(self.tmp, '%s-%s-confirm.ndjson' % (fam, tag))
            rc, _, tail = self.drive(fam, binary, args + ['-only', str(L['tr'])], p2, timeout)
            if rc != 0:
                raise Broken('the offending trace cannot be run again: ' + tail[-1000:])
            bad2, _, _ = self.judge(F['trace'], p2)
            l2 = open(p2).read().splitlines()
            if not bad2:
                self.notes.append('trace %s of %s did not fail again' % (L['tr'], tag))
                # not reproducible alone: run the whole batch again
                rc, _, tail = self.drive(fam, binary, args, p2, timeout)
                bad2, _, _ = self.judge(F['trace'], p2)
                l2 = open(p2).read().splitlines()
                if not bad2:
                    continue
            b2 = bad2[0]
            script = None
            if '-script' in args:
                script = open(args[args.index('-script') + 1]).read().splitlines()[L['tr'] - 1]
            self.violations.append({'family': fam, 'made': self.made.get(fam, (None,))[0], 'args': args + ['-only', str(L['tr'])], 'script': script, 'line': b2,
                                    'before': json.loads(l2[b2 - 2]) if b2 > 1 else None, 'violating': json.loads(l2[b2 - 1]),
                                    'trace': [json.loads(x) for x in l2[max(0, b2 - 8):b2]]})
        os.remove(path)

    def run(self):
        spec = PROPERTIES[self.prop]
        quick = TIER == 'quick'
        pool = cf.ThreadPoolExecutor(CORES)
        fams = spec['families']
        bins = {}
        mcs = []
        with cf.ThreadPoolExecutor(8) as p2:
            builds = {f: p2.submit(self.build, f) for f in fams}
            gens = []
            for f in fams:
                F = FAMILIES[f]
                if 'mc' in F and self.prop not in F.get('no_mc', ()):
                    mcs.append(p2.submit(self.model_check, F['mc'], 'small'))
                for k in range(F['gen_procs'] if 'gen' in F else 0):
                    path = os.path.join(self.tmp, '%s-%d.script' % (f, k))
                    gens.append((f, path, p2.submit(self.generate, F['gen'], F['gen_num'], path, SEED * 1000 + k)))
            for f in fams:
                bins[f] = builds[f].result()
            log('built')
            for m in mcs:
                m.result()
            for g in gens:
                g[2].result()
        log('model checked: %d states, %d transitions; scripts generated' % (self.mc_states, self.mc_trans))
        jobs = []
        for f, path, _ in gens:
            jobs.append((f, bins[f], ['-script', path], os.path.basename(path)))
        for f in fams:
            for k, a in enumerate(FAMILIES[f]['quick'](SEED)):
                jobs.append((f, bins[f], a, 'r%d' % k))
        futs = [pool.submit(self.one, f, b, a, t, HANG) for f, b, a, t in jobs]
        for x in futs:
            x.result()
        log('%d lines of %d traces judged' % (self.lines, self.traces))
        if not quick and not self.violations:
            self.thorough(fams, bins, pool)

    def thorough(self, fams, bins, pool):
        budget = float(os.environ.get('VERIF_BUDGET') or 1500)
        for f in fams:
            F = FAMILIES[f]
            if 'mc' in F and self.prop not in F.get('no_mc', ()):
                bugs = F.get('bugs', {}).get(self.prop, ())
                for b in bugs:
                    self.model_check(F['mc'], 'small', bug=b)
                log('planted defects of the specification noticed:', ' '.join(bugs))
                self.cov['specification-defects-noticed'] += len(bugs)
                self.model_check(F['mc'], 'big', workers=8, timeout=3000)
                log('larger model checked: %d states, %d transitions' % (self.mc_states, self.mc_trans))
        rnd = 0
        while time.time() - START < budget and not self.violations:
            rnd += 1
            jobs = []
            for f in fams:
                F = FAMILIES[f]
                if 'make' in F:
                    bins[f] = self.build(f, SEED * 1000 + rnd)
                for k in range(F['gen_procs'] if 'gen' in F else 0):
                    path = os.path.join(self.tmp, '%s-t%d-%d.script' % (f, rnd, k))
                    jobs.append(('gen', f, path, (SEED * 1000 + rnd) * 100 + k))
                for k, a in enumerate(F.get('thorough', F['quick'])(SEED * 100003 + rnd)):
                    jobs.append(('rnd', f, a, 't%d-%d' % (rnd, k)))

            def job(j):
                if j[0] == 'gen':
                    self.generate(FAMILIES[j[1]]['gen'], FAMILIES[j[1]]['gen_num'], j[2], j[3])
                    self.one(j[1], bins[j[1]], ['-script', j[2]], os.path.basename(j[2]), 900)
                else:
                    self.one(j[1], bins[j[1]], j[2], j[3], 900)
            for x in [pool.submit(job, j) for j in jobs]:
                x.result()
            log('round %d: %d lines of %d traces judged' % (rnd, self.lines, self.traces))


def known():
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.strip().startswith('{'):
                r.append(json.loads(l))
    return r


KNOWN = {(k['property'], k['name']) for k in known()}


def main():
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    spec = PROPERTIES[prop]
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    c = Check(prop, tmp)
    rc, out = 0, []
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    try:
        c.run()
        for k in known():
            if k['property'] != prop:
                continue
            if not c.known[k['name']]:
                c.notes.append('the known finding %s did not show' % k['name'])
            out.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        if c.violations:
            path = os.path.join(ev, 'violation-%s.json' % prop)
            json.dump({'property': prop, 'seed': SEED, 'tier': TIER, 'violations': c.violations}, open(path, 'w'), indent=1)
            out.append('VIOLATION property=%s replay=%s' % (prop, path))
            v = c.violations[0]
            log(json.dumps(v.get('violating', v.get('what')))[:1500])
            rc = 1
        else:
            missing = [t for t in spec['need'] if c.cov[t] == 0]
            if missing:
                raise Broken('nothing exercised: ' + ' '.join(missing))
    except Broken as e:
        print('BROKEN', prop, e)
        rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    json.dump({'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
               'coverage': {'states': c.mc_states, 'transitions': c.mc_trans, 'traces_validated_against_impl': c.traces,
                            'recorded_steps_judged': c.lines, 'situations': dict(sorted(c.cov.items())),
                            'samples': c.samples, 'notes': c.notes},
               'assumptions': ASSUMPTIONS + spec.get('assumptions', []), 'wall_s': round(time.time() - START, 1),
               'violations': len(c.violations)}, open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    for o in out:
        print(o)
    if rc == 0:
        print('OK property=%s traces=%d steps=%d model_states=%d model_transitions=%d' % (prop, c.traces, c.lines, c.mc_states, c.mc_trans))
    return rc


def replay(path):
    """check.py --replay FILE: runs the violating traces of a violation file again"""
    v = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix='verif-replay-')
    rc = 0
    try:
        c = Check(v['property'], tmp)
        for x in v['violations']:
            args = list(x['args'])
            if x.get('script'):
                s = os.path.join(tmp, 'script')
                open(s, 'w').write(x['script'] + '\n')
                args[args.index('-script') + 1] = s
                args[args.index('-only') + 1] = '1'
            b = c.build(x['family'], x.get('made'))
            p = os.path.join(tmp, 'replay.ndjson')
            r, _, tail = c.drive(x['family'], b, args, p, 900)
            if r != 0:
                print('died again:', tail[-2000:])
                rc = 1
                continue
            bad, n, _ = c.judge(FAMILIES[x['family']]['trace'], p)
            ls = open(p).read().splitlines()
            for i in bad:
                print('VIOLATED at step %d of %d: %s' % (i, n, ls[i - 1]))
                rc = 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main())
