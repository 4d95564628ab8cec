#!/usr/bin/env python3-vt
"""Decides one property: run.py PROPERTY [quick|thorough].

Every job of the property is an entry point of a harness in harness/; it is
linked, as LLVM IR, with the whole library compiled from /repo's current
sources and executed symbolically by engine/exe.py.  Counterexamples are
replayed against a native build of the same sources before they are reported.
"""
import glob
import json
import os
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
import build  # noqa: E402
import ir     # noqa: E402
import exe    # noqa: E402
import jobs   # noqa: E402

NPROC = int(os.environ.get('VP_NPROC', '8'))


def write_replay(path, job, v):
    with open(path, 'w') as f:
        f.write('# entry %s of harness/%s, configuration %s\n' % (job.entry, job.harness, job.tag))
        if 'msg' in v:
            f.write('# %s: %s\n' % (v['kind'], v['msg']))
        for a in job.args:
            f.write('arg %d\n' % (a & 0xFFFFFFFFFFFFFFFF))
        for w, x in v['inputs']:
            f.write('in %d %0*x\n' % (w, w // 4, x))
        for name, w, ar, x in v.get('uf', ()):
            aw = v['ufw'].get(name)
            if aw is None:
                continue
            if len(aw) == 2:
                f.write('uf %s %d %0*x %d %0*x %d %0*x\n' % (
                    name, aw[0] // 8, aw[0] // 4, ar[0], aw[1] // 8, aw[1] // 4, ar[1], w // 8, w // 4, x))
            else:
                f.write('uf %s 0 - %d %0*x %d %0*x\n' % (name, aw[0] // 8, aw[0] // 4, ar[0], w // 8, w // 4, x))


def run_native(binary, job, path, fill, uf, tmo=60):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'exitcode=43:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0'
    env['UBSAN_OPTIONS'] = 'exitcode=43'
    try:
        p = subprocess.run([binary, job.entry, path, str(fill), str(uf)], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=env, timeout=tmo, cwd=os.path.dirname(binary))
        return p.returncode, p.stdout.decode('latin1')
    except subprocess.TimeoutExpired:
        return 124, 'no result after %d s' % tmo


def bad(rc, kind):
    """does the native run show a failure"""
    if rc in (0, 2, 77, 78):
        return False
    if rc == 124:
        return kind == 'hang'
    return True


def confirm(work, job, v, path):
    """replay natively -> (confirmed, text)"""
    last = ''
    tmo = 20 if v['kind'] == 'hang' else 60
    for variant in ('', 'pattern', 'zero'):
        b = build.native(work, job.tag, jobs.TAGS[job.tag], job.hpath(), job.hdefs, variant)
        for uf in ((0, 1) if v.get('uf') else (0,)):
            for fill in (0, 1, 2, 3, 4):
                rc, out = run_native(b, job, path, fill, uf, tmo)
                last = out
                if bad(rc, v['kind']):
                    return True, 'native run (%s, fill %d, uf %d) exit %d:\n%s' % (variant or 'plain', fill, uf, rc,
                                                                                  (out[:1200] + ' ... ' + out[-300:] if len(out) > 1500 else out))
                if not v.get('undef') and fill == 0:
                    break
        if not v.get('undef'):
            break
    return False, last[-500:]


def ufwidths():
    import term as tm
    return {k[0]: list(k[2]) for k in tm._ufs}


def child(job, mod, wfd):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (job.mem << 30, job.mem << 30))
    except (ValueError, OSError):
        pass
    t0 = time.time()
    E = exe.Engine(mod, job.args)
    E.deadline = t0 + job.limit
    E.check_tmo = job.check_tmo
    err = None
    res = []
    try:
        res = E.start(job.entry)
    except exe.StopJob:
        pass
    except exe.Undecided as e:
        E.st.undecided.append('job: %s' % e)
    except ir.Unsupported as e:
        err = 'not encodable: %s' % e
    except MemoryError:
        E.st.undecided.append('job: memory limit')
    except Exception:
        err = traceback.format_exc()[-1500:]
    samples = []
    for S, _ in sorted(res, key=lambda r: -len(r[0].inputs)):
        if S.model is not None and len(samples) < 2:
            memo = {}
            import term as tm
            try:
                if not all(tm.ev(c, S.model, memo) for c in S.pc):
                    continue
            except Exception:
                continue
            samples.append({'inputs': [(w, S.model.get(nm, 0)) for nm, w in S.inputs],
                            'uf': [(k[1], k[2], k[3], x) for k, x in S.model.items()
                                   if type(k) is tuple and k[0] == 'uf'], 'ufw': ufwidths()})
    st = E.st
    for v in E.violations:
        v['ufw'] = ufwidths()
    out = {'violations': E.violations, 'undecided': st.undecided, 'error': err, 'queries': st.queries,
           'solver_s': st.solver_s, 'paths': st.paths, 'steps': st.steps, 'forks': st.forks, 'merges': st.merges,
           'checks': st.checks, 'rewritten': st.rewritten, 'sweeps': st.sweeps, 'funcs': sorted(st.funcs),
           'reached': E.reached, 'wall': time.time() - t0, 'samples': samples}
    data = json.dumps(out).encode()
    while data:
        n = os.write(wfd, data[:65536])
        data = data[n:]
    os._exit(0)


class Pool(object):
    def __init__(self, n):
        self.n = n
        self.run = {}

    def map(self, todo, start, deadline):
        """todo: list of jobs; start(job, wfd) runs in the child"""
        res = {}
        todo = list(todo)
        while todo or self.run:
            while todo and len(self.run) < self.n:
                j = todo.pop(0)
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    try:
                        start(j, w)
                    except BaseException:
                        traceback.print_exc()
                    os._exit(1)
                os.close(w)
                self.run[r] = (j, pid, [], time.time())
            rd, _, _ = select.select(list(self.run), [], [], 1.0)
            now = time.time()
            for fd in rd:
                b = os.read(fd, 1 << 20)
                j, pid, buf, t = self.run[fd]
                if b:
                    buf.append(b)
                    continue
                self.finish(fd, res)
            for fd in list(self.run):
                j, pid, buf, t = self.run[fd]
                if now - t > j.limit * 1.5 + 30 or now > deadline:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                    self.finish(fd, res)
            if now > deadline:
                for j in todo:
                    res[j.key] = None
                todo = []
        return res

    def finish(self, fd, res):
        j, pid, buf, t = self.run.pop(fd)
        os.close(fd)
        os.waitpid(pid, 0)
        if os.environ.get('VP_V') == '2':
            print('  done %s %.1fs' % (j.key, time.time() - t), flush=True)
        try:
            res[j.key] = json.loads(b''.join(buf).decode())
        except ValueError:
            res[j.key] = None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    P = jobs.PROPS[prop]
    budget = 700 if tier == 'quick' else 6 * 3600
    js = [j for j in P.jobs if (tier == 'thorough' or j.tier == 'quick') and (only is None or only in j.key)]
    work = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    if only is None:
        for f in glob.glob(os.path.join(evdir, prop + '-*.replay')):
            os.unlink(f)
    try:
        rc = check(prop, P, js, tier, seed, work, evdir, t0, budget, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l[len('finding: property=%s ' % prop):])
    return out


def check(prop, P, js, tier, seed, work, evdir, t0, budget, only):
    mods = {}
    builderr = None
    for j in js:
        k = (j.tag, j.harness, j.hdefs)
        if k in mods:
            continue
        try:
            ll = build.module_ll(work, j.tag, jobs.TAGS[j.tag], j.hpath(), j.hdefs)
            mods[k] = ir.Module(open(ll).read())
        except build.BuildError as e:
            builderr = str(e)
            mods[k] = None
    if builderr:
        print('BUILD-ERROR %s' % builderr)
    run = [j for j in js if mods[(j.tag, j.harness, j.hdefs)] is not None]
    run.sort(key=lambda j: -j.cost)
    res = Pool(NPROC).map(run, lambda j, w: child(j, mods[(j.tag, j.harness, j.hdefs)], w), t0 + budget)

    tot = dict(queries=0, solver_s=0.0, paths=0, steps=0, forks=0, merges=0, checks=0, rewritten=0, sweeps=0)
    funcs = set()
    undecided = []
    violations = []
    unconfirmed = []
    samples = []
    decided = 0
    nval = 0
    vals = 0
    for j in run:
        r = res.get(j.key)
        if r is None:
            undecided.append('%s: killed (time or memory limit)' % j.key)
            continue
        for k in tot:
            tot[k] += r[k]
        funcs.update(r['funcs'])
        if os.environ.get('VP_V'):
            print('  %-46s %6.1fs q=%d solver=%.1fs checks=%d rew=%d forks=%d merges=%d steps=%d %s %s %s' % (
                j.key, r['wall'], r['queries'], r['solver_s'], r['checks'], r['rewritten'], r['forks'], r['merges'],
                r['steps'], 'VIOL %s' % [v['msg'] for v in r['violations']] if r['violations'] else '',
                'UNDEC %s' % r['undecided'] if r['undecided'] else '', 'ERR ' + r['error'] if r['error'] else ''))
        if r['error']:
            undecided.append('%s: %s' % (j.key, r['error']))
            continue
        if r['undecided']:
            undecided.append('%s: %s' % (j.key, '; '.join(r['undecided'][:3])))
        elif not r['violations']:
            if r['checks'] == 0:
                undecided.append('%s: no assertion was reached' % j.key)
            else:
                decided += 1
        done = False
        for n, v in enumerate(r['violations']):
            path = os.path.join(evdir, '%s-%s-%d.replay' % (prop, j.key.replace(':', '_').replace('/', '_'), n))
            write_replay(path, j, v)
            if len(violations) >= 5:
                break
            try:
                ok, txt = confirm(work, j, v, path)
            except build.BuildError as e:
                ok, txt = False, str(e)
            if ok:
                with open(path, 'a') as f:
                    for l in txt.split('\n'):
                        f.write('# ' + l + '\n')
                violations.append((j, v, path, txt))
                done = True
                break
            unconfirmed.append((j, v, txt))
        if done or not r['samples'] or r['violations']:
            continue
        # validate the encoding: the real code must agree on a model of a complete path
        if not j.validate:
            continue
        try:
            b = build.native(work, j.tag, jobs.TAGS[j.tag], j.hpath(), j.hdefs)
        except build.BuildError as e:
            continue
        for s in r['samples'][:1 if tier == 'quick' else 2]:
            path = os.path.join(work, 'sample')
            write_replay(path, j, s)
            rc, out = run_native(b, j, path, 0, 1, 30)
            vals += 1
            if rc == 0:
                nval += 1
            elif rc not in (77, 78, 2, 124):
                path = os.path.join(evdir, '%s-%s-s.replay' % (prop, j.key.replace(':', '_').replace('/', '_')))
                write_replay(path, j, s)
                violations.append((j, {'kind': 'native', 'msg': 'native run of a model fails'}, path, out[-800:]))
                break
            if len(samples) < 3:
                samples.append({'job': j.key, 'inputs': [hex(x) for w, x in s['inputs'][:24]],
                                'native_exit': rc})
    known = known_findings(prop)
    nviol = 0
    for j, v, path, txt in violations:
        hit = [k for k in known if k.split(' ', 1)[0] == j.key]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]))
            continue
        nviol += 1
        print('job %s: %s: %s' % (j.key, v['kind'], v['msg']))
        print('\n'.join(l for l in txt.split('\n') if 'Shadow' not in l and '0x' not in l[:4])[:900])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    for u in undecided[:12]:
        print('UNDECIDED %s' % u[:600])
    for j, v, txt in unconfirmed[:6]:
        print('UNCONFIRMED %s: %s: %s (native replay does not fail: %s)' % (j.key, v['kind'], v['msg'], txt[-200:].strip()))
    libf = sorted(f[1:] for f in funcs if not f.startswith('@t_') and not f.startswith('@ref_') and
                  not f.startswith('@vp_'))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': P.level,
        'coverage': {
            'explanation': 'Bounded symbolic execution of the LLVM IR of the current sources; every assertion is '
                           'decided by rewriting plus z3 for all values of the symbolic inputs within the bounds.',
            'jobs': len(js), 'jobs_decided': decided, 'undecided': undecided[:20],
            'unconfirmed_counterexamples': ['%s: %s' % (j.key, v['msg']) for j, v, _ in unconfirmed[:10]],
            'functions_encoded': libf,
            'bounds': P.bounds,
            'states': tot['paths'] + tot['forks'] + tot['merges'],
            'transitions': tot['steps'],
            'traces_validated_against_impl': nval,
            'samples': samples or [{'note': 'no complete path model'}],
            'solver_queries': tot['queries'], 'solver_seconds': round(tot['solver_s'], 2),
            'assertions_discharged': tot['checks'], 'assertions_closed_by_rewriting': tot['rewritten'],
            'sweeps': tot['sweeps'], 'forks': tot['forks'], 'merges': tot['merges'],
            'job_list': [j.key for j in js][:400],
        },
        'assumptions': P.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': nviol,
    }
    if only is None:
        with open(os.path.join(evdir, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d jobs, %d decided, %d undecided, %d violations; %d assertions, %d queries, %.1fs solver, %.1fs' % (
        prop, tier, len(js), decided, len(undecided), nviol, tot['checks'], tot['queries'], tot['solver_s'],
        time.time() - t0))
    if nviol:
        return 1
    if decided == 0 and not violations:
        return 2
    return 0


if __name__ == '__main__':
    main()
