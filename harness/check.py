"""Runs the check of one property: TLC on the specification, behaviours generated from the
specification replayed into the code, and the recorded traces validated by TLC against it.

usage: check.py PROPERTY quick|thorough      (exit 0: held, 1: VIOLATION, 2: machinery failure)
"""
import copy
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'harness'))
from plan import PLAN                                 # noqa: E402

TLA = '/opt/veriftools/tla'
CP = TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'
PY = '/opt/venv/bin/python'
NCPU = 8


class Machinery(Exception):
    pass


class Check(object):
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.plan = PLAN[prop]
        self.t0 = time.time()
        self.states = self.transitions = self.scenarios = self.events = 0
        self.cnt, self.bad, self.samples, self.notes, self.models = {}, [], [], [], []
        self.dir = tempfile.mkdtemp(prefix='pvf-%s-' % prop)

    # ------------------------------------------------------------ processes
    def env(self, **kw):
        e = dict(os.environ)
        e.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                 MPLCONFIGDIR=os.path.join(self.dir, 'mpl'), PYTHONHASHSEED='0')
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update({k: str(v) for k, v in kw.items()})
        return e

    def prepare(self):
        self.spec = os.path.join(self.dir, 'spec')
        shutil.copytree(os.path.join(VERIF, 'spec'), self.spec)
        self.cls = os.path.join(self.dir, 'cls')
        os.makedirs(self.cls)
        os.makedirs(os.path.join(self.dir, 'mpl'))
        src = [os.path.join(self.spec, 'java', f) for f in sorted(os.listdir(os.path.join(self.spec, 'java')))]
        p = subprocess.run(['javac', '-nowarn', '-cp', CP, '-d', self.cls] + src, capture_output=True, text=True)
        if p.returncode:
            raise Machinery('javac: ' + p.stderr[-2000:])

    def tlc(self, module, cfg, tag, env, workers=1, timeout=800, heap='3g', allow_violation=False):
        meta = os.path.join(self.dir, 'meta-' + tag)
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss64m',
               '-Djava.io.tmpdir=' + self.dir,
               '-DTLA-Library=' + self.spec, '-cp', CP + ':' + self.cls, 'tlc2.TLC', '-metadir', meta,
               '-workers', str(workers), '-noGenerateSpecTE', '-config', cfg, module]
        try:
            p = subprocess.run(cmd, cwd=self.spec, env=self.env(**env), capture_output=True, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery('TLC timeout on ' + tag)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', p.stdout)
        if m:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
        ok = 'No error has been found' in p.stdout
        if not ok and not allow_violation:
            raise Machinery('TLC failed on %s:\n%s' % (tag, p.stdout[-3000:] + p.stderr[-500:]))
        return ok, p.stdout, (int(m.group(2)) if m else 0)

    # ------------------------------------------------------------ stages
    def gen(self, st, k):
        out = os.path.join(self.dir, 'scen%d.ndjson' % k)
        n = st['n'][0 if self.tier == 'quick' else 1]
        env = dict(GENSEED=self.seed * 1009 + k * 7919 + st.get('salt', 0), MIX=st['mix'], NSCEN=n, OUT=out)
        env.update(st.get('env', {}))
        module = st.get('module', 'Gen.tla')
        self.tlc(module, module.replace('.tla', '.cfg'), 'gen%d' % k, env, timeout=800)
        if not os.path.exists(out):
            raise Machinery('no scenarios generated')
        return out

    def drive(self, scen, k, shards):
        procs = []
        for s in range(shards):
            tr = os.path.join(self.dir, 'tr%d-%d.ndjson' % (k, s))
            procs.append((tr, subprocess.Popen(
                [PY, os.path.join(VERIF, 'harness', 'driver.py'), scen, tr, str(s), str(shards)],
                env=self.env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                cwd=self.dir)))
        out = []
        for tr, p in procs:
            try:
                _, err = p.communicate(timeout=800)
            except subprocess.TimeoutExpired:
                p.kill()
                raise Machinery('driver timeout')
            if p.returncode:
                raise Machinery('driver: ' + err[-2000:])
            out.append(tr)
        return out

    def judge(self, tr, tag, prop=None):
        out = os.path.join(self.dir, 'verdict-%s.json' % tag)
        ok, log, n = self.tlc('Trace.tla', 'Trace.cfg', tag, dict(TRACE=tr, OUT=out, PROP=prop or self.prop),
                              allow_violation=True)
        if not os.path.exists(out):
            # not enough memory, a machine problem, ... are no verdict
            if re.search(r'OutOfMemory|StackOverflow|No space left|Parsing or semantic|Could not', log):
                raise Machinery('TLC failed on %s:\n%s' % (tag, log[-3000:]))
            if not re.search(r'states generated', log):
                raise Machinery('TLC failed on %s:\n%s' % (tag, log[-3000:]))
            # the specification admits no action for an event, or gives no value to what was recorded
            sys.stderr.write(log[-1500:])
            return dict(events=n, cnt={}, bad=[dict(sid=0, ev=n, c=self.prop + '.refused',
                                                    where='the specification has no action for event %d' % n)])
        v = json.load(open(out))
        if not isinstance(v['cnt'], dict):
            v['cnt'] = {}
        return v

    def stage_trace(self, st, k):
        scen = self.gen(st, k)
        n = sum(1 for _ in open(scen))
        shards = min(NCPU, max(1, n))
        trs = self.drive(scen, k, shards)
        with ThreadPoolExecutor(NCPU) as ex:
            vs = list(ex.map(lambda a: self.judge(a[1], 'j%d-%d' % (k, a[0])), enumerate(trs)))
        self.scenarios += n
        for tr, v in zip(trs, vs):
            self.events += v['events']
            for c, m in v['cnt'].items():
                self.cnt[c] = self.cnt.get(c, 0) + m
            for b in v['bad']:
                b['trace'], b['mix'] = tr, st['mix']
                self.bad.append(b)
        if len(self.samples) < 3:
            with open(scen) as f:
                self.samples.append(json.loads(f.readline()))
        return trs

    def stage_model(self, st, k):
        """Exhaustive check of a design model; its verdict does not depend on the code."""
        cfg = st['cfg'] if isinstance(st['cfg'], str) else st['cfg'][0 if self.tier == 'quick' else 1]
        ok, log, n = self.tlc(st['module'], cfg, 'm%d' % k, st.get('env', {}), workers=NCPU, heap='8g')
        self.models.append('%s (%s): %d distinct states' % (st['module'], cfg, n))

    # ------------------------------------------------------------ the binding binds
    def selftest(self, trs):
        """Perturb recorded fields: the specification must reject the result."""
        fields = self.plan.get('corrupt', [])
        if not fields:
            return
        chunks = []
        for tr in trs:
            cur = []
            for line in open(tr):
                ev = json.loads(line)
                if ev['op'] == 'scen' and cur:
                    chunks.append(cur)
                    cur = []
                if ev['op'] != 'end':
                    cur.append(ev)
            chunks.append(cur)
            if len(chunks) > 12:
                break
        out = os.path.join(self.dir, 'corrupt.ndjson')
        want = {}
        sid = 0
        with open(out, 'w') as f:
            for name in fields:
                done = 0
                for ch in chunks:
                    if done >= 4:
                        break
                    c = copy.deepcopy(ch)
                    if not corrupt(c, name):
                        continue
                    done += 1
                    sid += 1
                    want[sid] = name
                    for ev in c:
                        if ev['op'] == 'scen':
                            ev = dict(ev, sid=sid)
                        f.write(json.dumps(ev) + '\n')
            f.write('{"op":"end"}\n')
        v = self.judge(out, 'corrupt')
        hit = {want[b['sid']] for b in v['bad'] if b['sid'] in want}
        missed = [x for x in fields if x not in hit]
        if missed:
            raise Machinery('binding self-test: corrupted %s accepted' % missed)
        self.notes.append('corrupted fields rejected: ' + ', '.join(fields))

    # ------------------------------------------------------------ verdict
    def known(self, b):
        path = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(path):
            return None
        for f in json.load(open(path))['findings']:
            if f['property'] == self.prop and f['clause'] == b['c']:
                return f
        return None

    def save_replay(self, b):
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (self.prop, self.seed))
        evs = []
        if 'trace' in b:
            keep = False
            for line in open(b['trace']):
                ev = json.loads(line)
                if ev['op'] == 'scen':
                    keep = ev['sid'] == b['sid']
                if keep:
                    for k in ('F', 'A', 'vec'):
                        ev.pop(k, None)
                    evs.append(ev)
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, clause=b['c'], where=b['where'], event=b['ev'], scenario=b['sid'],
                           events=evs, how='harness/driver.py replays the operations of the scenario; '
                           'spec/Trace.tla judges the recorded events'), f, indent=1)
        return path

    def run(self):
        self.prepare()
        first = None
        for k, st in enumerate(self.plan['stages']):
            if st.get('tier', self.tier) != self.tier:
                continue
            if st['kind'] == 'model':
                self.stage_model(st, k)
            else:
                trs = self.stage_trace(st, k)
                first = first or trs
        news, olds = [], {}
        for b in self.bad:
            f = self.known(b)
            if f:
                olds[f['id']] = f
            else:
                news.append(b)
        for f in olds.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
        if not news:
            empty = [c for c in self.plan.get('require', []) if not self.cnt.get(c)]
            if empty:
                raise Machinery('vacuous clauses: %s' % empty)
            if first:
                self.selftest(first)
        self.evidence(len(news))
        if news:
            b = news[0]
            path = self.save_replay(b)
            for x in news[:8]:
                print('  %s scenario %s event %s: %s' % (x['c'], x['sid'], x['ev'], x['where'][:300]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('%s held: %d scenarios, %d events, %d instances judged, %.0f s' % (
            self.prop, self.scenarios, self.events, sum(self.cnt.values()), time.time() - self.t0))
        return 0

    def evidence(self, nviol):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.scenarios,
                                events_validated=self.events, instances_per_clause=self.cnt,
                                models=self.models, notes=self.notes,
                                samples=self.samples or [{'models': self.models}]),
                  assumptions=self.plan.get('assumptions', []),
                  wall_s=round(time.time() - self.t0, 1), violations=nviol)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


# ---------------------------------------------------------------- corruption of a recorded field
def bump(v):
    """Change an encoded real (or integer) noticeably."""
    if isinstance(v, list):
        return [v[0] ^ (1 << 14), v[1]]               # relative change of about 1%
    return v + 1


def is_real(v):
    return isinstance(v, int) or (isinstance(v, list) and len(v) == 2 and all(isinstance(x, int) for x in v)
                                  and abs(v[0]) > 1000)


def bump_deep(v):
    """Bump every non-trivial real in a nested list; returns the new value, or None if there was none."""
    if is_real(v):
        return bump(v) if v != 0 else None
    if isinstance(v, list):
        n = [bump_deep(x) for x in v]
        if any(x is not None for x in n):
            return [x if x is not None else y for x, y in zip(n, v)]
    if isinstance(v, dict):
        n = {k: bump_deep(x) for k, x in v.items()}
        if any(x is not None for x in n.values()):
            return {k: x if x is not None else v[k] for k, x in n.items()}
    return None


def corrupt(chunk, name):
    """Corrupt field `name` (dotted path; 'a|op' restricts to events of that op) of the last event having it."""
    op = 'obs'
    if '|' in name:
        name, op = name.split('|')
    path = name.split('.')
    for ev in reversed(chunk):
        if ev['op'] != op:
            continue
        o = ev
        for p in path[:-1]:
            o = o.get(p) if isinstance(o, dict) else (o[int(p)] if isinstance(o, list) and len(o) > int(p) else None)
            if o is None:
                break
        if o is None:
            continue
        key = path[-1] if isinstance(o, dict) else int(path[-1])
        if (isinstance(o, dict) and key not in o) or (isinstance(o, list) and len(o) <= key):
            continue
        n = bump_deep(o[key])
        if n is None:
            continue
        o[key] = n
        return True
    return False


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    c = Check(prop, tier)
    try:
        code = c.run()
    except Machinery as e:
        print('check of %s failed to run: %s' % (prop, e))
        code = 2
    finally:
        if not os.environ.get('PVF_KEEP'):
            shutil.rmtree(c.dir, ignore_errors=True)
        else:
            print('kept', c.dir)
    sys.exit(code)


if __name__ == '__main__':
    main()
