"""Shared machinery of the checks: running the implementation, running TLC, evidence, verdicts."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
EVID = os.environ.get('VERIF_DEV_EVID', os.path.join(VERIF, 'evidence'))
REPO = os.environ.get('VERIF_DEV_REPO', '/repo')      # another tree only while developing the checks
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

if REPO not in sys.path:
    sys.path.insert(0, REPO)

_T0 = time.monotonic          # kept before any module patches the clock
_SLEEP = time.sleep


class CallTimeout(BaseException):
    pass


def _alarm(sig, frame):
    raise CallTimeout()


def _odd(x):
    """Something from the code under test where plain data is expected; the specification does not know it."""
    return 'a %s' % type(x).__name__


def call(fn, *a, limit=30, **kw):
    """Run code under test: ('ok', value), ('exc', exception) or ('timeout', None)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return 'ok', fn(*a, **kw)
    except CallTimeout:
        return 'timeout', None
    except (KeyboardInterrupt,):
        raise
    except BaseException as e:           # whatever the code raises is an outcome to be judged
        return 'exc', e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def codes(s):
    return [ord(ch) for ch in s]


class Found(Exception):
    """A violation has been recorded, there is no need to look further."""


class InternalError(Exception):
    pass


class ChildError(Exception):
    """Something failed in a worker: inside the code under test, or in the harness."""
    def __init__(self, tb, inside):
        super().__init__(tb)
        self.tb, self.inside = tb, inside


class Check:
    def __init__(self, pid, tier, seed, level='model_checking'):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = _T0()
        self.rng = random.Random('%s/%d' % (pid, seed))
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.models, self.notes = [], [], []
        self.violations = []
        self.exhaustive_parts = []

    @property
    def quick(self):
        return self.tier == 'quick'

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # ---- TLC ----
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=None, args=(), heap='6g'):
        meta = tempfile.mkdtemp(dir=self.scratch, prefix='meta')
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-Xss256m', '-Xmx' + heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-cp', JARS,
               'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
               '-config', os.path.join(SPEC, cfg or (module + '.cfg'))] + list(args) + \
              [os.path.join(SPEC, module + '.tla')]
        t = _T0()
        try:
            p = subprocess.run(cmd, cwd=self.scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout or self.pick(600, 7200))
            out, rc = p.stdout.decode('utf-8', 'replace'), p.returncode
        except subprocess.TimeoutExpired as ex:
            out, rc = (ex.stdout or b'').decode('utf-8', 'replace'), 'timeout'
        shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
        g, d = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        if not m:
            m = re.search(r'The number of states generated: (\d+)', out)
            if m:
                g = d = int(m.group(1))
        return {'rc': rc, 'out': out, 'generated': g, 'distinct': d, 'wall': _T0() - t,
                'ok': 'No error has been found' in out}

    def pmap(self, fn, items, n=8):
        """[fn(rng, item) ...] in forked workers, each item with random numbers of its own; results are plain data."""
        items = list(items)
        salt = self.rng.getrandbits(64)
        n = max(1, min(n, len(items)))
        d = tempfile.mkdtemp(dir=self.scratch, prefix='pmap')
        sys.stdout.flush()
        pids = []
        for w in range(n):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    with open(os.path.join(d, str(w)), 'w') as f:
                        for i in range(w, len(items), n):
                            f.write(json.dumps([i, fn(random.Random('%d/%d' % (salt, i)), items[i])], default=_odd) + '\n')
                    code = 0
                except BaseException as e:
                    inside = any(x.filename.startswith(REPO + '/') for x in traceback.extract_tb(e.__traceback__))
                    with open(os.path.join(d, 'error%d' % w), 'w') as f:
                        json.dump([traceback.format_exc(), inside], f)
                finally:
                    os._exit(code)
            pids.append(pid)
        codes_ = [os.waitpid(p, 0)[1] for p in pids]
        out = [None] * len(items)
        for w in range(n):
            err = os.path.join(d, 'error%d' % w)
            if os.path.exists(err):
                with open(err) as f:
                    raise ChildError(*json.load(f))
            if codes_[w]:
                raise InternalError('a worker ended with %d' % codes_[w])
            with open(os.path.join(d, str(w))) as f:
                for line in f:
                    i, x = json.loads(line)
                    out[i] = x
        shutil.rmtree(d, ignore_errors=True)
        return out

    def design(self, module, cfg=None, min_states=2, **kw):
        """Check the specification itself (independent of the implementation)."""
        r = self.tlc(module, cfg, **kw)
        if not r['ok'] or r['distinct'] < min_states:
            raise InternalError('design model %s/%s: %s' % (module, cfg, r['out'][-3000:]))
        self.states += r['distinct']
        self.transitions += r['generated']
        self.models.append({'module': module, 'config': cfg or module + '.cfg', 'distinct_states': r['distinct'],
                            'states_generated': r['generated'], 'wall_s': round(r['wall'], 1)})
        return r

    def generate(self, module, cfg=None, env=None, timeout=None, args=(), tag='GEN', workers=1):
        """Let TLC produce behaviours of the specification: every line tag|json it prints."""
        r = self.tlc(module, cfg, env=env, timeout=timeout, args=args, workers=workers)
        got = []
        for line in r['out'].splitlines():
            if line.startswith('"' + tag + '|'):
                s = json.loads(line)            # TLC prints the string quoted and escaped
                got.append(json.loads(s[len(tag) + 1:]))
        if not got:
            raise InternalError('generator %s produced nothing: %s' % (module, r['out'][-3000:]))
        self.models.append({'module': module, 'config': cfg or module + '.cfg', 'behaviours': len(got),
                            'states_generated': r['generated'], 'wall_s': round(r['wall'], 1)})
        self.states += r['distinct']
        self.transitions += r['generated']
        return got

    def validate(self, module, cases, describe=None, cfg='Trace.cfg', what='', timeout=None, limit=None):
        """Check recorded executions against the specification; record every rejected one."""
        if not cases:
            raise InternalError('no cases for ' + module)
        path = os.path.join(self.scratch, 'trace-%s-%d.ndjson' % (module, len(self.models)))
        with open(path, 'w') as f:
            for cs in cases:
                f.write(json.dumps(cs, default=_odd) + '\n')
        r = self.tlc(module, cfg, env={'TRACE': path}, timeout=timeout)
        bads = []
        for line in r['out'].splitlines():
            if line.startswith('"BAD|'):
                bads.append(json.loads(json.loads(line)[4:]))
        n = len(cases)
        shards = min(n, 64)
        want = sum(len(cs['ev']) + 1 for cs in cases) + shards
        if not bads:
            if r['ok'] and r['distinct'] == want:
                pass
            elif 'Error:' in r['out'] and 'Finished computing initial states' in r['out'] and r['rc'] != 'timeout' and 'OutOfMemory' not in r['out'] \
                    and 'StackOverflow' not in r['out'] \
                    and 'ndJsonDeserialize' not in r['out'] and 'parse' not in r['out'].split('Error:')[1][:200]:
                # an outcome the specification cannot even interpret
                m = re.findall(r'^/\\ c = (\d+)', r['out'], re.M)
                m2 = re.findall(r'^/\\ l = (\d+)', r['out'], re.M)
                bads.append({'c': int(m[-1]) if m else 1, 'l': int(m2[-1]) if m2 else 1,
                             'why': ['not interpretable', r['out'][-1500:]]})
            else:
                raise InternalError('trace validation %s: rc %s, %d of %d states\n%s'
                                    % (module, r['rc'], r['distinct'], want, r['out'][-3000:]))
        self.states += r['distinct']
        self.transitions += r['generated']
        self.traces += n
        ev = sum(len(cs['ev']) for cs in cases)
        self.events += ev
        self.models.append({'module': module, 'traces': n, 'events': ev, 'what': what,
                            'rejected': len(bads), 'wall_s': round(r['wall'], 1)})
        for k in sorted(set([0, n // 2, n - 1])):
            if len(self.samples) < 6:
                s = json.dumps(cases[k], default=_odd)
                self.samples.append({'trace_module': module, 'case': cases[k] if len(s) < 3000 else s[:3000] + '...'})
        for b in bads:
            cs = cases[b['c'] - 1]
            self.violations.append({'module': module, 'case': cs, 'event': b['l'], 'expected': b['why'],
                                    'got': cs['ev'][b['l'] - 1] if b['l'] <= len(cs['ev']) else None,
                                    'human': describe(cs) if describe else cs.get('note')})
        if bads and self.quick:
            raise Found()                   # one kind of violation is enough for an answer
        return bads

    # ---- verdict ----
    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.traces,
                           'events_validated_against_impl': self.events,
                           'models': self.models, 'samples': self.samples[:6],
                           'exhaustive_parts': self.exhaustive_parts},
              'assumptions': self.notes, 'wall_s': round(_T0() - self.t0, 2), 'violations': len(self.violations)}
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violations:
            path = os.path.join(EVID, self.pid + '.replay.json')
            with open(path, 'w') as f:
                json.dump(self.violations[:20], f, indent=1)
            for v in self.violations[:3]:
                print('rejected: %s' % ' '.join('%s=%s' % (k, json.dumps(v[k])[:700]) for k in ('module', 'event', 'expected', 'got', 'human')))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        stale = os.path.join(EVID, self.pid + '.replay.json')
        if os.path.exists(stale):
            os.remove(stale)
        print('%s %s: held on %d traces (%d events), %d model states, %.1fs'
              % (self.pid, self.tier, self.traces, self.events, self.states, _T0() - self.t0))
        return 0
