# -*- coding: utf-8 -*-
"""Bounded exhaustive explorer (runs under Jython 2.7, next to the code).

A *space* is a finite product of named choice points.  ``free`` choice points
are fully crossed; ``dev`` choice points are explored up to ``k`` simultaneous
deviations from their first (default) option, which is the same bounding that
delay/deviation bounded model checkers use.  Every configuration of the space
is executed on the real implementation and compared with a reference model;
nothing is sampled.
"""
import itertools
import json
import os
import sys
import traceback
from java.lang import Throwable, Runtime, Thread as JThread, Runnable, System


class Violation(Exception):
    pass


class Refused(Exception):
    """The implementation raised where the caller asked for a value"""


FREE, DEV = 'free', 'dev'


def free(name, options):
    return (name, list(options), FREE)


def dev(name, options):
    return (name, list(options), DEV)


class Space(object):
    def __init__(self, name, dims, check, k=2, skip=None, note=''):
        self.name = name
        self.dims = dims
        self.check = check
        self.k = k
        self.skip = skip
        self.note = note
        self.fr = [i for i, d in enumerate(dims) if d[2] == FREE]
        self.dv = [i for i, d in enumerate(dims) if d[2] == DEV]

    def vectors(self, shard, nshards):
        """all index vectors of the space that belong to ``shard``"""
        n = 0
        base = [0] * len(self.dims)
        lists = [range(len(self.dims[i][1])) for i in self.fr]
        devsets = []
        for r in range(0, min(self.k, len(self.dv)) + 1):
            for combo in itertools.combinations(self.dv, r):
                devsets.append(combo)
        for fvec in itertools.product(*lists):
            for combo in devsets:
                ranges = [xrange(1, len(self.dims[i][1])) for i in combo]
                for dvec in itertools.product(*ranges):
                    n += 1
                    if (n * 40503 >> 7) % nshards != shard:
                        continue
                    v = base[:]
                    for i, x in zip(self.fr, fvec):
                        v[i] = x
                    for i, x in zip(combo, dvec):
                        v[i] = x
                    yield v

    def config(self, vec):
        return dict((d[0], d[1][x]) for d, x in zip(self.dims, vec))


class Watch(Runnable):
    def __init__(self, ctx, limit_ms):
        self.ctx = ctx
        self.limit = limit_ms

    def run(self):
        while True:
            JThread.sleep(500)
            ctx = self.ctx
            cur = ctx.current
            if cur is None:
                continue
            started = ctx.started
            if System.currentTimeMillis() - started > self.limit:
                if ctx.current is cur and ctx.started == started:
                    ctx.hang()


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


class Ctx(object):
    MAXV = 1 if os.environ.get('VERIF_FAST') else 12

    def __init__(self, prop, tier, shard, nshards, out):
        self.prop, self.tier = prop, tier
        self.shard, self.nshards, self.out = shard, nshards, out
        self.quick = tier != 'thorough'
        self.states = 0
        self.ops = 0
        self.traces = 0
        self.outcomes = {}
        self.spaces = {}
        self.samples = []
        self.violations = []
        self.current = None
        self.started = 0
        self.extra_states = set()
        self.stopped = False

    # -- used by checks ---------------------------------------------------
    def op(self, n=1):
        self.ops += n

    def state(self, key):
        """an intermediate state of an operation history"""
        self.extra_states.add(hash(key))

    def eq(self, actual, expected, what):
        if actual != expected:
            raise Violation('%s: got %s, expected %s'
                            % (what, short(actual), short(expected)))

    def fail(self, msg):
        raise Violation(msg)

    def call(self, fn, *a, **kw):
        """run fn; return ('ok', value) or ('exc', exception)"""
        self.ops += 1
        try:
            return 'ok', fn(*a, **kw)
        except Violation:
            raise
        except Exception, e:
            return 'exc', e
        except Throwable, e:
            return 'exc', e

    def must(self, what, fn, *a, **kw):
        """run fn, which must not raise"""
        self.ops += 1
        try:
            return fn(*a, **kw)
        except Violation:
            raise
        except (Exception, Throwable), e:
            raise Violation('%s raised %s: %s' % (
                what, e.__class__.__name__, short(str_exc(e))))

    def refuses(self, what, exc, fn, *a, **kw):
        st, v = self.call(fn, *a, **kw)
        if st == 'ok':
            raise Violation('%s was accepted (returned %s)' % (what, short(v)))
        if exc is not None and not isinstance(v, exc):
            raise Violation('%s raised %s (%s) instead of %s' % (
                what, v.__class__.__name__, short(str_exc(v)), exc))

    # -- driver -----------------------------------------------------------
    def hang(self):
        sp, vec = self.current
        self.violations.append(dict(
            space=sp.name, vec=vec, cfg=short(sp.config(vec), 2000),
            msg='does not terminate (no result after %d s)'
            % (HANG_MS // 1000)))
        self.flush('hang')
        Runtime.getRuntime().halt(0)

    def run_one(self, sp, vec):
        cfg = sp.config(vec)
        if sp.skip is not None and sp.skip(cfg):
            return False
        self.started = System.currentTimeMillis()
        self.current = (sp, vec)
        try:
            try:
                label = sp.check(cfg, self)
            except Violation, e:
                self.violations.append(dict(
                    space=sp.name, vec=vec, cfg=short(cfg, 2000),
                    msg=e.args[0]))
                label = 'VIOLATION'
            except (Exception, Throwable), e:
                # the driver of this configuration could not go on: the
                # implementation handed it something it has no use for
                tb = traceback.extract_tb(sys.exc_info()[2])
                self.violations.append(dict(
                    space=sp.name, vec=vec, cfg=short(cfg, 2000),
                    msg='unexpected %s: %s at %s' % (
                        e.__class__.__name__, short(str_exc(e)),
                        ['%s:%d' % (os.path.basename(x[0]), x[1])
                         for x in tb[-4:]])))
                label = 'VIOLATION'
        finally:
            self.current = None
        self.states += 1
        self.traces += 1
        label = printable('%s: %s' % (sp.name, label))
        self.outcomes[label] = self.outcomes.get(label, 0) + 1
        return True

    def run_space(self, sp):
        n = 0
        pick = None
        for vec in sp.vectors(self.shard, self.nshards):
            if self.run_one(sp, vec):
                n += 1
                if n in (1, 50):
                    pick = vec
                    if len(self.samples) < 12:
                        self.samples.append('%s %s' % (
                            sp.name, short(sp.config(vec), 300)))
            if len(self.violations) >= self.MAXV:
                self.stopped = True
                break
        self.spaces[sp.name] = dict(
            configs=n, k=(sp.k if sp.dv else None), note=sp.note,
            dims=dict((d[0], '%s:%d' % (d[2], len(d[1]))) for d in sp.dims))

    def flush(self, status):
        for v in self.violations:
            for k in ('cfg', 'msg'):
                v[k] = printable(v[k])
        self.samples = [printable(x) for x in self.samples]
        d = dict(status=status, states=self.states, ops=self.ops,
                 traces=self.traces, extra_states=len(self.extra_states),
                 outcomes=self.outcomes, spaces=self.spaces,
                 samples=self.samples, violations=self.violations,
                 stopped=self.stopped)
        tmp = self.out + '.tmp'
        f = open(tmp, 'wb')
        f.write(json.dumps(d))
        f.flush()
        f.close()
        os.rename(tmp, self.out)


def printable(s):
    return ''.join([c if 32 <= ord(c) < 127 or c == '\n' else
                    '\\x%02x' % ord(c) for c in s])


def str_exc(e):
    try:
        return unicode(e)
    except Exception:
        try:
            return repr(e)
        except Exception:
            return '?'


HANG_MS = 60000


def main(argv):
    prop, tier, shard, nshards, out = argv[:5]
    repo = os.environ.get('VERIF_REPO', '/repo')
    sys.path.insert(0, repo)
    ctx = Ctx(prop, tier, int(shard), int(nshards), out)
    mod = __import__('props.%s' % prop.lower(), fromlist=['spaces'])
    import messaging
    where = os.path.dirname(os.path.abspath(messaging.__file__))
    if not where.startswith(os.path.realpath(repo)) and \
            not where.startswith(repo):
        raise SystemExit('wrong library imported: %s' % where)
    spaces = mod.spaces(tier)
    t = JThread(Watch(ctx, HANG_MS))
    t.setDaemon(True)
    t.start()
    if len(argv) > 5:                       # replay: one configuration
        rep = json.loads(argv[5])
        for sp in spaces:
            if sp.name == rep['space']:
                ctx.run_one(sp, rep['vec'])
                ctx.flush('ok')
                return
        raise SystemExit('no space %s' % rep['space'])
    only = os.environ.get('VERIF_SPACE')
    for sp in spaces:
        if only and sp.name != only:
            continue
        if os.environ.get('VERIF_VERBOSE'):
            t0 = System.currentTimeMillis()
        ctx.run_space(sp)
        if os.environ.get('VERIF_VERBOSE'):
            sys.stderr.write('%s shard %s: %d configs %.1fs\n' % (
                sp.name, shard, ctx.spaces[sp.name]['configs'],
                (System.currentTimeMillis() - t0) / 1000.0))
        if ctx.stopped:
            break
    if hasattr(mod, 'cleanup'):
        mod.cleanup()
    ctx.flush('ok')
