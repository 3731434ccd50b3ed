#!/usr/bin/env python3
"""Run one check:  run.py C01 [quick|thorough]   |   run.py --replay FILE"""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
JAVA = ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-Xss4m']
JAR = '/usr/share/java/jython.jar'
JHOME = '/usr/share/jython'
NEED_JAVA = ('C25',)
# process time zones the shards run in (configuration dimension of C07/C08)
# (every zone runs the whole space)
ZONES = {'C07': ['UTC', 'America/St_Johns', 'Asia/Kathmandu', 'Pacific/Apia'],
         'C11': ['UTC', 'America/New_York']}
# everywhere else the shards run in different zones: no result depends on it
ROTATION = ['UTC', 'Asia/Kathmandu', 'America/New_York', 'Pacific/Apia',
            'Australia/Lord_Howe', 'America/St_Johns', 'Europe/London', 'UTC']


def load_known():
    path = os.path.join(HERE, 'known_findings.json')
    try:
        return json.load(open(path))['known']
    except FileNotFoundError:
        return []


def spawn(prop, tier, shard, n, out, replay=None, tz=None, mem='1800m'):
    env = {k: v for k, v in os.environ.items()
           if k not in ('CLASSPATH', 'PYTHONPATH', 'JYTHONPATH',
                        'JAVA_TOOL_OPTIONS', 'JYTHON_OPTS')}
    env.update(TZ=tz or 'UTC', LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1',
               HOME='/root')
    cmd = JAVA + ['-Xmx' + mem, '-Duser.timezone=' + (tz or 'UTC'),
                  '-Dfile.encoding=UTF-8', '-jar', JAR,
                  '-Dpython.home=' + JHOME, '-Dpython.cachedir.skip=true',
                  '-B', os.path.join(HERE, 'harness', 'main.py'),
                  prop, tier, str(shard), str(n), out]
    if replay:
        cmd.append(json.dumps(replay))
    return subprocess.Popen(cmd, env=env, cwd=os.path.join(HERE, 'harness'),
                            stdin=subprocess.DEVNULL)


def zone(prop, shard):
    z = ZONES.get(prop)
    return z[shard % len(z)] if z else ROTATION[shard % len(ROTATION)]


def compile_java(prop, tmp):
    """the scheduler's thread class"""
    if prop in NEED_JAVA:
        os.environ['VERIF_CLASSES'] = tmp
        subprocess.run(['javac', '-nowarn', '-cp', JAR, '-d', tmp, os.path.join(HERE, 'harness', 'java', 'StepTask.java')], check=True)


def first_violation(procs, known):
    """(mutation trials) the first violation ends the check"""
    left = list(procs)
    while left:
        time.sleep(0.2)
        for x in list(left):
            if x[2].poll() is not None:
                left.remove(x)
                if os.path.exists(x[1]) and any((v['space'], v['cfg'], v['msg']) not in known
                                                for v in json.load(open(x[1]))['violations']):
                    for y in left:
                        y[2].kill()
                    return


def do_replay(path):
    rep = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix='verif-')
    compile_java(rep['property'], tmp)
    try:
        out = os.path.join(tmp, 'o.json')
        rc = spawn(rep['property'], rep['tier'], 0, 1, out,
                   dict(space=rep['space'], vec=rep['vec']), rep['tz']).wait()
        if rc != 0 or not os.path.exists(out):
            print('replay failed to run (rc %s)' % rc)
            return 2
        d = json.load(open(out))
        if not d['violations']:
            print('not reproduced: the property held on this configuration')
            return 0
        v = d['violations'][0]
        print('configuration: %s\n%s' % (v['cfg'], v['msg']))
        print('VIOLATION property=%s replay=%s' % (rep['property'], path))
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if sys.argv[1] == '--replay':
        return do_replay(os.path.abspath(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    n = int(os.environ.get('VERIF_SHARDS', '8'))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif-')
    compile_java(prop, tmp)
    try:
        procs = [(i, os.path.join(tmp, '%d.json' % i)) for i in range(n)]
        z = len(ZONES.get(prop, [1]))
        procs = [(i, o, spawn(prop, tier, i // z, n // z, o, tz=zone(prop, i))) for i, o in procs]
        bad = []
        if os.environ.get('VERIF_FAST'):
            first_violation(procs, [(k['space'], k['cfg'], k['msg']) for k in load_known() if k['property'] == prop])
        for i, o, p in procs:
            rc = p.wait()
            if rc != 0 or not os.path.exists(o):
                bad.append((i, rc))
        res = [(i, json.load(open(o))) for i, o, p in procs if os.path.exists(o)]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    viol, known_hit = [], []
    known = [k for k in load_known() if k['property'] == prop]
    for i, d in res:
        for v in d['violations']:
            v['tz'] = zone(prop, i)
            hit = [k for k in known if (k['space'], k['cfg'], k['msg']) == (v['space'], v['cfg'], v['msg'])]
            if hit:
                known_hit.append(hit[0])
            else:
                viol.append(v)
    if bad and not viol:
        print('check error: shard(s) failed: %s' % bad)
        return 2
    states = sum(d['states'] + d['extra_states'] for i, d in res)
    outcomes, spaces, samples = {}, {}, []
    for i, d in res:
        for k, c in d['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + c
        for k, s in d['spaces'].items():
            if k in spaces:
                spaces[k]['configs'] += s['configs']
            else:
                spaces[k] = dict(s)
        if len(samples) < 24:
            samples.extend(d['samples'][:6])
    complete = all(not d['stopped'] and d['status'] == 'ok' for i, d in res) and not bad
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=states,
                            transitions=sum(d['ops'] for i, d in res),
                            traces_validated_against_impl=sum(d['traces'] for i, d in res),
                            exhaustive=complete,
                            distinct_outcome_classes=len(outcomes),
                            outcomes=dict(sorted(outcomes.items())[:400]),
                            spaces=spaces, samples=samples[:24],
                            rule='states: configurations of the bounded space plus distinct intermediate '
                                 'history states; transitions: operations executed on the implementation; '
                                 'traces: executions compared with the reference model'),
              assumptions=['Jython 2.7.3 is the interpreter the library runs on here',
                           'the reference models under /verif/harness state the 3GPP/WAP formats correctly'],
              wall_s=round(wall, 2), violations=len(viol))
    if not os.environ.get('VERIF_FAST'):
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    seen = set()
    for k in known_hit:
        if k['what'] not in seen:
            seen.add(k['what'])
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if viol:
        rd = os.path.join(HERE, 'replays')
        os.makedirs(rd, exist_ok=True)
        for j, v in enumerate(viol[:5]):
            path = os.path.join(rd, '%s-%d.json' % (prop, j))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, tier=tier, tz=v['tz'], space=v['space'],
                               vec=v['vec'], cfg=v['cfg'], msg=v['msg']), f, indent=1)
            print('%s %s\n  %s' % (v['space'], v['cfg'], v['msg']))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('property %s held: %d states, %d transitions, %d traces, %.1f s (%s)' % (
        prop, states, ev['coverage']['transitions'],
        ev['coverage']['traces_validated_against_impl'], wall,
        'exhaustive within bounds' if complete else 'incomplete'))
    return 0


sys.exit(main())
