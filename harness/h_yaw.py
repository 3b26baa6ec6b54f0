#!/usr/bin/env python3
"""C27: the compass helper (init_yaw_from_compass.py): every sequence of heading messages between its cycles, run on the
real script behind stand-in rospy / tf / dynamic_reconfigure modules.  Same command line and output as the C++ explorer."""
import sys, os, io, json, math, time, types, tokenize, itertools, multiprocessing, contextlib
REPO = os.environ['MC_REPO']; SRC = REPO + '/msf_updates/src/position_msf/init_yaw_from_compass.py'

def py3(src):
    """the script is Python 2: turn its print statements into calls, nothing else"""
    try: compile(src, 'x', 'exec'); return src
    except SyntaxError: pass
    toks = list(tokenize.generate_tokens(io.StringIO(src).readline)); out = []; start = True; closing = False
    for i, t in enumerate(toks):
        if start and t.type == tokenize.NAME and t.string == 'print' and toks[i + 1].string != '(':
            out.append((tokenize.NAME, 'print')); out.append((tokenize.OP, '(')); closing = True; start = False; continue
        if closing and t.type in (tokenize.NEWLINE, tokenize.COMMENT): out.append((tokenize.OP, ')')); closing = False
        if t.type in (tokenize.NEWLINE, tokenize.INDENT, tokenize.DEDENT) or t.string in (';', ':'): start = True
        elif t.type not in (tokenize.NL, tokenize.COMMENT): start = False
        out.append((t.type, t.string))
    return tokenize.untokenize(out)

class Msg(object):
    def __init__(self, *a, **k):
        for n, v in zip(getattr(self, 'F', ()), a): setattr(self, n, v)
        for n, v in k.items(): setattr(self, n, v)
class Vector3(Msg): F = ('x', 'y', 'z')
class Quaternion(Msg): F = ('x', 'y', 'z', 'w')
class Imu(Msg): F = ('orientation',)
class Float64(Msg): F = ('data',)

def euler(q, axes='sxyz'):
    x, y, z, w = [float(v) for v in q[:4]]
    n = x * x + y * y + z * z + w * w; s = 2.0 / n if n > 0 else 0
    r = math.atan2(s * (y * z + w * x), 1 - s * (x * x + y * y)); p = -math.asin(max(-1, min(1, s * (x * z - w * y)))); h = math.atan2(s * (x * y + w * z), 1 - s * (y * y + z * z))
    if axes != 'sxyz': raise RuntimeError('axes not provided by the stand-in')
    return (r, p, h)

class Fail(Exception):
    def __init__(self, key, msg): self.key, self.msg = key, msg

class World:
    def __init__(self, params, ticks):
        self.params, self.ticks, self.subs, self.upd = params, list(ticks), {}, []
        self.want = None; self.fresh = False; self.n = 0; self.client = []; self.down = False; self.transitions = 0; self.checks = 0; self.trace = []
    def sleep(self):
        self.n += 1; self.checks += 1
        if self.n > 50: raise Fail('endless', 'the script does not stop')
        if self.want is None:
            if self.upd: raise Fail('early-write', 'configuration written before any heading was received: %s' % self.upd[0])
        else:
            if self.due and not self.upd: raise Fail('no-write', 'the heading %.9g received before the last cycle was not written' % self.want)
            for u in self.upd:
                if set(u) != {'position_yaw_init'}: raise Fail('other-parameter', 'written: %s' % u)
                if not abs(u['position_yaw_init'] - self.want) < 1e-9: raise Fail('wrong-heading', 'written %.12g, the newest heading is %.12g degrees' % (u['position_yaw_init'], self.want))
        self.upd = []
        if not self.ticks: self.down = True; return
        for m in self.ticks.pop(0): self.deliver(m)
        self.due = self.want is not None
    due = False
    def deliver(self, m):
        topic, make, deg, text = MESSAGES[m]; self.transitions += 1; self.trace.append(text)
        if topic not in self.subs: raise Fail('not-subscribed', topic)
        try: self.subs[topic](make())
        except Exception as e: raise Fail('callback-raised', '%s: %s' % (text, e))
        self.want = deg

def attitude(r, p, h):
    cr, sr, cp, sp, ch, sh = math.cos(r / 2), math.sin(r / 2), math.cos(p / 2), math.sin(p / 2), math.cos(h / 2), math.sin(h / 2)
    return Quaternion(sr * cp * ch - cr * sp * sh, cr * sp * ch + sr * cp * sh, cr * cp * sh - sr * sp * ch, cr * cp * ch + sr * sp * sh)
def mk(k):
    h = (0.4, -2.5, 3.0)[k]; r, p = ((0, 0), (0.3, -0.2), (-0.6, 0.5))[k]
    return [('imu', lambda: Imu(attitude(r, p, h)), math.degrees(h), 'imu heading %g rad (roll %g, pitch %g)' % (h, r, p)),
            ('orientation_quaternion', lambda: attitude(r, p, h - 0.1), math.degrees(h - 0.1), 'quaternion heading %g rad' % (h - 0.1)),
            ('orientation_degrees', lambda: Vector3(5.0, 7.0, 100 * h), 100 * h, 'orientation %g degrees' % (100 * h)),
            ('heading_radians', lambda: Float64(h + 0.2), math.degrees(h + 0.2), 'heading %g rad' % (h + 0.2))]
MESSAGES = mk(0) + mk(1) + mk(2)
PARAMS = [{}, {'msf_sensor_node': '/other/position_sensor'}]

def run(code, p, ticks):
    """one execution; returns (world, failure or None)"""
    w = World(PARAMS[p], ticks)
    def mod(name, **k):
        m = types.ModuleType(name); m.__dict__.update(k); sys.modules[name] = m; return m
    class Rate:
        def __init__(self, hz): pass
        def sleep(self): w.sleep()
    def subscriber(topic, cls, cb, *a, **k): w.subs[topic.strip('/~')] = cb
    class Client:
        def __init__(self, name, *a, **k): w.client.append(name)
        def update_configuration(self, d): w.upd.append(dict(d)); return d
    class Shut(Exception): pass
    nop = lambda *a, **k: None
    mod('roslib', load_manifest=nop)
    mod('rospy', init_node=nop, get_param=lambda n, *d: w.params.get(n.strip('/~'), *d), Subscriber=subscriber, Rate=Rate, is_shutdown=lambda: w.down, sleep=lambda s: w.sleep(), loginfo=nop, logwarn=nop, logerr=nop, logdebug=nop, ROSInterruptException=Shut)
    mod('geometry_msgs'); mod('geometry_msgs.msg', Vector3=Vector3, Quaternion=Quaternion)
    mod('sensor_msgs'); mod('sensor_msgs.msg', Imu=Imu); mod('std_msgs'); mod('std_msgs.msg', Float64=Float64)
    tr = mod('tf.transformations', euler_from_quaternion=euler); mod('tf', transformations=tr)
    c = mod('dynamic_reconfigure.client', Client=Client); mod('dynamic_reconfigure', client=c)
    try:
        with contextlib.redirect_stdout(io.StringIO()): exec(code, {'__name__': '__main__'})
        want = PARAMS[p].get('msf_sensor_node', 'msf_gps_pose_estimator/position_sensor'); w.checks += 1
        if w.client != [want]: raise Fail('wrong-node', 'configures %s instead of %s' % (w.client, want))
        if w.ticks: raise Fail('stopped', 'the script ended while running')
    except Fail as f: return w, f
    except Exception as e: return w, Fail('script-raised', '%s: %s' % (type(e).__name__, e))
    return w, None

def single(): return [()] + [(i,) for i in range(len(MESSAGES))]
def pairs(): return single() + [(i, j) for i in range(8) for j in range(8)]
def space(name, th):
    if name == 'c27_single': return itertools.product(range(2), *([single()] * (6 if th else 5)))
    return itertools.product(range(2), *([pairs()] * (3 if th else 2)))
SC = ['c27_single', 'c27_pairs']
def part(a):
    name, th, k, n = a; code = compile(py3(open(SRC).read()), SRC, 'exec'); r = dict(e=0, t=0, c=0, st=set(), out=set(), vio={}, smp=[])
    for i, s in enumerate(space(name, th)):
        if i % n != k: continue
        w, f = run(code, s[0], s[1:]); r['e'] += 1; r['t'] += w.transitions + w.n; r['c'] += w.checks
        r['st'].add((s[0], w.want, len(w.upd))); r['out'].add((s[0], s[1:]))
        if len(r['smp']) < 2: r['smp'].append(dict(scenario=name, choices=[i], events=w.trace))
        if f:
            v = r['vio'].setdefault(f.key, [0, i, f.msg, w.trace]); v[0] += 1
    return r
def main():
    a = sys.argv[1:]; opt = lambda n, d=None: a[a.index(n) + 1] if n in a else d
    th = opt('--tier', 'quick') == 'thorough'; t0 = time.time()
    if '--replay' in a:
        name, idx = opt('--replay').split(':'); code = compile(py3(open(SRC).read()), SRC, 'exec'); s = next(itertools.islice(space(name, th), int(idx), None)); w, f = run(code, s[0], s[1:])
        print('\n'.join(w.trace)); print('replay result:', '%s: %s' % (f.key, f.msg) if f else 'no violation'); sys.exit(1 if f else 0)
    only = opt('--only', '*').split(','); res = dict(executions=0, transitions=0, comparisons=0, states=0, outcomes=0, max_deviation=0.0, exhaustive=True, scenarios=[], samples=[], violations=[])
    for name in SC:
        if not any(name == o or (o.endswith('*') and name.startswith(o[:-1])) for o in only): continue
        t1 = time.time()
        with multiprocessing.Pool(8) as pool: rs = pool.map(part, [(name, th, k, 8) for k in range(8)])
        e, t, c = (sum(r[x] for r in rs) for x in 'etc'); st = set().union(*(r['st'] for r in rs)); out = set().union(*(r['out'] for r in rs))
        res['scenarios'].append(dict(scenario=name, executions=e, transitions=t, comparisons=c, distinct_states=len(st), distinct_outcomes=len(out), max_deviation=0.0, exhaustive=True, seconds=round(time.time() - t1, 1)))
        res['executions'] += e; res['transitions'] += t; res['comparisons'] += c; res['states'] += len(st); res['outcomes'] += len(out); res['samples'] += rs[0]['smp'] + rs[1]['smp']
        keys = sorted(set(k for r in rs for k in r['vio']))
        for k in keys:
            v = [r['vio'][k] for r in rs if k in r['vio']]; b = min(v, key=lambda x: x[1])
            res['violations'].append(dict(key=k, msg=b[2], scenario=name, choices=[b[1]], count=sum(x[0] for x in v), trace=b[3]))
    res['wall_s'] = round(time.time() - t0, 2); json.dump(res, open(opt('--out'), 'w'))
main()
