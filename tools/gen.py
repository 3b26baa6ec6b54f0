#!/usr/bin/env python3
"""gen.py REPO OUT: generate message, service and reconfigure headers from the repository's own
.msg/.srv/.cfg files (plus the standard ROS messages listed below), the way catkin would."""
import sys, os, re, types, glob
repo, out = sys.argv[1], sys.argv[2]
STD = {
 'std_msgs/Header': 'uint32 seq\ntime stamp\nstring frame_id',
 'geometry_msgs/Vector3': 'float64 x\nfloat64 y\nfloat64 z',
 'geometry_msgs/Point': 'float64 x\nfloat64 y\nfloat64 z',
 'geometry_msgs/Quaternion': 'float64 x\nfloat64 y\nfloat64 z\nfloat64 w',
 'geometry_msgs/Pose': 'Point position\nQuaternion orientation',
 'geometry_msgs/PoseStamped': 'Header header\nPose pose',
 'geometry_msgs/PointStamped': 'Header header\nPoint point',
 'geometry_msgs/PoseWithCovariance': 'Pose pose\nfloat64[36] covariance',
 'geometry_msgs/PoseWithCovarianceStamped': 'Header header\nPoseWithCovariance pose',
 'geometry_msgs/Transform': 'Vector3 translation\nQuaternion rotation',
 'geometry_msgs/TransformStamped': 'Header header\nstring child_frame_id\nTransform transform',
 'geometry_msgs/Twist': 'Vector3 linear\nVector3 angular',
 'geometry_msgs/TwistWithCovariance': 'Twist twist\nfloat64[36] covariance',
 'nav_msgs/Odometry': 'Header header\nstring child_frame_id\ngeometry_msgs/PoseWithCovariance pose\ngeometry_msgs/TwistWithCovariance twist',
 'sensor_msgs/Imu': 'Header header\ngeometry_msgs/Quaternion orientation\nfloat64[9] orientation_covariance\ngeometry_msgs/Vector3 angular_velocity\nfloat64[9] angular_velocity_covariance\ngeometry_msgs/Vector3 linear_acceleration\nfloat64[9] linear_acceleration_covariance',
 'sensor_msgs/NavSatStatus': 'int8 status\nuint16 service',
 'sensor_msgs/NavSatFix': 'Header header\nsensor_msgs/NavSatStatus status\nfloat64 latitude\nfloat64 longitude\nfloat64 altitude\nfloat64[9] position_covariance\nuint8 position_covariance_type\nuint8 COVARIANCE_TYPE_UNKNOWN=0\nuint8 COVARIANCE_TYPE_APPROXIMATED=1\nuint8 COVARIANCE_TYPE_DIAGONAL_KNOWN=2\nuint8 COVARIANCE_TYPE_KNOWN=3',
}
PRIM = {'bool':'uint8_t','int8':'int8_t','uint8':'uint8_t','int16':'int16_t','uint16':'uint16_t','int32':'int32_t',
 'uint32':'uint32_t','int64':'int64_t','uint64':'uint64_t','float32':'float','float64':'double','string':'std::string',
 'time':'ros::Time','duration':'ros::Duration'}
def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path,'w').write(text)
def resolve(t, pkg):
    if t in PRIM: return PRIM[t], None
    if t == 'Header': t = 'std_msgs/Header'
    if '/' not in t: t = pkg + '/' + t
    return '::' + t.replace('/','::'), t
def body(text, pkg, name):
    incs, fields, consts, ctor = set(), [], [], []
    for l in text.splitlines():
        l = l.split('#')[0].strip()
        if not l: continue
        m = re.match(r'^(\S+)\s+(\w+)\s*=\s*(.*)$', l)
        if m:
            consts.append((PRIM[m.group(1)], m.group(2), m.group(3))); continue
        t, n = l.split()[:2]
        m = re.match(r'^(.*?)(\[(\d*)\])?$', t)
        c, dep = resolve(m.group(1), pkg)
        if dep: incs.add(dep)
        if m.group(2) is None: fields.append((c, n)); 
        elif m.group(3): fields.append(('boost::array<%s, %s>' % (c, m.group(3)), n)); ctor.append('%s.assign(%s());' % (n, c))
        else: fields.append(('std::vector<%s>' % c, n))
    prim = set(PRIM.values())
    s = 'struct %s {\n' % name
    for c, n in fields: s += '  typedef %s _%s_type; %s %s%s;\n' % (c, n, c, n, '{}' if c in prim else '')
    s += '  %s() { %s }\n' % (name, ' '.join(ctor))
    if consts: s += '  enum { ' + ', '.join('%s = %s' % (n, v) for c, n, v in consts) + ' };\n'
    s += '  typedef boost::shared_ptr< %s > Ptr;\n  typedef boost::shared_ptr< %s const> ConstPtr;\n};\n' % (name, name)
    return incs, s
def emit(full, text):
    pkg, name = full.split('/')
    incs, s = body(text, pkg, name)
    g = 'GEN_%s_%s_H' % (pkg, name)
    h = '#ifndef %s\n#define %s\n#include <cstdint>\n#include <string>\n#include <vector>\n#include <boost/array.hpp>\n#include <boost/shared_ptr.hpp>\n#include <ros/time.h>\n' % (g, g)
    for i in sorted(incs): h += '#include <%s.h>\n' % i
    h += 'namespace %s {\n%stypedef boost::shared_ptr< %s > %sPtr;\ntypedef boost::shared_ptr< %s const> %sConstPtr;\n}\n#endif\n' % (pkg, s, name, name, name, name)
    write('%s/%s.h' % (out, full), h)
for k, v in STD.items(): emit(k, v)
for f in sorted(glob.glob(repo + '/sensor_fusion_comm/msg/*.msg')):
    emit('sensor_fusion_comm/' + os.path.basename(f)[:-4], open(f).read())
for f in sorted(glob.glob(repo + '/sensor_fusion_comm/srv/*.srv')):
    n = os.path.basename(f)[:-4]
    req, res = re.split(r'^---\s*$', open(f).read(), maxsplit=1, flags=re.M)
    i1, a = body(req, 'sensor_fusion_comm', n + 'Request')
    i2, b = body(res, 'sensor_fusion_comm', n + 'Response')
    g = 'GEN_SRV_' + n
    h = '#ifndef %s\n#define %s\n#include <cstdint>\n#include <string>\n#include <vector>\n#include <boost/array.hpp>\n#include <boost/shared_ptr.hpp>\n#include <ros/time.h>\n' % (g, g)
    for i in sorted(i1 | i2): h += '#include <%s.h>\n' % i
    h += 'namespace sensor_fusion_comm {\n%s%sstruct %s { typedef %sRequest Request; typedef %sResponse Response; Request request; Response response; };\n}\n#endif\n' % (a, b, n, n, n)
    write('%s/sensor_fusion_comm/%s.h' % (out, n), h)
# reconfigure: execute the .cfg files with stand-in generator modules
class Gen:
    def __init__(self): self.consts, self.params = [], []
    def const(self, name, typ, val, desc): self.consts.append((name, val)); return {'name': name, 'value': val, 'type': typ}
    def enum(self, l, d): return ''
    def add_group(self, *a, **k): return self
    def add(self, name, paramtype='double', level=0, description='', default=None, min=None, max=None, edit_method=''):
        self.params.append((name, paramtype, level, default, min, max))
    def generate(self, pkg, node, name):
        T = {'bool': 'bool', 'int': 'int', 'double': 'double', 'str': 'std::string'}
        def lit(t, v):
            if t == 'bool': return 'true' if v else 'false'
            if t == 'str': return '"%s"' % (v or '')
            if t == 'int': return str(int(v or 0))
            return repr(float(v or 0))
        g = 'GEN_CFG_%s_%s' % (pkg, name)
        h = '#ifndef %s\n#define %s\n#include <string>\n#include <cstdint>\nnamespace %s {\nstruct %sConfig {\n' % (g, g, pkg, name)
        for n, t, l, d, mi, ma in self.params: h += '  %s %s = %s;\n' % (T[t], n, lit(t, d))
        h += '  template<class F> static void forEach(F f) {\n'
        for n, t, l, d, mi, ma in self.params:
            dmin = lit(t, mi) if mi is not None else ('-1e300' if t == 'double' else '0')
            dmax = lit(t, ma) if ma is not None else ('1e300' if t == 'double' else '1')
            if t == 'str': continue
            h += '    f("%s", &%sConfig::%s, %du, (double)%s, (double)%s);\n' % (n, name, n, l, dmin, dmax)
        h += '  }\n};\n'
        for n, v in self.consts: h += 'const int %s_%s = %s;\n' % (name, n, v)
        h += '}\n#endif\n'
        write('%s/%s/%sConfig.h' % (out, pkg, name), h)
        return 0
rl = types.ModuleType('roslib'); rl.load_manifest = lambda *a: None
dr = types.ModuleType('dynamic_reconfigure'); pg = types.ModuleType('dynamic_reconfigure.parameter_generator_catkin')
pg.ParameterGenerator = Gen
for t in ('bool', 'int', 'double', 'str'): setattr(pg, t + '_t', t)
pg2 = types.ModuleType('dynamic_reconfigure.parameter_generator'); pg2.__dict__.update({k: v for k, v in pg.__dict__.items() if not k.startswith('__')})
sys.modules.update({'roslib': rl, 'dynamic_reconfigure': dr, 'dynamic_reconfigure.parameter_generator_catkin': pg, 'dynamic_reconfigure.parameter_generator': pg2})
for f in sorted(glob.glob(repo + '/msf_core/cfg/*.cfg') + glob.glob(repo + '/msf_updates/cfg/*.cfg') + glob.glob(repo + '/msf_distort/cfg/*.cfg')):
    try: exec(compile(open(f).read(), f, 'exec'), {'__name__': '__main__'})
    except SystemExit: pass
