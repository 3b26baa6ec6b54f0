"""What each property's check builds and runs."""
LIBSRC = ['msf_core/src/lib/falsecolor.cc', 'msf_core/src/lib/msf_tools.cc', 'msf_core/src/lib/gps_conversion.cc',
          'msf_core/src/similaritytransform.cc', 'msf_timing/src/Timer.cc', 'msf_updates/src/msf_distort/PoseDistorter.cc']
MGR = ('pose', 'position_pose', 'pose_pressure', 'spherical', 'position')
HARNESS = {
 'container': dict(src='h_container.cpp', san='full', cxx='g++', libs=['msf_core/src/lib/msf_tools.cc']),
}
CHECK = {
 'C15': dict(level='model_checking', runs=[('container', '*')],
   rule='every operation sequence over Insert/UpdateTime/ClearOlderThan/Clear with colliding times up to the depth bound, all queries compared with an ordered list after every step; an outcome is the final content',
   technique='exhaustive operation-sequence exploration of the real container against an ordered-list model (stateless model checking, ASan/UBSan and checked iterators)',
   note='Holds for every operation sequence up to the stated depth over the stated time alphabets (quick: 4-5 operations, all insertion orders of 6; thorough: 5-7, all orders of 8). Trusts the list model in harness/h_container.cpp. Times are finite.'),
}
NA = {}
for m in MGR:
    HARNESS['model_'+m] = dict(src='h_model.cpp', manager=m)
    HARNESS['out_'+m] = dict(src='h_out.cpp', manager=m)
    HARNESS['hist_'+m] = dict(src='h_hist.cpp', manager=m)
def H(pat, ms=MGR): return [('hist_' + m, pat) for m in ms]
LOCK = 'lock-step comparison of every published estimate and covariance with an independently written reference filter'
ENV = ['ROS is replaced by synchronous stand-ins (stubs/): messages arrive one at a time, as with the single-threaded ros::spin the nodes use',
       'IMU and reading values are fixed deterministic functions of the sample number; the explored dimension is order, time and kind of events']
CHECK['C01'] = dict(level='model_checking', runs=H('c01_*', ('pose', 'position_pose', 'pose_pressure', 'spherical')),
   rule='every interleaving of a fixed IMU stream with 2-4 readings over every assignment of reading times from a colliding alphabet (on, between, just after, ahead of IMU samples); the final full estimate must equal in-order processing and every intermediate output the reference; a distinct state is the buffered history, an outcome the final estimate',
   technique='exhaustive interleaving exploration of the real node (stateless model checking), ' + LOCK,
   note='Every interleaving within 7-10 IMU samples (thorough: up to 11) and up to 4 readings from one or two sensors, four nodes. Trusts harness/ref.hpp. Histories longer than the bound and more than four concurrent delayed readings are not covered.', assumptions=ENV)
CHECK['C02'] = dict(level='model_checking', runs=H('c02_*', ('position_pose', 'pose_pressure', 'pose')),
   rule='every sequence of up to 4 (thorough 5) events from {IMU sample, reading on/before/far before/repeated stamp/ahead/far ahead/older than history, initialization} from three start situations, then IMU samples until the queue must be empty; lock-step comparison after every event',
   technique='exhaustive event-sequence exploration of the real node, ' + LOCK,
   note='Every sequence up to the depth, three nodes. "Bounded number of samples" is checked as: one sample per pending reading after the time has passed.', assumptions=ENV)
CHECK['C03'] = dict(level='model_checking', runs=H('c03_*', ('pose', 'position_pose', 'pose_pressure', 'spherical')),
   rule='every assignment of good / two kinds of bad to 3 (thorough 4) readings, every interleaving with IMU samples, thresholds just above and below the innovation distance, every on/off combination; afterwards the estimate must equal the one of the accepted readings alone',
   technique='exhaustive exploration of reading qualities, arrival orders and thresholds on the real node, ' + LOCK,
   note='Readings of the leave-no-trace comparison lie on IMU sample times (a rejected reading between two samples still splits the integration step, which is within the truncation error). Four nodes.', assumptions=ENV)
CHECK['C04'] = dict(level='model_checking', runs=H('c04_*', ('pose', 'position', 'spherical', 'position_pose')),
   rule='every sequence of 3 (thorough 4) of 14 life-cycle events (IMU steps forward, zero, back, gap, reset, initialization, readings behind and ahead, external states valid, stale, gap, reset) from 7 start situations in lock-step with the reference; after every 2 (3) events a re-initialized node must equal a fresh one',
   technique='exhaustive event-sequence exploration of the real node, ' + LOCK,
   note='Every sequence up to the depth from each start situation, four nodes.', assumptions=ENV)
CHECK['C16'] = dict(level='model_checking', runs=H('c16_*', ('pose', 'pose_pressure')),
   rule='every combination of IMU step, run length around and beyond a minute, reading pattern and age of a late reading up to just below a minute, in lock-step with the reference that never drops anything; heap growth over successive 70 s for every reading pattern',
   technique='exhaustive exploration of a bounded space of long histories on the real node, ' + LOCK + ', heap accounting',
   note='Run lengths up to 75 s for late readings and 280 s for memory. Memory bound: less than 300 kB growth over 70 s after the first 140 s.', assumptions=ENV)
CHECK['C20'] = dict(level='model_checking', runs=H('c20_*', ('pose', 'position_pose', 'pose_pressure')),
   rule='every interleaving of IMU samples with 3-4 relative readings (and absolute ones of another sensor) over all time assignments, in lock-step with a reference that forms the correlation from the product of the transitions in time order; consistent increments for every offset, spacing and number; constant offsets for every order',
   technique='exhaustive interleaving exploration of the real node, ' + LOCK,
   note='Relative pose readings only (the repository has no relative mode for other sensors). Three nodes.', assumptions=ENV)


def M(pat, ms=MGR): return [('model_' + m, pat) for m in ms]
GRID = 'exhaustive exploration of a bounded product of configurations, estimates and readings on the real node (all transitions of a finite model of the environment), '
ALL = ('pose', 'position_pose', 'pose_pressure', 'spherical')
CHECK['C06'] = dict(level='model_checking', runs=M('c06_*', ('pose', 'pose_pressure', 'spherical')),
   rule='every combination of attitude, acceleration, rate, step size, bias situation for one prediction step; every sequence of 5 (thorough 6) readings from {normal, just below, just above, far above the spike limit}; sequences of many steps; every published state compared with the reference and with fine integration of the differential equations',
   technique=GRID + LOCK + ', which is itself compared with fine numerical integration of the strapdown equations',
   note='7 attitudes, 6 accelerations, 7 rates, 4 step sizes up to 0.09 s, with and without excited biases. Error bound against the differential equations follows the order of the integration scheme.', assumptions=ENV)
CHECK['C07'] = dict(level='model_checking', runs=M('c07_*', ('pose', 'position_pose', 'pose_pressure', 'spherical')),
   rule='every noise parameter (and every pair) at two levels x attitudes x motions x step sizes x numbers of steps; full covariance compared with the product of transitions plus integrated noise; transition compared with the numerical derivative of the state prediction for every attitude, rate, acceleration and step size',
   technique=GRID + LOCK,
   note='Covariance compared entry by entry (relative to the standard deviations) to 1e-8, to 1e-4 when |rate|*dt > 0.15 because the process noise integral is only documented to the truncation order.', assumptions=ENV)
CHECK['C08'] = dict(level='model_checking', runs=M('c08_*'),
   rule='every sensor x attitude x extrinsic calibration x frame convention x scale x bias situation x {consistent reading, reading displaced along every coordinate by two amounts}; every single state displaced in both directions; all directions around a spherical station; every posterior compared with the reference and checked to move towards the reading and the truth',
   technique=GRID + LOCK,
   note='All five nodes, all five sensors. Sensitivities of the reference are numerical derivatives of the sensor model. Attitude residuals near 180 degrees are excluded (the residual is singular there), as is a spherical station at distance zero.', assumptions=ENV)
CHECK['C09'] = dict(level='model_checking', runs=M('c09_*'),
   rule='every subset of fixed-state switches and fixed biases, set at start or while running; every combination of four noise levels per sensor, three prior uncertainties and sensor orders; message covariances of 4 shapes with and without off-diagonal terms; posterior compared with the Joseph-form update and prior minus posterior checked to be positive semidefinite',
   technique=GRID + LOCK,
   note='All five nodes; sequences of 3-5 updates.', assumptions=ENV)
CHECK['C10'] = dict(level='model_checking', runs=M('c10_*'),
   rule='every combination of attitude, calibration, frame convention, first reading, scale, yaw setting, missing and stale readings, for each way to initialize (button, scale, height, set height), including all requests that cannot be satisfied, before and while running; estimate after initialization compared with the documented one and with the readings it must reproduce',
   technique=GRID + LOCK,
   note='All five nodes; the estimate is observed through the first published prediction (0.1 ms after initialization) and the first update.', assumptions=ENV)
CHECK['C11'] = dict(level='model_checking', runs=M('c11_*'),
   rule='every sequence of 4 (thorough 5) reading spacings around the minimum interval; every delay incl. negative and changing; every sequence of message types, covariance sources and frame conventions; every pattern of sequence numbers for decimated sources; GPS fixes with every covariance type mixed with local readings',
   technique=GRID + LOCK,
   note='All five nodes (each the intake paths it has). The decimation of GPS fixes is not part of the sources.', assumptions=ENV)
CHECK['C21'] = dict(level='model_checking', runs=M('c21_*'),
   rule='every run-time parameter at two values, set at start, before initialization or while running; every ordered pair of parameters; set and restored; every start-up parameter alone and with others, or left at its default; a history exercising prediction and every sensor follows in lock-step',
   technique=GRID + LOCK,
   note='All five nodes and all parameters declared in their cfg files that influence the estimate; output frame names are covered by C13.', assumptions=ENV)

def O(pat, ms): return [('out_' + m, pat) for m in ms]
CHECK['C12'] = dict(level='model_checking', runs=O('c12_*', ('pose', 'position_pose', 'spherical')),
   rule='every sequence of 4 (thorough 5) events from {external state valid, older stamp, odd flags, short, correction, initialization; reading; IMU sample; correction message fed back} and every value of the flag, length and content of the message; published correction and hl state must reproduce the estimate, stale or malformed states must leave the estimate untouched',
   technique='exhaustive event-sequence exploration of the real node in the external-propagation role, ' + LOCK,
   note='Three nodes. The autopilot is modelled as one that adopts every correction at once or with one sample delay.', assumptions=ENV)
CHECK['C13'] = dict(level='model_checking', runs=O('c13_*', MGR),
   rule='every sequence of events up to the depth x every subset of subscribers x frame and naming parameters; every published message (state, pose, odometry, covariances, TF) compared field by field with the estimate of the reference at that time',
   technique='exhaustive event-sequence exploration of the real node, ' + LOCK,
   note='All five nodes. The stamp of the TF transform is the time of sending and is not compared.', assumptions=ENV)
CHECK['C14'] = dict(level='model_checking', runs=O('c14_*', ('pose', 'position_pose', 'pose_pressure', 'spherical')),
   rule='every pattern of jumps of a calibration or drift state over the reading history around the watchdog limit, every position in its ring of remembered deviations, re-initialization in between, mixtures of two sensors; the re-initialization of the drift states must happen exactly when the rule says and never otherwise',
   technique='exhaustive exploration of reading patterns on the real node, ' + LOCK,
   note='Four nodes; readings in time order (re-applied updates are counted again by the code).', assumptions=ENV)
for m in MGR: HARNESS['rob_' + m] = dict(src='h_robust.cpp', manager=m)
def R(pat, ms=MGR): return [('rob_' + m, pat) for m in ms]
CHECK['C05'] = dict(level='model_checking', runs=R('c05_*'),
   rule='every sequence of 3 (thorough 4) events from {IMU, vigorous IMU, IMU gap, reading in time / delayed / early, of either sensor, accurate or far off, external state} x every level of process, measurement and auxiliary noise x use of readings (fixed states, gate, relative, inverted poses); every ordered pair of events repeated over seconds; every singular attitude and place of the sensor models; after each event every published number must be finite, every attitude of unit norm, every covariance symmetric without negative eigenvalue',
   technique='exhaustive event-sequence exploration of the real node with invariants checked after every event',
   note='All five nodes. Relative pose readings next to a second sensor are explored separately (c05_relative_mixed, known finding).', assumptions=ENV)
for m in MGR: HARNESS['hostile_' + m] = dict(src='h_hostile.cpp', manager=m, san='addr', opt=['-O2'])
CHECK['C22'] = dict(level='model_checking', runs=[('hostile_' + m, 'c22_*') for m in MGR],
   rule='every ordered pair (thorough: triple) of some 45-65 hostile and ordinary events (NaN, infinite, huge or degenerate content, zero, repeated, backward, far-ahead and last representable stamps, short and long arrays, unknown flags, unsatisfiable requests) on every topic, service and run-time setting, from four start situations x parameter sets; memory errors, aborts and hangs are detected; then a re-initialization with fresh readings must give exactly the estimates of a fresh node',
   technique='exhaustive event-sequence exploration of the real node under AddressSanitizer, recovery in ' + LOCK,
   note='All five nodes. Reads of uninitialized memory are noticed only through their effect. Relative position readings (not implemented by the filter): memory safety only.', assumptions=ENV)
UL = ['msf_timing/src/Timer.cc', 'msf_core/src/lib/gps_conversion.cc', 'msf_core/src/similaritytransform.cc', 'msf_core/src/lib/msf_tools.cc', 'msf_core/src/lib/falsecolor.cc', 'msf_updates/src/msf_distort/PoseDistorter.cc']
HARNESS['util'] = dict(src='h_util.cpp', san='full', cxx='g++', libs=UL, flags=['-fsanitize=float-cast-overflow'])
HARNESS['util_hms'] = dict(src='h_util.cpp', san='full', cxx='g++', libs=UL, flags=['-DSM_TIMING_SHOW_HOURS', '-DSM_TIMING_SHOW_MINUTES'])
GR = 'exhaustive enumeration of operation sequences and of a grid of arguments on the real code, against a definition evaluated independently'
CHECK['C17'] = dict(level='model_checking', runs=[('util', 'c17_*'), ('util_hms', 'c17_text')],
   rule='every sequence of 5 (thorough 6) operations on two timers (construct running / stopped by tag / by handle, start, stop, destroy, clock steps forward and back, registry reset) under a controlled clock, every sequence of 7 (9) samples over a window of 3, block patterns around the window of 50 (on the accumulator and, through running timers of two names and every registry query by name and by handle, 3 blocks of 1/49/50/51/101 intervals of three durations), every second of several minutes as text; all statistics compared after every operation',
   technique='exhaustive operation-sequence exploration of the real timers under a controlled clock against recomputed statistics', note='One thread, as the nodes use it. Also under ASan/UBSan.', assumptions=['std::chrono::system_clock::now is replaced by a controlled clock'])
CHECK['C18'] = dict(level='model_checking', runs=[('util', 'c18_*'), ('model_position', 'c11_gps'), ('model_position_pose', 'c11_gps')],
   rule='every reference of an 11 x 11 x 5 grid over the globe (poles, equator, date line) x 8 displacements against the defining formulas in extended precision, all pairwise distances, height corrections; in the nodes every sequence of 4 fixes / local readings with the first fix as reference in lock-step with the reference filter',
   technique=GR + '; ' + LOCK, note='The grid stands for the continuum of coordinates.', assumptions=ENV)
CHECK['C19'] = dict(level='model_checking', runs=[('util', 'c19_*')],
   rule='every combination of rotation (6 angles x 4 axes), scale, translation, number (2-5, thorough 2-8), geometry and order of pose pairs, quaternion signs and requested outputs, restricted to well-conditioned sets by an independently computed condition number',
   technique=GR, note='Exact data only; the behaviour with noise is not specified.', assumptions=[])
CHECK['C23'] = dict(level='model_checking', runs=[('util', 'c23_*')],
   rule='every list of length 1-7 over four values (fixed and dynamic size), every vector of a 10^3 grid, a non-finite entry at every place of every matrix shape, every entry of every colour table',
   technique=GR, note='Under ASan/UBSan with float-cast checks.', assumptions=[])
CHECK['C24'] = dict(level='model_checking', runs=[('util', 'c24_*')],
   rule='every sequence of 4 time steps x mean drift rates x position / attitude / both, with negligible random part; drift and scale must accumulate as configured',
   technique=GR, note='The random part is not examined.', assumptions=[])
# scenarios of other harnesses that also decide a property
CHECK['C04']['runs'] += O('c14_init', ('pose', 'position_pose')) + O('c12_init', ('pose',))
CHECK['C04']['rule'] += '; initialization after every amount of watchdog history forgets it'
CHECK['C07']['runs'] += H('c01_close', ('pose', 'position_pose')) + H('c01_three', ('pose',))
CHECK['C07']['rule'] += '; covariance at readings between IMU samples, for every interleaving of delayed readings'

for k in range(7):
    HARNESS['layout_%d' % k] = dict(src='h_layout.cpp', flags=['-DFIRST=%d' % k], libs=['msf_core/src/lib/msf_tools.cc', 'msf_core/src/lib/falsecolor.cc'])
    HARNESS['layoutdeep_%d' % k] = dict(src='h_layout.cpp', flags=['-DFIRST=%d' % k, '-DDEEP'], libs=['msf_core/src/lib/msf_tools.cc', 'msf_core/src/lib/falsecolor.cc'])
HARNESS['relay'] = dict(src='h_relay.cpp', san='full', cxx='g++', libs=[])
CHECK['C25'] = dict(level='model_checking', runs=[('layout_%d' % k, '*', 'quick') for k in range(7)] + [('layoutdeep_%d' % k, '*', 'thorough') for k in range(7)],
   rule='every list of up to two (thorough three) auxiliary states of six kinds (3-vector, quaternion, scalar; drifting, calibration) behind the core states: offsets, lengths, exclusive and complete coverage of the error and full vectors, block access, correction, reset, vector round trip for every state',
   technique='exhaustive enumeration of state lists instantiated on the real templates, every index and operation compared with an independently computed layout',
   note='Lists of auxiliary states up to the stated length; the core states are the fixed ones of the nodes. The lists are finite and enumerated at compile time.', assumptions=[])
CHECK['C26'] = dict(level='model_checking', runs=[('relay', '*')],
   rule='every sequence of 5 (thorough 7) events from {message on each of the five inputs, each switch, both switches, unchanged settings} from every start-up setting of the switches; each message must come out once, unaltered, on the matching topic when enabled and not at all otherwise',
   technique='exhaustive event-sequence exploration of the real relay node', note='The distortion itself is C24; the relay is the pass-through part.', assumptions=ENV[:1])

for m in MGR: HARNESS['mix_'+m] = dict(src='h_mix.cpp', manager=m)
def X(pat, ms=MGR): return [('mix_' + m, pat) for m in ms]
MIX = '; one long history (55, thorough 110 IMU samples, readings of every sensor with delays) with every single disturbance of this kind at every place and every pair of disturbances on a coarser grid, lock-step'
for pid, pats, ms in (('C01', ('order', 'sorted', 'order2'), ('pose', 'position_pose', 'spherical', 'position')), ('C02', ('loss', 'loss2'), MGR), ('C03', ('gate', 'gate2'), ('pose', 'position_pose', 'pose_pressure', 'spherical')),
                      ('C04', ('life', 'life2'), ('pose', 'position_pose', 'spherical', 'position')), ('C06', ('imu', 'imu2'), ('pose', 'position_pose')), ('C12', ('ext', 'ext2'), ('pose', 'position_pose', 'spherical')),
                      ('C20', ('order', 'loss', 'life'), ('pose',)), ('C21', ('set', 'set2'), MGR)):
    for m in pats: CHECK[pid]['runs'] += X(m, ms)
    CHECK[pid]['rule'] += MIX

HARNESS['yaw'] = dict(py='h_yaw.py')
CHECK['C27'] = dict(level='model_checking', runs=[('yaw', '*')],
   rule='every sequence of 5 (thorough 6) cycles with at most one of 12 heading messages (four topics x three headings, with roll and pitch) between two cycles, and of 2 (3) cycles with every pair, with default and configured node name; every written configuration compared with the newest heading',
   technique='exhaustive event-sequence exploration of the real script behind stand-in rospy, tf and dynamic_reconfigure modules', note='The script is Python 2; its print statement is rewritten as a call before it is run. Effect of the written parameter in the node: C10, C21.', assumptions=['callbacks run while the script sleeps, one at a time'])
