#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long JSON lines stay readable)."""
import json, os
CORE='msf_core/include/msf_core/implementation/msf_core_inl.h'
MEAS='msf_core/include/msf_core/implementation/msf_measurement_inl.h'
STATE='msf_core/include/msf_core/implementation/msf_state_inl.h'
SC='msf_core/include/msf_core/msf_sortedContainer.h'
ROSM='msf_core/include/msf_core/msf_sensormanagerROS.h'
IMUR='msf_core/include/msf_core/msf_IMUHandler_ROS.h'
CQ='msf_core/include/msf_core/implementation/calcQCore.h'
U='msf_updates/include/msf_updates/'
POSEM=U+'pose_sensor_handler/pose_measurement.h'
POSEH=U+'pose_sensor_handler/implementation/pose_sensorhandler.hpp'
POSM=U+'position_sensor_handler/position_measurement.h'
POSH=U+'position_sensor_handler/implementation/position_sensorhandler.hpp'
PRM=U+'pressure_sensor_handler/pressure_measurement.h'
PRH=U+'pressure_sensor_handler/implementation/pressure_sensorhandler.hpp'
SPM=U+'spherical_position_sensor/spherical_measurement.h'
SPH=U+'spherical_position_sensor/implementation/spherical_sensorhandler.hpp'
MG=['msf_updates/src/pose_msf/pose_sensormanager.h','msf_updates/src/position_msf/position_sensormanager.h',
 'msf_updates/src/position_pose_msf/position_pose_sensormanager.h','msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h',
 'msf_updates/src/spherical_msf/spherical_sensormanager.h']
NOTEST='The one existing test only exercises the timing library (and checks that some headers compile); nothing runs the filter. '
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=NOTEST+why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=observe,hook_needed=None)))

p('C01','Arrival order of delayed measurements does not change the estimate',
 'Once all data up to some time have been delivered, the estimate (every state and the full error covariance) equals the one obtained by processing exactly the same IMU samples and measurements in time-stamp order, however late the measurements arrived and in whatever order relative to the IMU stream and to each other. This holds for measurements from one or several sensors, between or on IMU sample times, as long as their time is still covered by the buffered history; measurements that coincide to within a millisecond are each accounted for once as well.',
 ['histories','schedules'],'every interleaving of a fixed IMU stream with 1-4 timestamped measurements delivered with any delay (before, on and after the matching IMU samples), any permutation among sensors',
 'Order independence quantifies over every delivery permutation.',
 [CORE,SC],[('late-measurement reapplication and re-propagation','MSF_Core::AddMeasurement'),('covariance catch-up','MSF_Core::PropPToState'),('state interpolation at measurement time','MSF_Core::GetClosestState')],
 ['state_out / cov_core / cov_aux topics','state returned for a time'],[('time_P_propagated','time up to which covariances are valid','msf_core.h')])
p('C02','Each accepted measurement influences the estimate exactly once, none is lost',
 'Every measurement given to a running filter whose time lies inside the buffered history influences the estimate exactly once; one ahead of the newest IMU sample is held back, in order of arrival, and takes effect within a bounded number of further IMU samples after its time has been reached. Measurements given before initialization, before enough predictions exist, older than the buffered history, farther than 0.1 s from any buffered sample, or repeating the exact time stamp of a buffered measurement have no effect at all.',
 ['histories','schedules'],'every sequence (bounded depth) of IMU samples and measurements with past, exact, duplicated, future, far-future and too-old time stamps',
 'Loss or double counting only shows for particular orders of IMU samples and measurements.',
 [CORE,SC],[('future queue','MSF_Core::HandlePendingMeasurements'),('rejections','MSF_Core::AddMeasurement')],
 ['number of updates visible in the estimate compared to a reference filter'],[('queueFutureMeasurements_','measurements ahead of the newest state','msf_core.h'),('MeasurementBuffer_','applied measurements by time','msf_core.h')])
p('C03','Outlier gating: rejected readings leave no trace, accepted ones are fully used',
 'With outlier rejection enabled, a reading whose normalized innovation distance exceeds the configured threshold leaves the estimate and covariance (now and after all later processing) as if the reading had never been sent (up to the subdivision of one integration step at its time), and a reading at or below the threshold is used exactly as if gating were disabled. With gating disabled every reading is used.',
 ['inputs','histories'],'every arrival pattern of good and bad readings from one or two sensors, thresholds around the innovation distance, early and late arrivals',
 'A rejected reading must be traceless in every arrival order, including when it triggers reprocessing of later readings.',
 [MEAS,CORE,POSEM,POSM,PRM,SPM],[('Mahalanobis gate','MSF_MeasurementBase::CalculateAndApplyCorrection')],['state_out and covariance topics'])
p('C04','Filter life cycle: init, start-up gap, reset and re-init behave as documented',
 'Before initialization no input changes anything and nothing is published; after it the filter adopts exactly the initial state, moves that state forward over a start-up time gap instead of integrating across the gap, accepts measurements only once enough predictions exist, and falls back to uninitialized (ignoring all input until the next initialization) when IMU time jumps backwards. A re-initialization at any moment discards every trace of earlier data: from then on the filter is indistinguishable from a freshly started one given the same input.',
 ['histories'],'every event sequence of bounded depth over {init, IMU in order / small gap / large gap / backward jump, measurement past/present/future, external state}',
 'It is a statement about all event histories of a state machine.',
 [CORE],[('init','MSF_Core::Init'),('reset and gap logic','MSF_Core::ProcessIMU'),('external propagation start-up','MSF_Core::ProcessExternallyPropagatedState')],
 ['published topics','estimate after each event'],[('initialized_ / predictionMade_','life-cycle flags','msf_core.h')])
p('C05','Estimates stay finite, quaternions unit length, covariance symmetric PSD',
 'Along every history of finite inputs of physical magnitude, consistent with a motion up to isolated outliers, with valid moderate noise settings, every published estimate is finite, all attitude quaternions have unit norm and every error covariance is symmetric with no negative eigenvalue beyond rounding.',
 ['histories','configurations'],'all bounded histories of extreme and ordinary IMU samples, accurate/inaccurate/outlying/late measurements and noise configurations',
 'An invariant over all reachable filter states.',
 [CORE,MEAS,STATE,CQ],[('Joseph form and symmetrisation','msf_measurement_inl.h'),('quaternion normalisation','GenericState_T::Correct, PropagateState'),('initial covariance','MSF_Core::SetPCore')],['state_out, cov_* topics'])
p('C06','State prediction integrates the IMU kinematics correctly',
 'Between updates, position, velocity and attitude follow the strapdown equations driven by the bias-corrected IMU readings and gravity (world z up, 9.80834 m/s^2), to within the accuracy of the documented integration order for every rate, acceleration, bias, attitude and step size, and all other states stay constant. Acceleration readings above 50 m/s^2 in norm are treated as spikes and replaced by the last good reading.',
 ['inputs','histories'],'full grid of angular rates, accelerations, biases, initial attitudes, step sizes and one- to three-step IMU sequences',
 'It must hold for every reading, attitude and step size.',
 [CORE,'msf_core/include/msf_core/eigen_utils.h'],[('state integration','MSF_Core::PropagateState'),('spike removal','MSF_Core::ProcessIMU')],['state_out, pose topics'])
p('C07','Error covariance prediction matches the error dynamics and noise model',
 'The error-state transition used for a prediction step equals the derivative of the state prediction with respect to the error states up to its documented truncation order, and the process noise added equals the integral of the configured accelerometer, gyro and bias noise densities through those dynamics plus the configured random walk of each auxiliary state. Predicting twice in a row composes: covariance after several steps is the product of the step transitions applied to the initial covariance plus the accumulated noise.',
 ['inputs','configurations'],'grid over attitudes, rates, accelerations, step sizes and noise parameters, every state and noise block',
 'A Jacobian or noise block is wrong for particular attitudes, rates or noise settings only.',
 [CORE,CQ,'msf_core/include/msf_core/msf_tmp.h'],[('Fd','MSF_Core::PredictProcessCovariance'),('Qd','CalcQCore'),('auxiliary noise','CalculateQAuxiliaryStates of each manager')],['cov_core, cov_aux, cov_core_aux topics'])
p('C08','Measurement corrections follow the sensor model for every sensor and state',
 'For pose, position, pressure, angle and distance readings, in every supported frame convention and covariance source, the innovation is the difference between the reading and the documented sensor model evaluated at the estimate, and its sensitivity to each estimated state is the derivative of that model. A noise-free consistent reading therefore leaves the estimate unchanged, and a reading that differs because one single state is off moves the estimate towards the truth.',
 ['inputs','configurations'],'grid of estimates x readings x sensor types x frame/covariance/fixed-state options, perturbing every state direction',
 'Signs and frame conventions must be right for all attitudes, offsets and scales.',
 [POSEM,POSM,PRM,SPM],[('measurement models','CalculateH / Apply of each measurement')],['estimate after an update'])
p('C09','The correction step is the optimal linear update of state and covariance',
 'Given innovation, sensitivity and noise, state and covariance after the update equal the textbook Kalman update, attitude errors being applied multiplicatively on the right, and the covariance never grows in any direction. With fixed biases configured the bias estimates do not move, and every state configured as fixed keeps its value and stops being correlated with the others.',
 ['inputs','configurations'],'all combinations of fixed-state flags and measurement types over a grid of covariances and innovations, one- and two-update sequences',
 'Quantifies over all configurations and correlated covariances.',
 [MEAS,CORE,STATE],[('update equations','CalculateAndApplyCorrection'),('fixed bias','MSF_Core::ApplyCorrection'),('fixed states','ClearCrossCov / H zeroing in measurements')],['state_out, cov_* topics'])
p('C10','Initialization makes the estimate agree with the latest sensor readings',
 'Right after initialization from the latest readings, predicting each sensor from the new estimate reproduces those readings exactly for every configured scale, extrinsic calibration, frame convention and attitude, velocity and biases are zero, and the assumed initial acceleration reading points along gravity. Height- or scale-based initialization requests give the requested height or scale, and requests that cannot be satisfied (no reading yet, height too small) leave the filter untouched and report failure.',
 ['configurations','inputs'],'grid of readings, scales, heights, extrinsics and frame conventions for each of the five sensor configurations and each init path (reconfigure, service)',
 'Agreement must hold for every calibration and reading.',
 MG,[('initial state computation','Init(scale) of each sensor manager'),('init measurement','MSF_InitMeasurement::Apply')],['correction topic with initialization flag, first state_out'])
p('C11','Sensor message intake: throttling, delay, covariance source and discards',
 'Each incoming reading is turned into at most one measurement whose time is the message stamp minus the configured delay, whose noise is the configured fixed value or the message covariance as configured, and whose value is the message content in the documented convention; equivalent readings sent through different message types have identical effect. Readings closer than the minimum interval to the last used one, the documented decimation of fast sources, and messages without the covariance they need are dropped without any effect, and nothing else is dropped.',
 ['histories','configurations'],'every message sequence of bounded length over the input topics, sequence numbers and inter-arrival times around the thresholds, for every intake configuration',
 'Throttle and decimation state make this a property of message histories.',
 [POSEH,POSH,PRH,SPH],[('message callbacks','*SensorHandler::MeasurementCallback / Process*Measurement')],['estimate after each message compared with a directly built measurement'])
p('C12','External propagation plus the published correction reproduces the estimate',
 'When an external process propagates the state, adding the published correction to the external state most recently received gives exactly the current estimate (attitude by quaternion multiplication), and the filter adopts externally propagated position, velocity and attitude only when they are flagged as current and finite, otherwise it propagates itself. During data playback or when the estimate is not finite no usable correction is sent.',
 ['histories','inputs'],'every sequence of external-state messages (flags, finite / non-finite content, gaps), measurements and playback settings up to a bounded length',
 'Depends on interleavings of external states and updates.',
 [ROSM,IMUR,CORE],[('correction message','PublishStateAfterUpdate'),('external state intake','IMUHandler_ROS::StateCallback')],['correction topic'])
p('C13','Published outputs all describe the same estimate with the documented layout',
 'All messages published for one estimate (full state array, pose, odometry, external state and covariance blocks) carry that estimate\'s time stamp and, with the transform sent along, agree with each other component by component: state order position, velocity, attitude (w,x,y,z), gyro bias, accelerometer bias, then auxiliary states; covariance blocks are the matching sub-blocks of one symmetric matrix. After a propagation the newest pose is published, after an update the corrected newest estimate.',
 ['histories','inputs'],'all bounded histories, every output message compared with every other and with a reference filter',
 'Agreement of many outputs over all histories and layouts.',
 [ROSM,STATE,'msf_core/include/msf_core/msf_tmp.h'],[('message conversion','GenericState_T::To*Msg / Get*Covariance'),('publication','MSF_SensorManagerROS')],['all output topics'])
p('C14','Fuzzy-tracking watchdog triggers exactly on drift-free-state jumps',
 'After enough samples, an update that moves the drift-free state farther than the threshold from its recent median restores all non-propagated states to their values before that update and leaves the propagated ones updated; otherwise the update is kept unchanged. Initialization forgets the recorded history.',
 ['histories'],'all sequences of normal and jumping updates around the window length, at and beside the threshold, with resets',
 'Depends on a window of 30 past updates.',
 ['msf_core/include/msf_core/msf_checkFuzzyTracking.h','msf_core/include/msf_core/msf_tools.h'],[('median watchdog','CheckFuzzyTracking::Check'),('median','GetMedian')],['state after update'])
p('C15','Time-sorted buffer answers every query like an ordered map',
 'After any sequence of insertions, time changes, age-based clean-ups and clears, every query of the time-sorted history (first, last, at, before, after, closest, size) returns what an ordered list of the inserted objects would, reports "invalid" when no such object exists, and never touches memory of removed objects. Among equal distances the earlier object is the closest one, a second object with an existing time is discarded, and clean-up never removes an object younger than the given age nor the newest one.',
 ['histories'],'all operation sequences up to a depth over a small time domain with every query after every step',
 'Quantifies over all operation sequences; no test touches the container.',
 [SC],[('ordered map','SortedContainer')],['return values of the container operations'])
p('C16','Long runs keep memory bounded without losing the recent minute',
 'However long and in whatever pattern data arrive, buffered history older than about one minute is eventually dropped while everything younger than that stays usable for delayed measurements, and dropping old history never changes the current estimate.',
 ['histories'],'long periodic histories with every placement of late/too-late measurements relative to clean-up points',
 'Only manifests after more than 60 s of data and particular clean-up points.',
 [CORE,SC],[('buffer clean-up','MSF_Core::CleanUpBuffers, SortedContainer::ClearOlderThan')],['effect of a late measurement; number of buffered states'])
p('C17','Timer statistics equal the statistics of the recorded intervals',
 'For every sequence of start, stop, add and reset operations on any set of timers, the reported count, total, mean, variance, minimum, maximum and rates equal those of the recorded intervals (windowed ones over the most recent 50), a timer that is not running never adds an interval, and names and handles refer to the same timer consistently.',
 ['histories','inputs'],'all timer operation sequences up to a depth with all small interval values, and sample sequences across the window boundary',
 'The existing test runs one fixed sequence with real sleeping.',
 ['msf_timing/include/msf_timing/Timer.h','msf_timing/src/Timer.cc'],[('accumulator','Accumulator'),('registry','Timing')],['Timing::Get* results'])
p('C18','GPS conversion is a rigid map anchored at the reference point',
 'Converting geodetic coordinates to local coordinates maps the reference point to the origin, preserves distances of the earth-centred coordinates, points x east, y north and z up, and raising altitude by h raises local z by h at the reference, for every reference on earth; correcting the height of the reference by h lowers all converted heights by h and moves nothing sideways. The first fix received defines the reference; all later fixes are expressed relative to it.',
 ['inputs','histories'],'grid over reference latitudes/longitudes/altitudes (poles, equator, date line) and displacements; sequences of fixes',
 'Must hold for the whole globe; nothing tests it.',
 ['msf_core/src/lib/gps_conversion.cc',POSH],[('WGS84/ECEF/ENU conversion','GPSConversion')],['position estimate / converted coordinates'])
p('C19','Similarity alignment recovers the exact transform from consistent poses',
 'From any non-degenerate set of pose pairs related by one similarity transform, the estimated rotation, translation and scale equal the true ones regardless of the number and order of pairs, the sign of quaternions and the size of the transform.',
 ['inputs'],'grid of rotations, translations, scales, pose sets, orders and quaternion signs',
 'The existing similarity test is not part of the stable tests and tries one noisy sample.',
 ['msf_core/src/similaritytransform.cc','msf_core/include/msf_core/similaritytransform.h'],[('alignment','similarity_transform::From6DoF')],['returned pose and scale'])
p('C20','Relative pose readings constrain motion between two readings only',
 'With relative measurements configured, a reading is compared with the previous reading of the same sensor: consistent increments leave the estimate unchanged wherever the absolute readings lie, a constant position offset of all readings has no effect, the first reading has no effect, and the correlation between the two instants follows from the product of the transitions in between in time order.',
 ['histories','inputs'],'all sequences of 2-4 relative readings with optional interleaved absolute readings of another sensor and late arrivals',
 'Needs multi-step histories of two instants.',
 [POSEM,MEAS,CORE],[('previous reading lookup','MSF_Core::GetPreviousMeasurement'),('stochastic cloning','CalculateAndApplyCorrectionRelative'),('accumulated transition','GetAccumulatedStateTransitionStochasticCloning')],['state_out, covariance topics'])
p('C21','Every configuration parameter reaches the quantity it names',
 'Changing a run-time or start-up parameter (noise densities, measurement noises, delays, fixed-state switches, initial values, frames, output frames) changes exactly the quantity it documents for all later data, in every sensor configuration, and changing one parameter does not alter the effect of another.',
 ['configurations'],'every parameter of every sensor configuration, one at a time and before/after start-up, compared with a reference filter using that value',
 'A mis-wired parameter is only visible when it is moved off its default.',
 MG+[ROSM],[('reconfigure callbacks','Config(...) of each manager')],['estimate and covariance topics'])
p('C22','No input history makes the filter crash, hang or corrupt memory',
 'No sequence of syntactically valid messages, including NaN or infinite values, zero or repeated or backward time stamps, empty or short arrays, and readings before any other data, makes a node access invalid memory, divide the process into an undefined state, abort or loop forever; after bad input a re-initialization restores normal operation.',
 ['histories','inputs','fault_sequences'],'every message sequence of bounded depth over an alphabet of ordinary and hostile messages on all topics of all five sensor configurations',
 'Memory faults hide in rare histories and need instrumented exhaustive runs.',
 [CORE,SC,IMUR,POSEH,POSH,PRH,SPH],[('input validation','handlers and MSF_Core')],['sanitizer reports, liveness, re-initialized estimate'])
p('C23','Helper functions: median, small-angle quaternion, skew, time text, colours',
 'The median of any non-empty list is its middle order statistic, a small rotation vector is turned into a unit quaternion rotating by that vector, cross-product matrices act as cross products, finiteness checks report exactly the presence of non-finite entries, times print with the documented digits and the colour tables stay inside their range.',
 ['inputs'],'all lists up to a length over a small value domain; grids of vectors, matrices with a non-finite entry at each place, all colour indices and times around rounding boundaries',
 'They must hold for all inputs.',
 ['msf_core/include/msf_core/msf_tools.h','msf_core/src/lib/msf_tools.cc','msf_core/include/msf_core/eigen_utils.h','msf_core/src/lib/falsecolor.cc'],[('helpers','msf_tools, eigen_utils, falsecolor')],['return values'])
p('C24','Artificial pose drift accumulates as configured',
 'The optional distortion of pose readings adds to every position the drift accumulated so far at the configured rate, scales it by the accumulated scale, and turns every attitude by the accumulated attitude drift; zero rates leave readings unchanged, and position and attitude are affected independently.',
 ['inputs','histories'],'all sequences of time steps over a grid of drift rates, with negligible random part',
 'Drift only shows over several calls.',
 ['msf_updates/src/msf_distort/PoseDistorter.cc','msf_updates/include/msf_updates/PoseDistorter.h'],[('distortion','PoseDistorter::Distort')],['distorted pose'])
p('C25','Every state variable owns exactly its own block',
 'For every composition of core and auxiliary states, each state variable occupies its own contiguous block of the state vector, the error vector, the covariance, the process noise and the correction, in declaration order and with the size its kind requires; reading, writing, correcting, resetting or clearing one state touches that block and nothing else, and the vector, message and core forms of a state are inverse to each other.',
 ['configurations','inputs'],'all lists of up to two (three) auxiliary states of six kinds behind the core states, every state, every coordinate',
 'The five nodes sample five compositions; the layout is computed by templates that must be right for every composition a user declares.',
 ['msf_core/include/msf_core/msf_state.h','msf_core/include/msf_core/implementation/msf_state_inl.h','msf_core/include/msf_core/implementation/msf_tmp.h','msf_core/include/msf_core/msf_fwds.h'],[('start indices','msf_tmp::GetStateIndexInState, GetStartIndexInCorrection'),('access','GenericState_T::Get/Set, ClearCrossCov, Correct')],['state vector, covariance, messages'])
p('C26','The relay node forwards exactly the enabled messages, unaltered',
 'Every pose message received by the relay node while pose publishing is enabled, and every position message while position publishing is enabled, is published exactly once and unaltered on the matching output; while disabled nothing is published; a switch takes effect from the next message on and does not affect the other group.',
 ['histories','configurations'],'every sequence of messages of the five types and switch changes up to a depth, from every start-up setting',
 'It must hold in every history of switch changes and messages.',
 ['msf_distort/src/msf_distort.cc'],[('forwarding','CallbackHandler::MeasurementCallback')],['output topics'])
p('C27','The compass helper hands the newest heading to the node',
 'The compass start-up helper writes nothing before a heading has been received; from then on every cycle writes exactly the initial-yaw parameter of the configured node, in degrees, with the heading of the most recent message, from whichever of the four inputs (IMU attitude, attitude, degrees, radians) it came and whatever the roll and pitch.',
 ['histories','inputs'],'every sequence of heading messages on the four topics between the cycles of the script',
 'It must hold for every arrival order of messages and cycles.',
 ['msf_updates/src/position_msf/init_yaw_from_compass.py'],[('heading','callback_imu, callback_orientation_degrees, callback_orientation_quaternion, callback_heading_radians')],['configuration written'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
