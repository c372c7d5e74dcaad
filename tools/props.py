#!/usr/bin/env python3
"""regenerates /verif/properties.jsonl"""
import json
P = []
def p(i, title, st, over, qt, why, files, mech, state=None):
    d = dict(id=i, title=title, statement=st, quantifier=dict(over=over, text=qt), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b) for a, b in state]
    assert len(title) <= 80, title
    P.append(d)
IP='src/filter/inekf/propagation/imu_propagation.cpp'; IK='src/filter/inekf/inekf.cpp'
VC='src/filter/inekf/correction/velocity_correction.cpp'; LK='src/filter/inekf/correction/legged_kinematics_correction.cpp'
RS='src/state/robot_state.cpp'; LG='src/math/lie_group.cpp'; S3='src/math/se_k_3.cpp'; EK='src/imu_filter/imu_ang_vel_ekf.cpp'
ES='src/estimator/inekf_estimator.cpp'; MK='src/kinematics/mini_cheetah_kinematics.cpp'; MR='src/kinematics/robots/mini_cheetah'
WO='baselines/src/wheel_odometry/wheel_odometry.cpp'
p('C01','The estimated pose always stays a valid extended pose',
  'Starting from a valid extended pose (orthonormal rotation with determinant one, identity lower rows), every operation of the filter leaves a valid extended pose: initialisation, IMU propagation, velocity and contact correction, and the appearance and disappearance of contact points. Quantities the operation does not own (lower rows, columns of other contact points) keep exactly their required values.',
  ['inputs','histories','configurations'],'every valid state, IMU sample, measurement and configuration; hence, by induction over operations, every history',
  'Tests run one recorded-like velocity sequence and compare a final velocity; membership in the group after every operation for all values is never observed.',
  [IP,IK,LK,RS,LG],[('Propagate',IP),('CorrectRightInvariant / CorrectLeftInvariant',IK),('add_aug_state / del_aug_state',RS),('Exp_SEK3',LG)],[('X','the extended pose matrix')])
p('C02','The Lie-group maths equals its mathematical definition',
  'For every argument the SO(3) exponential, its integrals of every order, the left and right Jacobians, the extended exponential, the adjoint, the skew operator and the composition and inverse of extended poses equal their defining series or matrix identities. Near a zero rotation they agree with the limit within a small tolerance.',
  ['inputs'],'every rotation vector (including zero and tiny ones), every order of the integral, every number of columns',
  'Existing tests multiply two fixed poses; no test evaluates the exponential, Jacobians or adjoint at any argument.',
  [LG,S3],[('Gamma_SO3, Exp_SO3, LeftJacobian_SO3, RightJacobian_SO3, Exp_SEK3, Adjoint_SEK3, skew',LG),('SEK3::operator*, SEK3::inverse',S3)])
p('C03','IMU propagation is exact strapdown integration of the mean',
  'Each propagation advances orientation, velocity and position by the exact constant-rate, constant-acceleration solution of the strapdown equations under gravity 9.8 m/s^2 over the time elapsed since the previous propagation, using the previous IMU sample rotated into the body frame, bias corrected and compensated for the lever arm. Biases and contact points are unchanged, the clock becomes the time of the sample used, exactly one sample is consumed, and an empty buffer leaves the estimate unchanged and reports no update.',
  ['inputs','configurations','histories'],'every state, pair of samples, time step, IMU mounting (rotation and translation), biases, and error parametrisation',
  'The only test integrates a fixed sequence and compares one velocity component with a loose tolerance; mounting rotation, lever arm and biases are all trivial there.',
  [IP],[('ImuPropagation::Propagate',IP),('ImuPropagation constructor',IP)],[('prev_imu_measurement_','sample used by the next step')])
p('C04','Error covariance propagation follows the invariant error dynamics',
  'Each propagation replaces the covariance by transition times covariance times transition transposed plus discretised noise, where the transition matrix is the exact flow of the invariant error dynamics for the chosen error parametrisation and the noise is built from the squared configured standard deviations and the contact noise. When bias estimation is switched off the bias block stays decoupled from the motion.',
  ['inputs','configurations'],'every state with any number of contacts, rate, acceleration, time step, noise configuration and both error parametrisations',
  'No test inspects a covariance or a transition matrix.',
  [IP],[('StateTransitionMatrix, DiscreteNoiseMatrix, Propagate',IP)],[('P','error covariance'),('Qc','continuous noise of contacts')])
p('C05','The filter correction is the exact invariant Kalman update in Joseph form',
  'For every innovation, measurement matrix and noise, the correction applies the Kalman gain computed from covariance and noise, moves the pose by the group exponential of the gained innovation on the side of the observation, adds the gained innovation to the biases, and replaces the covariance by the Joseph form. With bias estimation off the biases are decoupled before the update, and in right-invariant observations the yaw gyroscope bias is never changed and its variance is reset.',
  ['inputs','configurations'],'every state, covariance, innovation of any size, measurement matrix, noise, both observation kinds and both error parametrisations',
  'The velocity correction test only checks one velocity component after many steps; a wrong gain, a lost term in the covariance or a wrong side of multiplication passes it.',
  [IK],[('CorrectRightInvariant, CorrectLeftInvariant',IK)],[('X, P, Theta','estimate and covariance')])
p('C06','Left- and right-invariant parametrisations estimate the same thing',
  'Running the filter with the left-invariant or the right-invariant error gives the same pose and bias estimates and covariances related by the adjoint of the estimate: for propagation, for corrections of either observation kind, and for the appearance of a contact point.',
  ['inputs','configurations'],'every state, sample, innovation and contact measurement, provided the two covariances were related before',
  'No test uses the left-invariant parametrisation.',
  [IP,IK,LK],[('StateTransitionMatrix',IP),('covariance mapping',IK),('new contact covariance',LK)])
p('C07','Velocity corrections use the right measurement model and configuration',
  'A velocity measurement corrects the estimate with the difference between the scaled measurement rotated from sensor to body to world and the estimated world velocity, a measurement matrix that observes exactly the velocity error, and the configured measurement variance rotated into the world frame. Configured scale, sensor rotation, noise and time threshold are applied as written and defaults are used when absent, and initialisation sets the world velocity with the same rotation and scale.',
  ['inputs','configurations'],'every state with any number of contacts, measurement and configuration',
  'The test uses an identity sensor rotation, unit scale and isotropic noise, so frame mistakes cancel.',
  [VC],[('VelocityCorrection::Correct, initialize, constructor',VC)])
p('C08','Velocity measurements are applied once, in order, and only when due',
  'A velocity measurement not older than the last propagation stays in the buffer and changes nothing; measurements older than the threshold are discarded unused; otherwise exactly one measurement is used exactly once, in arrival order, and the estimate carries its time. An empty buffer changes nothing and reports no update.',
  ['inputs','histories'],'every buffer length, all measurement times and thresholds',
  'The test feeds pre-sorted measurements that are always due.',
  [VC],[('VelocityCorrection::Correct',VC)],[('velocity buffer','pending measurements')])
p('C09','Contact points enter, stay in and leave the estimate with the contacts',
  'After processing a contact measurement the estimate holds exactly one column per leg that is in contact, each leg is associated with its own column, and columns, covariance and process noise of persisting legs are carried over without being mixed up, whatever the order in which legs touch down and lift off. Measurements too old are discarded, too new ones are not used, an empty buffer changes nothing, and clearing forgets all associations.',
  ['inputs','histories'],'every sequence of contact patterns over the legs, all measurement times',
  'No test runs the contact correction.',
  [LK,RS],[('LeggedKinematicsCorrection::Correct, clear',LK),('add_aug_state, del_aug_state, RemoveRowAndColumn',RS)],[('aug_id_to_column_id_ptr_','leg to column association')])
p('C10','Contact corrections use the right kinematic measurement model',
  'For every leg in contact before and after, the correction uses the forward-kinematics innovation between the rotated foot position and the estimated foot-minus-body position, a measurement matrix with minus identity on position and identity on that foot, and the encoder noise mapped through the leg Jacobian plus the additive term, rotated into the world. A new foot starts at body position plus rotated kinematic position, with the covariance that error propagation assigns to it, and initialisation takes the velocity from the leg kinematics.',
  ['inputs','configurations','histories'],'every state, joint configuration, set of persisting and new contacts, noise configuration and both error parametrisations',
  'No test runs the contact correction or compares with an independent measurement model.',
  [LK],[('LeggedKinematicsCorrection::Correct, initialize, constructor',LK)])
p('C11','State containers keep every block in its place',
  'Adding or removing a contact point, and every accessor and modifier of a block of the state, its covariance or its noise, reads and writes exactly that block and leaves all other blocks, including biases and other contact points, unchanged up to the shift of indices.',
  ['inputs','histories'],'every state with any number of contacts and any column removed',
  'No test adds or removes a contact point.',
  [RS],[('add_aug_state, del_aug_state, del_aug_cov, del_aug_noise_cov, setters and getters, clear',RS)])
p('C12','World-frame and body-frame views of the state agree',
  'The world and body views of rotation, velocity and position are the corresponding rotations of the stored estimate, and the inverse pose composed with the pose is the identity for any number of columns.',
  ['inputs'],'every valid state with any number of contacts',
  'No test reads the body-frame views or the inverse.',
  [RS],[('get_world_*, get_body_*, get_Xinv, copy_diag_X, copy_diag_Xinv',RS)])
p('C13','Leg kinematics and Jacobians are consistent with the robot geometry',
  'For every joint configuration the computed foot positions of all four legs equal the rigid-body chain of the robot geometry, each Jacobian is the derivative of its foot position with respect to the joints, joints of other legs have no influence, and each leg is reported at its own index.',
  ['inputs'],'all joint angles of all legs',
  'One test compares positions at a single joint configuration; Jacobians are never compared with a derivative.',
  [MK,MR],[('ComputeKinematics',MK),('p_Body_to_*Foot, Jp_Body_to_*Foot, R_Body_to_*Foot',MR)])
p('C14','Initial body velocity follows from a stance leg',
  'The initial velocity reported by the leg kinematics is the velocity that makes the first leg in contact (front right, front left, hind right, hind left) stand still, given joint velocities and body rate, and zero when no leg is in contact.',
  ['inputs'],'all joint angles and velocities, body rates and contact patterns',
  'No test computes an initial velocity.',
  [MK],[('MiniCheetahKinematics::get_init_velocity',MK)])
p('C15','The gyro filter is a Kalman filter on rate and bias',
  'Propagation with a second gyro adds its rate increment to the rate estimate and the configured process noise to the covariance; corrections by an IMU or by an encoder rate are exact Kalman updates with the configured noise, the IMU observing rate plus bias and the encoder observing the rate in the IMU frame, restricted to yaw in the one-axis configuration. The published sample carries the filtered rate, the time of the measurement used, and otherwise the data of the IMU sample.',
  ['inputs','configurations'],'every filter state, covariance, sample and configuration',
  'No test runs the gyro filter.',
  [EK],[('GyroPropagate, RandomWalkPropagate, AngVelFilterCorrectIMU, AngVelFilterCorrectEncoder, constructors',EK)])
p('C16','The gyro filter consumes its inputs in order and once, and initialises its bias',
  'Every input sample is consumed at most once and in order, of an IMU and an encoder sample the earlier one is used first, samples of an IMU, or of an encoder used beside an IMU, that are older than the time threshold produce no output, each sample used produces exactly one output, and no sample blocks those behind it. The bias is initialised to the average of the configured number of samples or to the prior, and filtering starts only afterwards.',
  ['inputs','histories','configurations'],'every content of the input buffers, all sample times, all combinations of configured inputs',
  'No test runs the gyro filter.',
  [EK],[('RunOnce, InitializeFilter, SingleImuCorrection, MultiImuCorrection, SingleImuAngVelCorrection, AngVelCorrection',EK)],[('input buffers','pending samples')])
p('C17','The estimator publishes an estimate exactly when something changed',
  'One cycle propagates first and then applies every correction in the order added; exactly one snapshot of the resulting estimate is published when propagation or any correction reported an update, and none otherwise. Initialisation sets the configured covariances, publishes the initial estimate once and enables the filter only if propagation could be initialised; clearing empties every buffer, resets the estimate and disables the filter.',
  ['inputs','histories','configurations'],'every buffer content, any set of corrections, any history of cycles',
  'One test uses the estimator on one path where every cycle has data.',
  [ES],[('RunOnce, InitState, clear, constructor',ES)],[('robot_state_queue','published estimates')])
p('C18','Initial biases and initial state come from the data as configured',
  'Static initialisation sets the biases to the average of the configured number of samples after rotation to the body frame, lever-arm compensation and removal of gravity, consuming exactly those samples; otherwise the configured priors are used. The initial state has the configured or measured orientation, zero position, those biases with their configured covariances, and the time of the first sample, which becomes the first sample to integrate.',
  ['inputs','configurations','histories'],'every sequence of samples, number of samples configured, mounting and configuration',
  'No test uses static bias initialisation or a non-identity mounting.',
  [IP],[('InitImuBias, set_initial_state, constructor',IP)])
p('C19','Shared measurement buffers are only touched under their locks',
  'Every access by the filter to a buffer shared with sensor threads happens while holding the lock of that buffer; no lock is taken twice, left locked on return, or needed in conflicting orders; and no element is read from a buffer that may have become empty.',
  ['schedules','inputs'],'every interleaving with producers, every buffer content and every path through the code',
  'Tests are single threaded.',
  [IP,VC,LK,EK,ES,WO],[('Propagate, InitImuBias, set_initial_state, clear',IP),('Correct, initialize, clear',VC),('Correct, initialize, clear',LK),('corrections and initialisation',EK),('RunOnce, InitState, clear',ES)],[('mutexes','one per buffer')])
p('C20','Measurement containers return what was stored and reject bad orientations',
  'Every measurement type reports its kind, time and the values stored in it unchanged, its rotation matrix is the rotation of its quaternion, magnitudes and unit vectors are those of the stored vector, and a quaternion whose squared norm differs from one by 1e-5 or more is rejected without changing the stored orientation.',
  ['inputs'],'all values stored',
  'Tests store a few fixed values; the rejection boundary and rotation for general quaternions are sampled at three points.',
  ['include/drift/measurement','src/measurement'],[('set_quaternion, get_rotation_matrix, validate_quat','include/drift/measurement/impl/imu_impl.cpp'),('velocity, angular velocity, joint state, contact, odometry, legged kinematics containers','include/drift/measurement')])
p('C21','Wheel odometry integrates body velocity and rate into a valid pose',
  'Each pair of velocity and rate measurements advances the pose by the body velocity rotated into the world times the elapsed time and by the exponential of the rate times the elapsed time, keeps the pose a valid extended pose, advances the clock to the measurement time, and consumes exactly one of each; the first pair only sets the clock, and nothing is consumed unless both are available.',
  ['inputs','histories'],'every pose, measurement pair and time step, every buffer content',
  'No test covers the baseline.',
  [WO],[('WheelOdometry::RunOnce, Integrate',WO)])
p('C22','The error covariance stays symmetric positive semidefinite',
  'From a symmetric positive semidefinite covariance, propagation over a non-negative time step, every correction, and the appearance and disappearance of contact points give a symmetric positive semidefinite covariance.',
  ['inputs','histories','configurations'],'every state and covariance, innovation, noise and contact pattern; by induction every history',
  'No test inspects a covariance.',
  [IP,IK,LK,RS],[('Propagate, DiscreteNoiseMatrix',IP),('Joseph form',IK),('new contact covariance',LK),('del_aug_cov',RS)],[('P','error covariance')])
with open(__file__.rsplit('/',2)[0]+'/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
