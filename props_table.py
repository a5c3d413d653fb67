NA = {}
OB = [INC + 'observer/observer-base.hpp', SRC + 'observer-base.cpp', INC + 'observer/zero-delay-observer.hpp',
      SRC + 'zero-delay-observer.cpp']
KF = [INC + 'observer/kalman-filter-base.hpp', SRC + 'kalman-filter-base.cpp']
DEF = [INC + 'tools/definitions.hpp', INC + 'tools/definitions.hxx', SRC + 'definitions.cpp',
       INC + 'tools/state-vector-arithmetics.hpp', SRC + 'state-vector-arithmetics.cpp']
prop('C01', 'The Kalman correction is the optimal linear one and keeps its covariance sound',
     'Every step of a Kalman filter corrects the predicted state by the gain Pbar C^T (C Pbar C^T + R)^-1 applied to the '
     'difference of measured and predicted measurements, where Pbar = A P A^T + Q, and the covariance becomes '
     '(I - K C) Pbar: symmetric, in Joseph form, hence never indefinite, with time advanced by one and the model '
     'matrices untouched. In user-defined state spaces the sums and differences of the filter\'s own arithmetics are '
     'used, also in copies. A missing or ill-sized model matrix or measurement is refused, changing a size or '
     'resetting forgets exactly what no longer fits, and simulating measurements predicts them from the current estimate.',
     ['inputs', 'histories'], 'for every model, noise, state, covariance and measurement, and user-defined arithmetics',
     'Tests track one system and compare with a loose error bound; a wrong covariance or gain still converges.',
     KF, [('correction', 'kalman-filter-base.cpp: oneStepEstimation_'),
          ('sizes and model', 'kalman-filter-base.cpp: set*, check*, clear*, reset')],
     note='Sizes 1..3 (state and measurement).')
prop('C02', 'The linear Kalman filter predicts with the right model, inputs and times',
     'From the estimate at k, the linear filter predicts the state at k+1 as A x + B u_k and its measurement as '
     'C xbar + D u_{k+1}, the B and D terms being used exactly when these matrices are given, and inputs not used by '
     'the model not being required. Simulating the measurement of the current estimate leaves predictions, state and '
     'time unchanged. Consecutive steps use their own inputs and measurements; changing sizes or clearing a matrix '
     'forgets exactly that part of the model, and a filter without inputs ignores them.',
     ['inputs', 'histories'], 'for all matrices, states and inputs, with or without B, D and inputs',
     'Tests use one constant model; D, input timing and size changes are not discriminated.',
     KF + [INC + 'observer/linear-kalman-filter.hpp', SRC + 'linear-kalman-filter.cpp'],
     [('linear prediction', 'linear-kalman-filter.cpp: prediction_, simulateSensor_')],
     note='Sizes 1..3.')
prop('C03', 'The extended Kalman filter evaluates its model at the right point and time',
     'The extended filter predicts f(x, u_k, k) and the measurement h(xbar, u_{k+1}, k+1), giving the zero input to a '
     'function that has no feedthrough and no known input, and never reuses a prediction made before the state, an '
     'input, the time or the functor changed. Its finite-difference Jacobians are, column by column, the forward '
     'difference (in the tangent space, with the filter\'s own arithmetics) of the model around the current estimate, '
     'and of the measurement around the prediction, with the given step, leaving state and predictions unchanged. A full '
     'step is then the Kalman correction.',
     ['inputs', 'histories', 'configurations'], 'for every dynamics and measurement function, state arithmetics, '
     'input configuration and call history',
     'Tests use one functor and one call order; stale predictions only show when calls are interleaved.',
     KF + [INC + 'observer/extended-kalman-filter.hpp', SRC + 'extended-kalman-filter.cpp',
           INC + 'dynamical-system/dynamical-system-functor-base.hpp', SRC + 'dynamical-system-functor-base.cpp'],
     [('model evaluation', 'extended-kalman-filter.cpp: prediction_, predictSensor_, simulateSensor_, getAMatrixFD, '
       'getCMatrixFD')],
     note='Functors and arithmetics are arbitrary (uninterpreted) functions; sizes 1..2.')
prop('C04', 'The observer loop consumes inputs and measurements at their own times',
     'The estimate at time k is the same whether inputs and measurements are given all at once, in batches or step by '
     'step, by time or by push: step k to k+1 sees the estimate at k, the input at k (and k+1) and the measurement at '
     'k+1, and as many steps run as needed. Reaching a time removes only the data of the past, nothing still needed; '
     'setting the state going back in time clears inputs and measurements, otherwise only past ones; replacing the '
     'current state keeps them, clearing or resizing forgets exactly that kind of data. Gaps, past estimates, '
     'wrong sizes and reads of absent data are refused.',
     ['histories', 'inputs'], 'for every one-step estimation, every interleaving of calls, start time and data',
     'Tests follow a single call pattern; popping and re-initialisation errors need particular interleavings.',
     OB, [('observer loop', 'zero-delay-observer.cpp: all functions')],
     note='Histories of up to 3 steps and 4 pending values.')
prop('C05', 'Time-indexed containers map contiguous times to exactly the values stored',
     'A time-indexed array holds exactly one value for each time of one contiguous interval: setting, pushing, popping, '
     'truncating before or after a time, clearing, re-indexing, resizing and resetting change precisely the times and '
     'values they name, every other value staying at its time, and clearing keeps the next time. Reading, writing or '
     'appending outside what is stored, with a gap, is refused; '
     'an indexed matrix or checked item is set exactly when a value was given since its last reset, reports its time, '
     'refuses reads before, and copies independently.',
     ['histories', 'inputs'], 'for every content, first time (also beyond 32 bits) and operation',
     'Tests store and read back in one order; off-by-one errors after pops, truncations or re-indexing stay hidden.',
     DEF, [('containers', 'definitions.hxx: IndexedMatrixT, IndexedMatrixArrayT, CheckedItem')],
     note='Arrays of 0..4 elements, inductively arbitrary content.')
prop('C06', 'Writing recorded data to text and reading it back restores it',
     'A time-indexed array of matrices or vectors written to a file, with or without appending, reads back as the same '
     'values at the same times; a file without time stamps reads as consecutive times from zero. Reading '
     'replaces the previous content, a missing file leaves the array empty, and a file that cannot be written is '
     'reported. The text of a matrix or vector converts back to the same matrix or vector.',
     ['inputs'], 'for every value, size, first time and previous content', 'Tests never read back what they write.',
     DEF + [INC + 'tools/miscellaneous-algorithms.hpp'],
     [('files', 'definitions.hxx: writeInFile, readFromFile, readVectorsFromFile'),
      ('text', 'miscellaneous-algorithms.hpp: matrixToString, stringToMatrix, vectorToString, stringToVector')],
     note='The decimal precision of the stream (6 digits) is outside: text of a number is taken to denote it.')
prop('C07', 'Rotation representations convert without changing the rotation',
     'Converting a rotation between rotation vector, angle-axis, quaternion, rotation matrix, roll-pitch-yaw and '
     'homogeneous forms yields another description of exactly the same rotation: exponential and logarithm are inverse '
     '(result in [0, pi]), roll-pitch-yaw composes as yaw*pitch*roll, inverting a homogeneous matrix or building the '
     'rotation between two unit vectors gives what the name says. The validity test accepts every rotation matrix and '
     'rejects mirror images and non-orthogonal matrices; the skew matrix of v maps w to v x w; regulating a rotation '
     'vector of up to two turns keeps the rotation and, beyond three quarters of a turn, brings the angle within a half turn; '
     'a zero vector is the identity.',
     ['inputs'], 'for every rotation, vector and pair of unit vectors, including zero angle and half turns',
     'The tests sample random rotations; branch boundaries (angle pi, w<0, zero vector, gimbal pitch) and mirror '
     'matrices are never sampled.',
     RBK, [('rotation conversions', 'rigid-body-kinematics.hxx: rotationVectorTo*, *ToRotationVector, '
            'rollPitchYawTo*, rotationMatrixTo*, invertHomogeneousMatrix, twoVectorsToRotationMatrix, isRotationMatrix')])
prop('C08', 'Pose integration and finite differences are exact inverses',
     'Integrating position, velocity, acceleration, orientation, angular velocity over a step is the exact '
     'constant-acceleration update, with the rotation exp(w*dt + dw*dt^2/2) applied in the world frame; finite '
     'differencing consecutive poses returns the velocity, and consecutive velocities the acceleration, that reproduce '
     'them. Reconstructed state vectors, inverted kinematic states, frame Jacobians and the derivatives of the '
     'rotated-vector and logarithm maps equal the true mathematical quantities, and a fixed point constraint keeps the '
     'fixed point at rest.',
     ['inputs'], 'for every pose, velocity, acceleration and sampling period, in every representation',
     'Tests run one trajectory with loose tolerances; sign and factor errors in rarely used overloads are invisible.',
     RBK, [('integration and differencing', 'rigid-body-kinematics.hxx: integrateKinematics*, derivateRotation*, '
            'reconstructHomogeneousTrajectory, invertState, fixedPointRotationToTranslation')])
prop('C09', 'Tilt/yaw decomposition: merges keep exactly the tilt and the yaw asked for',
     'Merging the tilt of one attitude with the yaw of another, or with a measured direction, gives a rotation whose '
     'gravity direction equals that of the first and whose heading equals that of the second, whether the heading is '
     'measured along x, an another horizontal axis, or axis-agnostically; singular axes are detected and never give a '
     'non-rotation. Extracted yaw, and the angle of a direction around the vertical, are the atan2 angle of the rotated '
     'reference axis, and the returned invariant vectors are horizontal, nonzero and invariant as documented.',
     ['inputs'], 'for every pair of attitudes, including axes near the vertical',
     'The test draws random attitudes, which never hit vertical axes or pure-yaw branches.',
     RBK, [('merges and yaw extraction', 'rigid-body-kinematics.hxx: mergeTiltWithYaw*, mergeRoll1Pitch1WithYaw2*, '
            'rotationMatrixToYaw*, getInvariantHorizontalVector, getInvariantOrthogonalVector, isPureYaw')])
prop('C10', 'An orientation object always denotes one rotation in all its forms',
     'Whatever the history of assignments, products, inverses, integrations and reads, every representation the '
     'orientation object holds denotes the same rotation, namely the one algebra gives: products compose, the inverse '
     'undoes, integration multiplies by the exponential in the world frame, the difference is the shortest rotation '
     'vector leading to the other one. Reading converts without changing the value; assigning forgets the previous '
     'value in both forms; a reset object reports that it holds nothing; random orientations are unit.',
     ['inputs', 'histories'], 'for every rotation, every combination of stored forms of the operands, and operation '
     'histories',
     'A stale second representation only shows for particular combinations of which forms each operand holds; tests use '
     'a few.',
     RBK, [('lazy dual representation', 'rigid-body-kinematics.hxx: class Orientation')])
prop('C11', 'Kinematics composition and inversion follow rigid-body mechanics',
     'Composing the kinematics of two frames gives the pose, velocities and accelerations that rigid-body mechanics '
     'prescribes (including Coriolis, centrifugal and Euler terms), and composing with the inverse gives the identity '
     'at rest. A composed quantity is known exactly when the operands determine it, and unknown quantities are never '
     'invented; operands are left unchanged.',
     ['inputs', 'configurations'], 'for all values and every combination of which quantities are known in each operand',
     'Tests check one fully-known composition numerically; partially-known operands are not tried.',
     RBK, [('composition', 'rigid-body-kinematics.hxx: Kinematics::operator*, setToProductNoAlias, getInverse')])
prop('C12', 'Kinematics integration, update and vector packing are consistent',
     'Integrating a kinematics object over a step moves it with its known velocity and acceleration at constant '
     'acceleration; updating it with new values keeps each requested quantity from the new data when given and '
     'otherwise derives it from the old ones by integration or finite differences over the step, and drops the '
     'quantities not requested. Packing to a vector and back restores exactly the selected quantities in order, and '
     'zeroing or resetting affects exactly the selected ones.',
     ['inputs', 'configurations'], 'for all values, sampling periods and every combination of known and requested '
     'quantities',
     'The combinations of known, new and requested quantities number in the hundreds; tests reach a handful.',
     RBK, [('update and packing', 'rigid-body-kinematics.hxx: Kinematics::integrate, update, toVector, fromVector, '
            'setZero, reset')])
DYN = [INC + 'dynamical-system/dynamical-system-functor-base.hpp', SRC + 'dynamical-system-functor-base.cpp']
FLX = INC + 'flexibility-estimation/'
SENS = [INC + 'sensors-simulation/' + f for f in
        ('sensor-base.hpp', 'algebraic-sensor.hpp', 'accelerometer-gyrometer.hpp',
         'accelerometer-gyrometer-magnetometer.hpp')] + [SRC + f for f in
        ('sensor-base.cpp', 'algebraic-sensor.cpp', 'accelerometer-gyrometer.cpp', 'linear-acceleration.cpp',
         'accelerometer-gyrometer-magnetometer.cpp', 'rotation-velocity.cpp', 'magnetic-field.cpp')]
prop('C13', 'Simulated sensors measure the physical quantity of the current state, plus noise',
     'A simulated sensor returns the measurement of the state given last: specific force R^T(a + g), angular velocity '
     'R^T w and magnetic field R^T m in the sensor frame, from a quaternion or a matrix state, followed by the '
     'concatenated inputs unchanged. With a noise, it is drawn once per state and the noisy measurement repeated until '
     'the next state, while the noise-free measurement stays exact whatever was asked before; sizes and time follow. A '
     'Gaussian white noise adds its bias and its deviation (or a square root of its covariance) times fresh normal '
     'draws, through the given sum, refusing ill-sized values.',
     ['inputs', 'histories'], 'for every state, sensor function, noise, size and order of calls',
     'Tests only use sensors inside long noisy simulations with loose error bounds; caching and noise are not observable.',
     SENS + [INC + 'noise/gaussian-white-noise.hpp', SRC + 'gaussian-white-noise.cpp',
             INC + 'tools/probability-law-simulation.hxx', SRC + 'probability-law-simulation.cpp'],
     [('measurement and caching', 'algebraic-sensor.cpp: setState, getMeasurements, computeNoisyMeasurement_'),
      ('sensors', 'accelerometer-gyrometer*.cpp: computeNoiselessMeasurement_'),
      ('noise', 'gaussian-white-noise.cpp: getNoisy, setCovarianceMatrix')],
     note='Arbitrary sensors of sizes 1..2; noises of dimensions 1..3; a gaussian draw is an arbitrary real.')
prop('C14', 'The inertial models predict and measure what rigid-body mechanics says',
     'The IMU models move position and velocity at constant acceleration over the sampling period and the orientation '
     'by exp(w dt + dw dt^2/2), the next accelerations being the inputs (IMU), zero (magnetometer), kept (fixed '
     'contacts) or the spring-damper ones (stable model). The fixed-contact models measure a sensor carried by the '
     'flexibility, with centrifugal, Coriolis and Euler terms, and how far each contact is displaced; the elastic '
     'pendulum conserves the balance of angular momentum. Process and measurement noises are applied when set, sizes '
     'follow the contacts, ill-sized vectors are refused, and nothing depends on earlier calls.',
     ['inputs', 'histories', 'configurations'], 'for every state, input, period, contact set, noise and earlier call',
     'Tests run one trajectory and check that an estimator with the same model converges: a wrong model goes unnoticed.',
     DYN + [INC + 'dynamical-system/' + f for f in ('imu-dynamical-system.hpp', 'imu-magnetometer-dynamical-system.hpp',
                                                     'bidim-elastic-inv-pendulum-dyn-sys.hpp')]
     + [FLX + 'imu-fixed-contact-dynamical-system.hpp', FLX + 'stable-imu-fixed-contact-dynamical-system.hpp']
     + [SRC + f for f in ('imu-dynamical-system.cpp', 'imu-magnetometer-dynamical-system.cpp',
                          'bidim-elastic-inv-pendulum-dyn-sys.cpp', 'imu-fixed-contact-dynamical-system.cpp',
                          'stable-imu-fixed-contact-dynamical-system.cpp')],
     [('state dynamics', 'stateDynamics of each model'), ('measurements', 'measureDynamics of each model'),
      ('orientation cache', 'computeQuaternion_')],
     note='0..2 contacts; rotation vectors below 1e-15 rad excluded.')
prop('C15', 'The multiplicative IMU model, its tangent space and its Jacobians agree',
     'With the orientation as a quaternion, the model moves the state at constant acceleration, keeps the quaternion '
     'unit and takes the next accelerations from the inputs; the measurement is the specific force and angular velocity '
     'in the sensor frame. Adding a tangent vector rotates by its exponential in the world frame and adds the rest; the '
     'difference is the inverse of that addition. The state and measurement matrices are the derivatives of the '
     'dynamics and of the measurement in that tangent space, for any period and whatever was computed before.',
     ['inputs', 'histories'], 'for every state, tangent vector, input and period, quaternions of any norm included',
     'One trajectory is estimated with a loose bound: wrong Jacobian blocks only slow the convergence.',
     DYN + [INC + 'dynamical-system/imu-mltpctive-dynamical-system.hpp', SRC + 'imu-mltpctive-dynamical-system.cpp'],
     [('dynamics', 'stateDynamics, measureDynamics'), ('tangent space', 'stateSum, stateDifference'),
      ('Jacobians', 'getAMatrix, getCMatrix')])
prop('C16', 'The tilt estimator is a complementary filter consistent with the motion',
     'Each measurement moves the estimate by one period: the velocity estimate by the accelerometer minus gravity along '
     'the tilt and by the gyrometer, attracted to the velocity that the motion of the sensor in the control frame '
     'implies, the first tilt corrected by the same error, the second following the first at unit norm. An estimate '
     'equal to the true local velocity and tilt moves as the truth does, for any mounting and motion of the sensor. '
     'The gains, period and sensor settings given last are used, and several pending measurements give the same as one '
     'by one.',
     ['inputs', 'histories'], 'for every state, measurement, gain, period and sensor position, orientation and velocity',
     'No test covers this estimator at all.',
     [INC + 'observer/tilt-estimator.hpp', SRC + 'tilt-estimator.cpp'],
     [('step', 'tilt-estimator.cpp: oneStepEstimation_'), ('measurement', 'tilt-estimator.cpp: setMeasurement')],
     note='Two consecutive steps; the tilt before normalization is not zero.')
LIP = INC + 'dynamics-estimators/'
prop('C17', 'The DCM estimators give the filter the documented pendulum model and settings',
     'The one- and two-dimensional DCM estimators filter the biased DCM with the linearized pendulum: the DCM diverges '
     'from the previous ZMP at the natural frequency, the bias is constant in the frame of the robot (it turns with the '
     'yaw, also when measurements wait), and the noise covariances are those of the current settings, whichever was '
     'changed and in whatever order. Resets start from a measurement, with or without bias, with the matching '
     'covariance. Guesses change only their part of the state. A bias limit clamps the bias on its own local axis only, '
     'keeping the biased DCM and the covariance.',
     ['inputs', 'histories', 'configurations'], 'for every setting, order of setters, measurement, yaw, reset and limit',
     'Tests run one noisy trajectory with default settings and check a loose final error: setters, limits and rotations '
     'are not reached.',
     [LIP + 'lipm-dcm-estimator.hpp', LIP + 'unidim-lipm-dcm-estimator.hpp', SRC + 'lipm-dcm-estimator.cpp',
      SRC + 'unidim-lipm-dcm-estimator.cpp'],
     [('model and settings', 'updateMatricesABQ_, set*'), ('inputs and limits', 'setInputs, update'),
      ('resets', 'resetWithMeasurements, resetWithInputs')],
     note='The linear Kalman filter underneath is the subject of C01, C02 and C04; up to three consecutive steps.')
KIN = [INC + 'dynamics-estimators/kinetics-observer.hpp', SRC + 'kinetics-observer.cpp']
prop('C18', 'The kinetics observer state: layout, tangent space and inverse operations',
     'The state of the kinetics observer is, in this order and at the indices it announces, position, orientation, '
     'velocities, gyrometer biases, external wrench, then each contact (rest pose and wrench), and its tangent vector '
     'the same with three numbers per orientation. Adding a tangent vector turns the orientations by its exponential '
     'and adds the rest, the difference of two states is the inverse of that addition, parts that are not estimated '
     'count for nothing, and measurements with an absolute pose are subtracted through their orientation.',
     ['inputs', 'configurations'], 'for every state, tangent vector, number of IMUs and contacts and measurement set',
     'The test only runs one configuration near the zero state, where additive and multiplicative orientations agree.',
     KIN, [('layout', 'kinetics-observer.hpp: *Index, *IndexTangent'),
           ('tangent space', 'kinetics-observer.cpp: stateSum, stateDifference, measurementDifference')],
     note='Up to 2 IMUs and 2 contacts.')
prop('C19', 'The kinetics observer keeps contacts, sensors and covariances consistent',
     'Contacts can be added, updated, removed and cleared in any order: the number and list of contacts, their rest '
     'poses, stiffnesses, wrenches and covariances follow, and an impossible request is refused. Sensors may be given '
     'in any order and are counted at every iteration, numbered automatically or by hand, with their kinematics '
     'integrated over the time since they were last seen. Setting a part of the state, of its covariance or of the '
     'process covariance changes that part only, at its tangent indices; resetting inputs forgets the measurements of '
     'the iteration and nothing else.',
     ['inputs', 'histories', 'configurations'], 'for every order of contact and sensor events, option and value',
     'The test adds one contact set once; removing, re-adding, several iterations and covariance blocks are not reached.',
     KIN, [('contacts', 'kinetics-observer.cpp: addContact, removeContact, clearContacts, updateContactWith*'),
           ('sensors', 'kinetics-observer.cpp: setIMU, setAbsolutePoseSensor, startNewIteration_, resetInputs'),
           ('covariances', 'kinetics-observer.cpp: set*Covariance*, *ProcessCovarianceMat')],
     note='Up to 2 IMUs, 2 contacts, 4 events.')
prop('C20', 'The kinetics observer obeys rigid-body dynamics and viscoelastic contact laws',
     'Accelerations satisfy Newton and Euler for the whole robot: mass times the acceleration of the center of mass is '
     'the sum of contact, external and additional forces and the weight, and the rate of angular momentum is the sum of '
     'their torques, with moving center of mass, changing inertia and internal momentum. The predicted state follows '
     'that motion over the period, the contact wrenches being those of springs and dampers deformed from their rest '
     'pose. Predicted measurements are the specific force and angular velocity with bias of each IMU given this '
     'iteration, the contact wrenches and the pose, with the noises set. update() corrects the prediction by exactly '
     'these measurements and covariances.',
     ['inputs', 'histories', 'configurations'], 'for every state, mass, inertia, motion, contact, sensor set and noise',
     'The test checks that one simulated trajectory stays finite; a wrong term in the dynamics passes.',
     KIN, [('dynamics', 'kinetics-observer.cpp: computeAccelerations_, stateDynamics, computeContactForces_'),
           ('measurements', 'kinetics-observer.cpp: measureDynamics'), ('filter', 'kinetics-observer.cpp: update')],
     note='Up to 2 IMUs, 2 contacts; update() with given diagonal-gain Jacobians (the extended filter itself is C03).')
prop('C21', 'The flexibility estimators run the filter on the sensors and settings given',
     'The estimated flexibility after a measurement is one step of the extended Kalman filter from the last estimation '
     'or guess (vector, pose or homogeneous matrix), with the inputs of both times, the Jacobians around the '
     'estimation, and covariances that follow the settings: each sensor in use (IMU, forces, absolute position, '
     'virtual contact measurements) keeps its own, whatever is switched or in which order. The orientation is '
     'regulated; contact forces and torques stay in their limits. Asking again changes nothing; off gives no '
     'flexibility; a measurement that is not a number leaves the last estimation.',
     ['inputs', 'histories', 'configurations'], 'for every state, input, measurement, covariance, limit and order of settings',
     'The tests run each estimator on one recorded or simulated trajectory, with one set of sensors and a loose threshold.',
     [FLX + f + '.hpp' for f in ('flexibility-estimator-base', 'ekf-flexibility-estimator-base',
      'fixed-contact-ekf-flex-estimator-imu', 'model-base-ekf-flex-estimator-imu')]
     + [SRC + f + '.cpp' for f in ('flexibility-estimator-base', 'ekf-flexibility-estimator-base',
        'fixed-contact-ekf-flex-estimator-imu', 'model-base-ekf-flex-estimator-imu')],
     [('steps', 'fixed-contact-ekf-flex-estimator-imu.cpp, model-base-ekf-flex-estimator-imu.cpp: getFlexibilityVector, '
       'setMeasurement; ekf-flexibility-estimator-base.cpp'),
      ('covariances', 'updateCovarianceMatrix_, updateMeasurementCovarianceMatrix_, resetCovarianceMatrices, set*Variance'),
      ('settings', 'setContactsNumber, setWith*, setFlexibilityGuess, setOn, set*Limit, setK*')],
     note='Systems with uninterpreted dynamics and measurements, given Jacobians; 0 to 2 contacts; two steps; the '
          'elastic model with its own Jacobians and the recovery from not-a-number are sampled only (bounded).')
prop('C22', 'The elastic model of the robot obeys its contact laws and Newton and Euler',
     'Contacts pull back with the force and torque of the springs and dampers set, from their deformation in the frame '
     'of the contact; ropes pull along their length. Accelerations are those of the whole robot under these wrenches, '
     'the weight and the unmodeled and additional forces; momentum rates from forces and from motion are its momentum '
     'rates. Prediction integrates that motion over the period; measurements are those of the IMU, contact forces and '
     'absolute position with the switches, noises and sizes set; Jacobians are the finite differences of both.',
     ['inputs', 'histories', 'configurations'], 'for every state, input, stiffness, mass, contact and switch',
     'The tests check the estimation error of one trajectory with a loose threshold; a wrong term of the model passes.',
     [FLX + 'imu-elastic-local-frame-dynamical-system.hpp', SRC + 'imu-elastic-local-frame-dynamical-system.cpp'],
     [('contacts', 'computeElastContactForcesAndMoments, computeElastPendulumForcesAndMoments'),
      ('dynamics', 'computeAccelerations, iterateDynamicsEuler, iterateDynamicsRK4, stateDynamics, getMomentaDotFrom*'),
      ('measurements', 'measureDynamics'), ('Jacobians', 'stateDynamicsJacobian, measureDynamicsJacobian')],
     note='0 to 2 contacts. A prediction from any state, Runge-Kutta with rotation and the Jacobian with absolute '
          'position are sampled only (bounded).')
prop('C23', 'The simulator follows the dynamics whatever the order of the requests',
     'Every simulated state is the state dynamics applied to the previous state with the input held from the last time '
     'it was given, every measurement is the measurement function of its state and input; asking for a state, a '
     'measurement or an array of them in any order simulates exactly as far as needed and gives values of the same '
     'trajectory; setting a state replaces the trajectory from that time on, with its measurements; setting an input '
     'again replaces it; resetting restarts from what is kept; and a request that no input or state allows is refused.',
     ['inputs', 'histories'], 'for every dynamics, first time, sequence of settings and requests, and values',
     'The tests simulate one system forward from its initial state with an input at every instant.',
     [INC + 'dynamical-system/dynamical-system-simulator.hpp', SRC + 'dynamical-system-simulator.cpp'],
     [('trajectories', 'dynamical-system-simulator.cpp: simulateDynamics, simulateDynamicsTo, getState, getMeasurement'),
      ('inputs', 'dynamical-system-simulator.cpp: setInput, getInput'),
      ('resets', 'dynamical-system-simulator.cpp: setState, resetDynamics, resetSimulator')],
     note='Dynamics uninterpreted, one-dimensional; at most 4 requests within 3 steps of the start.')
prop('C24', 'The logger records every pushed value of each variable, in order, and saves it',
     'A variable recorded by reference or by pointer is read at every push, alone or with all the others, whatever its '
     'type among scalars, vectors and matrices: its record is the sequence of the values it '
     'had, starting at the time given, and its file holds those lines; pushing, clearing, saving or moving one variable '
     'leaves the others alone; and a variable that is not recorded, or a type that cannot be, is refused.',
     ['inputs', 'histories'], 'for every value, type, number of pushes and way to name the variable',
     'The test pushes all variables of one run together and reads one file back.',
     [INC + 'tools/logger.hpp', INC + 'tools/logger.hxx', SRC + 'logger.cpp'],
     [('recording', 'logger.cpp: update_, push; logger.hxx: record, push'), ('reading', 'logger.cpp: getRecord'),
      ('files', 'logger.cpp: save, setPath'), ('moving', 'logger.cpp: updateAddress, clearLogs')],
     note='Up to 3 pushes; saved numbers to 6 significant digits, as the text format has.')
prop('C25', 'Numeric helpers: saturation, signs, projection on rotations, finite time law',
     'Saturation returns the closest value of the interval, signum the sign, derivate the rate of change, comparisons '
     'hold exactly within their precision, '
     'normalizedLazy a unit vector along its argument; the finite time control law, for negative gains, makes its error '
     'decrease as the square root of its magnitude on every component, the origin included; and a matrix close to a '
     'rotation is projected on a rotation, never on a reflection, the closest one.',
     ['inputs'], 'for every value, bound, gain and matrix',
     'The tests call few of these with positive, regular values.',
     [INC + 'tools/miscellaneous-algorithms.hpp', INC + 'tools/definitions.hxx',
      INC + 'tools/rigid-body-kinematics.hpp', INC + 'tools/rigid-body-kinematics.hxx'],
     [('scalars', 'miscellaneous-algorithms.hpp: clampScalar, signum, square, derivate, normalizedLazy; definitions.hxx: isApprox, isApproxAbs'),
      ('control law', 'miscellaneous-algorithms.hpp: finiteTimeAccControl'),
      ('projection', 'rigid-body-kinematics.hxx: orthogonalizeRotationMatrix')],
     note='orthogonalizeRotationMatrix (iterative SVD) and the compile-time tools::sqrt are bounded: sampled, not proved.')
