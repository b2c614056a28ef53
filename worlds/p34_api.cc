// What every entity class offers to graphs and scripts: signals, and commands with their argument types.
// Made with P34_DUMP=1 build/bin/P34; names are interface, so a row changes only when the interface does.
#include <cstddef>
struct ApiRow { const char *cls, *signals, *commands; };
extern const ApiRow apiTable[];
extern const size_t apiRows;
const ApiRow apiTable[] = {
    {"Add_of_double", "sin0 sin1 sout", ""},
    {"Add_of_matrix", "sin0 sin1 sout", ""},
    {"Add_of_vector", "sin0 sin1 sout", ""},
    {"AdmittanceControlOpPoint", "Kd Kp dq dqSaturation force opPose sensorPose w_dq w_force w_forceDes", "init:6 resetDq:"},
    {"And", "sout", ""},
    {"BinaryIntToUint", "sin sout", ""},
    {"ClampWorkspace", "alpha alphabar position positionref ref", ""},
    {"CoMFreezer", "CoMRef PGInProcess freezedCoM", ""},
    {"CompareDouble", "sin1 sin2 sout", ""},
    {"CompareVector", "sin1 sin2 sout", "getEqual: getTrueIfAny: setEqual:1 setTrueIfAny:1"},
    {"Component_of_vector", "sin sout", "setIndex:3"},
    {"Compose_R_and_T", "sin1 sin2 sout", ""},
    {"ControlGR", "acceleration control gravity matrixA", ""},
    {"ControlPD", "Kd Kp control desired_position desired_velocity position position_error velocity velocity_error", ""},
    {"ConvolutionTemporal", "sin1 sin2 sout", ""},
    {"Derivator_of_Matrix", "dt sin sout", ""},
    {"Derivator_of_Vector", "dt sin sout", ""},
    {"Derivator_of_VectorQuaternion", "dt sin sout", ""},
    {"Derivator_of_double", "dt sin sout", ""},
    {"DoubleConstant", "sout", "set:6"},
    {"Event", "check condition", "addSignal:7 list: repeat:3"},
    {"ExpMovingAvg", "average update", "setAlpha:6"},
    {"FIRFilter_Vector_Matrix", "sin sout", "getElement:2 getSize: setElement:29 setSize:2"},
    {"FIRFilter_Vector_double", "sin sout", "getElement:2 getSize: setElement:26 setSize:2"},
    {"FIRFilter_double_double", "sin sout", "getElement:2 getSize: setElement:26 setSize:2"},
    {"Feature1D", "dim error errorIN jacobian jacobianIN selec", "getReference: setReference:7"},
    {"FeatureGeneric", "dim error errorIN errordot errordotIN jacobian jacobianIN selec", "getReference: setReference:7"},
    {"FeatureJointLimits", "dim error jacobian joint lowerJl selec upperJl widthJl", "actuate: getReference: setReference:7"},
    {"FeatureLineDistance", "Jq dim error jacobian line position positionRef selec vector", "getReference: setReference:7"},
    {"FeaturePoint6d", "Jq dim error errordot jacobian position selec velocity", "frame:7 getFrame: getReference: keep: setReference:7"},
    {"FeaturePoint6dRelative", "Jq JqRef dim dotposition dotpositionRef error errordot jacobian position positionRef selec velocity", "frame:7 getFrame: getReference: initSdes:7 keep: setReference:7"},
    {"FeaturePose", "dim error errordot faMfb faMfbDes faNufafbDes jaJja jaMfa jacobian jbJjb jbMfb oMja oMjb selec", "getReference: keep:3 setReference:7"},
    {"FeaturePoseSE3", "dim error errordot faMfb faMfbDes faNufafbDes jaJja jaMfa jacobian jbJjb jbMfb oMja oMjb selec", "getReference: keep:3 setReference:7"},
    {"FeaturePosture", "dim error jacobian posture postureDot selec state", "getReference: selectDof:21 setReference:7"},
    {"FeatureTask", "dim error errorIN errordot errordotIN jacobian jacobianIN selec", "getReference: setReference:7"},
    {"FeatureVector3", "Jq dim error jacobian position positionRef selec vector", "getReference: setReference:7"},
    {"FeatureVisualPoint", "Jq Z dim error jacobian selec xy", "getReference: setReference:7"},
    {"FilterDifferentiator", "ddx dx x x_filtered", "getSize: getTimestep: init:6388 switch_filter:88"},
    {"GainAdaptive", "error gain", "set:666 setByPoint:6666 setConstant:6"},
    {"GainHyperbolic", "error gain", ""},
    {"GradientAscent", "gradient learningRate value", ""},
    {"GripperControl", "position positionDes positionFullIN reference selec torque torqueFullIN torqueLimit torqueLimitFullIN", "offset:6"},
    {"HomoToMatrix", "sin sout", ""},
    {"HomoToRotation", "sin sout", ""},
    {"HomoToTwist", "sin sout", ""},
    {"IntegratorEulerDoubleDouble", "derivativesout sin sout", "getSamplingPeriod: initialize: popDenomCoef: popNumCoef: pushDenomCoef:6 pushNumCoef:6 setSamplingPeriod:6"},
    {"IntegratorEulerVectorDouble", "derivativesout sin sout", "getSamplingPeriod: initialize: popDenomCoef: popNumCoef: pushDenomCoef:6 pushNumCoef:6 setSamplingPeriod:6"},
    {"IntegratorEulerVectorMatrix", "derivativesout sin sout", "getSamplingPeriod: initialize: popDenomCoef: popNumCoef: pushDenomCoef:9 pushNumCoef:9 setSamplingPeriod:6"},
    {"Inverse_of_matrix", "sin sout", ""},
    {"Inverse_of_matrixHomo", "sin sout", ""},
    {"Inverse_of_matrixrotation", "sin sout", ""},
    {"Inverse_of_matrixtwist", "sin sout", ""},
    {"Inverse_of_unitquat", "sin sout", ""},
    {"JointLimitator", "control controlIN joint lowerJl upperJl widthJl", ""},
    {"Kalman", "F H P Q R x_est x_pred y y_pred", "setInitialState:8 setInitialVariance:9"},
    {"Latch", "out turnOffSout turnOnSout", "turnOff: turnOn:"},
    {"MadgwickAHRS", "accelerometer gyroscope imu_quat", "getBeta: init:6 setBeta:6 set_imu_quat:8"},
    {"Mailbox<Vector>", "object sout timestamp", ""},
    {"MatrixConstant", "sout", "resize:22 set:9"},
    {"MatrixDiagonal", "sin sout", "resize:33"},
    {"MatrixHomoToPose", "sin sout", ""},
    {"MatrixHomoToPoseQuaternion", "sin sout", ""},
    {"MatrixHomoToPoseRollPitchYaw", "sin sout", ""},
    {"MatrixHomoToPoseUTheta", "sin sout", ""},
    {"MatrixHomoToSE3Vector", "sin sout", ""},
    {"MatrixToHomo", "sin sout", ""},
    {"MatrixToQuaternion", "sin sout", ""},
    {"MatrixToRPY", "sin sout", ""},
    {"MatrixToUTheta", "sin sout", ""},
    {"MatrixTranspose", "sin sout", ""},
    {"Mix_of_vector", "default sout", "addSelec:333"},
    {"MotionPeriod", "motion", ""},
    {"Multiply_double_vector", "sin1 sin2 sout", ""},
    {"Multiply_matrixHomo_vector", "sin1 sin2 sout", ""},
    {"Multiply_matrixTwist_vector", "sin1 sin2 sout", ""},
    {"Multiply_matrix_vector", "sin1 sin2 sout", ""},
    {"Multiply_of_double", "sin0 sin1 sout", ""},
    {"Multiply_of_matrix", "sin0 sin1 sout", ""},
    {"Multiply_of_matrixHomo", "sin0 sin1 sout", ""},
    {"Multiply_of_matrixrotation", "sin0 sin1 sout", ""},
    {"Multiply_of_matrixtwist", "sin0 sin1 sout", ""},
    {"Multiply_of_quaternion", "sin0 sin1 sout", ""},
    {"Multiply_of_vector", "sin0 sin1 sout", ""},
    {"NeckLimitation", "joint jointLimited", ""},
    {"Norm_of_vector", "sin sout", ""},
    {"OpPointModifier", "jacobian jacobianIN position positionIN", "getEndEffector: getTransformation: setEndEffector:1 setTransformation:10"},
    {"Or", "sout", ""},
    {"PeriodicCallEntity", "triger trigerOnce", ""},
    {"PoseQuaternionToMatrixHomo", "sin sout", ""},
    {"PoseRollPitchYawToMatrixHomo", "sin sout", ""},
    {"PoseRollPitchYawToPoseUTheta", "sin sout", ""},
    {"PoseUThetaToMatrixHomo", "sin sout", ""},
    {"QuaternionToMatrix", "sin sout", ""},
    {"QuaternionToRPY", "sin sout", ""},
    {"RPYToMatrix", "sin sout", ""},
    {"RPYToQuaternion", "sin sout", ""},
    {"Reader", "matrix selec vector", "clear: load:7 resize:33 rewind:"},
    {"RobotSimu", "attitude attitudeIN control forceLARM forceLLEG forceRARM forceRLEG motorcontrol previousControl ptorque robotState robotVelocity state velocity zmp zmppreviouscontroller", "display: getTimeStep: increment:6 resize:2 set:8 setControlInputType:7 setPositionBounds:88 setRoot:9 setSanityCheck:1 setSecondOrderIntegration: setTimeStep:6 setTorqueBounds:88 setVelocity:8 setVelocityBounds:88"},
    {"SE3VectorToMatrixHomo", "sin sout", ""},
    {"SOT", "control damping proj0 q0", "clear: display: down:7 enablePostureTaskAcceleration:1 getMaxControlIncrementSquaredNorm: getSize: isPostureTaskAccelerationEnabled: list: push:7 remove:7 setMaxControlIncrementSquaredNorm:6 setSize:2 up:7"},
    {"Selec_column_of_matrix", "sin sout", "selecCols:3 selecRows:33"},
    {"Selec_of_matrix", "sin sout", "selecCols:33 selecRows:33"},
    {"Selec_of_vector", "sin sout", "addSelec:33 selec:33"},
    {"Sequencer", "trigger", ""},
    {"SkewSymToVector", "sin sout", ""},
    {"SmoothReach", "goal start", "param:36 set:83"},
    {"SotJointTrajectoryEntity", "com position seqid trajectoryIN waist zmp", "initTraj:7"},
    {"Stack_of_vector", "sin1 sin2 sout", "selec1:33 selec2:33"},
    {"Substract_of_double", "sin1 sin2 sout", ""},
    {"Substract_of_matrix", "sin1 sin2 sout", ""},
    {"Substract_of_vector", "sin1 sin2 sout", ""},
    {"SwitchBoolean", "boolSelection selection sout", "getSignalNumber: setSignalNumber:3"},
    {"SwitchMatrixHomogeneous", "boolSelection selection sout", "getSignalNumber: setSignalNumber:3"},
    {"SwitchVector", "boolSelection selection sout", "getSignalNumber: setSignalNumber:3"},
    {"Task", "controlGain controlSelec damping error errorTimeDerivative jacobian task", "add:7 clear: getWithDerivative: list: setWithDerivative:1"},
    {"TaskConti", "controlGain controlSelec damping error errorTimeDerivative jacobian q0 task", "add:7 clear: getWithDerivative: list: setWithDerivative:1"},
    {"TaskPD", "controlGain controlSelec damping error errorDot errorDotOUT errorTimeDerivative jacobian task", "add:7 clear: getWithDerivative: list: setBeta:6 setWithDerivative:1"},
    {"TaskUnilateral", "controlGain controlSelec damping dt error errorTimeDerivative jacobian position referenceInf referenceSup task", "add:7 clear: getWithDerivative: list: setWithDerivative:1"},
    {"TimeStamp", "synchro synchroDouble time timeDouble", ""},
    {"TimerDouble", "clockSout sin sout timer", ""},
    {"TimerMatrix", "clockSout sin sout timer", ""},
    {"TimerMatrixHomo", "clockSout sin sout timer", ""},
    {"TimerVector", "clockSout sin sout timer", ""},
    {"UThetaToQuaternion", "sin sout", ""},
    {"VectorConstant", "sout", "resize:2 set:8"},
    {"VectorToRotation", "sin sout", ""},
    {"VisualPointProjecter", "depth point2D point3D point3Dgaze transfo", ""},
    {"WeightAdd_of_double", "sin1 sin2 sout", "getGain1: getGain2: setGain1:6 setGain2:6"},
    {"WeightAdd_of_matrix", "sin1 sin2 sout", "getGain1: getGain2: setGain1:6 setGain2:6"},
    {"WeightAdd_of_vector", "sin1 sin2 sout", "getGain1: getGain2: setGain1:6 setGain2:6"},
};
const size_t apiRows = sizeof apiTable / sizeof apiTable[0];
