// The repository's real sensor manager (one node) behind a tiny factory, compiled apart from the harness.
#include <ros/ros.h>
#if defined(MGR_POSE)
#include "pose_sensormanager.h"
typedef msf_pose_sensor::PoseSensorManager Manager;
#elif defined(MGR_POSITION)
#include "position_sensormanager.h"
typedef msf_position_sensor::PositionSensorManager Manager;
#elif defined(MGR_POSITION_POSE)
#include "position_pose_sensormanager.h"
typedef msf_updates::PositionPoseSensorManager Manager;
#elif defined(MGR_POSE_PRESSURE)
#include "pose_pressure_sensormanager.h"
typedef msf_pose_pressure_sensor::PosePressureSensorManager Manager;
#elif defined(MGR_SPHERICAL)
#include "spherical_sensormanager.h"
typedef msf_spherical_position::SensorManager Manager;
#endif
#include "manager.hpp"
struct RealHolder : Holder { Manager m; };
Holder* makeManager() { return new RealHolder(); }
