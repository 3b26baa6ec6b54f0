#ifndef FAKE_TF_H
#define FAKE_TF_H
#include <ros/ros.h>
namespace tf {
struct Vector3 { double v[3]; Vector3(double x = 0, double y = 0, double z = 0) : v{x, y, z} {}
  double x() const { return v[0]; } double y() const { return v[1]; } double z() const { return v[2]; }
  double getX() const { return v[0]; } double getY() const { return v[1]; } double getZ() const { return v[2]; } };
struct Quaternion { double c[4]; Quaternion(double x = 0, double y = 0, double z = 0, double w = 1) : c{x, y, z, w} {}
  double x() const { return c[0]; } double y() const { return c[1]; } double z() const { return c[2]; } double w() const { return c[3]; } };
struct Transform { Vector3 o; Quaternion r; Transform() {} void setIdentity() { o = Vector3(); r = Quaternion(); } Transform(const Quaternion& q, const Vector3& p) : o(p), r(q) {}
  void setOrigin(const Vector3& p) { o = p; } void setRotation(const Quaternion& q) { r = q; }
  const Vector3& getOrigin() const { return o; } Quaternion getRotation() const { return r; } };
struct StampedTransform : Transform { ros::Time stamp_; std::string frame_id_, child_frame_id_; StampedTransform() {}
  StampedTransform(const Transform& t, const ros::Time& s, const std::string& f, const std::string& c) : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c) {} };
struct TransformBroadcaster { fakeros::World* w; TransformBroadcaster() : w(fakeros::g_world) {}
  void sendTransform(const StampedTransform& t) { if (w && w->record) w->out.push_back({"/tf", typeid(StampedTransform), boost::shared_ptr<void const>(boost::make_shared<StampedTransform>(t)), w->order++}); } };
}
#endif
