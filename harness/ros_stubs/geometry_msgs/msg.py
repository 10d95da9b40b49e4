from rosfake import msg
from std_msgs.msg import Header
_xyz = (("x", 0.0), ("y", 0.0), ("z", 0.0))
Point = msg("Point", *_xyz); Vector3 = msg("Vector3", *_xyz); Point32 = msg("Point32", *_xyz)
Quaternion = msg("Quaternion", *_xyz, ("w", 0.0))
Pose = msg("Pose", ("position", Point), ("orientation", Quaternion))
Transform = msg("Transform", ("translation", Vector3), ("rotation", Quaternion))
PoseStamped = msg("PoseStamped", ("header", Header), ("pose", Pose))
PointStamped = msg("PointStamped", ("header", Header), ("point", Point))
Vector3Stamped = msg("Vector3Stamped", ("header", Header), ("vector", Vector3))
QuaternionStamped = msg("QuaternionStamped", ("header", Header), ("quaternion", Quaternion))
TransformStamped = msg("TransformStamped", ("header", Header), ("child_frame_id", ""), ("transform", Transform))
PoseArray = msg("PoseArray", ("header", Header), ("poses", list))
Twist = msg("Twist", ("linear", Vector3), ("angular", Vector3)); Wrench = msg("Wrench", ("force", Vector3), ("torque", Vector3))
