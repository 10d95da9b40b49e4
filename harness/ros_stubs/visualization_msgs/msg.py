from rosfake import msg, Duration
from std_msgs.msg import Header, ColorRGBA
from geometry_msgs.msg import Pose, Vector3
Marker = msg("Marker", ("header", Header), ("ns", ""), ("id", 0), ("type", 0), ("action", 0), ("pose", Pose), ("scale", Vector3), ("color", ColorRGBA), ("lifetime", Duration), ("points", list), ("colors", list), ("text", ""))
MarkerArray = msg("MarkerArray", ("markers", list))
