from rosfake import msg, Time, Duration
Header = msg("Header", ("seq", 0), ("stamp", Time), ("frame_id", ""))
ColorRGBA = msg("ColorRGBA", ("r", 0.0), ("g", 0.0), ("b", 0.0), ("a", 0.0))
String = msg("String", ("data", ""))
Float32 = msg("Float32", ("data", 0.0)); Float64 = msg("Float64", ("data", 0.0)); Int32 = msg("Int32", ("data", 0)); Bool = msg("Bool", ("data", False)); Empty = msg("Empty")
