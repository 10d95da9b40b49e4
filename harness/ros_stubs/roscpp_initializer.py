import rosfake
def init_node(name, args=None, disable_signals=False, **k): rosfake.note("cpp_init", name); rosfake.S.cpp = name
def shutdown(): rosfake.note("cpp_shutdown"); rosfake.S.cpp = None
