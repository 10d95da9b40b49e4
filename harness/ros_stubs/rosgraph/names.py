def script_resolve_name(script, name): return name if not name or name[0] == "/" else "/" + name
resolve_name = lambda name, ns="/": script_resolve_name("", name)
