import rosfake
from . import names
class Master:
    def __init__(self, caller_id, *a): self.caller_id = caller_id
    def getSystemState(self): return rosfake.S.system_state() if callable(rosfake.S.system_state) else rosfake.S.system_state
