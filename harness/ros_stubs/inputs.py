class InputEvent:
    def __init__(self, device=None, eventinfo=None):
        d = eventinfo or {}
        self.ev_type, self.code, self.state, self.timestamp = d.get("ev_type"), d.get("code"), d.get("state"), d.get("timestamp")
def get_gamepad(): return []
