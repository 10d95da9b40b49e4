# what to_color_msg needs: named colours, #rrggbb[aa] and tuples
_NAMES = dict(white=(1, 1, 1), black=(0, 0, 0), red=(1, 0, 0), blue=(0, 0, 1))
def to_rgba(c, alpha=None):
    if isinstance(c, str):
        if c[:1] == "#":
            v = [int(c[k:k + 2], 16) / 255 for k in range(1, len(c), 2)]
        elif c in _NAMES: v = list(_NAMES[c])
        else: raise ValueError("Invalid RGBA argument: %r" % (c,))
    else: v = [float(x) for x in c]
    if len(v) not in (3, 4): raise ValueError("Invalid RGBA argument: %r" % (c,))
    return tuple(v) if len(v) == 4 else tuple(v) + (1.0,)
