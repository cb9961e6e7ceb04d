"""Content of a plot as numbers."""


def shown(ax):
    d = {"lines": [], "segments": [], "areas": [], "bars": []}
    for l in ax.lines:
        d["lines"].append([[float(x) for x in l.get_xdata(orig=False)], [float(x) for x in l.get_ydata(orig=False)]])
    for c in ax.collections:
        if hasattr(c, "get_segments"):
            d["segments"] += [[[float(x) for x in v] for v in sg] for sg in c.get_segments()]
        else:
            d["areas"] += [[[float(x) for x in v] for v in pth.vertices] for pth in c.get_paths()]
    for r in ax.patches:
        if hasattr(r, "get_width"):
            d["bars"].append([float(r.get_x()), float(r.get_y()), float(r.get_width()), float(r.get_height())])
    return d
