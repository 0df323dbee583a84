"""Building mmcore objects from cases."""
import numpy as np
from mmcore.geom.nurbs import NURBSCurve, NURBSSurface


def mk_curve(c):
    pts = np.array(c["points"], dtype=float)
    if c.get("weights") is not None:
        pts = np.concatenate([pts, np.array(c["weights"], dtype=float)[:, None]], axis=1)
    kn = None if c.get("knots") is None else np.array(c["knots"], dtype=float)
    return NURBSCurve(pts, c["degree"], kn)


def mk_surf(s):
    pts = np.array(s["points"], dtype=float)
    if s.get("weights") is not None:
        w = np.array(s["weights"], dtype=float)[:, :, None]
        pts = np.concatenate([pts * w, w], axis=2)
    ku = None if s.get("knots_u") is None else np.array(s["knots_u"], dtype=float)
    kv = None if s.get("knots_v") is None else np.array(s["knots_v"], dtype=float)
    return NURBSSurface(pts, tuple(s["degree"]), ku, kv)
