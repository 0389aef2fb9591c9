"""Node gradients as documented: the mean over the adjoining elements of the gradient of the linear interpolation."""
import numpy as np
import devsim as ds
from vlib import sim


def vector_gradient(dev, region, dim, val, avoidzero):
    pos = sim.nodes_of(dev, region)[:, :dim]
    if dim == 1:
        el = sim.edges_of(dev, region)
    else:
        el = np.array(ds.get_element_node_list(device=dev, region=region))
    n = len(pos)
    out, cnt, mag = np.zeros((n, dim)), np.zeros(n), np.zeros(n)
    for e in el:
        if avoidzero and (val[e] == 0).any():
            continue
        m = pos[e[1:]] - pos[e[0]]
        g = np.linalg.solve(m, val[e[1:]] - val[e[0]])
        out[e] += g
        mag[e] = np.maximum(mag[e], np.abs(np.linalg.inv(m)).sum() * np.abs(val[e]).max())
        cnt[e] += 1
    ok = cnt > 0
    out[ok] /= cnt[ok][:, None]
    return out, mag
