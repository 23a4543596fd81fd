"""Profiles of density and particles per cell."""
from numba import njit


def profile(D, dx, f):
    """Density or particles per cell as a function of the cell, given the coordinates of its centre."""
    if f["kind"] == "const":
        v = f["v"]
        return v
    a, b, c, m, o, s, fr = f["a"], f["b"], f["c"], f["m"], f["o"], float(f["s"]), float(f["fr"])
    hx, hy = dx[0], dx[1]
    if D == 2:
        def g(x, y):
            return ((a * round(x / hx) + b * round(y / hy)) % m - o) * s + fr
    else:
        hz = dx[2]

        def g(x, y, z):
            return ((a * round(x / hx) + b * round(y / hy) + c * round(z / hz)) % m - o) * s + fr
    return njit(g) if f.get("jit") else g
