"""Reference formulas of the shallow water and scalar schemes (terms)."""
from . import expr as X
from . import fv
from .expr import num

G = fv.G
HALF = num(1) / 2


def mx(*a):
    return X.fn("max", *a)


def mn(*a):
    return X.fn("min", *a)


def ab(a):
    return X.fn("abs", a)


def sq(a):
    return X.fn("sqrt", a)


def flux(u):
    h, q = u
    return q, q * q / h + G * h * h / 2


def speed(l, r):
    """Largest characteristic speed of both states."""
    return mx(ab(l[1] / l[0]) + sq(G * l[0]), ab(r[1] / r[0]) + sq(G * r[0]))


def bar(l, r, lam):
    """Intermediate state of the Riemann problem with symmetric speeds."""
    fl, fr = flux(l), flux(r)
    return tuple((a + b) / 2 - (y - x) / (2 * lam) for a, b, x, y in zip(l, r, fl, fr))


def source(l, r, step):
    """Half of the bathymetry source at a node (momentum)."""
    return G / 2 * (l[0] + r[0]) / 2 * step


def pair(f, l, r, step):
    """Contributions of a node to its left and right cell."""
    s = source(l, r, step)
    return (-f[0], -f[1] - s), (f[0], f[1] - s)


def central(l, r):
    fl, fr = flux(l), flux(r)
    return tuple((a + b) / 2 for a, b in zip(fl, fr))


def llf(l, r):
    fl, fr, lam = flux(l), flux(r), speed(l, r)
    return tuple((a + b) / 2 - lam / 2 * (y - x) for a, b, x, y in zip(fl, fr, l, r))


def es(l, r):
    """Energy conservative flux (Fjordholm et al.)."""
    h, v = (l[0] + r[0]) / 2, (l[1] / l[0] + r[1] / r[0]) / 2
    return h * v, h * v * v + G / 4 * (l[0] * l[0] + r[0] * r[0])


def entropy(u, b):
    v = u[1] / u[0]
    return G * (u[0] + b) - v * v / 2, v


def es1(l, r, bl, br):
    """Energy stable flux: diffusion R |Lambda| R^T applied to the jump of the
    entropy variables, at the averaged conserved variables."""
    h = (l[0] + r[0]) / 2
    v = (l[1] + r[1]) / 2 / h
    c = sq(G * h)
    lm, lp = v - c, v + c
    vl, vr = entropy(l, bl), entropy(r, br)
    d0, d1 = vr[0] - vl[0], vr[1] - vl[1]
    a, b = ab(lm) * (d0 + lm * d1), ab(lp) * (d0 + lp * d1)
    k = num(1) / (4 * G)
    f = es(l, r)
    return f[0] - k * (a + b), f[1] - k * (a * lm + b * lp)


def fix(h, step):
    """Height correction that keeps both modified heights nonnegative."""
    return mn(ab(step) / 2, h) * X.fn("sign", step)


def modified(l, r, step):
    """Bar states seen from the left and the right cell (Hajduk & Kuzmin)."""
    lam = speed(l, r)
    h, q = bar(l, r, lam)
    e = fix(h, step)
    v = (l[1] / l[0] + r[1] / r[0]) / 2
    s = -G * (l[0] + r[0]) / 2 * e / lam
    return (h + e, q + v * e + s), (h - e, q - v * e + s)


def low_order(l, r, step):
    lam = speed(l, r)
    fl, fr = flux(l), flux(r)
    a, b = modified(l, r, step)
    return (tuple(lam * (x - y) - f for x, y, f in zip(a, l, fl)),
            tuple(lam * (x - y) + f for x, y, f in zip(b, r, fr)))


def clamp(lo, hi, x):
    return mx(lo, mn(hi, x))


def sflux(problem, u):
    return fv.scalar_flux(problem, u)


def sspeed(problem, l, r):
    return num(1) if problem == "advection" else mx(ab(l), ab(r))


def sbar(problem, l, r):
    lam = sspeed(problem, l, r)
    return (l + r) / 2 - (sflux(problem, r) - sflux(problem, l)) / (2 * lam)


def sllf(problem, l, r):
    return (sflux(problem, l) + sflux(problem, r)) / 2 - sspeed(problem, l, r) / 2 * (r - l)


def scentral(problem, l, r):
    return (sflux(problem, l) + sflux(problem, r)) / 2


def smcl(problem, u, i, scheme=None):
    """Limited flux at the node between cells i and i+1; u(j) gives the values."""
    l, r = u(i), u(i + 1)
    lam, b = sspeed(problem, l, r), sbar(problem, l, r)
    up = lambda j: mx(u(j - 1), u(j), u(j + 1))
    lo = lambda j: mn(u(j - 1), u(j), u(j + 1))
    f = scentral(problem, l, r) - sllf(problem, l, r)
    return sllf(problem, l, r) + clamp(lam * mx(lo(i + 1) - b, b - up(i)), lam * mn(up(i + 1) - b, b - lo(i)), f)


def mcl(u, i, high=central):
    """Shallow water MCL flux over a flat bottom at the node between i and i+1."""
    l, r = u(i), u(i + 1)
    lam = lambda j: speed(u(j), u(j + 1))
    st = lambda j: bar(u(j), u(j + 1), lam(j))
    vel = lambda j: st(j)[1] / st(j)[0]
    hup = lambda j: mx(st(j - 1)[0], st(j)[0])
    hlo = lambda j: mn(st(j - 1)[0], st(j)[0])
    vup = lambda j: mx(vel(j - 1), vel(j))
    vlo = lambda j: mn(vel(j - 1), vel(j))
    w, (h, q), v = lam(i), st(i), vel(i)
    low, hi = llf(l, r), high(l, r)
    fh = clamp(w * mx(hlo(i + 1) - h, h - hup(i)), w * mn(hup(i + 1) - h, h - hlo(i)), hi[0] - low[0])
    a, b = h - fh / w, h + fh / w
    g = hi[1] - low[1] + w * (q - b * v)
    g = clamp(w * mx(b * (vlo(i + 1) - v), a * (v - vup(i))), w * mn(b * (vup(i + 1) - v), a * (v - vlo(i))), g)
    return low[0] + fh, low[1] + g - w * (q - b * v)


def mcl_free(u, i, step, high):
    """The same over any bottom: contributions of the node between i and i+1 to
    its left and right cell. step(j): jump of the bottom there; high: target
    contributions (left, right)."""
    lam = lambda j: speed(u(j), u(j + 1))
    hb = lambda j: bar(u(j), u(j + 1), lam(j))[0]
    mod = lambda j: modified(u(j), u(j + 1), step(j))
    vel = lambda j: (mod(j)[0][1] + mod(j)[1][1]) / (mod(j)[0][0] + mod(j)[1][0])
    # what cell j sees at its left (j-1) and right (j) node
    hs = lambda j: (mod(j - 1)[1][0], mod(j)[0][0])
    vs = lambda j: (vel(j - 1), vel(j), mod(j - 1)[1][1] / hb(j - 1), mod(j)[0][1] / hb(j))
    hup, hlo = lambda j: mx(*hs(j)), lambda j: mn(*hs(j))
    vup, vlo = lambda j: mx(*vs(j)), lambda j: mn(*vs(j))
    w, h, v = lam(i), hb(i), vel(i)
    (hl, ql), (hr, qr) = mod(i)
    low = low_order(u(i), u(i + 1), step(i))
    f = [x - y for x, y in zip(high[1], low[1])]
    fh = clamp(w * mx(hlo(i + 1) - hr, hl - hup(i)), w * mn(hup(i + 1) - hr, hl - hlo(i)), f[0])
    a, b = h - fh / w, h + fh / w
    s = w * (qr - b * v)
    g = clamp(w * mx(b * (vlo(i + 1) - v), a * (v - vup(i))), w * mn(b * (vup(i + 1) - v), a * (v - vlo(i))), f[1] + s) - s
    return (low[0][0] - fh, low[0][1] - g), (low[1][0] + fh, low[1][1] + g)
