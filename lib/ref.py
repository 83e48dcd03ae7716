"""Reference implementations, written from the definitions and independent of
chaosmagpy: nothing in this file imports the package under test."""
import numpy as np

R_REF = 6371.2


# ------------------------------------------------------ spherical harmonics

def index_list(nmin, nmax, mmax=None):
    """[(n, m, 'g' or 'h')] in the customary order of the coefficients."""
    mmax = nmax if mmax is None else mmax
    out = []
    for n in range(nmin, nmax + 1):
        out.append((n, 0, 'g'))
        for m in range(1, min(n, mmax) + 1):
            out += [(n, m, 'g'), (n, m, 'h')]
    return out


def sincos_deg(theta):
    """Accurate sine and cosine of an angle in degrees in [0, 180]."""
    theta = np.asarray(theta, dtype=float)
    t = np.where(theta > 90., 180. - theta, theta)
    s = np.where(t < 45., np.sin(np.radians(t)), np.cos(np.radians(90. - t)))
    c = np.where(t < 45., np.cos(np.radians(t)), np.sin(np.radians(90. - t)))
    return s, np.where(theta > 90., -c, c)


def _solid(nmax, x, y, z, external):
    """Normalized (factor sqrt((n-m)!/(n+m)!)) solid harmonics
    P_nm exp(i m phi) r^-(n+1) (or r^n) by the Cartesian recurrences."""
    r2 = x*x + y*y + z*z
    F = {}
    w = (x + 1j*y) if external else (x + 1j*y) / r2
    zz = z if external else z / r2
    q = r2 if external else 1. / r2
    F[0, 0] = (np.ones_like(x) if external else 1./np.sqrt(r2)) + 0j
    for m in range(0, nmax + 1):
        if m > 0:
            F[m, m] = (2*m - 1) / np.sqrt(2*m*(2*m - 1.)) * w * F[m-1, m-1]
        for n in range(m + 1, nmax + 1):
            v = (2*n - 1) * zz * F[n-1, m] * np.sqrt((n - m) / (n + m))
            if n - 2 >= m:
                v = v - (n + m - 1) * q * F[n-2, m] * np.sqrt(
                    (n - m) * (n - m - 1) / ((n + m) * (n + m - 1.)))
            F[n, m] = v / (n - m)
    return F


def field_matrix(radius, theta, phi, nmin, nmax, mmax=None,
                 source='internal', r_ref=R_REF):
    """Rows of (B_r, B_theta, B_phi) per coefficient: minus the gradient of
    the potential, computed in Cartesian coordinates (regular at the poles).

    radius, theta, phi: arrays of equal shape; output shape (M, ...)"""
    radius, theta, phi = np.broadcast_arrays(
        *(np.asarray(a, dtype=float) for a in (radius, theta, phi)))
    rho = radius / r_ref
    st, ct = sincos_deg(theta)
    sp, cp = np.sin(np.radians(phi)), np.cos(np.radians(phi))
    x, y, z = rho*st*cp, rho*st*sp, rho*ct
    ext = source == 'external'
    F = _solid(nmax if ext else nmax + 1, x, y, z, ext)
    zero = np.zeros_like(x) + 0j

    def grad(n, m):  # d/dz, (d/dx + i d/dy), (d/dx - i d/dy)
        if ext:
            dz = np.sqrt((n+m)*(n-m)) * F.get((n-1, m), zero)
            dp = -np.sqrt((n-m)*(n-m-1.)) * F[n-1, m+1] \
                if n - 1 >= m + 1 else zero
            if m > 0:
                dm = np.sqrt((n+m)*(n+m-1.)) * F[n-1, m-1]
            else:
                dm = np.conj(dp)
        else:
            dz = -np.sqrt((n-m+1.)*(n+m+1)) * F[n+1, m]
            dp = -np.sqrt((n+m+2.)*(n+m+1)) * F[n+1, m+1]
            if m > 0:
                dm = np.sqrt((n-m+1.)*(n-m+2)) * F[n+1, m-1]
            else:
                dm = np.conj(dp)
        return (dp + dm)/2, (dp - dm)/2j, dz

    out = []
    for n, m, kind in index_list(nmin, nmax, mmax):
        gx, gy, gz = grad(n, m)
        s = 1. if m == 0 else np.sqrt(2.)
        part = np.real if kind == 'g' else np.imag
        bx, by, bz = (-s*part(g) for g in (gx, gy, gz))
        out.append((bx*st*cp + by*st*sp + bz*ct,
                    bx*ct*cp + by*ct*sp - bz*st,
                    -bx*sp + by*cp))
    out = np.array(out)
    return out[:, 0], out[:, 1], out[:, 2]


def field_scale(coeffs, radius, nmin, nmax, mmax=None, source='internal',
                r_ref=R_REF):
    """Sum of the magnitudes of the single contributions (broadcast)."""
    coeffs = np.abs(np.asarray(coeffs, dtype=float))
    rho = np.asarray(radius, dtype=float) / r_ref
    tot = 0.
    for i, (n, m, _) in enumerate(index_list(nmin, nmax, mmax)):
        f = (n + 1) * (rho**(n-1) if source == 'external' else rho**-(n+2.))
        tot = tot + f * coeffs[..., i]
    return tot


def potential(coeffs, radius, theta, phi, nmin, nmax, source='internal',
              r_ref=R_REF):
    """The potential divided by r_ref, from scipy's Legendre functions."""
    rho = np.asarray(radius, float) / r_ref
    tot = 0.
    for i, (n, m, kind) in enumerate(index_list(nmin, nmax)):
        P = schmidt(n, m, theta)
        a = np.cos(m*np.radians(phi)) if kind == 'g' else \
            np.sin(m*np.radians(phi))
        f = rho**n if source == 'external' else rho**-(n+1.)
        tot = tot + f * P * a * coeffs[..., i]
    return tot


def schmidt(n, m, theta):
    """Schmidt quasi-normalized P_nm(cos theta), without (-1)^m phase."""
    from scipy.special import sph_legendre_p
    y = np.reshape(sph_legendre_p(n, m, np.radians(theta)), np.shape(theta))
    return (np.sqrt(4*np.pi/(2*n + 1)) * (np.sqrt(2.) if m else 1.)
            * (-1.)**m * y)


def schmidt_diff(n, m, theta):
    """Derivative of the above with respect to theta (in radians)."""
    from scipy.special import sph_legendre_p
    y = np.reshape(sph_legendre_p(n, m, np.radians(theta), diff_n=1)[1],
                   np.shape(theta))
    return (np.sqrt(4*np.pi/(2*n + 1)) * (np.sqrt(2.) if m else 1.)
            * (-1.)**m * y)


def sphere_quadrature(nmax):
    """Nodes (theta, phi in degrees) and weights (sum 1) of a rule that is
    exact for spherical harmonics up to degree 2*nmax + 2."""
    nt = nmax + 3
    x, w = np.polynomial.legendre.leggauss(nt)
    nph = 2*nmax + 5
    phi = np.arange(nph) * 360. / nph
    theta = np.degrees(np.arccos(x))
    T, P = np.meshgrid(theta, phi, indexing='ij')
    W = np.repeat(w[:, None] / 2., nph, axis=1) / nph
    return T.ravel(), P.ravel(), W.ravel()


# --------------------------------------------------- piecewise polynomials

def pp_eval(breaks, coeffs, x, deriv=0):
    """Evaluate local-power piecewise polynomials (highest power first).

    breaks (m+1,), coeffs (k, m, D), x any shape, all x inside the breaks;
    intervals are half-open, the last one is closed.  Returns x.shape+(D,)"""
    breaks = np.asarray(breaks, float)
    coeffs = np.asarray(coeffs, float)
    x = np.asarray(x, float)
    k, m, D = coeffs.shape
    out = np.empty((x.size, D))
    for j, t in enumerate(x.ravel()):
        i = 0
        while i < m - 1 and t >= breaks[i+1]:
            i += 1
        s = t - breaks[i]
        tot = np.zeros(D)
        for row in range(k):
            p = k - 1 - row
            if p < deriv:
                continue
            f = 1.
            for q in range(deriv):
                f *= p - q
            tot = tot + f * coeffs[row, i] * s**(p - deriv)
        out[j] = tot
    return out.reshape(x.shape + (D,))


def bspline_basis(knots, order, x, deriv=0):
    """Cox-de Boor: values (or derivatives) of all B-splines at the scalar x,
    right-continuous, and left-continuous at the last knot."""
    knots = [float(k) for k in knots]
    n = len(knots) - order

    def value(i, k):
        if k == 1:
            if knots[i] <= x < knots[i+1]:
                return 1.
            # right end point belongs to the last non-empty interval
            if x == knots[-1] and knots[i] < knots[i+1] == knots[-1]:
                return 1.
            return 0.
        out = 0.
        d = knots[i+k-1] - knots[i]
        if d > 0:
            out += (x - knots[i]) / d * value(i, k-1)
        d = knots[i+k] - knots[i+1]
        if d > 0:
            out += (knots[i+k] - x) / d * value(i+1, k-1)
        return out

    def diff(i, k, v):
        if v == 0:
            return value(i, k)
        if k == 1:
            return 0.
        out = 0.
        d = knots[i+k-1] - knots[i]
        if d > 0:
            out += (k-1) / d * diff(i, k-1, v-1)
        d = knots[i+k] - knots[i+1]
        if d > 0:
            out -= (k-1) / d * diff(i+1, k-1, v-1)
        return out

    return np.array([diff(i, order, deriv) for i in range(n)])


# -------------------------------------------------------------- coordinates

def unit(theta, phi):
    """Unit vectors (..., 3) and local (up, south, east) triads."""
    t, p = np.radians(theta), np.radians(phi)
    t, p = np.broadcast_arrays(t, p)
    st, ct, sp, cp = np.sin(t), np.cos(t), np.sin(p), np.cos(p)
    up = np.stack([st*cp, st*sp, ct], -1)
    south = np.stack([ct*cp, ct*sp, -st], -1)
    east = np.stack([-sp, cp, 0*st], -1)
    return up, south, east


def geodetic_to_cylindrical(height, beta, a, b):
    """Distance from the axis and from the equatorial plane."""
    lat = np.radians(90. - np.asarray(beta, float))
    N = a*a / np.sqrt(a*a*np.cos(lat)**2 + b*b*np.sin(lat)**2)
    return (N + height)*np.cos(lat), (N*b*b/(a*a) + height)*np.sin(lat)


def sun_direction(mjd2000):
    """Colatitude and longitude of the sun, after Meeus, "Astronomical
    algorithms", low accuracy (0.01 degrees), and the GMST of the IAU 1982."""
    d = np.asarray(mjd2000, float) - 0.5   # days since J2000.0 (noon)
    T = d / 36525.
    L0 = 280.46646 + 36000.76983*T + 0.0003032*T**2
    M = np.radians(357.52911 + 35999.05029*T - 0.0001537*T**2)
    C = ((1.914602 - 0.004817*T - 0.000014*T**2)*np.sin(M)
         + (0.019993 - 0.000101*T)*np.sin(2*M) + 0.000289*np.sin(3*M))
    om = np.radians(125.04 - 1934.136*T)
    lam = np.radians(L0 + C - 0.00569 - 0.00478*np.sin(om))
    eps = np.radians(23.439291 - 0.0130042*T + 0.00256*np.cos(om))
    ra = np.arctan2(np.cos(eps)*np.sin(lam), np.cos(lam))
    dec = np.arcsin(np.sin(eps)*np.sin(lam))
    gmst = 280.46061837 + 360.98564736629*d + 0.000387933*T**2
    return 90. - np.degrees(dec), np.degrees(ra) - gmst


def dipole_axis(g10, g11, h11):
    v = -np.stack(np.broadcast_arrays(g11, h11, g10), -1).astype(float)
    return v / np.sqrt(np.sum(v**2, -1, keepdims=True))


# ---------------------------------------------------- induction in a sphere

MU0 = 4e-7*np.pi


def _q_of(C, r, n):
    return n/(n + 1.)*(1 - (n + 1)*C/r)/(1 + n*C/r)


def response_quadratic(period, sigma, radius, n):
    """C (km) and Q of shells with sigma_k (r_k/r)^2, by the logarithmic
    derivative D = r u'/u of the radial function, propagated upwards."""
    iw = 2j*np.pi/period
    D = None
    for k in range(len(sigma) - 1, -1, -1):
        r = radius[k]*1e3
        beta = np.sqrt((n + .5)**2 + iw*MU0*sigma[k]*r*r)
        pp, pm = -.5 + beta, -.5 - beta
        if D is None:
            D = pp
        else:
            rho = (pp - D)/(D - pm)
            x = np.exp(2*beta*np.log(radius[k+1]/radius[k]))
            D = (pp + pm*rho*x)/(1 + rho*x)
    C = radius[0]/(1 + D)
    return C, _q_of(C, radius[0], n)


def response_constant(period, sigma, radius, n):
    """As before for uniform shells above a perfectly conducting core."""
    from scipy.special import ive, kve, iv, kv
    iw = 2j*np.pi/period
    v = n + .5
    D = None

    def logs(z):  # r-derivative times r of i_n(z), k_n(z); z = k r
        i0, i1 = ive(v, z), ive(v + 1, z)
        k0, k1 = kve(v, z), kve(v + 1, z)
        return n + z*i1/i0, n - z*k1/k0

    for k in range(len(radius) - 2, -1, -1):
        if sigma[k] == 0:       # insulator: r^n and r^(-n-1)
            rho = -1. if D is None else (n - D)/(D + n + 1)
            x = (radius[k+1]/radius[k])**(2*n + 1)
            D = (n - (n + 1)*rho*x)/(1 + rho*x)
            continue
        kap = np.sqrt(iw*MU0*sigma[k])
        zt, zb = kap*radius[k]*1e3, kap*radius[k+1]*1e3
        it, kt = logs(zt)
        ib, kb = logs(zb)
        # u = i_n + rho k_n; ratio of the functions at bottom and top
        if D is None:
            rho = -1.  # in units of i_n(zb)/k_n(zb): u = 0 at the core
        else:
            rho = (ib - D)/(D - kb)
        x = (ive(v, zb)/ive(v, zt) * kve(v, zt)/kve(v, zb)
             * np.exp(abs(zb.real) - abs(zt.real) - zt + zb))
        D = (it + kt*rho*x)/(1 + rho*x)
    C = radius[0]/(1 + D)
    return C, _q_of(C, radius[0], n)
