"""Reference geodesy: published ellipsoids and closed relations"""
import numpy as np

GM0, OM0 = 3.986004418e14, 7292115e-11
# a, 1/f, GM, omega
ELLIPSOIDS = {
    'CLK66': (6378206.4, 294.9786982, GM0, OM0), 'NAD27': (6378206.4, 294.9786982, GM0, OM0),
    'GRS80': (6378137.0, 298.257222101, 3.986005e14, OM0),
    'NAD83': (6378137.0, 298.257222101, 3.986005e14, OM0),
    'GRS67': (6378160.0, 298.247167427, 3.98603e14, 7292115.1467e-11),
    'WGS72': (6378135.0, 298.26, GM0, OM0), 'WGS84': (6378137.0, 298.257223563, GM0, OM0),
    'ATS77': (6378135.0, 298.257, GM0, OM0), 'KRASS': (6378245.0, 298.3, GM0, OM0),
    'INTER': (6378388.0, 297.0, GM0, OM0), 'MAIRY': (6377340.189, 299.3249646, GM0, OM0),
    'HGH80': (6378273.0, 298.279411123064, GM0, OM0),
    'TOPEX': (6378136.3, 298.257, 3.986004415e14, OM0),
    'EGM96': (6378136.3, 298.256415099, 3.986004415e14, OM0),
    'IERS': (6378136.6, 298.25642, GM0, OM0),
}


def gravity(name, theta):
    """normal gravity on the ellipsoid at a colatitude (Heiskanen & Moritz 2-199)"""
    a, rf, GM, om = ELLIPSOIDS[name]
    f = 1 / rf
    b = a * (1 - f)
    m = om**2 * a**2 * b / GM
    e22 = (a * a - b * b) / (b * b)
    ga = GM / (a * b) * (1 - 1.5 * m - 3.0 / 14.0 * e22 * m)
    f2 = -f + 2.5 * m + 0.5 * f * f - 26.0 / 7.0 * f * m + 15.0 / 4.0 * m * m
    f4 = -0.5 * f * f + 2.5 * f * m
    c = np.cos(theta)**2
    return ga * (1 + f2 * c + f4 * c * c)


def cartesian(lon, lat, h=0.0, a=6378137.0, f=1 / 298.257223563):
    lo, la = np.radians(lon), np.radians(lat)
    e2 = f * (2 - f)
    N = a / np.sqrt(1 - e2 * np.sin(la)**2)
    return np.stack([(N + h) * np.cos(la) * np.cos(lo), (N + h) * np.cos(la) * np.sin(lo),
                     (N * (1 - e2) + h) * np.sin(la)], axis=-1)


def neu(X):
    """unit vectors (south, east, radial) of the geocentric frame at positions X (n,3)"""
    X = np.asarray(X, float)
    r = np.sqrt((X**2).sum(axis=1))
    p = np.hypot(X[:, 0], X[:, 1])
    ph = np.arctan2(X[:, 1], X[:, 0])
    st, ct = p / r, X[:, 2] / r
    z = np.zeros(len(X))
    th = np.stack([np.cos(ph) * ct, np.sin(ph) * ct, -st], axis=1)
    ea = np.stack([-np.sin(ph), np.cos(ph), z], axis=1)
    ra = X / r[:, None]
    return th, ea, ra


def stere(lon, lat, lat0, lat_ts, lon_0, a=6378137.0, f=1 / 298.257223563):
    """ellipsoidal polar stereographic coordinates in metres (Snyder 1987, 21-33..21-40)"""
    s = 1.0 if lat0 > 0 else -1.0
    e = np.sqrt(f * (2 - f))

    def t_(p):
        return np.tan(np.pi / 4 - p / 2) / ((1 - e * np.sin(p)) / (1 + e * np.sin(p)))**(e / 2)
    phi = s * np.radians(np.asarray(lat, float))
    pc = abs(np.radians(lat_ts))
    dl = np.radians(np.asarray(lon, float) - lon_0)
    mc = np.cos(pc) / np.sqrt(1 - e * e * np.sin(pc)**2)
    rho = a * mc * t_(phi) / t_(pc)
    return rho * np.sin(dl), -s * rho * np.cos(dl)


def stere_scale(lat, lat_ts, f=1 / 298.257223563):
    """point scale of the same projection relative to 1 at lat_ts (Snyder 21-32, 21-35)"""
    e = np.sqrt(f * (2 - f))

    def t_(p):
        return np.tan(np.pi / 4 - p / 2) / ((1 - e * np.sin(p)) / (1 + e * np.sin(p)))**(e / 2)

    def m_(p):
        return np.cos(p) / np.sqrt(1 - e * e * np.sin(p)**2)
    p, pc = np.radians(np.abs(np.asarray(lat, float))), np.radians(abs(lat_ts))
    with np.errstate(all='ignore'):
        k = (t_(p) / t_(pc)) * m_(pc) / m_(p)
    kp = 0.5 * m_(pc) * np.sqrt((1 + e)**(1 + e) * (1 - e)**(1 - e)) / t_(pc)
    return np.where(np.abs(p - np.pi / 2) < 1e-7, kp, k)


def derived(a, f, GM, om, G=6.67430e-11):
    """derived quantities of a reference ellipsoid (closed relations)"""
    b = a * (1 - f)
    E = np.sqrt(a * a - b * b)
    e1, e2 = E / a, E / b
    m = om**2 * a**2 * b / GM
    q0 = ((1 + 3 / e2**2) * np.arctan(e2) - 3 / e2) / 2
    q0p = 3 * (1 + 1 / e2**2) * (1 - np.arctan(e2) / e2) - 1
    J2 = e1**2 / 3 * (1 - 2 * m * e2 / (15 * q0))
    V = 4 * np.pi / 3 * a * a * b
    S = 2 * np.pi * a * a * (1 + (1 - e1**2) / e1 * np.arctanh(e1))
    return dict(b_axis=b, ratio=b / a, rad_e=(a * a * b)**(1 / 3.0), rad_p=a * a / b, ecc=E, ecc1=e1,
                ecc2=e2, m=m, q=q0, q0=q0p, J2=J2, C20=-J2 / np.sqrt(5),
                U0=GM / E * np.arctan(e2) + om**2 * a**2 / 3, volume=V, area=S,
                rho_e=GM / G / V,
                gamma_a_exact=GM / (a * b) * (1 - m - m / 6 * e2 * q0p / q0),
                gamma_b_exact=GM / (a * a) * (1 + m / 3 * e2 * q0p / q0))
