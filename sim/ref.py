"""
Reference models, written from the physics and not from AMAT's code:
point-mass motion over a rotating oblate planet, orbit after exit, maneuver
costs, equilibrium-glide bank law, energy.  SI units, vectorised over samples.
"""
import numpy as np

D2R = np.pi / 180.0


class World:
    """Constants of a planet plus the true density of the simulated atmosphere."""

    def __init__(self, planet, density):
        self.RP, self.GM, self.OM = planet.RP, planet.GM, planet.OMEGA
        self.J2, self.J3 = planet.J2, planet.J3
        self.h_thres, self.rho0 = planet.h_thres, planet.rho0
        self.g0 = planet.EARTHG
        self.density = density
        self.cdm = None                # drag coefficient over its nominal value, from altitude and speed

    def rho(self, h):
        d = self.density(h)
        return np.where(h > self.h_thres, 0.0, np.where(h < 0, self.rho0, d))


def rates(w, y, bank, beta, LD):
    """y: (n,7) r, lon, lat, v, heading, fpa, range.  Returns dy/dt.

    Heading is measured from east, fpa from the local horizontal; the heading
    rate is regularised near vertical flight the way AMAT documents it.
    """
    r, lon, lat, v, psi, gam, _ = y.T
    s, c = np.sin(lat), np.cos(lat)
    sg, cg, sp, cp = np.sin(gam), np.cos(gam), np.sin(psi), np.cos(psi)
    q = 0.5 * w.rho(r - w.RP) * v * v
    drag = q / beta                       # m/s2
    lift = LD * drag
    if w.cdm is not None:
        drag = drag * w.cdm(r - w.RP, v)
    x = w.RP / r
    gr = -w.GM / r**2 * (1 - 1.5 * w.J2 * x**2 * (3 * s * s - 1) - 2 * w.J3 * x**3 * (5 * s**3 - 3 * s))
    gp = -w.GM / r**2 * (3 * w.J2 * x**2 * s * c - 1.5 * w.J3 * x**3 * c * (1 - 5 * s * s))
    O = w.OM
    dv = -drag + sg * gr + cg * sp * gp + O * O * r * c * (sg * c - cg * s * sp)
    cgr = cg + 1e-2
    dpsi = ((lift * np.sin(bank) + cp * gp) / (v * cgr) - v / r * cg * cp * np.tan(lat)
            - O * O * r / (v * cgr) * s * c * cp + 2 * O * (sg / cgr * c * sp - s))
    dgam = ((lift * np.cos(bank) + cg * gr - sg * sp * gp) / v + v / r * cg
            + O * O * r / v * c * (cg * c + sg * s * sp) + 2 * O * c * cp)
    return np.stack([v * sg, v * cg * cp / (r * c), v * cg * sp / r, dv, dpsi, dgam, v * cg], axis=1)


def advance(w, y, dt, bank, beta, LD, n):
    """RK4 with n substeps; dt, bank, beta per row."""
    y = np.array(y, dtype=float)
    h = (np.asarray(dt, dtype=float) / n)[:, None]
    for _ in range(n):
        k1 = rates(w, y, bank, beta, LD)
        k2 = rates(w, y + 0.5 * h * k1, bank, beta, LD)
        k3 = rates(w, y + 0.5 * h * k2, bank, beta, LD)
        k4 = rates(w, y + h * k3, bank, beta, LD)
        y = y + h / 6.0 * (k1 + 2 * k2 + 2 * k3 + k4)
    return y


def states(rec, w, suffix='_full'):
    """(n,7) SI states of a recorded flight."""
    g = lambda n: np.asarray(rec[n + suffix], dtype=float)
    return np.stack([g('h_km') * 1e3 + w.RP, g('theta_deg') * D2R, g('phi_deg') * D2R,
                     g('v_kms') * 1e3, g('psi_deg') * D2R, g('gamma_deg') * D2R,
                     g('drange_km') * 1e3], axis=1)


def inertial(w, y):
    """Inertial position and velocity vectors of planet-relative states."""
    r, lon, lat, v, psi, gam, _ = np.atleast_2d(y).T
    up = np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], 1)
    east = np.stack([-np.sin(lon), np.cos(lon), 0 * lon], 1)
    north = np.stack([-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)], 1)
    R = r[:, None] * up
    V = v[:, None] * (np.sin(gam)[:, None] * up + np.cos(gam)[:, None] *
                      (np.cos(psi)[:, None] * east + np.sin(psi)[:, None] * north))
    V = V + np.cross(np.array([0.0, 0.0, w.OM]), R)
    return R, V


def apsides_km(w, y):
    """(apoapsis, periapsis) altitude of the two-body orbit of each state."""
    R, V = inertial(w, y)
    r = np.linalg.norm(R, axis=1)
    E = 0.5 * np.sum(V * V, 1) - w.GM / r
    H = np.linalg.norm(np.cross(R, V), axis=1)
    a = -w.GM / (2 * E)
    e = np.sqrt(np.maximum(0.0, 1 + 2 * E * H * H / w.GM**2))
    return (a * (1 + e) - w.RP) / 1e3, (a * (1 - e) - w.RP) / 1e3


def speed_on(w, r, ra, rp):
    """vis-viva speed at radius r on the orbit (ra, rp), all in m."""
    return np.sqrt(2 * w.GM / r - 2 * w.GM / (ra + rp))


def periapsis_raise(w, peri_km, apo_km, target_peri_km):
    ra, rp, rt = (w.RP + x * 1e3 for x in (apo_km, peri_km, target_peri_km))
    return speed_on(w, ra, ra, rt) - speed_on(w, ra, ra, rp)


def apoapsis_raise(w, peri_km, apo_km, target_apo_km):
    ra, rp, rt = (w.RP + x * 1e3 for x in (apo_km, peri_km, target_apo_km))
    return speed_on(w, rp, rt, rp) - speed_on(w, rp, ra, rp)


def energy(w, y):
    """Specific energy in the rotating frame: constant without drag."""
    r, lon, lat, v, psi, gam, _ = y.T
    s = np.sin(lat)
    x = w.RP / r
    U = -w.GM / r * (1 - 0.5 * w.J2 * x**2 * (3 * s * s - 1) - 0.5 * w.J3 * x**3 * (5 * s**3 - 3 * s))
    return 0.5 * v * v + U - 0.5 * (w.OM * r * np.cos(lat)) ** 2


def glide_command(w, s, mass, CL, A, y):
    """Equilibrium-glide bank command (deg) for states y; s: scenario."""
    Ghdot, Gq = s['glide'][0], s['glide'][1]
    r, _, _, v, _, gam, _ = y.T
    gs = w.GM / w.RP**2
    q = 0.5 * w.rho(r - w.RP) * v * v
    hdot = v * np.sin(gam)
    fall = 1 - v * v / (gs * r)
    qref = -mass * gs / (0.75 * CL * A) * fall
    cosd = mass * gs * fall / (CL * q * A) - Ghdot * hdot / q + Gq * (q - qref) / q
    return np.degrees(np.arccos(np.clip(cosd, -1.0, 1.0)))


def glide_band(w, s, mass, CL, A, y):
    """Commanded bank (deg) with the cosine known to one part in 1e8 only."""
    Ghdot, Gq = s['glide'][0], s['glide'][1]
    r, _, _, v, _, gam, _ = y.T
    gs = w.GM / w.RP**2
    q = 0.5 * w.rho(r - w.RP) * v * v
    fall = 1 - v * v / (gs * r)
    qref = -mass * gs / (0.75 * CL * A) * fall
    parts = [mass * gs * fall / (CL * q * A), -Ghdot * v * np.sin(gam) / q, Gq * (q - qref) / q]
    c = sum(parts)
    d = 1e-8 * (1 + sum(np.abs(p) for p in parts))
    f = lambda x: np.degrees(np.arccos(np.clip(x, -1.0, 1.0)))
    return f(c + d), f(c - d)


def work(w, y, dt, bank, beta, LD, n):
    """Energy taken by drag over each step (J/kg) along the reference path."""
    y = np.array(y, dtype=float)
    h = (np.asarray(dt, dtype=float) / n)
    cd = w.cdm or (lambda h, v: 1.0)
    p = lambda z: 0.5 * w.rho(z[:, 0] - w.RP) * z[:, 3] ** 3 / beta * cd(z[:, 0] - w.RP, z[:, 3])
    tot = np.zeros(len(y))
    for _ in range(n):
        p0 = p(y)
        m = advance(w, y, h / 2, bank, beta, LD, 1)
        y = advance(w, m, h / 2, bank, beta, LD, 1)
        tot = tot + h / 6 * (p0 + 4 * p(m) + p(y))
    return tot
