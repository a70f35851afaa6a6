"""Reference models: plain numpy, nothing imported from hera_cal."""
from __future__ import annotations

import numpy as np

C_LIGHT = 299792458.0


def conj_key(k):
    return (k[1], k[0], k[2][::-1])


def jp(pol):
    return "J" + pol + pol


def gain_of(gains, ant, p):
    return gains.get((ant, jp(p)))


def calibrate(k, data, flags, gains, cflags, old=None, convention="divide", old_convention=None):
    """Calibration equation for one baseline.

    Returns data, flags, complete (False when a needed gain is missing; the
    data are then not specified and the baseline is flagged throughout).
    """
    i, j, pol = k
    d, f = data.astype(np.complex128), flags.copy()
    sg = 1 if convention == "divide" else -1
    gi, gj = gain_of(gains, i, pol[0]), gain_of(gains, j, pol[1])
    complete = gi is not None and gj is not None
    if old is not None:
        oi, oj = gain_of(old, i, pol[0]), gain_of(old, j, pol[1])
        complete = complete and oi is not None and oj is not None
    if not complete:
        return d, np.ones_like(f), False
    with np.errstate(all="ignore"):
        d = d / (gi.astype(complex) * np.conj(gj.astype(complex)))**sg
        if old is not None:
            so = 1 if (old_convention or convention) == "divide" else -1
            d = d * (oi.astype(complex) * np.conj(oj.astype(complex)))**so
    if cflags is not None:
        for a, p in ((i, pol[0]), (j, pol[1])):
            cf = cflags.get((a, jp(p)))
            f = np.ones_like(f) if cf is None else f | cf
    return d, f, True


def rephase_tau(bl, dlst, lat_deg):
    """Delay by which drift of the sky over dlst changes a baseline's phase at zenith."""
    phi = np.deg2rad(lat_deg)
    h = np.asarray(dlst, float)
    e = -np.cos(phi) * np.sin(h)
    n = np.sin(phi) * np.cos(phi) - np.cos(phi) * np.cos(h) * np.sin(phi)
    u = np.sin(phi)**2 + np.cos(phi)**2 * np.cos(h)
    return (e * bl[0] + n * bl[1] + (u - 1) * bl[2]) / C_LIGHT


def rephase(d, bl, freqs, dlst, lat_deg=-30.72152):
    """d: (ntimes, nfreqs)."""
    tau = rephase_tau(bl, dlst, lat_deg)
    return d * np.exp(-2j * np.pi * np.asarray(freqs)[None, :] * tau[:, None])
