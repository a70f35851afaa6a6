"""Input generation and independent (hera_cal-free) readers for the oracles.

Only numpy, h5py and pyuvdata are used here: files are written by pyuvdata and
read back with raw h5py (visibilities) or pyuvdata (calfits), so nothing of the
code under test takes part in making inputs or in computing expected outputs.
"""
from __future__ import annotations

import functools
import warnings

import h5py
import numpy as np
from pyuvdata import Telescope, UVCal, UVData, UVFlag
from pyuvdata import utils as uvutils
from pyuvdata.telescopes import known_telescope_location

JD0 = 2459855
INT_S = 9.663677215576172
DT = INT_S / 86400.0
DF = 122070.3125
POLNUM = {"nn": -5, "ee": -6, "ne": -7, "en": -8}     # x_orientation north: x=n, y=e
NUMPOL = {v: k for k, v in POLNUM.items()}
JNUM = {"Jnn": -5, "Jee": -6}
NUMJ = {v: k for k, v in JNUM.items()}


def jpol(p):
    return {"n": "Jnn", "e": "Jee"}[p]


@functools.lru_cache(None)
def hera_loc():
    return known_telescope_location("HERA")


def grid_antpos(rng, nants, spacing=14.6, linear=False, compact=False):
    """Random antennas on a square or east-west grid -> {num: enu}."""
    n = int(np.ceil(np.sqrt(nants))) + (0 if compact else 1)
    pts = [(x, y) for y in range(1 if linear else n) for x in range(nants + 1 if linear else n)]
    if compact:
        pts = pts[:nants]
    else:
        pts = [pts[i] for i in sorted(rng.sample(range(len(pts)), nants))]
    nums = sorted(rng.sample(range(0, 40 if rng.random() < .7 else 320), nants))
    if rng.random() < .3:
        rng.shuffle(nums)
    return {a: np.array([spacing * x, spacing * y, 0.0]) for a, (x, y) in zip(nums, pts)}


@functools.lru_cache(64)
def _telescope(key, xor="north"):
    antpos = {a: np.array(p) for a, p in key}
    loc = hera_loc()
    nums = sorted(antpos)
    enu = np.array([antpos[a] for a in nums])
    ecef = uvutils.ECEF_from_ENU(enu, center_loc=loc) - np.array([loc.x.value, loc.y.value, loc.z.value])
    t = Telescope.new(name="HERA", location=loc, antenna_positions=ecef, antenna_numbers=np.array(nums),
                      antenna_names=[f"HH{a}" for a in nums], antenna_diameters=np.full(len(nums), 14.0), instrument="hera")
    t.set_feeds_from_x_orientation(xor, feeds=["x", "y"])
    return t


def telescope(antpos):
    return _telescope(tuple((a, tuple(map(float, p))) for a, p in sorted(antpos.items())))


@functools.lru_cache(256)
def lsts_of(times):
    loc = hera_loc()
    return uvutils.get_lst_for_time(np.array(times), telescope_loc=loc)


class Vis:
    """Plain description of a visibility file."""

    def __init__(self, antpos, antpairs, pols, times, freqs, time_major=True):
        self.antpos, self.antpairs, self.pols = antpos, [tuple(a) for a in antpairs], list(pols)
        self.times, self.freqs, self.time_major = np.array(times, float), np.array(freqs, float), time_major
        self.data, self.flags, self.nsamples = {}, {}, {}

    @property
    def lsts(self):
        return lsts_of(tuple(self.times))

    def keys(self):
        return [ap + (p,) for ap in self.antpairs for p in self.pols]

    def fill(self, nprng, flag_frac=0.15, nsamp=(0, 1, 2, 3), amp=1.0, full_flag=0.1):
        sh = (len(self.times), len(self.freqs))
        for k in self.keys():
            d = (nprng.normal(size=sh) + 1j * nprng.normal(size=sh)) * amp
            if k[0] == k[1]:
                if k[2][0] == k[2][1]:
                    d = np.abs(d) * 10 + 20 + 0j
            self.data[k] = d.astype(np.complex64)
            f = nprng.random(sh) < flag_frac
            if nprng.random() < full_flag:
                f[:] = True
            if nprng.random() < full_flag:
                f[nprng.integers(sh[0])] = True
            if nprng.random() < full_flag:
                f[:, nprng.integers(sh[1])] = True
            self.flags[k] = f
            self.nsamples[k] = nprng.choice(np.array(nsamp, np.float32), size=sh).astype(np.float32)
        # autos of cross-hand pols are conjugate pairs in reality; keep arbitrary but finite
        return self

    def to_uvdata(self, vis_units=None, history="sim"):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            uvd = UVData.new(
                freq_array=self.freqs, polarization_array=np.array([POLNUM[p] for p in self.pols]),
                antpairs=np.array(self.antpairs), telescope=telescope(self.antpos), times=self.times,
                do_blt_outer=True, time_axis_faster_than_bls=not self.time_major, empty=True,
                channel_width=width(self.freqs), integration_time=INT_S, vis_units=vis_units or "uncalib", history=history)
            uvd.blts_are_rectangular = True
            uvd.time_axis_faster_than_bls = not self.time_major
            nt, nf, npol = len(self.times), len(self.freqs), len(self.pols)
            rows = {}
            for n, ap in enumerate(zip(uvd.ant_1_array.tolist(), uvd.ant_2_array.tolist())):
                rows.setdefault(ap, []).append(n)
            assert set(rows) == set(self.antpairs) and all(len(r) == nt for r in rows.values()), "blt layout"
            for ap, r in rows.items():
                assert np.array_equal(uvd.time_array[r], self.times), "blt times"
            for name, src, dt in (("data_array", self.data, np.complex64), ("flag_array", self.flags, bool),
                                  ("nsample_array", self.nsamples, np.float32)):
                arr = np.zeros((uvd.Nblts, nf, npol), dt)
                for ap, r in rows.items():
                    for j, p in enumerate(self.pols):
                        arr[r, :, j] = src[ap + (p,)]
                setattr(uvd, name, arr)
        return uvd

    def write(self, path, vis_units=None, history="sim"):
        uvd = self.to_uvdata(vis_units, history)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            uvd.write_uvh5(path, clobber=True, run_check=False, check_extra=False, run_check_acceptability=False)
        return path


def get(d, k):
    """Look up baseline key with conjugation."""
    if k in d:
        return d[k]
    i, j, p = k
    v = d[(j, i, p[::-1])]
    return np.conj(v) if np.iscomplexobj(v) else v


def has(d, k):
    return k in d or (k[1], k[0], k[2][::-1]) in d


def read_uvh5(path):
    """Raw h5py reader -> dict(data, flags, nsamples keyed by (i, j, pol); times, freqs, lsts, ...)."""
    with h5py.File(path, "r") as f:
        h = f["Header"]
        a1, a2, t = h["ant_1_array"][()], h["ant_2_array"][()], h["time_array"][()]
        freqs = np.squeeze(h["freq_array"][()]).reshape(-1)
        polnums = h["polarization_array"][()]
        v, fl, ns = f["Data/visdata"][()], f["Data/flags"][()], f["Data/nsamples"][()]
        lst = h["lst_array"][()] if "lst_array" in h else None
        hist = h["history"][()]
        inttime = h["integration_time"][()] if "integration_time" in h else None
        antnums = h["antenna_numbers"][()]
        units = h["vis_units"][()] if "vis_units" in h else b""
        phase = h["uvw_array"][()]
    if v.ndim == 4:
        v, fl, ns = v[:, 0], fl[:, 0], ns[:, 0]
    pols = [NUMPOL[int(p)] for p in polnums]
    out = dict(data={}, flags={}, nsamples={}, times_of={}, lsts_of={}, int_of={}, uvw_of={})
    order = {}
    for n, ap in enumerate(zip(a1.tolist(), a2.tolist())):
        order.setdefault(ap, []).append(n)
    for ap, idx in order.items():
        idx = np.array(idx)
        idx = idx[np.argsort(t[idx], kind="stable")]
        for j, p in enumerate(pols):
            k = ap + (p,)
            out["data"][k], out["flags"][k], out["nsamples"][k] = v[idx, :, j], fl[idx, :, j], ns[idx, :, j]
        out["times_of"][ap] = t[idx]
        out["lsts_of"][ap] = lst[idx] if lst is not None else None
        out["int_of"][ap] = inttime[idx] if inttime is not None else None
        out["uvw_of"][ap] = phase[idx]
    out.update(times=np.unique(t), freqs=freqs, pols=pols, antpairs=list(order), lsts=lst,
               history=hist.decode() if isinstance(hist, bytes) else str(hist), antnums=antnums,
               vis_units=units.decode() if isinstance(units, bytes) else str(units), raw_order=list(zip(t.tolist(), a1.tolist(), a2.tolist())))
    return out


class Cal:
    """Plain description of a calibration file."""

    def __init__(self, antpos, ants, pols, times, freqs, gain_convention="divide"):
        self.antpos, self.ants, self.pols = antpos, list(ants), list(pols)   # pols: 'Jnn','Jee'
        self.times, self.freqs, self.gain_convention = np.array(times, float), np.array(freqs, float), gain_convention
        self.gains, self.flags, self.quals, self.total_qual = {}, {}, {}, {}

    def keys(self):
        return [(a, p) for a in self.ants for p in self.pols]

    def fill(self, nprng, flag_frac=0.1, full_flag=0.1, total=True):
        sh = (len(self.times), len(self.freqs))
        for k in self.keys():
            g = (1 + .3 * nprng.normal(size=sh)) * np.exp(2j * np.pi * nprng.random(sh))
            g = np.where(np.abs(g) < .1, .5, g)
            self.gains[k] = g.astype(np.complex64)
            f = nprng.random(sh) < flag_frac
            if nprng.random() < full_flag:
                f[:] = True
            self.flags[k] = f
            self.quals[k] = nprng.random(sh).astype(np.float32)
        for p in self.pols:
            self.total_qual[p] = nprng.random(sh).astype(np.float32)
        return self

    def to_uvcal(self, gain_scale=None, history="sim"):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            uvc = UVCal.new(
                cal_style="redundant", cal_type="gain", gain_convention=self.gain_convention,
                jones_array=np.array([JNUM[p] for p in self.pols]), telescope=telescope(self.antpos),
                time_array=self.times, freq_array=self.freqs, ant_array=np.array(self.ants),
                channel_width=np.full(len(self.freqs), width(self.freqs)), integration_time=np.full(len(self.times), INT_S),
                empty=True, history=history, gain_scale=gain_scale)
            na, nf, nt, nj = len(self.ants), len(self.freqs), len(self.times), len(self.pols)
            uvc.gain_array = np.ones((na, nf, nt, nj), np.complex64)
            uvc.flag_array = np.zeros((na, nf, nt, nj), bool)
            uvc.quality_array = np.zeros((na, nf, nt, nj), np.float32)
            uvc.total_quality_array = np.zeros((nf, nt, nj), np.float32)
            for i, a in enumerate(self.ants):
                for j, p in enumerate(self.pols):
                    uvc.gain_array[i, :, :, j] = self.gains[a, p].T
                    uvc.flag_array[i, :, :, j] = self.flags[a, p].T
                    uvc.quality_array[i, :, :, j] = self.quals[a, p].T
            for j, p in enumerate(self.pols):
                uvc.total_quality_array[:, :, j] = self.total_qual[p].T
        return uvc

    def write(self, path, **kw):
        uvc = self.to_uvcal(**kw)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            uvc.write_calfits(path, clobber=True, run_check=False)
        return path


def read_calfits(path):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        u = UVCal()
        u.read(path, file_type="calfits", run_check=False)
    out = dict(gains={}, flags={}, quals={}, total_qual={})
    for i, a in enumerate(u.ant_array):
        for j, jn in enumerate(u.jones_array):
            k = (int(a), NUMJ[int(jn)])
            out["gains"][k] = u.gain_array[i, :, :, j].T
            out["flags"][k] = u.flag_array[i, :, :, j].T
            if u.quality_array is not None:
                out["quals"][k] = u.quality_array[i, :, :, j].T
    if u.total_quality_array is not None:
        for j, jn in enumerate(u.jones_array):
            out["total_qual"][NUMJ[int(jn)]] = u.total_quality_array[:, :, j].T
    out.update(times=u.time_array.copy(), freqs=np.squeeze(u.freq_array).reshape(-1), ants=sorted(int(a) for a in u.ant_array),
               pols=sorted(NUMJ[int(j)] for j in u.jones_array), history=u.history, gain_convention=u.gain_convention,
               gain_scale=u.gain_scale)
    return out


def flag_file(vis, path, flags, mode="baseline"):
    """Write a baseline-type UVFlag h5 file with the given {(i,j,pol): flags}."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        v = Vis(vis.antpos, vis.antpairs, vis.pols, vis.times, vis.freqs, vis.time_major)
        v.data = {k: np.zeros_like(vis.data[k]) for k in vis.keys()}
        v.nsamples = {k: np.ones_like(vis.nsamples[k]) for k in vis.keys()}
        v.flags = flags
        uvd = v.to_uvdata()
        uvf = UVFlag(uvd, mode="flag", copy_flags=True, waterfall=False, run_check=False)
        uvf.write(path, clobber=True)
    return path


def times_for(jd_int, start, n, dt=DT):
    return jd_int + start + dt * np.arange(n)


def width(freqs):
    d = np.median(np.diff(freqs)) if len(freqs) > 1 else DF
    return float(d) if d > 1e6 else DF


def freqs_for(n, start=120e6):
    return start + DF * np.arange(n)


def close(a, b, tol=1e-5):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))


def diff_vis(got, exp, tol=1e-5, what=("data", "flags", "nsamples"), keys=None, unflagged_only=False):
    """First difference between a read_uvh5 result and expected dicts, or None."""
    gk = set(got["data"])
    ek = set(exp["data"])
    norm = lambda ks: {min(k, (k[1], k[0], k[2][::-1])) for k in ks}
    if norm(gk) != norm(ek):
        return f"baselines differ: missing {sorted(norm(ek) - norm(gk))[:4]}, extra {sorted(norm(gk) - norm(ek))[:4]}"
    if "times" in exp and not (len(got["times"]) == len(exp["times"]) and np.allclose(got["times"], exp["times"], rtol=0, atol=1e-8)):
        return f"times differ: got {got['times'].tolist()} expected {list(exp['times'])}"
    if "freqs" in exp and not (len(got["freqs"]) == len(exp["freqs"]) and np.allclose(got["freqs"], exp["freqs"], rtol=0, atol=1)):
        return f"frequencies differ: got {len(got['freqs'])} channels, expected {len(exp['freqs'])}"
    for k in sorted(ek):
        for w in what:
            g, e = get(got[w], k), exp[w][k]
            if g.shape != e.shape:
                return f"{w}{k}: shape {g.shape} expected {e.shape}"
            if w == "data" and unflagged_only:
                m = ~exp["flags"][k]
                g, e = g[m], e[m]
            ok = np.array_equal(g, e) if w == "flags" else close(g, e, tol)
            if not ok:
                bad = np.argwhere(~np.isclose(g.astype(complex), e.astype(complex), rtol=tol, atol=tol, equal_nan=True))
                ix = tuple(int(q) for q in bad[0]) if len(bad) else None
                return f"{w}{k} differs at {ix}: got {g[ix]} expected {e[ix]}" if ix is not None else f"{w}{k} differs"
    return None


def diff_cal(got, exp, tol=1e-5, what=("gains", "flags")):
    if set(got["gains"]) != set(exp["gains"]):
        return f"antennas differ: missing {sorted(set(exp['gains']) - set(got['gains']))[:4]} extra {sorted(set(got['gains']) - set(exp['gains']))[:4]}"
    if "times" in exp and not (len(got["times"]) == len(exp["times"]) and np.allclose(got["times"], exp["times"], rtol=0, atol=1e-8)):
        return f"times differ: got {np.asarray(got['times']).tolist()} expected {list(exp['times'])}"
    if "freqs" in exp and not (len(got["freqs"]) == len(exp["freqs"]) and np.allclose(got["freqs"], exp["freqs"], rtol=0, atol=1)):
        return "frequencies differ"
    for w in what:
        for k in sorted(exp[w]):
            if k not in got[w]:
                return f"{w}{k} missing"
            g, e = np.asarray(got[w][k]), np.asarray(exp[w][k])
            if g.shape != e.shape:
                return f"{w}{k}: shape {g.shape} expected {e.shape}"
            ok = np.array_equal(g, e) if w == "flags" else close(g, e, tol)
            if not ok:
                bad = np.argwhere(~np.isclose(g.astype(complex), e.astype(complex), rtol=tol, atol=tol, equal_nan=True))
                ix = tuple(int(q) for q in bad[0]) if len(bad) else None
                return f"{w}{k} differs at {ix}: got {g[ix] if ix is not None else ''} expected {e[ix] if ix is not None else ''}"
    return None
