"""Library of file-to-file pipeline stages: inputs, invocation, named outputs.

Each stage generates its own small inputs (with pyuvdata, no hera_cal code), runs
one real hera_cal entry point or script, and says which files it was asked to
write.  ``setup`` runs in the simulator process, ``run`` inside a job.
"""
from __future__ import annotations

import os
import random
import sys
import warnings

import h5py
import numpy as np

from sim import data as D

PAIR2 = ["nn", "ee"]
POL4 = ["nn", "ee", "ne", "en"]
C_M_NS = 0.299792458


# ------------------------------------------------------------------ inputs
def all_pairs(antpos):
    a = sorted(antpos)
    return [(i, j) for i in a for j in a if i <= j]


def noise_vis(p, nants=4, npol=2, nt=4, nf=8, start=.3, times=None, autos=True, compact=True, seed=None):
    rng = random.Random(p["seed"] if seed is None else seed)
    nr = np.random.default_rng(rng.randrange(1 << 30))
    ap = D.grid_antpos(random.Random(p["seed"]), nants, compact=compact)
    pairs = [q for q in all_pairs(ap) if autos or q[0] != q[1]]
    pols = {1: ["nn"], 2: PAIR2, 4: POL4}[npol]
    t = D.times_for(D.JD0, start, nt) if times is None else times
    return D.Vis(ap, pairs, pols, t, D.freqs_for(nf), p.get("time_major", True)).fill(nr, full_flag=.05)


def noise_cal(p, vis, seed=0, drop=0, freqs=None, nt1=False, conv="divide"):
    nr = np.random.default_rng(p["seed"] + 77 + seed)
    ants = sorted(vis.antpos)
    if drop:
        ants = ants[:-drop] or ants
    jp = [D.jpol(q) for q in ("n", "e") if any(q in x for x in vis.pols)]
    t = vis.times.mean(keepdims=True) if nt1 else vis.times
    return D.Cal(vis.antpos, ants, jp, t, vis.freqs if freqs is None else freqs, conv).fill(nr)


def sky_vis(p, antpos, pols, times, freqs, gains=None, seed=0, noise=1e-3, pairs=None, flags=True):
    """Redundant visibilities of a few point sources, optionally corrupted by gains."""
    nr = np.random.default_rng(p["seed"] + 4000)          # the sky is common to data and model
    nsrc = 12
    th = nr.uniform(-.7, .7, nsrc)
    ph = nr.uniform(0, 2 * np.pi, nsrc)
    lx, ly = np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph)
    flux = {q: nr.uniform(1, 5, nsrc) for q in POL4}
    nr2 = np.random.default_rng(p["seed"] + 5000 + seed)
    v = D.Vis(antpos, pairs or all_pairs(antpos), pols, times, freqs, p.get("time_major", True))
    rot = 2 * np.pi * (np.asarray(times) - D.JD0 - .3)
    for k in v.keys():
        i, j, q = k
        b = np.round(antpos[j] - antpos[i], 6)
        x = lx[None, :] * np.cos(rot)[:, None] - ly[None, :] * np.sin(rot)[:, None]
        y = lx[None, :] * np.sin(rot)[:, None] + ly[None, :] * np.cos(rot)[:, None]
        u = (b[0] * x + b[1] * y) / 2.99792458e8
        m = np.exp(-2j * np.pi * u[:, None, :] * np.asarray(freqs)[None, :, None])
        amp = flux[q] if q[0] == q[1] else flux[q] * .1
        d = (m * amp[None, None, :]).sum(-1)
        if i == j and q[0] == q[1]:
            d = d + 200
        if gains is not None:
            d = d * gains[i, D.jpol(q[0])] * np.conj(gains[j, D.jpol(q[1])])
        s = noise * (nr2.normal(size=d.shape) + 1j * nr2.normal(size=d.shape))
        if i == j and q[0] == q[1]:
            s = s.real
            d = np.abs(d)
        v.data[k] = (d + s).astype(np.complex64)
        f = np.zeros(d.shape, bool)
        if flags:
            f |= nr2.random(d.shape) < .02
        v.flags[k] = f
        v.nsamples[k] = np.ones(d.shape, np.float32)
    if flags and nr2.random() < .4:
        c = int(nr2.integers(len(freqs)))
        for k in v.keys():
            v.flags[k][:, c] = True
    return v


def smooth_gains(p, antpos, pols, times, freqs, seed=0):
    nr = np.random.default_rng(p["seed"] + 6000 + seed)
    g = {}
    for a in sorted(antpos):
        for q in sorted({x for y in pols for x in y}):
            tau = nr.normal(0, 8e-9)
            amp = 1 + .15 * nr.normal()
            g[a, D.jpol(q)] = np.ones((len(times), 1)) * (amp * np.exp(2j * np.pi * (np.asarray(freqs) * tau + nr.random())))[None, :]
    return g


def gain_cal(antpos, gains, times, freqs, seed, flag_frac=.05):
    jp = sorted({k[1] for k in gains}, reverse=True)
    c = D.Cal(antpos, sorted({k[0] for k in gains}), jp, times, freqs).fill(np.random.default_rng(seed), flag_frac=flag_frac, full_flag=0)
    for k in c.keys():
        c.gains[k] = np.asarray(gains[k], np.complex64)
    return c


def write_antflag_yaml(path, ants):
    with open(path, "w") as f:
        f.write("JD: 2459855\nfreq_flags: [[0, 0]]\nLST_flags: []\nJD_flags: []\ninteg_flags: []\nex_ants: [%s]\n" % ", ".join(str(a) for a in ants))


def script(name, *argv):
    """Run a command-line script of the repository in this job."""
    import runpy
    old = sys.argv
    sys.argv = [name] + [str(a) for a in argv]
    try:
        runpy.run_path(os.path.join(repo_dir(), "scripts", name), run_name="__main__")
    except SystemExit as e:
        if e.code not in (None, 0):
            raise RuntimeError(f"{name} exited with {e.code}")
    finally:
        sys.argv = old


def repo_dir():
    import hera_cal
    return os.path.dirname(os.path.dirname(os.path.abspath(hera_cal.__file__)))


# ------------------------------------------------------------------ content
SKIP = {"history", "Header/history"}


def h5_content(path, skip=("history", "creator", "hera_cal", "version")):
    out = {}
    with h5py.File(path, "r") as f:
        def visit(name, obj):
            if any(s in name.lower() for s in skip):
                return
            for k, v in obj.attrs.items():
                if not any(s in k.lower() for s in skip) and k not in ("DIMENSION_LIST", "REFERENCE_LIST", "CLASS", "NAME", "_Netcdf4Dimid"):
                    out[name + "@" + k] = np.asarray(v)
            if isinstance(obj, h5py.Dataset):
                out[name] = obj[()]
        for k, v in f.attrs.items():
            if not any(s in k.lower() for s in skip):
                out["@" + k] = np.asarray(v)
        f.visititems(visit)
    return out


def npz_content(path):
    with np.load(path, allow_pickle=True) as z:
        return {k: z[k] for k in z.files if k != "history"}


def content(path, kind):
    """Canonical content of a product (everything but its history text)."""
    if kind in ("uvh5", "h5"):
        return h5_content(path)
    if kind == "calfits":
        c = D.read_calfits(path)
        out = {}
        for w in ("gains", "flags", "quals", "total_qual"):
            for k, v in c[w].items():
                out[w, k] = np.asarray(v)
        out["times"], out["freqs"], out["ants"] = c["times"], c["freqs"], np.array(c["ants"])
        out["conv"], out["scale"] = np.array(str(c["gain_convention"])), np.array(str(c["gain_scale"]))
        return out
    if kind == "npz":
        return npz_content(path)
    with open(path, "rb") as f:
        return {"bytes": np.frombuffer(f.read(), np.uint8)}


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fc" and b.dtype.kind in "fc":
        return bool(np.array_equal(a, b, equal_nan=True))
    if a.dtype.kind == "O" or a.dtype.names or b.dtype.names:
        return repr(a.tolist()) == repr(b.tolist())
    return bool(np.array_equal(a, b))


def differ(a, b, keys=None):
    """First difference between two contents, or None."""
    ks = set(a) | set(b) if keys is None else set(keys)
    for k in sorted(ks, key=str):
        if (k in a) != (k in b):
            return f"{k} is {'missing' if k not in a else 'unexpected'}"
        if k in a and not same(a[k], b[k]):
            x, y = np.asarray(a[k]), np.asarray(b[k])
            n = int(np.sum(x != y)) if x.shape == y.shape else -1
            return f"{k} differs (shape {x.shape} vs {y.shape}, {n} elements)"
    return None


DATAKEYS = {"uvh5": ("Data/visdata", "Data/flags", "Data/nsamples", "Header/time_array", "Header/freq_array", "Header/ant_1_array", "Header/ant_2_array",
                     "Header/polarization_array")}


class Stage:
    name = "?"
    cost = 1          # relative wall time; expensive stages are drawn less often
    weight = 1        # stages with many options are drawn more often
    clobberable = True

    def make(self, rng):
        raise NotImplementedError

    def setup(self, p, d):
        raise NotImplementedError

    def outs(self, p):
        raise NotImplementedError

    def run(self, p, d, o, clobber):
        raise NotImplementedError

    def base(self, rng, **kw):
        q = dict(seed=rng.randrange(1 << 28), time_major=rng.random() < .5)
        q.update(kw)
        return q


STAGES = {}


def stage(cls):
    s = cls()
    STAGES[cls.name] = s
    return cls


# ------------------------------------------------------------------ stages
@stage
class ApplyCal(Stage):
    name = "apply_cal"
    cost = .5
    weight = 3.5

    def make(self, rng):
        red = rng.random() < .5
        p = self.base(rng, nants=rng.randint(3, 5), npol=rng.choice([1, 2, 4]), nt=rng.randint(1, 4), nf=rng.randint(3, 8),
                      nbl=rng.choice([None, 1, 2, 3, 5, 100]), old=rng.random() < .3, red=red, ff=rng.random() < .5, low=rng.choice([0, 0, 1]),
                      high=rng.choice([0, 0, 1]), groups=1, yaml=rng.random() < .15, drop=rng.choice([0, 0, 1]), conv=rng.choice(["divide", "multiply"]))
        if red and rng.random() < .6:
            p["nbl"] = None
            p["groups"] = 2
        return p

    def setup(self, p, d):
        v = noise_vis(p, p["nants"], p["npol"], p["nt"], p["nf"])
        v.write(d + "/in/data.uvh5")
        noise_cal(p, v, 1, drop=p["drop"], conv=p["conv"]).write(d + "/in/new.calfits")
        if p["old"]:
            noise_cal(p, v, 2, conv=p["conv"]).write(d + "/in/old.calfits")
        if p["ff"]:
            nr = np.random.default_rng(p["seed"] + 5)
            D.flag_file(v, d + "/in/flags.h5", {k: nr.random(v.flags[k].shape) < .2 for k in v.keys()})
        if p["yaml"]:
            write_antflag_yaml(d + "/in/ants.yaml", sorted(v.antpos)[:1])

    def outs(self, p):
        if p["red"] and p["groups"] > 1:
            return {f"out.{i}.uvh5": "uvh5" for i in range(p["groups"])}
        return {"out.uvh5": "uvh5"}

    def run(self, p, d, o, clobber):
        from hera_cal import apply_cal as ac
        ac.apply_cal(d + "/in/data.uvh5", o + "/out.uvh5", d + "/in/new.calfits", old_calibration=d + "/in/old.calfits" if p["old"] else None,
                     flag_file=d + "/in/flags.h5" if p["ff"] else None, flag_nchan_low=p["low"], flag_nchan_high=p["high"], nbl_per_load=p["nbl"],
                     gain_convention=p["conv"], redundant_average=p["red"], redundant_groups=p["groups"],
                     a_priori_flags_yaml=d + "/in/ants.yaml" if p["yaml"] else None, clobber=clobber)


@stage
class DelayFilter(Stage):
    name = "delay_filter"
    cost = 1
    weight = 1.5

    def make(self, rng):
        o = rng.sample(["res", "clean", "filled"], rng.randint(1, 3))
        return self.base(rng, nants=3, npol=rng.choice([1, 2]), nt=rng.randint(2, 4), nf=rng.choice([16, 24]), nfiles=1 if rng.random() < .7 else 2,
                         nbl=rng.choice([None, 1, 2, 4]), cal=rng.random() < .4, fact=rng.random() < .2, outs=sorted(o),
                         mode=rng.choice(["dayenu", "dpss_leastsq", "clean"]), cache=rng.random() < .4, nsamp=rng.random() < .2)

    def setup(self, p, d):
        for i in range(p["nfiles"]):
            v = noise_vis(p, p["nants"], p["npol"], p["nt"], p["nf"], start=.3 + i * p["nt"] * D.DT, seed=p["seed"] + i)
            v.write(d + f"/in/d{i}.uvh5")
            if p["cal"]:
                noise_cal(p, v, i).write(d + f"/in/c{i}.calfits")

    def outs(self, p):
        return {q + ".uvh5": "uvh5" for q in p["outs"]}

    def run(self, p, d, o, clobber):
        from hera_cal import delay_filter as df
        kw = {}
        if p["cache"]:
            os.makedirs(o + "/cache", exist_ok=True)
            kw = dict(cache_dir=o + "/cache", read_cache=True, write_cache=True)
        if p["mode"] == "clean":
            kw.update(maxiter=8, tol=1e-2)
        df.load_delay_filter_and_write([d + f"/in/d{i}.uvh5" for i in range(p["nfiles"])], calfile_list=[d + f"/in/c{i}.calfits" for i in range(p["nfiles"])] if p["cal"] else None,
                                       Nbls_per_load=p["nbl"] if p["nfiles"] == 1 else None, factorize_flags=p["fact"], clobber=clobber,
                                       res_outfilename=o + "/res.uvh5" if "res" in p["outs"] else None,
                                       CLEAN_outfilename=o + "/clean.uvh5" if "clean" in p["outs"] else None,
                                       filled_outfilename=o + "/filled.uvh5" if "filled" in p["outs"] else None,
                                       mode=p["mode"], standoff=100., min_dly=200., apply_flag_to_nsample=p["nsamp"], skip_wgt=0., **kw)


@stage
class TophatFRF(Stage):
    name = "tophat_frf"
    cost = 1
    weight = 1.5

    def make(self, rng):
        o = rng.sample(["res", "clean", "filled"], rng.randint(1, 3))
        return self.base(rng, nants=3, npol=rng.choice([1, 2]), nt=rng.randint(8, 12), nf=4, nbl=rng.choice([None, 1, 2, 4]), cal=rng.random() < .4,
                         outs=sorted(o), skip_autos=rng.random() < .4, nint=rng.choice([1, 1, 2]), nsamp=rng.random() < .4)

    def setup(self, p, d):
        v = noise_vis(p, p["nants"], p["npol"], p["nt"], p["nf"])
        v.write(d + "/in/d.uvh5")
        if p["cal"]:
            noise_cal(p, v).write(d + "/in/c.calfits")

    def outs(self, p):
        return {q + ".uvh5": "uvh5" for q in p["outs"]}

    def run(self, p, d, o, clobber):
        from hera_cal import frf
        frf.load_tophat_frfilter_and_write([d + "/in/d.uvh5"], case="max_frate_coeffs", max_frate_coeffs=[.024, -.229], calfile_list=[d + "/in/c.calfits"] if p["cal"] else None,
                                           Nbls_per_load=p["nbl"], clobber=clobber, skip_autos=p["skip_autos"], ninterleave=p["nint"], wgt_by_nsample=p["nsamp"],
                                           res_outfilename=o + "/res.uvh5" if "res" in p["outs"] else None,
                                           CLEAN_outfilename=o + "/clean.uvh5" if "clean" in p["outs"] else None,
                                           filled_outfilename=o + "/filled.uvh5" if "filled" in p["outs"] else None,
                                           mode="dpss_leastsq", tol=1e-5, skip_wgt=0.)


@stage
class TimeAvg(Stage):
    name = "time_avg"
    cost = .4

    def make(self, rng):
        return self.base(rng, nants=3, npol=rng.choice([1, 2]), nt=rng.randint(4, 5), nf=4, nfiles=rng.randint(1, 3), navg=rng.choice([1, 2, 3]),
                         nint=rng.choice([1, 1, 2]), rephase=rng.random() < .5, fl=rng.random() < .4, script=rng.random() < .2)

    def setup(self, p, d):
        for i in range(p["nfiles"]):
            noise_vis(p, p["nants"], p["npol"], p["nt"], p["nf"], start=.3 + i * p["nt"] * D.DT, seed=p["seed"] + i).write(d + f"/in/d{i}.uvh5")

    def outs(self, p):
        o = {}
        for i in range(p["nint"]):
            tag = f".interleave_{i}" if p["nint"] > 1 else ""
            o[f"avg{tag}.uvh5"] = "uvh5"
            if p["fl"]:
                o[f"flg{tag}.h5"] = "h5"
        return o

    def run(self, p, d, o, clobber):
        from hera_cal import frf
        frf.time_avg_data_and_write([d + f"/in/d{i}.uvh5" for i in range(p["nfiles"])], o + "/avg.uvh5", t_avg=p["navg"] * D.INT_S * p["nint"] + .01, rephase=p["rephase"],
                                    clobber=clobber, flag_output=o + "/flg.h5" if p["fl"] else None, ninterleave=p["nint"])


@stage
class Cornerturn(Stage):
    name = "cornerturn"
    cost = .4

    def make(self, rng):
        return self.base(rng, nants=3, npol=rng.choice([1, 2]), nt=rng.randint(2, 3), nf=3, nfiles=rng.randint(2, 3), which=rng.randrange(2), bounds=rng.random() < .4,
                         nsplit=rng.randint(1, 3))

    def setup(self, p, d):
        ts = D.times_for(D.JD0, .3, p["nt"] * p["nfiles"])
        full = noise_vis(p, p["nants"], p["npol"], len(ts), p["nf"], times=ts)
        for i in range(p["nfiles"]):
            noise_vis(p, p["nants"], p["npol"], p["nt"], p["nf"], times=ts[i * p["nt"]:(i + 1) * p["nt"]], seed=p["seed"] + i + 5).write(d + f"/in/t{i}.uvh5")
        for i in range(p["nsplit"]):
            aps = full.antpairs[i::p["nsplit"]]
            v = D.Vis(full.antpos, aps, full.pols, ts, full.freqs, p["time_major"])
            for w in ("data", "flags", "nsamples"):
                setattr(v, w, {k: getattr(full, w)[k] for k in v.keys()})
            v.write(d + f"/in/b{i}.uvh5")

    def outs(self, p):
        return {"o.uvh5": "uvh5"}

    def run(self, p, d, o, clobber):
        from hera_cal import vis_clean
        vis_clean.time_chunk_from_baseline_chunks(d + f"/in/t{p['which']}.uvh5", [d + f"/in/b{i}.uvh5" for i in range(p["nsplit"])], o + "/o.uvh5", clobber=clobber,
                                                  time_bounds=p["bounds"])


@stage
class Chunk(Stage):
    name = "chunk_files"
    cost = .3

    def make(self, rng):
        return self.base(rng, nants=3, npol=2, nt=rng.randint(1, 3), nf=rng.randint(2, 5), nfiles=rng.randint(2, 4), start=rng.randrange(2), size=rng.randint(1, 3),
                         typ=rng.choice(["data", "gains"]), spw=rng.random() < .4)

    def setup(self, p, d):
        for i in range(p["nfiles"]):
            v = noise_vis(p, p["nants"], p["npol"], p["nt"], p["nf"], start=.3 + i * p["nt"] * D.DT, seed=p["seed"] + i)
            if p["typ"] == "data":
                v.write(d + f"/in/d{i}.x")
            else:
                noise_cal(p, v, i).write(d + f"/in/d{i}.x")

    def outs(self, p):
        return {"o.uvh5": "uvh5"} if p["typ"] == "data" else {"o.calfits": "calfits"}

    def run(self, p, d, o, clobber):
        from hera_cal import chunker
        fs = [d + f"/in/d{i}.x" for i in range(p["nfiles"])]
        chunker.chunk_files(fs, fs[p["start"]], o + "/" + list(self.outs(p))[0], p["size"], type=p["typ"], spw_range=(1, p["nf"]) if p["spw"] else None, clobber=clobber)


@stage
class Spw(Stage):
    name = "select_spw"
    cost = .2

    def make(self, rng):
        return self.base(rng, nants=3, npol=2, nt=2, nf=rng.randint(4, 8), spw=rng.choice([None, [[0, 2]], [[1, 3]], [[0, 1], [1, 4]]]))

    def setup(self, p, d):
        noise_vis(p, p["nants"], p["npol"], p["nt"], p["nf"]).write(d + "/in/d.uvh5")

    def outs(self, p):
        return {"o.uvh5": "uvh5"}

    def run(self, p, d, o, clobber):
        from hera_cal import utils
        utils.select_spw_ranges(d + "/in/d.uvh5", o + "/o.uvh5", spw_ranges=p["spw"], clobber=clobber)


@stage
class Autos(Stage):
    name = "autos"
    cost = .2

    def make(self, rng):
        return self.base(rng, nants=3, npol=rng.choice([2, 4]), nt=rng.randint(2, 3), nf=rng.randint(2, 5), cal=rng.random() < .6, noise=rng.random() < .5)

    def setup(self, p, d):
        v = noise_vis(p, p["nants"], p["npol"], p["nt"], p["nf"])
        v.write(d + "/in/d.uvh5")
        noise_cal(p, v).write(d + "/in/c.calfits")

    def outs(self, p):
        return {"o.uvh5": "uvh5"}

    def run(self, p, d, o, clobber):
        from hera_cal import autos, noise
        c = d + "/in/c.calfits" if p["cal"] else None
        (noise.write_per_antenna_noise_std_from_autos if p["noise"] else autos.read_and_write_autocorrelations)(d + "/in/d.uvh5", o + "/o.uvh5", calfile=c, clobber=clobber)


@stage
class ThrowAway(Stage):
    name = "throw_away"
    cost = .2

    def make(self, rng):
        return self.base(rng, nants=4, npol=2, nt=2, nf=3, yaml=rng.random() < .7, full=rng.random() < .5)

    def setup(self, p, d):
        v = noise_vis(p, p["nants"], p["npol"], p["nt"], p["nf"])
        v.write(d + "/in/d.uvh5")
        write_antflag_yaml(d + "/in/a.yaml", sorted(v.antpos)[1:2])

    def outs(self, p):
        return {"o.uvh5": "uvh5"}

    def run(self, p, d, o, clobber):
        from hera_cal import io
        io.throw_away_flagged_ants(d + "/in/d.uvh5", o + "/o.uvh5", yaml_file=d + "/in/a.yaml" if p["yaml"] else None, throw_away_fully_flagged_data_baselines=p["full"], clobber=clobber)


@stage
class CombineCal(Stage):
    name = "combine_calfits"
    cost = .2

    def make(self, rng):
        return self.base(rng, nants=3, npol=2, nt=rng.randint(1, 3), nf=3, n=rng.randint(1, 3), bc=rng.random() < .5)

    def setup(self, p, d):
        v = noise_vis(p, p["nants"], p["npol"], p["nt"], p["nf"])
        for i in range(p["n"]):
            noise_cal(p, v, i).write(d + f"/in/c{i}.calfits")

    def outs(self, p):
        return {"o.calfits": "calfits"}

    def run(self, p, d, o, clobber):
        from hera_cal import utils
        utils.combine_calfits([d + f"/in/c{i}.calfits" for i in range(p["n"])], "o.calfits", outdir=o, overwrite=clobber, broadcast_flags=p["bc"], verbose=False)


@stage
class MultGains(Stage):
    name = "multiply_gains"
    cost = .2

    def make(self, rng):
        return self.base(rng, nants=3, npol=2, nt=rng.randint(1, 3), nf=3, div=rng.random() < .5)

    def setup(self, p, d):
        v = noise_vis(p, p["nants"], p["npol"], p["nt"], p["nf"])
        for i in range(2):
            noise_cal(p, v, i).write(d + f"/in/c{i}.calfits")

    def outs(self, p):
        return {"o.calfits": "calfits"}

    def run(self, p, d, o, clobber):
        from hera_cal import abscal
        abscal.multiply_gains(d + "/in/c0.calfits", d + "/in/c1.calfits", o + "/o.calfits", clobber=clobber, divide_gains=p["div"])


@stage
class UpdateCal(Stage):
    name = "update_cal"
    cost = .2

    def make(self, rng):
        return self.base(rng, nants=3, npol=2, nt=rng.randint(1, 3), nf=3, fl=rng.random() < .5, how=rng.choice(["update", "write_cal", "heracal"]))

    def setup(self, p, d):
        v = noise_vis(p, p["nants"], p["npol"], p["nt"], p["nf"])
        noise_cal(p, v).write(d + "/in/c.calfits")

    def outs(self, p):
        return {"o.calfits": "calfits"}

    def run(self, p, d, o, clobber):
        from hera_cal import io
        hc = io.HERACal(d + "/in/c.calfits")
        g, f, q, t = hc.read()
        g2 = {k: v * 2 for k, v in g.items()}
        f2 = {k: ~v for k, v in f.items()} if p["fl"] else None
        if p["how"] == "update":
            io.update_cal(d + "/in/c.calfits", o + "/o.calfits", gains=g2, flags=f2, quals=q, clobber=clobber)
        elif p["how"] == "write_cal":
            io.write_cal("o.calfits", g2, hc.freqs, hc.times, flags=f2 or f, quality=q, total_qual=t, outdir=o, overwrite=clobber, return_uvc=False, integration_time=D.INT_S,
                         antpos={a: np.array([14.6 * a, 0., 0.]) for a in {k[0] for k in g}})
        else:
            hc.update(gains=g2, flags=f2)
            hc.write(o + "/o.calfits", clobber=clobber)


@stage
class UpdateVis(Stage):
    name = "update_vis"
    cost = .2

    def make(self, rng):
        return self.base(rng, nants=3, npol=2, nt=rng.randint(1, 3), nf=3, how=rng.choice(["update", "write_vis", "partial"]), nbl=rng.choice([1, 2, 4]))

    def setup(self, p, d):
        noise_vis(p, p["nants"], p["npol"], p["nt"], p["nf"]).write(d + "/in/d.uvh5")

    def outs(self, p):
        return {"o.uvh5": "uvh5"}

    def run(self, p, d, o, clobber):
        from hera_cal import io
        hd = io.HERAData(d + "/in/d.uvh5")
        if p["how"] == "update":
            dd, f, n = hd.read()
            io.update_vis(d + "/in/d.uvh5", o + "/o.uvh5", filetype_in="uvh5", filetype_out="uvh5", data={k: v * 2 for k, v in dd.items()}, clobber=clobber)
        elif p["how"] == "write_vis":
            dd, f, n = hd.read()
            io.write_vis("o.uvh5", dd, hd.lsts, hd.freqs, hd.antpos, time_array=hd.times, flags=f, nsamples=n, filetype="uvh5", outdir=o, overwrite=clobber, verbose=False,
                         integration_time=D.INT_S)
        else:
            for dd, f, n in hd.iterate_over_bls(Nbls=p["nbl"]):
                hd.partial_write(o + "/o.uvh5", data=io.DataContainer({k: dd[k] * 2 for k in dd.keys()}), clobber=clobber, inplace=bool(p["seed"] % 2))


@stage
class RedcalMeta(Stage):
    name = "redcal_meta"
    cost = .1

    def make(self, rng):
        return self.base(rng, nt=rng.randint(1, 3), nf=rng.randint(2, 5))

    def setup(self, p, d):
        pass

    def outs(self, p):
        return {"m.hdf5": "h5"}

    def run(self, p, d, o, clobber):
        from hera_cal import io
        r = np.random.default_rng(p["seed"])
        sh = (p["nt"], p["nf"])
        ants = [(a, q) for a in (0, 1, 5) for q in ("Jnn", "Jee")]
        fc = {"dlys": {a: r.normal(size=p["nt"]) for a in ants}, "polarity_flips": {a: r.random(p["nt"]) < .5 for a in ants}}
        om = {"chisq": {q: r.random(sh) for q in ("Jnn", "Jee")}, "iter": {q: r.integers(0, 9, sh) for q in ("Jnn", "Jee")},
              "conv_crit": {q: r.random(sh) for q in ("Jnn", "Jee")}}
        io.save_redcal_meta(o + "/m.hdf5", fc, om, D.freqs_for(p["nf"]), D.times_for(D.JD0, .3, p["nt"]), np.linspace(1, 2, p["nt"]),
                            {0: np.zeros(3), 1: np.ones(3), 5: np.arange(3.)}, "hist", clobber=clobber)


@stage
class Redcal(Stage):
    name = "redcal"
    cost = 3

    def make(self, rng):
        return self.base(rng, nants=rng.choice([5, 6, 7]), npol=rng.choice([1, 2]), nt=rng.randint(1, 3), nf=rng.choice([12, 16]), nint=rng.choice([None, 1, 2]),
                         ext=rng.random() < .3)

    def setup(self, p, d):
        ap = D.grid_antpos(random.Random(p["seed"]), p["nants"], compact=True)
        pols = ["ee"] if p["npol"] == 1 else PAIR2
        t, f = D.times_for(D.JD0, .3, p["nt"]), D.freqs_for(p["nf"])
        sky_vis(p, ap, pols, t, f, gains=smooth_gains(p, ap, pols, t, f), flags=False).write(d + "/in/zen.1.uvh5")

    def outs(self, p):
        return {"zen.1.first.calfits": "calfits", "zen.1.omni.calfits": "calfits", "zen.1.omni_vis.uvh5": "uvh5", "zen.1.redcal_meta.hdf5": "h5"}

    def run(self, p, d, o, clobber):
        from hera_cal import redcal
        redcal.redcal_run(d + "/in/zen.1.uvh5", outdir=o, clobber=clobber, nInt_to_load=p["nint"], pol_mode="1pol" if p["npol"] == 1 else "2pol", oc_maxiter=20, check_after=5,
                          check_every=5, solar_horizon=90., max_rerun=1, ant_z_thresh=100.)


@stage
class Abscal(Stage):
    name = "post_redcal_abscal"
    cost = 3

    def make(self, rng):
        return self.base(rng, nants=5, npol=2, nt=rng.randint(1, 3), nf=8, nint=rng.choice([None, 1, 2]), delta=rng.random() < .6, nmodel=rng.choice([1, 2]))

    def setup(self, p, d):
        ap = D.grid_antpos(random.Random(p["seed"]), p["nants"], compact=True)
        t, f = D.times_for(D.JD0, .3, p["nt"]), D.freqs_for(p["nf"])
        g = smooth_gains(p, ap, PAIR2, t, f)
        sky_vis(p, ap, PAIR2, t, f, gains=g, flags=False).write(d + "/in/d.uvh5")
        gain_cal(ap, g, t, f, p["seed"], flag_frac=.02).write(d + "/in/zen.omni.calfits")
        tm = D.times_for(D.JD0, .3 - 2 * D.DT, p["nt"] + 4)
        h = len(tm) // p["nmodel"]
        for i in range(p["nmodel"]):
            sky_vis(p, ap, PAIR2, tm[i * h:(i + 1) * h if i < p["nmodel"] - 1 else None], f, seed=1 + i, flags=False).write(d + f"/in/model{i}.uvh5", vis_units="Jy")

    def outs(self, p):
        o = {"zen.abs.calfits": "calfits"}
        if p["delta"]:
            o["zen.delta.calfits"] = "calfits"
        return o

    def run(self, p, d, o, clobber):
        from hera_cal import abscal
        abscal.post_redcal_abscal_run(d + "/in/d.uvh5", d + "/in/zen.omni.calfits", [d + f"/in/model{i}.uvh5" for i in range(p["nmodel"])], output_file=o + "/zen.abs.calfits",
                                      nInt_to_load=p["nint"], clobber=clobber, verbose=False, phs_max_iter=3, write_delta_gains=p["delta"],
                                      output_file_delta=o + "/zen.delta.calfits" if p["delta"] else None)


@stage
class ModelCal(Stage):
    name = "model_cal"
    cost = 2

    def make(self, rng):
        return self.base(rng, nants=4, npol=2, nt=rng.randint(1, 2), nf=6, autos=rng.random() < .5)

    def setup(self, p, d):
        ap = D.grid_antpos(random.Random(p["seed"]), p["nants"], compact=True)
        t, f = D.times_for(D.JD0, .3, p["nt"]), D.freqs_for(p["nf"])
        sky_vis(p, ap, PAIR2, t, f, gains=smooth_gains(p, ap, PAIR2, t, f), flags=False).write(d + "/in/d.uvh5")
        sky_vis(p, ap, PAIR2, t, f, seed=1, flags=False).write(d + "/in/m.uvh5", vis_units="Jy")

    def outs(self, p):
        return {"o.calfits": "calfits"}

    def run(self, p, d, o, clobber):
        from hera_cal import abscal
        abscal.run_model_based_calibration(d + "/in/d.uvh5", d + "/in/m.uvh5", o + "/o.calfits", auto_file=d + "/in/d.uvh5" if p["autos"] else None, clobber=clobber, max_iter=3)


@stage
class SmoothCal(Stage):
    name = "smooth_cal"
    cost = 2

    def make(self, rng):
        return self.base(rng, nants=3, npol=2, nt=rng.randint(2, 3), nf=8, nfiles=rng.randint(1, 3), filt=rng.choice(["none", "freq", "time", "dpss"]))

    def setup(self, p, d):
        ap = D.grid_antpos(random.Random(p["seed"]), p["nants"], compact=True)
        ts = D.times_for(D.JD0, .3, p["nt"] * p["nfiles"])
        f = D.freqs_for(p["nf"])
        for i in range(p["nfiles"]):
            t = ts[i * p["nt"]:(i + 1) * p["nt"]]
            gain_cal(ap, smooth_gains(p, ap, PAIR2, t, f), t, f, p["seed"] + i).write(d + f"/in/c{i}.abs.calfits")

    def outs(self, p):
        return {f"c{i}.abs.calfits": "calfits" for i in range(p["nfiles"])}

    def run(self, p, d, o, clobber):
        from hera_cal import smooth_cal
        cs = smooth_cal.CalibrationSmoother([d + f"/in/c{i}.abs.calfits" for i in range(p["nfiles"])], pick_refant=True, propagate_refant_flags=True)
        if p["filt"] == "freq":
            cs.filter_1d(filter_scale=1.0, tol=1e-4, mode="dpss_leastsq", skip_wgt=0.)
        elif p["filt"] == "time":
            cs.time_filter(filter_scale=60.)
        elif p["filt"] == "dpss":
            cs.time_freq_2D_filter(freq_scale=1.0, time_scale=1800., method="DPSS")
        cs.write_smoothed_cal(output_replace=(d + "/in/", o + "/"), clobber=clobber)


def lst_inputs(p, d, nights=2, files=2):
    """Nights of files for the LST binner: d/in/<night>/zen.<jd>.uvh5."""
    ap = D.grid_antpos(random.Random(p["seed"]), p["nants"], compact=True)
    pols = PAIR2[:p["npol"]]
    out = []
    for n in range(nights):
        os.makedirs(d + f"/in/{n}", exist_ok=True)
        fs = []
        for i in range(files):
            t = D.times_for(D.JD0 + n * 0.99727, .3 + i * p["nt"] * D.DT, p["nt"])
            v = D.Vis(ap, all_pairs(ap), pols, t, D.freqs_for(p["nf"]), p["time_major"]).fill(np.random.default_rng(p["seed"] + 10 * n + i), flag_frac=.1, full_flag=.05, nsamp=(1, 2))
            jd = f"{t[0]:.5f}"
            v.write(d + f"/in/{n}/zen.{jd}.uvh5")
            fs.append((d + f"/in/{n}/zen.{jd}.uvh5", v))
            if p.get("cal"):
                noise_cal(dict(p, seed=p["seed"] + 10 * n + i), v).write(d + f"/in/{n}/zen.{jd}.calfits")
        out.append(fs)
    return out


@stage
class LSTBin(Stage):
    name = "lst_bin_files"
    cost = 1

    def make(self, rng):
        return self.base(rng, nants=3, npol=rng.choice([1, 2]), nt=rng.randint(2, 3), nf=3, cal=rng.random() < .5, nights=rng.randint(1, 3), files=rng.randint(1, 2),
                         chunk=rng.choice([None, 1, 2]), medmad=rng.random() < .4, rephase=rng.random() < .5)

    def setup(self, p, d):
        lst_inputs(p, d, p["nights"], p["files"])

    def outs(self, p):
        return None          # as found after a reference run

    def run(self, p, d, o, clobber):
        import glob
        from hera_cal.lst_stack import config, wrappers
        df = [sorted(glob.glob(d + f"/in/{n}/*.uvh5")) for n in range(p["nights"])]
        cf = config.LSTBinConfigurator(data_files=df, nlsts_per_file=4, dlst=2 * np.pi * D.INT_S * 2 / 86164.09, lst_start=0., jd_regex=r"zen\.(\d+\.\d+)\.",
                                       calfile_rules=[(".uvh5", ".calfits")] if p["cal"] else None)
        mf = cf.get_matched_files()
        cfg = cf.create_config(mf)
        wrappers.lst_bin_files(cfg, outdir=o, overwrite=clobber, bl_chunk_size=p["chunk"], write_med_mad=p["medmad"], rephase=p["rephase"])


@stage
class SnapDecoh(Stage):
    name = "snap_decoherence"
    cost = .1

    def make(self, rng):
        return self.base(rng, nt=rng.randint(1, 3), nf=rng.randint(3, 5), nsnap=rng.randint(1, 3))

    def setup(self, p, d):
        pass

    def outs(self, p):
        return {"s.h5": "h5"}

    def run(self, p, d, o, clobber):
        make_snap(p).write(o + "/s.h5", clobber=clobber)


def make_snap(p, t0=0):
    from hera_cal import io
    r = np.random.default_rng(p["seed"] + t0)
    snaps = [f"heraNode{i}Snap{i % 3}" for i in range(p["nsnap"])]
    nb, nch, nt = p["nf"], 3, p["nt"]
    sh = (nt, nb)

    def arr():
        a = r.random(sh) * .4
        a[r.random(sh) < .2] = np.nan
        return a
    return io.SNAPDecoherence({s: arr() for s in snaps}, {s: arr() for s in snaps}, {s: arr() for s in snaps},
                              {s: r.integers(1, 9, nt) for s in snaps}, D.times_for(D.JD0, .3 + t0 * nt * D.DT, nt),
                              D.freqs_for(nb * nch).reshape(nb, nch), {i: snaps[i % len(snaps)] for i in range(6)}, r.random(nb) < .8, [0, nb - 1],
                              np.array([[D.freqs_for(nb * nch)[0], D.freqs_for(nb * nch)[-1]]]), {"alpha": 1.5}, "hist")


@stage
class Scripts(Stage):
    name = "scripts"
    cost = .3

    def make(self, rng):
        return self.base(rng, nants=3, npol=2, nt=rng.randint(1, 3), nf=4, which=rng.choice(["transfer_flags", "flag_all", "red_average", "subselect"]), opt=rng.random() < .5)

    def setup(self, p, d):
        noise_vis(p, p["nants"], p["npol"], p["nt"], p["nf"]).write(d + "/in/d.uvh5")
        noise_vis(p, p["nants"], p["npol"], p["nt"], p["nf"], seed=p["seed"] + 1).write(d + "/in/e.uvh5")

    def outs(self, p):
        return {"o.uvh5": "uvh5"}

    def run(self, p, d, o, clobber):
        a = [d + "/in/d.uvh5", o + "/o.uvh5"]
        if p["which"] == "transfer_flags":
            a = [d + "/in/e.uvh5"] + a + (["--keep_old_flags"] if p["opt"] else [])
        if p["which"] == "flag_all" and p["opt"]:
            a += ["--fill_data_with_zeros"]
        if p["which"] == "subselect":
            a += ["--freq-spws", "0~2"] if p["opt"] else ["--only-cross"]
        script(p["which"] + ".py", *a, *(["--clobber"] if clobber else []))


@stage
class Reflections(Stage):
    name = "reflections"
    cost = 1

    def make(self, rng):
        return self.base(rng, nants=3, npol=2, nt=rng.randint(2, 3), nf=32, cal=rng.random() < .4, npz=rng.random() < .5, tavg=rng.random() < .4, n=rng.choice([1, 2]),
                         each=rng.random() < .6)

    def setup(self, p, d):
        ap = D.grid_antpos(random.Random(p["seed"]), p["nants"], compact=True)
        t, f = D.times_for(D.JD0, .3, p["nt"]), D.freqs_for(p["nf"])
        g = {}
        nr = np.random.default_rng(p["seed"])
        for a in sorted(ap):
            for q in ("Jnn", "Jee"):
                g[a, q] = np.ones((p["nt"], 1)) * (1 + .02 * np.exp(2j * np.pi * (f * nr.uniform(400e-9, 900e-9) + nr.random())))[None, :]
        v = sky_vis(p, ap, PAIR2, t, f, gains=g, flags=False)
        v.write(d + "/in/d.uvh5")
        if p["cal"]:
            noise_cal(p, v).write(d + "/in/c.calfits")

    def outs(self, p):
        o = {"o.calfits": "calfits"}
        if p["each"] and p["n"] > 1:
            o["o.ref2.calfits"] = "calfits"
        if p["npz"]:
            for i in range(p["n"]):
                o["o.npz" if i == 0 and p["each"] else f"o.ref{i + 1}.npz"] = "npz"
        return o

    def run(self, p, d, o, clobber):
        from hera_cal import reflections
        reflections.auto_reflection_run(d + "/in/d.uvh5", [(300, 700), (600, 1000)][:p["n"]], o + "/o.calfits", input_cal=d + "/in/c.calfits" if p["cal"] else None,
                                        time_avg=p["tavg"], write_npz=p["npz"], min_dly=100., maxiter=10, fthin=4, Nphs=50, ref_sig_cut=1., reject_edges=False,
                                        write_each_calfits=p["each"], overwrite=clobber)


# ------------------------------------------------------------------ slots
ALLOUT = ["clean", "filled", "res"]
SLOTS = [(n, q) for n, qs in [
    ("apply_cal", [dict(red=True, groups=2, nbl=None), dict(red=True, groups=2, nbl=None, ff=True), dict(red=True, groups=1, nbl=None), dict(red=True, groups=1, nbl=2),
                   dict(red=False, groups=1, nbl=None, ff=True), dict(red=False, groups=1, nbl=2), dict(red=False, groups=1, nbl=3, ff=True, old=True), {}]),
    ("delay_filter", [dict(outs=ALLOUT, nbl=None, nfiles=1), dict(outs=ALLOUT, nbl=2, nfiles=1), dict(nfiles=2, outs=["filled", "res"]), dict(cache=True, mode="dayenu"),
                      dict(cal=True, fact=True)]),
    ("tophat_frf", [dict(outs=ALLOUT, nbl=None, nint=1), dict(outs=ALLOUT, nbl=2, nint=1), dict(nint=2), dict(cal=True)]),
    ("time_avg", [dict(nint=2, fl=True, script=False), dict(script=True), dict(nint=1, fl=True), {}]),
    ("cornerturn", [dict(bounds=True), dict(bounds=False)]),
    ("chunk_files", [dict(typ="data"), dict(typ="gains"), dict(typ="data", spw=True)]),
    ("select_spw", [{}]), ("autos", [dict(noise=False, cal=True), dict(noise=True, cal=True), dict(cal=False)]), ("throw_away", [dict(yaml=True), {}]),
    ("combine_calfits", [dict(n=2), {}]), ("multiply_gains", [{}, {}]),
    ("update_cal", [dict(how="update"), dict(how="write_cal"), dict(how="heracal")]),
    ("update_vis", [dict(how="update"), dict(how="write_vis"), dict(how="partial")]),
    ("redcal_meta", [{}]), ("redcal", [{}]), ("post_redcal_abscal", [{}]), ("model_cal", [{}]), ("smooth_cal", [dict(nfiles=2)]),
    ("lst_bin_files", [dict(cal=True, medmad=True), dict(medmad=False), {}]),
    ("reflections", [dict(npz=True, n=2, each=True), {}]),
    ("snap_decoherence", [{}]), ("scripts", [dict(which="transfer_flags"), dict(which="flag_all"), dict(which="red_average"), dict(which="subselect")]),
] for q in qs]


def slot(index, seed):
    """The stage and options of run ``index``: all slots come by once in len(SLOTS) runs, in an order of the seed's."""
    order = list(range(len(SLOTS)))
    random.Random(f"slots/{seed}/{index // len(order)}").shuffle(order)
    return SLOTS[order[index % len(order)]]
