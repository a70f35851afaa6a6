"""Imports and lazy tables loaded once per simulator process, before any fork.

Only imports of hera_cal happen here; no hera_cal function runs in the
simulator process, so a job always starts from a freshly imported package.
"""
import os


def warm(scratch):
    import random

    import astropy.utils.iers as iers
    import numpy as np

    from . import data as D
    iers.conf.auto_download = False
    iers.earth_orientation_table.set(iers.IERS_Auto.open())
    import hera_cal  # noqa
    from hera_cal import (abscal, apply_cal, autos, chunker, datacontainer, delay_filter, flag_utils, frf, io,  # noqa
                          lstbin, noise, red_groups, redcal, reflections, smooth_cal, utils, vis_clean)
    from hera_cal import lst_stack  # noqa
    from hera_cal.lst_stack import averaging, binning, calibration, config, wrappers  # noqa
    import concurrent.futures.thread  # noqa
    import pyuvdata
    import astropy.coordinates
    import astropy.time
    # lazily loaded third-party state: site list, erfa tables, readers
    p = os.path.join(scratch, "warm")
    os.makedirs(p, exist_ok=True)
    rng, nr = random.Random(0), np.random.default_rng(0)
    ap = D.grid_antpos(rng, 3)
    prs = [(a, b) for a in sorted(ap) for b in sorted(ap) if a <= b]
    v = D.Vis(ap, prs, ["nn", "ee"], D.times_for(D.JD0, .3, 2), D.freqs_for(4)).fill(nr)
    v.write(p + "/a.uvh5")
    u = pyuvdata.UVData()
    u.read(p + "/a.uvh5")
    u.read(p + "/a.uvh5", bls=[prs[1]], polarizations=[-5])
    pyuvdata.uvdata.FastUVH5Meta(p + "/a.uvh5").lsts
    c = D.Cal(ap, sorted(ap), ["Jnn", "Jee"], v.times, v.freqs).fill(nr)
    c.write(p + "/a.calfits")
    D.read_calfits(p + "/a.calfits")
    D.flag_file(v, p + "/f.h5", v.flags)
    pyuvdata.UVFlag(p + "/f.h5")
    pyuvdata.Telescope.from_known_telescopes("HERA")
    t = astropy.time.Time(v.times, format="jd")
    astropy.coordinates.get_body("sun", t[:1], D.hera_loc())


def where():
    import hera_cal
    return hera_cal.__file__
