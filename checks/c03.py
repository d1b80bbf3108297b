"""C03: data files are found, grouped and ordered by channel number."""
import os

import numpy as np

from vlib import ljh
from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case creates a real directory with several file families (multi-digit channels, other suffixes, decoys, dotted names, sub-directories, relative or absolute use) and "
        "compares every helper with the set of (family, channel) the generator created; group monitors open LJH files with random inclusion/exclusion/maximum settings. "
        "Non-trivial = at least two channels and a decoy or restriction.")
ASSUMPTIONS = ["file names follow <base>_chan<N>.<suffix>, as the documentation requires; names with a second _chan are resolved by the last one"]

BASES = ["a", "run", "20171116_152922", "x_noise", "dots.in.name", "chan", "a_b", "run1", "_chan_test", "A", "sp ace"]


def family(ctx, d):
    rng = ctx.rng
    nfam = int(rng.integers(1, 4))
    bases = [str(b) for b in rng.choice(BASES, size=nfam, replace=False)]
    fam = {}
    for b in bases:
        ch = sorted(int(c) for c in set(rng.choice([1, 2, 3, 5, 9, 10, 11, 19, 20, 99, 100, 101, 1000, 94932], size=int(rng.integers(1, 8)))))
        fam[b] = ch
        sfx = [".ljh"]
        if rng.random() < .5:
            sfx.append(".off")
        if rng.random() < .3:
            sfx.append(".noi")
        for c in ch:
            for s in (sfx if rng.random() < .7 else sfx[:1]):
                open(os.path.join(d, f"{b}_chan{c}{s}"), "w").close()
        if rng.random() < .5:
            open(os.path.join(d, f"{b}_mass.hdf5"), "w").close()
        if rng.random() < .5:
            open(os.path.join(d, f"{b}_experiment_state.txt"), "w").close()
        if rng.random() < .4:
            os.mkdir(os.path.join(d, f"{b}_chan777.ljh"))  # a directory is not a data file
        if rng.random() < .4:
            open(os.path.join(d, f"pre{b}_chan4.ljh"), "w").close()
    return fam


@monitor(500)
def helpers(ctx):
    from mass.core import ljh_util as u
    rng = ctx.rng
    sub = str(rng.choice(["", "sub", "sub_chan7x", "a.b", "deep/er"]))
    d = os.path.join(ctx.tmp, sub)
    os.makedirs(d, exist_ok=True)
    fam = family(ctx, d)
    mode = str(rng.choice(["abs", "rel", "bare"]))
    old = os.getcwd()
    os.chdir(ctx.tmp if mode != "bare" else d)
    ctx.case = dict(families=fam, sub=sub, mode=mode)
    try:
        prefix = {"abs": d, "rel": sub or ".", "bare": ""}[mode]

        def p(name):
            return os.path.join(prefix, name)
        for b, chans in fam.items():
            for c in chans:
                name = p(f"{b}_chan{c}.ljh")
                ctx.check(u.ljh_channum(name) == c, "channum", name)
                ctx.check(u.ljh_basename_channum(name) == (p(b), c), "basename", name, got=u.ljh_basename_channum(name))
            some = p(f"{b}_chan{chans[int(rng.integers(len(chans)))]}.ljh")
            got = u.ljh_get_channels(some)
            ctx.check(list(got) == chans, "get_channels", f"{got} != {chans}", some=some)
            names = u.ljh_chan_names(some, chans)
            ctx.check(names == [p(f"{b}_chan{c}.ljh") for c in chans], "chan_names")
            ctx.check(all(os.path.isfile(n) for n in names), "chan_names-exist")
            exp = u.filename_glob_expand(p(f"{b}_chan*.ljh"))
            want = [p(f"{b}_chan{c}.ljh") for c in chans]
            if os.path.isdir(p(f"{b}_chan777.ljh")):
                exp = [e for e in exp if not e.endswith("_chan777.ljh")]
            ctx.check(exp == want, "glob_expand", got=exp, want=want)
            # sorting any permutation gives numeric order, keeps every name once, and leaves its argument alone
            perm = [want[i] for i in rng.permutation(len(want))]
            for form in (list, tuple):
                arg = form(perm)
                ctx.check(u.ljh_sort_filenames_numerically(arg) == want, "sort", got=u.ljh_sort_filenames_numerically(form(perm)))
                ctx.check(arg == form(perm), "sort-mutates-argument")
            inc = [c for c in chans if rng.random() < .6] + [123456]
            ctx.check((u.ljh_sort_filenames_numerically(list(perm), inclusion_list=inc) or []) ==
                      [w for w, c in zip(want, chans) if c in inc], "sort-inclusion")
            none = (u.ljh_sort_filenames_numerically(list(perm), inclusion_list=e) for e in ([], (), set(), [123456]))
            ctx.check(not any(none), "sort-inclusion", "files of no channel")
            # ties: two suffixes of a channel stay together, ordered by name
            both = [p(f"{b}_chan{c}{s}") for c in chans for s in (".ljh", ".off")]
            ctx.check(u.ljh_sort_filenames_numerically([both[i] for i in rng.permutation(len(both))]) == both, "sort-ties")
            trig = u.ljh_get_extern_trig_fnames(some)
            ctx.check(trig["binary"] == p(b) + "_external_trigger.bin" and trig["hdf5"] == p(b) + "_external_trig.hdf5", "trigger-names")
            ctx.check(u.filename_glob_expand(want) == want, "glob-of-list")
            if mode != "bare":
                out = u.output_basename_from_ljh_fname(some)
                ctx.check(out == os.path.join(prefix, "mass_output", b) and os.path.isdir(os.path.dirname(out)), "output-basename", out)
                fold = u.mass_folder_from_ljh_fname(some, "q.txt")
                ctx.check(fold == os.path.join(prefix, "mass", "q.txt") and os.path.isdir(os.path.dirname(fold)), "mass-folder", fold)
            ctx.count("families")
            if len(chans) > 1:
                ctx.nontrivial(b, tuple(chans), mode, sub)
        bs = list(fam)
        if len(bs) > 1:
            a, b = bs[:2]
            both = u.ljh_get_channels_both(p(f"{a}_chan{fam[a][0]}.ljh"), p(f"{b}_chan{fam[b][0]}.ljh"))
            ctx.check(both == sorted(set(fam[a]) & set(fam[b])), "channels-both", got=both)
        # a directory named like its files
        ctx.check(ctx.raises(lambda: u.output_basename_from_ljh_fname("/nonexistent_dir_xyz/a_chan1.ljh"), ValueError) is not None, "bad-dir-error")
        ctx.check(u.ljh_channum(p("nothing.ljh")) is None, "no-channel")
        if fam:
            ctx.check(u.filename_glob_expand(p("zzz_chan*.ljh")) in (None, []), "empty-glob")
    finally:
        os.chdir(old)


@monitor(60)
def directory_name(ctx):
    """A directory stands for the file family that carries its name."""
    from mass.core import ljh_util as u
    rng = ctx.rng
    name = str(rng.choice(["20230626", "run7", "a_b"]))
    d = os.path.join(ctx.tmp, name)
    os.mkdir(d)
    chans = sorted(int(c) for c in set(rng.integers(1, 500, size=int(rng.integers(1, 6)))))
    for c in chans:
        open(os.path.join(d, f"{name}_chan{c}.ljh"), "w").close()
    for form in (d, d + "/", d + "//"):
        b, c = u.ljh_basename_channum(form)
        ctx.check(b == os.path.join(d, name) and c is None, "directory-basename", got=(b, c))
        ctx.check(u.ljh_get_channels(form) == chans, "directory-channels")
    ctx.nontrivial(name, tuple(chans))
    ctx.case = dict(name=name, chans=chans)


@monitor(400)
def pairing(ctx):
    from mass.core import ljh_util as u
    rng = ctx.rng
    pool = [1, 2, 3, 5, 7, 10, 11, 13, 100, 111]

    def pick():
        return [int(c) for c in rng.choice(pool, size=int(rng.integers(1, len(pool) + 1)), replace=False)]
    c1 = pick()
    c2 = pick() if rng.random() < .75 else []
    none2 = rng.random() < .5
    never = None if rng.random() < .4 else pick()[:4] if rng.random() < .85 else []
    only = None if rng.random() < .5 else pick() + [5000] if rng.random() < .85 else []
    f1 = [f"/d/a_chan{c}.ljh" for c in c1]
    f2 = [f"/d/n_chan{c}.noi" for c in c2]
    g1, g2 = list(f1), (None if (not c2 and none2) else list(f2))
    kn, ko = (None if never is None else tuple(never)), (None if only is None else set(only))
    u.remove_unpaired_channel_files(g1, g2, never_use=kn, use_only=ko)
    ok = set(c1)
    if c2:
        ok &= set(c2)
    if never is not None:
        ok -= set(never)
    if only is not None:
        ok &= set(only)
    ctx.check(g1 == [f for f, c in zip(f1, c1) if c in ok], "pairing-first", got=g1, ok=sorted(ok))
    if g2 is not None:
        ctx.check(g2 == [f for f, c in zip(f2, c2) if c in ok], "pairing-second", got=g2, ok=sorted(ok))
    ctx.count("kept", len(g1))
    ctx.nontrivial(tuple(c1), tuple(c2), str(never), str(only))
    ctx.case = dict(c1=c1, c2=c2, never=never, only=only)


@monitor(120)
def group_channels(ctx):
    """The channels a TESGroup opens, their order, data and noise partners, under every selection option."""
    import mass
    rng = ctx.rng
    sub = str(rng.choice(["", "data_chan_dir", "d.x"]))
    d = os.path.join(ctx.tmp, sub)
    os.makedirs(d, exist_ok=True)
    pool = [1, 2, 3, 9, 10, 11, 20, 100]
    pc = sorted(int(c) for c in rng.choice(pool, size=int(rng.integers(1, 7)), replace=False))
    nc = sorted(int(c) for c in rng.choice(pool, size=int(rng.integers(1, 7)), replace=False))
    empty = set(c for c in pc if rng.random() < .1)
    ns, npre = 24, 8
    for c in pc:
        n = 0 if c in empty else int(rng.integers(1, 5))
        ljh.write22(os.path.join(d, f"p_chan{c}.ljh"), np.full((n, ns), c, dtype=np.uint16), npre=npre, channum=c)
    for c in nc:
        ljh.write22(os.path.join(d, f"n_chan{c}.ljh"), np.full((3, ns), 1000 + c, dtype=np.uint16), npre=npre, channum=c)
    never = None if rng.random() < .5 else [int(c) for c in rng.choice(pool, size=2)]
    only = None if rng.random() < .6 else [int(c) for c in rng.choice(pool, size=5)]
    maxch = None if rng.random() < .6 else int(rng.integers(1, 5))
    noise = str(rng.choice(["none", "glob", "list", "shuffled"]))
    form = str(rng.choice(["glob", "list", "tuple", "shuffled"]))
    noise_only = rng.random() < .15
    ctx.case = dict(pc=pc, nc=nc, never=never, only=only, maxch=maxch, noise=noise, form=form, noise_only=noise_only, empty=sorted(empty))
    pl = [os.path.join(d, f"p_chan{c}.ljh") for c in pc]
    nl = [os.path.join(d, f"n_chan{c}.ljh") for c in nc]
    kw = dict(never_use=never, use_only=only, max_chans=maxch)
    if noise_only:
        narg = os.path.join(d, "n_chan*.ljh") if form == "glob" else nl
        want = [c for c in nc if (never is None or c not in never) and (only is None or c in only)]
        if maxch is not None:
            want = want[:maxch]
        if not want:
            return
        g = mass.TESGroup(narg, noise_only=True, **kw)
        ctx.check([ds.channum for ds in g] == want, "noise-only-channels", got=[ds.channum for ds in g], want=want)
        for ds in g:
            ctx.same(np.asarray(ds.noise_records.datafile.alldata)[:, 0], np.full(3, 1000 + ds.channum), "noise-only-data")
        g.hdf5_noisefile.close()
        ctx.nontrivial(tuple(nc), str(never), str(only), maxch)
        return
    if form == "shuffled":
        pl = [pl[i] for i in rng.permutation(len(pl))]
    parg = {"glob": os.path.join(d, "p_chan*.ljh"), "list": list(pl), "tuple": tuple(pl), "shuffled": list(pl)}[form]
    if noise == "shuffled":
        nl = [nl[i] for i in rng.permutation(len(nl))]
    narg = {"none": None, "glob": os.path.join(d, "n_chan*.ljh"), "list": list(nl), "shuffled": list(nl)}[noise]
    order = [int(p.rsplit("_chan", 1)[1][:-4]) for p in pl]
    want = [c for c in order if (noise == "none" or c in nc) and (never is None or c not in never) and (only is None or c in only)]
    if maxch is not None:
        want = want[:maxch]
    want_nonempty = [c for c in want if c not in empty]
    if not want_nonempty:
        ctx.count("nothing_to_open")
        return
    keep_p, keep_n = (list(parg) if not isinstance(parg, str) else parg), (list(narg) if isinstance(narg, list) else narg)
    g = mass.TESGroup(parg, narg, **kw)
    got = [ds.channum for ds in g]
    ctx.check(got == want_nonempty, "group-channels", f"{got} != {want_nonempty}")
    ctx.check((list(parg) if not isinstance(parg, str) else parg) == keep_p and (list(narg) if isinstance(narg, list) else narg) == keep_n, "caller-list-mutated")
    ctx.check(sorted(g.channel.keys()) == sorted(want_nonempty), "group-channel-map")
    for ds in g:
        ctx.check(g.channel[ds.channum] is ds or g.channel[ds.channum].channum == ds.channum, "group-index")
        ctx.same(np.unique(ds.alldata), [ds.channum], "group-pulse-data")
        if noise != "none":
            ctx.check(ds.noise_records.channum == ds.channum, "noise-pair-channum")
            ctx.same(np.unique(ds.noise_records.datafile.alldata), [1000 + ds.channum], "noise-pair-data")
    ctx.count("channels_opened", len(got))
    if len(pc) > 1:
        ctx.nontrivial(tuple(pc), tuple(nc), form, noise, str(never), str(only), maxch)
    g.hdf5_file.close()
    if g.hdf5_noisefile is not None:
        g.hdf5_noisefile.close()


@monitor(80)
def off_discovery(ctx):
    """All OFF files of a family are found from any one of them, in channel order, up to the requested number."""
    from mass.off.channels import getOffFileListFromOneFile
    rng = ctx.rng
    d = ctx.tmp
    chans = sorted(int(c) for c in set(rng.integers(1, 300, size=int(rng.integers(1, 9)))))
    for c in chans:
        open(os.path.join(d, f"run_chan{c}.off"), "w").close()
        open(os.path.join(d, f"run_chan{c}.ljh"), "w").close()
        open(os.path.join(d, f"run2_chan{c}.off"), "w").close()
    one = os.path.join(d, f"run_chan{int(rng.choice(chans))}.off")
    want = [os.path.join(d, f"run_chan{c}.off") for c in chans]
    ctx.check(getOffFileListFromOneFile(one) == want, "off-list")
    m = int(rng.integers(1, 12))
    ctx.check(getOffFileListFromOneFile(one, maxChans=m) == want[:m], "off-list-max")
    ctx.check(ctx.raises(lambda: getOffFileListFromOneFile(os.path.join(d, "nope_chan1.off"))) is not None, "off-list-missing")
    ctx.nontrivial(tuple(chans), m)
    ctx.case = dict(chans=chans, m=m)
