"""Parameter objects: legacy files, YAML files, dictionaries, comparison, setters."""

import copy
import os
from dataclasses import fields
from pathlib import Path

import numpy as np

from vlib import gen
from vlib.core import Family
from openptv_python import parameters as P

PROPERTY = "C15"
RULE = (
    "random values for every field of every parameter class (zero, negative, tiny, huge, many digits, names with spaces, signs and other "
    "alphabets), written in the documented order by an own writer with varied number formats and spacing, read by the class and by the "
    "module function, then to YAML and to a dictionary and back. Non-trivial: all; distinct by class and values"
)
ASSUMPTIONS = ["one value per line, spaces around it allowed", "names hold no line breaks and no leading or trailing blanks"]

NAMES = ["cam1.%05d", "img/cam2.#", "cal/cam 3.tif", "a", "ünïcode/图.tif", "x:y", "#hash", "- dash", "yes", "null", "1.5", "'q\"", "{a}", "C:\\data\\cam1.", "~", "run 3/cam  1.", "a;b, c!", "cam1.tif % 2", "tab\there"]


def F(rng):
    k = rng.integers(7)
    if k == 0:
        return float(rng.choice([0.0, 1.0, -1.0, 0.1, 1e-5, 100.0, 1e10, 0.3, 1e22, 1e16, 1e-7]))
    if k == 1:
        return float(rng.integers(-1000, 1000))
    if k == 2:
        return gen.CONSTS.near(rng, -1000, 1000, 0.5)
    if k == 3:
        return float(rng.standard_normal() * 10.0 ** rng.integers(-12, 12))
    if k == 4:
        return round(float(rng.uniform(-100, 100)), int(rng.integers(1, 5)))
    return float(rng.uniform(-100, 100))


def N(rng, lo=-100000, hi=1 << 31):
    return int(rng.choice([0, 1, -1 if lo < 0 else 2, int(rng.integers(lo, hi)), int(rng.integers(0, 300)), gen.CONSTS.near_int(rng, max(lo, 0), 1 << 20)]))


def B(rng):
    return int(rng.integers(0, 2))


def S(rng):
    s = str(rng.choice(NAMES))
    return s + str(rng.integers(0, 1000)) if rng.random() < 0.5 else s


def fnum(rng, v):
    """A way of writing the number that reads back as the same number."""
    if isinstance(v, float):
        k = rng.integers(4)
        t = repr(v)
        if k == 0:
            t = f"{v:.17e}"
        elif k == 1 and v == int(v) and abs(v) < 1e15:
            t = str(int(v))
        elif k == 2 and v >= 0:
            t = "+" + t
        assert float(t) == v
        return t
    if isinstance(v, bool):
        return str(int(v))
    return str(v)


def write(rng, path, rows, end=None):
    eol = str(rng.choice(["\n", "\n", "\r\n"]))
    with open(path, "w", encoding="utf-8", newline="") as f:
        t = eol.join(str(rng.choice(["", "", " ", "\t"])) + fnum(rng, r) + str(rng.choice(["", "", " ", "  \t"])) for r in rows)
        f.write(t + (str(rng.choice(["", eol, eol + eol])) if end is None else end))


# class: (values, rows of the legacy file, reader arguments, functions that read it, comparison)
def seq(rng, n):
    v = dict(img_base_name=[S(rng) for _ in range(n)], first=N(rng), last=N(rng))
    return v, v["img_base_name"] + [v["first"], v["last"]]


def track(rng, n):
    k = ["dvxmin", "dvxmax", "dvymin", "dvymax", "dvzmin", "dvzmax", "dangle", "dacc"]
    v = {q: F(rng) for q in k}
    v["add"] = B(rng)
    return v, [v[q] for q in k] + [v["add"]]


def volume(rng, n):
    v = dict(x_lay=[F(rng), F(rng)], z_min_lay=[F(rng), F(rng)], z_max_lay=[F(rng), F(rng)], cn=F(rng), cnx=F(rng), cny=F(rng), csumg=F(rng), eps0=F(rng), corrmin=F(rng))
    rows = [v["x_lay"][0], v["z_min_lay"][0], v["z_max_lay"][0], v["x_lay"][1], v["z_min_lay"][1], v["z_max_lay"][1]]
    return v, rows + [v[q] for q in ("cnx", "cny", "cn", "csumg", "corrmin", "eps0")]


def control(rng, n):
    mm = dict(nlay=1, n1=F(rng), n2=[F(rng)], n3=F(rng), d=[F(rng)])
    v = dict(num_cams=n, img_base_name=[S(rng) for _ in range(n)], cal_img_base_name=[S(rng) for _ in range(n)], hp_flag=B(rng), all_cam_flag=B(rng),
             tiff_flag=B(rng), imx=N(rng, 0, 20000), imy=N(rng, 0, 20000), pix_x=F(rng), pix_y=F(rng), chfield=int(rng.integers(0, 3)), mm=mm)
    rows = [n]
    for a, b in zip(v["img_base_name"], v["cal_img_base_name"]):
        rows += [a, b]
    rows += [v[q] for q in ("hp_flag", "all_cam_flag", "tiff_flag", "imx", "imy", "pix_x", "pix_y", "chfield")]
    return v, rows + [mm["n1"], mm["n2"][0], mm["n3"], mm["d"][0]]


def target(rng, n):
    k = ["discont", "nnmin", "nnmax", "nxmin", "nxmax", "nymin", "nymax", "sumg_min", "cr_sz"]
    v = {q: N(rng) for q in k}
    v["gvthresh"] = [int(rng.integers(0, 256)) for _ in range(4)]
    return v, v["gvthresh"] + [v[q] for q in k]


def orientp(rng, n):
    k = ["useflag", "ccflag", "xhflag", "yhflag", "k1flag", "k2flag", "k3flag", "p1flag", "p2flag", "scxflag", "sheflag", "interfflag"]
    v = {q: B(rng) for q in k}
    v["useflag"] = int(rng.integers(0, 5))
    return v, [v[q] for q in k]


def calib(rng, n):
    v = dict(fixp_name=S(rng), img_name=[S(rng) for _ in range(n)], img_ori0=[S(rng) for _ in range(n)], tiff_flag=B(rng), pair_flag=B(rng), chfield=int(rng.integers(0, 3)))
    rows = [v["fixp_name"]]
    for a, b in zip(v["img_name"], v["img_ori0"]):
        rows += [a, b]
    return v, rows + [v["tiff_flag"], v["pair_flag"], v["chfield"]]


def planes(rng, n):
    v = dict(num_planes=n, filename=[S(rng) for _ in range(n)])
    return v, [n] + v["filename"]


def examine(rng, n):
    v = dict(examine_flag=bool(B(rng)), combine_flag=bool(B(rng)))
    return v, [v["examine_flag"], v["combine_flag"]]


def pft(rng, n):
    v = dict(existing_target_flag=bool(B(rng)))
    return v, [v["existing_target_flag"]]


SPECS = {
    "SequencePar": (P.SequencePar, seq, True, P.read_sequence_par, P.compare_sequence_par, True),
    "TrackPar": (P.TrackPar, track, False, P.read_track_par, P.compare_track_par, True),
    "VolumePar": (P.VolumePar, volume, False, P.read_volume_par, P.compare_volume_par, True),
    "ControlPar": (P.ControlPar, control, False, P.read_control_par, P.compare_control_par, True),
    "TargetPar": (P.TargetPar, target, False, P.read_target_par, P.compare_target_par, False),
    "OrientPar": (P.OrientPar, orientp, False, None, None, False),
    "CalibrationPar": (P.CalibrationPar, calib, True, P.read_cal_ori_parameters, None, True),
    "MultiPlanesPar": (P.MultiPlanesPar, planes, False, None, None, True),
    "ExaminePar": (P.ExaminePar, examine, False, P.read_examine_par, None, True),
    "PftVersionPar": (P.PftVersionPar, pft, False, None, None, True),
}
KINDS = list(SPECS)


def values(obj):
    """The fields of a parameter object as plain values."""
    out = {}
    for f in fields(obj):
        v = getattr(obj, f.name)
        out[f.name] = values(v) if isinstance(v, P.Parameters) else copy.deepcopy(v)
    return out


def build(cls, v):
    v = copy.deepcopy(v)
    if cls is P.ControlPar:
        v["mm"] = P.MultimediaPar(**v["mm"])
    return cls(**v)


def judge(ctx, obj, cls, v, key):
    ctx.check(type(obj) is cls, key, lambda: f"{type(obj)} instead of {cls}")
    got = values(obj)
    for k, w in v.items():
        ctx.check(got[k] == w, key, lambda: f"{cls.__name__}.{k} is {got[k]!r}, should be {w!r}", cls=cls.__name__)
        if not isinstance(w, (list, dict, bool)):
            ctx.check(isinstance(got[k], (int, float)) == isinstance(w, (int, float)), key, lambda: f"{cls.__name__}.{k} has type {type(got[k])}")
    for f in fields(cls):
        if f.name not in v and not isinstance(getattr(obj, f.name), (list, P.Parameters)):
            ctx.check(got[f.name] == f.default, key, lambda: f"{cls.__name__}.{f.name} should have its default")
    ctx.seen("fields", len(v))


def legacy(ctx, rng, i):
    name = KINDS[i % len(KINDS)]
    cls, make, with_n, reader, _, missing_raises = SPECS[name]
    n = int(rng.integers(1, 5)) if name != "MultiPlanesPar" else int(rng.integers(0, 7))
    v, rows = make(rng, n)
    path = Path(ctx.scratch) / f"{name}.par"
    more = rng.random() < 0.3  # remarks after the last line
    write(rng, path, rows + ["1", "remarks: 2", "3.5"][:int(rng.integers(1, 4))] if more else rows)
    ctx.seen("trailing_lines", more)
    args = (path, n) if with_n else (path,)
    before = path.read_bytes()
    judge(ctx, cls.from_file(*args), cls, v, f"legacy:{name}")
    if reader:
        judge(ctx, reader(*args), cls, v, f"legacy:{name}")
    if name == "SequencePar" and n == 4:
        judge(ctx, P.read_sequence_par(path), cls, v, "legacy:SequencePar")
    ctx.check(path.read_bytes() == before, f"legacy:{name}", "the file was changed by reading it")
    ctx.seen(f"legacy_{name}")
    # one after another: nothing of an earlier object stays
    v2, rows2 = make(rng, n)
    write(rng, path, rows2)
    o1 = build(cls, v)
    judge(ctx, o1.from_file(*args), cls, v2, f"legacy:{name}")
    judge(ctx, o1, cls, v, f"legacy:{name}")
    # a file that breaks off is not read as if it were whole
    if name != "MultiPlanesPar":
        cut = int(rng.integers(0, len(rows)))
        write(rng, path, rows[:cut], end="\n" if cut else "")
        try:
            bad = cls.from_file(*args)
        except Exception:
            ctx.seen("cut_refused")
        else:
            ctx.check(False, f"cut:{name}", lambda: f"{name}: {cut} of {len(rows)} lines are read as {bad}")
    os.remove(path)
    # no file at all
    try:
        obj = cls.from_file(*args)
    except OSError:
        ctx.check(missing_raises or name in ("TargetPar", "OrientPar"), f"missing:{name}", "refused")
        ctx.seen("missing_refused")
    else:
        ctx.check(not missing_raises, f"missing:{name}", lambda: f"{name}: a missing file is read as {obj}")
        ctx.check(values(obj) == values(cls()), f"missing:{name}", "a missing file must give the defaults")
    # the writers
    if name == "TargetPar":
        P.write_target_par(build(cls, v), path)
        judge(ctx, cls.from_file(path), cls, v, "write:TargetPar")
        ctx.seen("written")
    if name == "PftVersionPar":
        o = build(cls, v)
        o.write(path)
        judge(ctx, cls.from_file(path), cls, v, "write:PftVersionPar")
        ctx.seen("written")
    ctx.sig(name, repr(v))
    ctx.sample(cls=name, values=v)


def more_values(rng, name, v):
    """Values a legacy file cannot hold."""
    v = copy.deepcopy(v)
    if name == "TrackPar":
        v.update(dsumg=F(rng), dn=F(rng), dnx=F(rng), dny=F(rng))
    if name == "ControlPar" and rng.random() < 0.5:
        k = int(rng.integers(2, 5))
        v["mm"] = dict(nlay=k, n1=F(rng), n2=[F(rng) for _ in range(k)], d=[F(rng) for _ in range(k)], n3=F(rng))
    return v


def mm_values(rng, n):
    k = int(rng.integers(1, 5))
    return dict(nlay=k, n1=F(rng), n2=[F(rng) for _ in range(k)], d=[F(rng) for _ in range(k)], n3=F(rng)), None


def trips(ctx, rng, i):
    kinds = KINDS + ["MultimediaPar"]
    name = kinds[i % len(kinds)]
    cls, make = (P.MultimediaPar, mm_values) if name == "MultimediaPar" else SPECS[name][:2]
    v = more_values(rng, name, make(rng, int(rng.integers(1, 5)))[0])
    o = build(cls, v)
    path = os.path.join(ctx.scratch, f"{name}.yaml")
    o.to_yaml(path if rng.random() < 0.5 else Path(path))
    judge(ctx, o, cls, v, f"yaml:{name}")
    judge(ctx, cls.from_yaml(path), cls, v, f"yaml:{name}")
    # over an existing, longer file
    with open(path, "a", encoding="utf-8") as f:
        f.write("junk: 1\n" * 50)
    o.to_yaml(path)
    back = cls.from_yaml(path)
    judge(ctx, back, cls, v, f"yaml:{name}")
    d = cls.to_dict(o)
    ctx.check(d == values(o), f"dict:{name}", lambda: f"dictionary of {name} is {d}")
    keep = copy.deepcopy(d)
    o2 = cls.from_dict(d)
    ctx.check(d == keep, f"dict:{name}", "from_dict changed its input")
    judge(ctx, o2, cls, v, f"dict:{name}")
    d3 = o.to_dict(o)
    for k in d3:  # the dictionary is the caller's
        if isinstance(d3[k], list):
            d3[k].append("x")
        else:
            d3[k] = "x"
    judge(ctx, o, cls, v, f"dict:{name}")
    # so is one an object is made of
    d4 = copy.deepcopy(keep)
    o5, o6 = cls.from_dict(d4), cls.from_dict(d4)
    for f in fields(cls):
        w = getattr(o5, f.name)
        if isinstance(w, list):
            w.append("x")
        elif isinstance(w, P.Parameters):
            for f2 in fields(w):
                if isinstance(getattr(w, f2.name), list):
                    getattr(w, f2.name).append("x")
    ctx.check(d4 == keep, f"dict:shared:{name}", "changing an object changed the dictionary it was made of")
    judge(ctx, o6, cls, v, f"dict:shared:{name}")
    for w in [*d4.values(), *[x for y in d4.values() if isinstance(y, dict) for x in y.values()]]:
        if isinstance(w, list):
            w.append("x")
    judge(ctx, o6, cls, v, f"dict:shared:{name}")
    ctx.check(o == o2 and o2 == back, f"equal:{name}", "objects with the same values are not equal")
    ctx.seen(f"trip_{name}")
    # comparison notices every single field
    comp = P.compare_mm_np if name == "MultimediaPar" else SPECS[name][4]
    if comp:
        ctx.check(comp(o, back) is True or comp(o, back) == True, f"compare:{name}", "same values compare as different")  # noqa: E712
        if name != "MultimediaPar" and not (name == "ControlPar"):
            leaves = [(f.name, None) for f in fields(cls)]
        else:
            leaves = [(f.name, None) for f in fields(cls) if f.name != "mm"]
        if name == "ControlPar":
            leaves += [("mm", q) for q in ("nlay", "n1", "n2", "d", "n3")]
        for a, q in leaves:
            o4 = build(cls, v)
            holder, attr = (o4, a) if q is None else (o4.mm, q)
            old = getattr(holder, attr)
            if isinstance(old, list):
                if not old:
                    continue
                k = int(rng.integers(len(old)))
                new = list(old)
                new[k] = other_than(rng, old[k])
            else:
                new = other_than(rng, old)
            setattr(holder, attr, new)
            ctx.check(not comp(o, o4) and not comp(o4, o), f"compare:{name}", lambda: f"a different {a} {q or ''} is not noticed")
            ctx.check(o != o4, f"equal:{name}", lambda: f"a different {a} {q or ''} is not noticed")
            ctx.seen("differences")
    if name == "TrackPar":
        t = P.convert_track_par_to_tuple(o)
        for f in fields(cls):
            ctx.check(getattr(t, f.name) == getattr(o, f.name), "tuple", lambda: f"{f.name} of the tuple")
        ctx.seen("tuples")
    ctx.sig(name, repr(v))


def other_than(rng, v):
    """Another value, as little different as it can be or a lot."""
    if isinstance(v, str):
        return v + "x" if rng.random() < 0.5 or v.upper() == v else v.upper()
    if isinstance(v, float):
        return float(rng.choice([np.nextafter(v, np.inf), np.nextafter(v, -np.inf), v + max(1.0, abs(v)), v * (1 + 1e-9) + 1e-12]))
    return v + int(rng.choice([1, -1, 1000])) if not isinstance(v, bool) else not v


SETTERS = {
    P.SequencePar: [("set_first", "first", N), ("set_last", "last", N)],
    P.TrackPar: [("set_dsumg", "dsumg", F), ("set_dn", "dn", F), ("set_dnx", "dnx", F), ("set_dny", "dny", F)],
    P.VolumePar: [("set_z_min_lay", "z_min_lay", lambda r: [F(r), F(r)]), ("set_z_max_lay", "z_max_lay", lambda r: [F(r), F(r)]), ("set_cn", "cn", F),
                  ("set_cnx", "cnx", F), ("set_csumg", "csumg", F), ("set_eps0", "eps0", F), ("set_corrmin", "corrmin", F)],
    P.ControlPar: [("set_image_size", ("imx", "imy"), lambda r: (N(r, 0, 9999), N(r, 0, 9999))), ("set_pixel_size", ("pix_x", "pix_y"), lambda r: (F(r), F(r))),
                   ("set_chfield", "chfield", N), ("set_hp_flag", "hp_flag", B)],
    P.MultimediaPar: [("set_n1", "n1", F), ("set_n3", "n3", F), ("set_layers", ("n2", "d"), lambda r: ([F(r), F(r)], [F(r), F(r)]))],
}
GETTERS = {
    P.SequencePar: [("get_first", "first"), ("get_last", "last")],
    P.TrackPar: [("get_dvxmin", "dvxmin"), ("get_dvxmax", "dvxmax"), ("get_dvymin", "dvymin"), ("get_dvymax", "dvymax"), ("get_dvz_min", "dvzmin"),
                 ("get_dvz_max", "dvzmax"), ("get_dangle", "dangle"), ("get_dacc", "dacc"), ("get_add", "add"), ("get_dsumg", "dsumg"), ("get_dn", "dn"),
                 ("get_dnx", "dnx"), ("get_dny", "dny")],
    P.ControlPar: [("get_image_size", ("imx", "imy")), ("get_pixel_size", ("pix_x", "pix_y")), ("get_chfield", "chfield"), ("get_num_cams", "num_cams"),
                   ("get_hp_flag", "hp_flag"), ("get_allCam_flag", "all_cam_flag"), ("get_tiff_flag", "tiff_flag"), ("get_multimedia_par", "mm"), ("get_multimedia_params", "mm")],
    P.MultimediaPar: [("get_nlay", "nlay"), ("get_n1", "n1"), ("get_n3", "n3"), ("get_n2", "n2"), ("get_d", "d")],
    P.TargetPar: [("get_grey_thresholds", "gvthresh"), ("get_pixel_count_bounds", ("nnmin", "nnmax")), ("get_xsize_bounds", ("nxmin", "nxmax")),
                  ("get_ysize_bounds", ("nymin", "nymax")), ("get_min_sum_grey", "sumg_min")],
}
MAKE = {P.SequencePar: seq, P.TrackPar: track, P.VolumePar: volume, P.ControlPar: control, P.MultimediaPar: mm_values, P.TargetPar: target}


def setters(ctx, rng, i):
    """Random sequences of setter calls against a dictionary of what the object should hold."""
    cls = list(MAKE)[i % len(MAKE)]
    v = more_values(rng, cls.__name__, MAKE[cls](rng, 3)[0])
    o = build(cls, v)
    other = cls()
    fresh = values(cls())
    model = values(o)
    for _ in range(12):
        for m, attr in GETTERS.get(cls, []):
            got = getattr(o, m)()
            if isinstance(attr, tuple):
                ctx.check(tuple(got) == tuple(model[a] for a in attr), f"getter:{cls.__name__}", lambda: f"{m}() is {got}")
            else:
                got = values(got) if isinstance(got, P.Parameters) else got
                ctx.check(got == model[attr], f"getter:{cls.__name__}", lambda: f"{m}() is {got}, holds {model[attr]}")
            ctx.seen("getters")
        if cls is P.SequencePar and rng.random() < 0.5:
            names = [S(rng) for _ in range(int(rng.integers(1, 5)))]
            keep = list(names)
            o.set_img_base_name(names)
            model["img_base_name"] = list(keep)
            names.append("later")
            ctx.check(o.get_img_base_name(len(keep) - 1) == keep[-1], "setter:SequencePar", "name of one camera")
        elif cls in SETTERS:
            m, attr, make = SETTERS[cls][int(rng.integers(len(SETTERS[cls])))]
            new = make(rng)
            if m == "set_layers":
                given = list(new[0]), list(new[1])
                o.set_layers(*given)
                for g in given:  # they are the caller's
                    g.append(9.0)
                try:
                    o.set_layers([1.0, 1.1, 1.2], [1.0])
                    ctx.check(False, "setter:layers", "layers of unequal number are accepted")
                except ValueError:
                    ctx.seen("refused")
            else:
                getattr(o, m)(copy.deepcopy(new))
            for a, w in zip(attr, new) if isinstance(attr, tuple) else [(attr, new)]:
                model[a] = w
        ctx.check(values(o) == model, f"setter:{cls.__name__}", lambda: f"holds {values(o)}, should hold {model}")
        ctx.seen("setters")
    if cls in (P.OrientPar, P.ExaminePar):
        ctx.check(not any(fresh.values()), f"default:{cls.__name__}", lambda: f"a new object asks for {fresh}")
    # objects do not share anything
    for f in fields(cls):
        a = getattr(o, f.name)
        if isinstance(a, list):
            a.append("x")
        b = getattr(other, f.name)
        if isinstance(b, list):
            b.append("y")
    if isinstance(other, P.ControlPar):
        other.mm.n2[0] = 7.5
        other.mm.d.append(3.0)
        other.mm.n1 = 9.0
    ctx.check(values(cls()) == fresh, f"shared:{cls.__name__}", "a new object holds what was put into another one")
    try:
        P.MultimediaPar(nlay=2, n1=1.0, n2=[1.4, 1.5], d=[1.0], n3=1.33)
        ctx.check(False, "setter:layers", "layers of unequal number are accepted")
    except ValueError:
        ctx.seen("refused")


FAMILIES = [Family("legacy", legacy, 3000, 60000), Family("trips", trips, 2400, 40000), Family("setters", setters, 900, 12000)]
MONITORS = {"fields": 5000, "cut_refused": 400, "missing_refused": 400, "written": 100, "differences": 2000, "tuples": 30, "getters": 3000, "setters": 1500,
            "refused": 100, **{f"legacy_{k}": 60 for k in KINDS}, **{f"trip_{k}": 40 for k in KINDS}}
