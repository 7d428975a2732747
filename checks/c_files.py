"""C19-C23, C25: what the program and its saving stages write, judged by TLC
(spec/Files.tla, spec/TraceFiles.tla)."""
import copy
import hashlib
import json
import multiprocessing
import os
import random
import re
import shutil
import numpy as np
import c_calib
import results
import rig
import vf
import world
from results import CAMS, ERRS, KEYS, OBJS, POSES

SAVES = ["saveCamerasParams", "save3DObj", "save3DObjPose", "saveReprojectionErrorToFile"]
ALL_FILES = [CAMS, OBJS, POSES, ERRS, KEYS]
quietly = lambda ops: ["-" + o if not o.startswith("perturb") else o for o in ops]


def world_of(d):
    for bump in range(80):
        try:
            c_calib.prepare(d)
            return rig.Rig(d)
        except RuntimeError:
            d["seed"] += 7919
    raise vf.Broken("no world")


def head(r, d, i, kind):
    return dict(id=i, kind=kind, nc=r.w.n_cams, npts=[r.w.n_pts(b) for b in range(r.w.n_boards)],
                obs=[dict(c=o["c"], f=o["f"], b=o["b"], n=len(o["k"])) for o in d["obs"]], camfile=d.get("camfile") or CAMS)


def run_driver(job):
    """the saving stages against the state they save"""
    drv, i, d, base = job
    r = world_of(d)
    wd = os.path.join(base, "s%d" % i)
    shutil.rmtree(wd, ignore_errors=True)
    kw = dict(camera_params_file_name=d["camfile"]) if d.get("camfile") else {}
    rc, out, dumps = r.run(drv, wd, d["ops"], timeout=120, **kw)
    e = head(r, d, i, "driver")
    e.update(props=["C19", "C20", "C21"], ok=rc == 0, readable=True, whole=True)
    states = [x for x in dumps if "cams" in x]
    done = [x for x in dumps if x.get("op") == "done"]
    if rc == 0 and not (states and done):
        raise vf.Broken("incomplete trace\n" + out[-500:])
    if rc == 0:
        s = states[-1]
        e["state"] = dict(groups=[dict(id=g["id"], ref=g["ref"], cams=g["cams"]) for g in s["groups"]],
                          objs=[dict(id=o["id"], ref=o["ref"], boards=o["boards"]) for o in s["objects"]],
                          views=[dict(c=o["cam"], f=o["frame"], o=o["obj"], n=len(o["pts"])) for o in s["oobs"]])
        e["written"] = sorted(os.listdir(os.path.join(wd, "out")))
        if KEYS not in e["written"]:
            e["written"].append(KEYS)
        files(e, os.path.join(wd, "out"), results.State(r, s), float(done[-1]["avg"]))
    shutil.rmtree(wd, ignore_errors=True)
    return e, out[-600:], d


def files(e, folder, ref, avg):
    try:
        e.update(results.abstract(folder, e["camfile"], ref, avg))
    except Exception as x:      # a file which is missing, or is no such file
        e["readable"] = False
        e["why"] = repr(x)[:300]


def run_program(job):
    """the program as a whole, on consistent data"""
    cal, i, d, base = job
    r = world_of(d)
    wd = os.path.join(base, "p%d" % i)
    shutil.rmtree(wd, ignore_errors=True)
    kw = dict(camera_params_file_name=d["camfile"]) if d.get("camfile") else {}
    if d.get("start") == "images":
        kw["cam_params_path"] = "None"
    cfg, save = r.files(wd, save_path=os.path.join(wd, "res", "of"), **kw)
    rc, out = vf.run([cal, cfg], timeout=200, cwd=wd)
    e = head(r, d, i, "program")
    m = re.findall(r"mean reprojection error :: (\S+)", out)
    e.update(ok=rc == 0, readable=True, exact=bool(d.get("exact", True)),
             whole=d.get("start") != "perturbed" and d.get("start") != "images")
    folder = os.path.join(wd, "res", "of")
    e["written"] = sorted(os.listdir(folder)) if os.path.isdir(folder) else []
    if rc == 0:
        files(e, folder, results.Truth(r, free=d.get("fix", 1) == 0), float(m[-1]) if m else None)
    shutil.rmtree(wd, ignore_errors=True)
    return e, out[-600:], d


# ------------------------------------------------------------- images
def background(c, f, nf):
    n = c * nf + f
    lv = (30, 60, 90, 120, 150)
    return np.array([lv[n % 5], lv[(n // 5 + n) % 5], lv[(n // 25 + 2 * n) % 5]], float)


def run_images(job):
    exe, i, d, base = job
    wd = os.path.join(base, "i%d" % i)
    shutil.rmtree(wd, ignore_errors=True)
    d["imgdir"] = os.path.join(wd, "img")
    r = world_of(d)
    h = {}
    for c in range(d["nc"]):
        os.makedirs(os.path.join(d["imgdir"], "Cam_%03d" % (c + 1)))
        for f in range(d["nf"]):
            w, hh = r.w.img_of(c)
            p = r.path(c, f)
            write_png(p, w, hh, background(c, f, d["nf"]))
            h[p] = hashlib.md5(open(p, "rb").read()).hexdigest()
    kw = dict(save_detection=d["sd"], save_reprojection=d["sr"])
    dumps = []
    if d["perturbed"]:
        rc, out, dumps = r.run(exe[1], wd, quietly(c_calib.COARSE[:-1]) + ["-refineAllCameraGroupAndObjects", "perturb:%d:.01" % i] +
                               (["-saveDetectionImagesAllCam"] if d["sd"] == 1 else []) +
                               (["-saveReprojectionImagesAllCam"] if d["sr"] == 1 else []), timeout=200, **kw)
        save = os.path.join(wd, "out")
    else:
        cfg, save = r.files(wd, save_path=os.path.join(wd, "out"), **kw)
        rc, out = vf.run([exe[0], cfg], timeout=200, cwd=wd)
        save = os.path.join(wd, "out")
    e = head(r, d, i, "images")
    e.update(ok=rc == 0, detection=d["sd"], reprojection=d["sr"], images=[],
             inputs=all(hashlib.md5(open(p, "rb").read()).hexdigest() == x for p, x in h.items()))
    state = [x for x in dumps if "cams" in x]
    st = results.State(r, state[-1]) if state else None
    for kind in ("Detection", "Reprojection"):
        for root, _, names in os.walk(os.path.join(save, kind)):
            for n in names:
                p = os.path.join(root, n)
                m = re.match(r"^(\d{3})/(\d{6})\.jpg$", os.path.relpath(p, os.path.join(save, kind)))
                c, f = (int(m.group(1)), r.f_of.get(int(m.group(2)), -1)) if m else (-1, -1)
                e["images"].append(dict(kind=kind, c=c, f=f, **look(p, kind, c, f, r, d, st)))
    shutil.rmtree(wd, ignore_errors=True)
    return e, out[-600:], d


def write_png(p, w, h, color):
    import struct
    import zlib
    row = b"\0" + bytes(int(x) for x in color[::-1]) * w
    z = zlib.compress(row * h, 1)
    chunk = lambda t, b: struct.pack(">I", len(b)) + t + b + struct.pack(">I", zlib.crc32(t + b))
    with open(p, "wb") as o:
        o.write(b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, 2, 0, 0, 0)) +
                chunk(b"IDAT", z) + chunk(b"IEND", b""))


def look(p, kind, c, f, r, d, st):
    """compare an annotated image with what should be drawn"""
    bad = dict(copy=False, drawn=False, clean=False)
    if not (0 <= c < d["nc"] and 0 <= f < d["nf"]):
        return bad
    a = read_jpg(p)
    w, h = r.w.img_of(c)
    if a is None or a.shape != (h, w, 3):
        return bad
    bg = background(c, f, d["nf"])
    diff = np.abs(a - bg).max(2)
    seen = np.concatenate([r.obs[(c, f, o["b"])]["uv"] for o in d["obs"] if (o["c"], o["f"]) == (c, f)] or [np.zeros((0, 2))])
    # the points as they are stored (and the program's own prediction of them)
    pred, own = np.zeros((0, 2)), np.zeros((0, 2))
    color = []
    if st is not None:
        for o in st.d["oobs"]:
            if (o["cam"], o["frame"]) != (c, f):
                continue
            g = next((g["id"] for g in st.d["groups"] if c in g["cams"]), None)
            P = st.opose.get((g, f, o["obj"]))
            if P is None:
                continue
            k = st.cams[c]
            X = st.obj3[o["obj"]][o["pts"]]
            Q = st.cpose[c] @ P
            pred = np.concatenate([pred, rig.project([float(z) for z in k["K"]], [float(z) for z in k["D"]], k["model"],
                                                     X @ Q[:3, :3].T + Q[:3, 3])])
            own = np.concatenate([own, np.array(o["uv"], float).reshape(-1, 2)])
            color += [next(x["color"] for x in st.d["objects"] if x["id"] == o["obj"])] * len(o["pts"])
    at = lambda q: a[int(q[1]), int(q[0])]
    inside = lambda q: 4 < q[0] < w - 5 and 4 < q[1] < h - 5
    drawn = True
    if kind == "Reprojection":
        # a point may be covered by the prediction of another one
        P, O = (pred, own) if st is not None else (seen, seen)
        covered = lambda q: bool(((np.linalg.norm(P - q, axis=1) < 9) & (np.linalg.norm(O - q, axis=1) > 1)).any())
        drawn = all(np.abs(at(q) - [0, 255, 0]).max() < 90 for q in seen if not covered(q))
        for q in pred:
            if inside(q) and (len(seen) == 0 or np.linalg.norm(seen - q, axis=1).min() > 11):
                drawn = drawn and np.abs(at(q) - [0, 0, 255]).max() < 90
    elif len(color):
        drawn = all(min(np.abs(at(q) - np.array(z)).max() for z in np.array(color)[np.linalg.norm(own - q, axis=1) < 9]) < 90
                    for q in own)
    else:
        drawn = all(np.abs(at(q) - bg).max() > 8 for q in seen)
    pts = np.concatenate([seen, pred]) if kind == "Reprojection" else seen
    ys, xs = np.nonzero(diff > 25)
    clean = True
    if len(xs):
        q = np.stack([xs, ys], 1).astype(float)
        m = np.full(len(q), 1e9)
        for x in pts:
            m = np.minimum(m, np.linalg.norm(q - x, axis=1))
        clean = bool((m < 14).all())
    return dict(copy=bool(np.median(diff) < 6), drawn=bool(drawn), clean=clean)


def read_jpg(p):
    """decoded by the driver-side helper (a raw dump next to it), blue green red"""
    raw = p + ".raw"
    rc, out = vf.run([TOOL[0], "decode", p, raw], timeout=30)
    if rc != 0:
        return None
    b = open(raw, "rb").read()
    w, h = np.frombuffer(b[:8], np.int32)
    os.remove(raw)
    return np.frombuffer(b[8:], np.uint8).reshape(h, w, 3).astype(float)


TOOL = [None]


# -------------------------------------------------------------- start
def run_start(job):
    cal, i, s, base = job
    wd = os.path.join(base, "b%d" % i)
    shutil.rmtree(wd, ignore_errors=True)
    d = dict(nc=1 + i % 2, nf=2, nb=1 + i % 3, seed=900 + i,
             obs=[dict(c=c, f=f, b=b) for c in range(1 + i % 2) for f in range(2) for b in range(1 + i % 3)])
    r = world_of(d)
    out = s["out"]
    save = dict(there="out", old="out", missing="out", deep="a/b/out", slash="out/", deepslash="a/b/out/")[out]
    full = os.path.join(wd, save)
    cfg0, _ = r.files(wd, save_path=full, **(dict(camera_params_file_name=s["camfile"]) if s["camfile"] else {}))
    camfile = s["camfile"] or CAMS
    stamp = "old results\n"
    if out in ("there", "old"):
        os.makedirs(full)
    if out == "old":
        for n in [camfile, OBJS, POSES, ERRS, KEYS]:
            open(os.path.join(full, n), "w").write(stamp)
    text = open(cfg0).read()
    os.remove(cfg0)
    cdir = os.path.join(wd, "some where" if i % 2 else "conf")
    os.makedirs(cdir)
    cfg = os.path.join(cdir, "the.config" + s["path"]["ext"])
    if s["path"]["exists"]:
        if s["path"]["file"]:
            open(cfg, "w").write(text)
        else:
            os.makedirs(cfg)
    before = listing(wd)
    rc, o = vf.run([cal, cfg], timeout=120, cwd=wd)
    after = listing(wd)
    names = set(ALL_FILES) | {camfile}
    new = [p for p in after if p not in before or (before[p] != after[p])]
    written = sorted(os.path.basename(p) for p in new if os.path.dirname(p) == os.path.normpath(full))
    stray = sorted(p for p in new if os.path.basename(p) in names and os.path.dirname(p) != os.path.normpath(full))
    usable = s["path"]["exists"] and s["path"]["file"] and s["path"]["ext"] == ".yml"
    fresh = not (out == "old" and usable) or not any(open(p, errors="replace").read().startswith(stamp) for p in after
                                                   if os.path.basename(p) in names)
    shutil.rmtree(wd, ignore_errors=True)
    return dict(id=i, kind="start", path=s["path"], camfile=camfile, rc=rc if rc is not None else 255, written=written,
                stray=stray, fresh=fresh, ended=rc is not None), o[-600:], s


def listing(wd):
    r = {}
    for root, _, names in os.walk(wd):
        for n in names:
            p = os.path.join(root, n)
            r[os.path.normpath(p)] = hashlib.md5(open(p, "rb").read()).hexdigest()
    return r


# ------------------------------------------------------------ families
def drivers(rng, R, S, M, n):
    """systems of all kinds: merged or not, fitting or not"""
    out = []
    fams = [lambda k: c_calib.fam_V(rng, R, k), lambda k: c_calib.fam_bad(rng, R, k), lambda k: c_calib.fam_V(rng, S, k),
            lambda k: c_calib.fam_D(rng, S, k), lambda k: c_calib.fam_N(rng, R, k), lambda k: c_calib.fam_G(rng, k),
            lambda k: c_calib.fam_A(rng, R, k), lambda k: c_calib.fam_V(rng, M, k)]
    for k, f in enumerate(fams):
        for j, d in enumerate(f(max(1, n // len(fams)))):
            d["family"] = k
            d.pop("noise", None)
            tail = ["perturb:%d:%g" % (rng.randrange(999), rng.choice([.003, .02]))] if j % 3 else []
            if j % 4 == 1:
                d["camfile"] = "other_name.yml"
            ops = c_calib.COARSE
            if j % 5 == 0:      # before anything is merged, or just after
                ops = ops[:4] if (j // 5 + k) % 2 else ops[:5]
            elif j % 5 == 3:
                ops = ops[:-1 - len(c_calib.AGAIN)]
            if k == 4:
                d["noise"], d["thr"] = .15, 10
                ops = ops + ["refineAllCameraGroupAndObjectsAndIntrinsic"]
            d["ops"] = quietly(ops[:-1]) + (tail and ["-" + ops[-1]] + tail or [ops[-1]]) + quietly(SAVES)
            out.append(d)
    return out


def programs(rng, R, S, M, n):
    out = []
    for j, d in enumerate([dict(d, family=x) for x, ds in (("R", c_calib.fam_V(rng, R, n // 4)), ("S", c_calib.fam_V(rng, S, n // 4)),
                          ("G", c_calib.fam_G(rng, n // 4)), ("M", c_calib.fam_V(rng, M, n // 8))) for d in ds]):
        for o in d["obs"]:
            o.pop("x", None)
            if rng.random() < .2:
                o["kind"] = "part"
        d["glies"], d["consistent"] = [], True
        if d["family"] == "G":
            d["models"] = [int(rng.random() < .3) for _ in range(d["nc"])]
        if j % 7 == 6:
            d["camfile"] = "my_cameras.yaml"
        out.append(d)
    for j in range(n // 6):
        kind = ("refine", "images")[j % 2]
        nc = rng.choice([1, 2, 3])
        d = c_calib.base(dict(obs=[dict(c=c, f=f, b=b) for c in range(nc) for f in range(8) for b in range(3)]),
                         nc, 8, 3, rng, models=[rng.randrange(2) for _ in range(nc)], thr=10, fix=0)
        d["start"] = {"refine": "perturbed", "images": "images"}[kind]
        d["family"] = kind
        out.append(d)
    return out


def pictures(rng, R, n):
    out = []
    base = c_calib.fam_V(rng, R, max(4, n))
    flags = [(a, b) for a in (0, 1, 2) for b in (0, 1, 2)]
    rng.shuffle(flags)
    for j, d in enumerate(base[:n]):
        d["perturbed"] = j % 3 == 0
        d["sd"], d["sr"] = ((1, 1), (1, 0), (0, 1))[j // 3 % 3] if d["perturbed"] else flags[j % 9]
        d["inside"] = True
        d["obs"] = d["obs"][:10]
        d["models"] = [0] * d["nc"]
        out.append(d)
    for j in range(max(1, n // 27)):        # many cameras
        out.append(c_calib.base(dict(obs=[dict(c=c, f=0, b=0) for c in range(11)] + [dict(c=10, f=1, b=0)]), 11, 2, 1, rng,
                                perturbed=False, sd=1, sr=1, inside=True, models=[0] * 11))
    return out


# --------------------------------------------------------------- check
def judge(recs, wd, name):
    p = os.path.join(wd, name + ".ndjson")
    vf.to_ndjson(p, recs)
    try:
        t = vf.tlc("TraceFiles", env=dict(TRACE=p), timeout=800, name=name, heap="3g")
        done = t.prints("DONE")
        if not done or done[-1]["n"] != len(recs):
            raise vf.Broken("trace not consumed " + t.out[-1500:])
        return done[-1]["bad"], t.distinct
    except vf.Broken as e:
        if "timed out" in str(e) or "emantic error" in str(e) or "Parsing" in str(e):
            raise
        if len(recs) > 1:
            h = len(recs) // 2
            a, b = judge(recs[:h], wd, name + "l"), judge(recs[h:], wd, name + "r")
            return a[0] + b[0], a[1] + b[1]
        return [dict(id=recs[0]["id"], prop="*", what="the files make no sense: " + str(e)[-400:])], 0


def execute(jobs, wd):
    """jobs: (function, argument)"""
    with multiprocessing.Pool(vf.CORES) as pool:
        res = pool.map(_call, jobs, chunksize=1)
    n = min(vf.CORES, len(res))
    js = vf.pmap(lambda k: judge([x[0] for x in res[k::n]], wd, "judge%d" % k), range(n))
    return res, [b for j in js for b in j[0]], sum(j[1] for j in js)


def _call(j):
    return j[0](j[1])


def plan(c, pid, rng, wd, exes):
    cal, drv = exes
    mul = 5 if vf.THOROUGH else 1
    k = 3000 if vf.THOROUGH else 400
    multi = [("random", 3, 4, 3, 9), ("random", 3, 5, 3, 16), ("random", 4, 3, 4, 14), ("random", 2, 4, 5, 13)]
    single = [("single", 3, 4, 3, 0), ("single", 4, 5, 3, 0), ("single", 3, 6, 4, 0)]
    merging = [("merging", 2, 5, 4, 0), ("merging", 3, 4, 5, 0), ("apart", 3, 9, 4, 0), ("apart", 4, 8, 5, 0)]
    need = multi + (single + merging if pid != "C23" else []) if pid != "C25" else []
    ts = vf.pmap(lambda a: c_calib.patterns(a[1][0], *a[1][1:4], k=k, n=a[1][4], emit="done", seed=50 + a[0]),
                 list(enumerate(need)), 4)
    R = [(a[1:4], t.prints("SC")) for a, t in zip(need, ts) if a[0] == "random"]
    S = [(a[1:4], t.prints("SC")) for a, t in zip(need, ts) if a[0] == "single"]
    M = [(a[1:4], t.prints("SC")) for a, t in zip(need, ts) if a[0] in ("merging", "apart")]
    if any(len(s) < k // 3 for _, s in R + S + M):
        raise vf.Broken("too few scenarios")
    c.coverage["states"] = sum(t.distinct for t in ts)
    c.coverage["transitions"] = sum(t.generated for t in ts)
    if pid in ("C19", "C20", "C21"):
        ds = drivers(rng, R, S, M, 80 * mul)
        ps = programs(rng, R, S, M, 24 * mul)
        return [(run_driver, (drv, i, d, wd)) for i, d in enumerate(ds)] + \
               [(run_program, (cal, len(ds) + i, d, wd)) for i, d in enumerate(ps)]
    if pid == "C22":
        return [(run_program, (cal, i, d, wd)) for i, d in enumerate(programs(rng, R, S, M, 130 * mul))]
    if pid == "C23":
        return [(run_images, ((cal, drv), i, d, wd)) for i, d in enumerate(pictures(rng, R, 27 * mul))]
    t = vf.tlc("MCProgram", timeout=300, workers=2)
    if t.invariant:
        raise vf.Broken("the specification breaks its own guarantee " + t.invariant)
    runs = t.prints("RUN")
    c.coverage["states"], c.coverage["transitions"] = t.distinct, t.generated
    runs.sort(key=lambda s: json.dumps(s, sort_keys=True))
    return [(run_start, (cal, i, s, wd)) for i, s in enumerate(runs)]


def check(pid):
    c = vf.Check(pid, "model_checking")
    exes = vf.build("calibrate", "drv_stages", "imgtool")
    TOOL[0] = exes[2]
    wd = vf.workdir(pid)
    rng = random.Random("%s/%d" % (pid, vf.SEED))
    jobs = plan(c, pid, rng, wd, exes[:2])
    res, bad, st = execute(jobs, wd)
    mine = sorted({b["id"] for b in bad if b["prop"] in (pid, "*")})
    if mine:
        again = [(jobs[i][0], (jobs[i][1][0], i, res[i][2], wd)) for i in mine[:24]]
        _, bad2, _ = execute(again, wd)
        for i in mine[:24]:
            b = [x for x in bad if x["id"] == i and x["prop"] in (pid, "*")]
            b2 = {x["what"] for x in bad2 if x["id"] == i}
            keep = [x for x in b if x["what"] in b2]
            if keep:
                c.violation("%s (%s; also: %s) %s" % (keep[0]["what"], res[i][0]["kind"], [x["what"] for x in keep[1:4]],
                                                   res[i][0].get("why", "")),
                            dict(scenario=c_calib.clean(res[i][2]), complaints=keep, record=res[i][0], output=res[i][1]))
            else:
                c.coverage.setdefault("not_reproduced", []).append([x["what"] for x in b][:2])
    for x in [x for x in bad if x["prop"] not in (pid, "*")][:8]:
        print("(not %s, once) %s: %s (%s)" % (pid, x["prop"], x["what"], res[x["id"]][0].get("kind")))
    c.coverage["states"] += st
    c.coverage.update(traces_validated_against_impl=len(res), exhaustive=pid == "C25",
                      other_complaints=len([b for b in bad if b["prop"] not in (pid, "*")]),
                      rule="scenarios drawn by TLC; the real program (or its stages) run on each, the files it wrote parsed, "
                           "abstracted and judged by TLC",
                      samples=[c_calib.clean(res[0][2]), c_calib.clean(res[-1][2])])
    c.assumptions = ["files are read by an independent YAML parser; numbers compared at 1e-7 (state) or 5e-3 (truth)"]
    return c.finish()
