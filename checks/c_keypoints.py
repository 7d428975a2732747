"""C05: key points saved and loaded again (spec/Keypoints.tla, MCKeypoints.tla,
TraceKeypoints.tla)."""
import json
import multiprocessing
import os
import random
import shutil
import struct
import numpy as np
import c_calib
import c_files
import results
import vf
import world

PATHS = dict(plain="/data/Cam_001/000001.png", space="/my data/Cam 1/a b.png", quote='/q"uo"te.png', apostrophe="/it's/1.png",
             colon="/a:b/c: d.png", hash="/a#b/ #c.png", unicode="/ünï/日本.jpg", percent="/%d%s%n/%03d.png", backslash="/a\\b\\n.png",
             brackets="/[a]/[b].png", braces="/{a}/{b: c}.png", comma="/a,b, c.png", number="1234.bmp", long="/" + "long" * 120 + ".png",
             deep="/a" * 60 + ".png", dash="- a/-b.png", dots="../../x/./y.tiff")
SIZES = dict(small=(64, 48), wide=(2600, 700), tall=(480, 4000), odd=(1281, 961))


def value(rng, kind):
    return {"real": lambda: rng.uniform(0, 2000), "whole": lambda: float(rng.randrange(3000)), "half": lambda: rng.randrange(4000) / 2,
            "tiny": lambda: rng.choice([-1, 1]) * 10 ** rng.uniform(-30, -4), "big": lambda: rng.choice([-1, 1]) * 10 ** rng.uniform(4, 30),
            "negative": lambda: -rng.uniform(0, 50), "border": lambda: rng.choice([0.0, 639.5, 1e-3, 16777216.0, 0.1, -0.5])}[kind]()


class Ids:
    """numbers for points and paths"""

    def __init__(self):
        self.d = {}

    def of(self, x):
        return self.d.setdefault(x, len(self.d))

    def point(self, x, y):
        b = struct.pack("<ff", float(x) + 0.0, float(y) + 0.0)
        return self.of(b)


def system(ids, d):
    """the abstract system of a dump"""
    by = {b["id"]: (b["cam"], b["frame"], b["board"]) for b in d["bobs"]}
    uv = lambda b: [ids.point(b["uv"][2 * i], b["uv"][2 * i + 1]) for i in range(len(b["uv"]) // 2)]
    v = []
    for kind, key, items in ([("cam", [c["id"]], c["bobs"]) for c in d["cams"]] + [("board", [c["id"]], c["bobs"]) for c in d["boards"]] +
                             [("frame", [c["id"]], c["bobs"]) for c in d["frames"]] +
                             [("image", [c["cam"], c["frame"]], c["bobs"]) for c in d["cams_obs"]]):
        v.append(dict(kind=kind, key=key, items=[list(by.get(i, (-1, -1, -1))) for i in items]))
    return dict(sizes=[[c["w"], c["h"]] for c in d["cams"]],
                paths=[[p["cam"], f["id"], ids.of(p["path"])] for f in d["frames"] for p in f["paths"] if p["path"] or
                       any(by[b][:2] == (p["cam"], f["id"]) for b in f["bobs"] if b in by)],
                seen=[dict(c=b["cam"], f=b["frame"], b=b["board"], k=b["corners"], p=uv(b)) for b in d["bobs"]], views=v)


def keyfile(ids, path, nc):
    """the abstract contents of a key point file"""
    f = results.read(path)
    if [v for k, v in f if k == "nb_camera"] != [nc]:
        raise ValueError("number of cameras")
    out = []
    for c in range(nc):
        d = [v for k, v in f if k == "camera_%d" % c]
        if len(d) != 1:
            raise ValueError("camera %d" % c)
        q = {k: results.get(d[0], k) for k in ("frame_idxs", "frame_paths", "board_idxs", "pts_2d", "charuco_idxs")}
        if len({len(x) for x in q.values()}) != 1:
            raise ValueError("lengths differ")
        rows = []
        for fr, pa, b, p, k in zip(q["frame_idxs"], q["frame_paths"], q["board_idxs"], q["pts_2d"], q["charuco_idxs"]):
            p = [np.float32(str(x)) for x in p]
            rows.append(dict(f=fr, path=ids.of(str(pa)), b=b, k=k, p=[ids.point(p[2 * i], p[2 * i + 1]) for i in range(len(p) // 2)]))
        out.append(dict(size=[results.get(d[0], "img_width"), results.get(d[0], "img_height")], rows=rows))
    return out


def esc(s):
    return s.replace("\\", "\\\\").replace('"', '\\"')


def trace(dumps):
    return next((x for x in reversed(dumps) if "bobs" in x), None)


def load(drv, cfg, nd, ops, cwd):
    rc, out = vf.run([drv, cfg, nd] + ops, timeout=120, cwd=cwd)
    d = [json.loads(x) for x in open(nd) if x.endswith("\n")] if os.path.exists(nd) else []
    return rc, out, trace(d)


def run(job):
    drv, i, s, base = job
    wd = os.path.join(base, "k%d" % i)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    ids = Ids()
    save = [os.path.join(wd, "one"), os.path.join(wd, "t w o")]
    for d in save:
        os.makedirs(d)
    e = dict(id=i, ok=True, given=[])
    if s["how"] == "store":
        rng = random.Random(s["seed"])
        w = world.World(np.random.default_rng(s["seed"]), s["nc"], s["nb"], 1)
        sizes = [SIZES[z] for z in s["sizes"]]
        w.img_of = lambda c: sizes[c]
        obs = []
        for o in s["obs"]:
            uv = np.array([value(rng, o["q"]) for _ in range(2 * len(o["k"]))], np.float32).reshape(-1, 2)
            obs.append((o["c"], o["f"], o["b"], o["k"], uv, PATHS[o["z"]]))
        world.write_keypoints(os.path.join(wd, "k.yml"), w, [x[:5] + (esc(x[5]),) for x in obs])
        e["given"] = [dict(size=list(sizes[c]), rows=[dict(f=o[1], path=ids.of(o[5]), b=o[2], k=o[3],
                                                           p=[ids.point(*p) for p in o[4]]) for o in obs if o[0] == c])
                      for c in range(s["nc"])]
        kw = dict(keypoints_path=os.path.join(wd, "k.yml"), refine_corner=rng.randrange(2), min_perc_pts=rng.choice([0, .4, .9]))
        cfg = os.path.join(wd, "one.yml")
        world.write_config(cfg, w, save[0], **kw)
        ops = ["loadDetectedKeypoints" if i % 2 else "boardExtraction", "saveDetectedKeypoints"]
        nc = s["nc"]
        again = lambda p: world.write_config(p, w, save[1], **dict(kw, keypoints_path=os.path.join(save[0], results.KEYS)))
    else:
        r = c_files.world_of(s)
        cfg, _ = r.files(wd, save_path=save[0])
        ops = ["-loadDetectedKeypoints"] + (["-initIntrinsic", "-estimatePoseAllBoards"] if s["how"] == "trim" else
                                            c_files.quietly(c_calib.COARSE[1:])) + ["saveDetectedKeypoints"]
        nc = s["nc"]
        again = lambda p: r.files(wd, save_path=save[1], keypoints_path=os.path.join(save[0], results.KEYS)) and \
            shutil.copy(os.path.join(wd, "config.yml"), p)
    rc, out, d1 = load(drv, cfg, os.path.join(wd, "1.ndjson"), ops, wd)
    if rc == 0:
        cfg2 = os.path.join(wd, "two.yml")
        again(cfg2)
        rc, out, d2 = load(drv, cfg2, os.path.join(wd, "2.ndjson"), ["loadDetectedKeypoints", "saveDetectedKeypoints"], wd)
    e["ok"] = rc == 0
    if rc == 0:
        a, b = (os.path.join(x, results.KEYS) for x in save)
        try:
            e.update(first=system(ids, d1), second=system(ids, d2), k1=keyfile(ids, a, nc), k2=keyfile(ids, b, nc),
                     same=open(a, "rb").read() == open(b, "rb").read())
        except Exception as x:
            e["ok"], out = False, repr(x)
    shutil.rmtree(wd, ignore_errors=True)
    return e, out[-500:]


def judge(recs, wd, name):
    p = os.path.join(wd, name + ".ndjson")
    vf.to_ndjson(p, recs)
    t = vf.tlc("TraceKeypoints", env=dict(TRACE=p), timeout=800, name=name, heap="3g")
    done = t.prints("DONE")
    if not done or done[-1]["n"] != len(recs):
        raise vf.Broken("trace not consumed " + t.out[-1500:])
    return done[-1]["bad"], t.distinct


def execute(jobs, wd):
    with multiprocessing.Pool(vf.CORES) as pool:
        res = pool.map(run, jobs, chunksize=1)
    n = min(vf.CORES, len(res))
    js = vf.pmap(lambda k: judge([x[0] for x in res[k::n]], wd, "judge%d" % k), range(n))
    return res, [b for j in js for b in j[0]], sum(j[1] for j in js)


def check(pid):
    c = vf.Check(pid, "model_checking")
    drv, = vf.build("drv_stages")
    wd = vf.workdir(pid)
    rng = random.Random("%s/%d" % (pid, vf.SEED))
    n = 900 if vf.THOROUGH else 160
    cfg = "MCKeypoints.cfg"
    if not vf.THOROUGH:
        cfg = "MCKeypointsQuick.cfg"
    ts = vf.pmap(lambda k: vf.tlc("MCKeypoints", cfg=cfg if k < 0 else "SimKeypoints.cfg", name="kp%d" % k,
                                  workers=6 if k < 0 else 1, timeout=800,
                                  extra=[] if k < 0 else ["-simulate", "num=%d" % n, "-depth", "11", "-seed", str(vf.SEED * 50 + k)]),
                 [-1, 0, 1])
    if ts[0].invariant:
        raise vf.Broken("the specification breaks its own guarantee " + ts[0].invariant)
    sc = [s for t in ts[1:] for s in t.prints("KP")]
    rng.shuffle(sc)
    if len(sc) < n // 2:
        raise vf.Broken("too few scenarios (%d)" % len(sc))
    todo = [dict(s, how="store", seed=rng.randrange(10 ** 6)) for s in sc[:n]]
    need = [("random", 3, 4, 3, 9), ("random", 2, 4, 5, 13)]
    R = [(a[1:4], c_calib.patterns(a[0], *a[1:4], k=200, n=a[4], emit="done", seed=70 + j).prints("SC")) for j, a in enumerate(need)]
    for how, fam in (("trim", c_calib.fam_bad(rng, R, n // 6)), ("trim", c_calib.fam_V(rng, R, n // 10)), ("run", c_calib.fam_V(rng, R, n // 8))):
        for d in fam:
            if {o["c"] for o in d["obs"]} == set(range(d["nc"])):
                todo.append(dict(d, how=how))
    jobs = [(drv, i, s, wd) for i, s in enumerate(todo)]
    res, bad, st = execute(jobs, wd)
    for i in sorted({b["id"] for b in bad})[:12]:
        _, bad2, _ = execute([jobs[i]], wd)
        b = sorted({x["what"] for x in bad if x["id"] == i} & {x["what"] for x in bad2})
        if b:
            c.violation("%s (%s)" % ("; ".join(b), todo[i]["how"]), dict(scenario=c_calib.clean(todo[i]), record=res[i][0], output=res[i][1]))
    c.coverage.update(states=sum(t.distinct for t in ts) + st, transitions=sum(t.generated for t in ts), exhaustive=False,
                      traces_validated_against_impl=len(res),
                      rule="systems drawn by TLC (cameras, frames, boards, corner lists, kinds of values, paths and sizes), written "
                           "as a file, loaded, saved, loaded and saved by the real program; also systems trimmed by pose estimation "
                           "and after whole calibrations; every system and file validated by TLC",
                      samples=[c_calib.clean(todo[0]), c_calib.clean(todo[-1])])
    c.assumptions = ["file names that end in a space, contain tabs or are longer than 4000 bytes are left out: OpenCV's own "
                     "FileStorage does not keep them", "every camera has an observation (the program asserts it)"]
    return c.finish()
