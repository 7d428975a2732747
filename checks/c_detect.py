"""C02-C04: boards generated, photographed and detected for real, judged by
TLC (spec/Boards.tla, Detect.tla, TraceDetect.tla)."""
import json
import math
import os
import random
import shutil
import numpy as np
import vf
import world

M = 10          # white margin of a generated board, in pixels
IMGS = [(960, 720), (1000, 740), (900, 700)]
GOOD = ("jpg", "png", "bmp", "jpeg", "jp2", "tiff")


def first_markers(sq):
    f, n = [], 0
    for x, y in sq:
        f.append(n)
        n += x * y // 2
    return f


def corner_px(q, res, i):
    """centre of inner corner i in the generated image of a board"""
    s = min((res[0] - 2 * M) / q[0], (res[1] - 2 * M) / q[1])
    w, h = s * q[0], s * q[1]
    x0, y0 = (res[0] - w) / 2, (res[1] - h) / 2
    x, y = i % (q[0] - 1) + 1, i // (q[0] - 1) + 1
    return x0 + x * s - .5, y0 + y * s - .5


def homography(rng, q, res, cell, tilt):
    """the board turned and tilted somewhere within a cell (x, y, w, h) of an image"""
    W, H = res
    for _ in range(200):
        x, y, w, h = cell
        a = rng.uniform(-.5, .5) if tilt else rng.uniform(-.2, .2)
        if tilt and rng.random() < .3:
            a += rng.choice([math.pi / 2, math.pi, -math.pi / 2])
        ca, sa = math.cos(a), math.sin(a)
        g = [rng.uniform(-.25, .25) if tilt else 0 for _ in range(2)]
        S = np.array([[1 / W, 0, -.5 * (W - 1) / W], [0, 1 / W, -.5 * (H - 1) / W], [0, 0, 1]])
        R = np.array([[ca, -sa, 0], [sa, ca, 0], [g[0], g[1], 1]])
        c = np.array([[0, W - 1, W - 1, 0], [0, 0, H - 1, H - 1], [1, 1, 1, 1]], float)
        p = R @ S @ c
        p = p[:2] / p[2]
        lo, hi = p.min(1), p.max(1)
        k = min(w / (hi[0] - lo[0]), h / (hi[1] - lo[1])) * rng.uniform(.9, 1)
        t = [x + (w - k * (hi[0] - lo[0])) * rng.random() - k * lo[0], y + (h - k * (hi[1] - lo[1])) * rng.random() - k * lo[1]]
        return np.array([[k, 0, t[0]], [0, k, t[1]], [0, 0, 1]]) @ R @ S
    raise vf.Broken("no place for a board")


def at(Hm, p):
    q = Hm @ np.array([p[0], p[1], 1.0])
    return q[0] / q[2], q[1] / q[2]


def spread(q, K):
    """mean distance of the corners from their line, in squares"""
    P = np.array([(k % (q[0] - 1), k // (q[0] - 1)) for k in K], float)
    if len(P) < 2:
        return 0.0
    P = P - P.mean(0)
    u, s, vt = np.linalg.svd(P)
    if s[0] - s[1] < 1e-6 * s[0]:       # no preferred direction: any line may be found
        return min(np.abs(P @ [math.sin(t), -math.cos(t)]).mean() for t in np.linspace(0, math.pi, 180))
    return float(np.abs(P @ vt[1]).mean())


def make_boards(gen, wd, s):
    """generate the printed boards with the real generator"""
    rng = random.Random(s["seed"])
    n = len(s["sq"])
    px = [rng.choice(s.get("px", [48, 56, 64])) for _ in range(n)]
    lists = s.get("lists", True)
    if not lists:
        px = [px[0]] * n
    res = [(2 * M + px[i] * s["sq"][i][0] + (rng.randrange(0, 60) if s.get("odd") else 0), 2 * M + px[i] * s["sq"][i][1] +
            (rng.randrange(0, 60) if s.get("odd") else 0)) for i in range(n)] if lists else \
        [(2 * M + px[0] * s["sq"][0][0], 2 * M + px[0] * s["sq"][0][1])] * n
    ll, lm = s.get("lengths", (0.04, 0.03))
    c = dict(number_x_square=s["sq"][0][0] if not lists else 5, number_y_square=s["sq"][0][1] if not lists else 5,
             resolution_x=res[0][0] if not lists else 500, resolution_y=res[0][1] if not lists else 500,
             length_square=ll, length_marker=lm, number_board=n, boards_index=[], square_size=.1,
             number_x_square_per_board=[q[0] for q in s["sq"]] if lists else [],
             number_y_square_per_board=[q[1] for q in s["sq"]] if lists else [],
             resolution_x_per_board=[r[0] for r in res] if lists else [],
             resolution_y_per_board=[r[1] for r in res] if lists else [], square_size_per_board=[])
    p = os.path.join(wd, "gen.yml")
    world.write_raw_config(p, c)
    rc, out = vf.run([gen, p], timeout=60, cwd=wd)
    if rc != 0:
        return c, res, None
    d = os.path.join(wd, "charuco_boards")
    return c, res, sorted(os.path.join(d, x) for x in os.listdir(d))


def layout(rng, w, h, n, top=6):
    """cells for n boards"""
    cols, rows = ((1, 1), (2, 1), (2, 2), (2, 2))[max(0, n - 1)]
    cw, ch = (w - 2 * top) / cols, (h - 2 * top) / rows
    cells = [(top + i * cw + 4, top + j * ch + 4, cw - 8, ch - 8) for j in range(rows) for i in range(cols)]
    rng.shuffle(cells)
    return cells[:n]


def run(job):
    exe, i, s, base = job
    drv, gen, tool = exe
    rng = random.Random(s["seed"])
    wd = os.path.join(base, "d%d" % i)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    sq = s["sq"]
    e = dict(id=i, ok=True, props=s["props"], sq=sq, sel=s["sel"], perc=s["perc"])
    cfg, res, boards = make_boards(gen, wd, s)
    out = "generator failed"
    if boards is None or len(boards) != len(sq):
        e["ok"] = False
        return e, out
    e["res"] = [list(r) for r in res]
    rc, txt = vf.run([tool, "markers"] + boards, timeout=60)
    if rc != 0:
        raise vf.Broken("markers " + txt[-300:])
    e["printed"] = [dict(size=[int(x) for x in ln.split()[:2]], ids=[int(x) for x in ln.split()[2:]]) for ln in txt.strip().split("\n")]
    starts = first_markers(sq)
    # ---- the images
    root = os.path.join(wd, "images")
    per = {}
    for f in s["folder"]:
        per.setdefault(f["c"], []).append(f)
    plan, keep, files = [], [], []
    for c in range(s["nc"]):
        mine = sorted(per.get(c, []), key=lambda f: (os.path.join(root, f["name"] + "." + f["ext"])).encode())
        cand = [f for f in mine if f["ext"] in GOOD]
        if not cand:
            f = dict(c=c, name="only", ext="png", kind="image", shows=[])
            mine.append(f)
            cand = [f]
        cand[0]["kind"] = "image"      # the size of a camera's images is taken from the first
        size = IMGS[c % 3]
        for f in mine:
            p = os.path.join(root, "Pre fix_%03d" % (c + 1), f["name"] + "." + f["ext"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            g = dict(c=c, path=p, ext=f["ext"], readable=f["kind"] == "image", size=size, shows={})
            if f["kind"] == "broken":
                open(p, "wb").write(rng.choice([b"", b"no image", b"\x89PNG\r\n\x1a\n broken", b"BM"]))
            elif f["kind"] == "foreign":
                if rng.random() < .5:
                    open(p, "w").write("text\n")
                else:       # a readable image with a name that does not count
                    plan.append("image %d %d 200 %s" % (*size, p + ".png"))
                    g["rename"] = p
            else:
                plan.append("image %d %d %d %s" % (*size, rng.choice([90, 128, 200]), p))
                shows = f["shows"][:4]
                for cell, x in zip(layout(rng, *size, len(shows), rng.choice([3, 16])), shows):
                    Hm = homography(rng, sq[x["p"]], res[x["p"]], cell, s.get("tilt", True))
                    plan.append("board %s %s" % (" ".join(repr(float(v)) for v in Hm.reshape(-1)), boards[x["p"]]))
                    g["shows"][x["p"]] = Hm
                    if s["cut"]:
                        keep.append("keep %d %d %s %s" % (starts[x["p"]], len(x["k"]), " ".join(map(str, x["k"])), p))
            files.append(g)
    rp = os.path.join(wd, "render.txt")
    open(rp, "w").write("\n".join(plan) + "\n")
    rc, txt = vf.run([tool, "render", rp], timeout=120)
    if rc != 0:
        raise vf.Broken("render " + txt[-500:])
    for g in files:
        if "rename" in g:
            os.rename(g["path"] + ".png", g["path"])
    # ---- the program
    sch = s["sched"]
    pp = os.path.join(wd, "plan.txt")
    open(pp, "w").write("schedule %d %d %d %d %d\n" % (s["seed"], sch["yield"], sch["meet"], sch["delay"], sch["threads"]) + "\n".join(keep) + "\n")
    save = os.path.join(wd, "out")
    cfg.update(boards_index=s["sel"], distortion_model=0, distortion_per_camera=[], number_camera=s["nc"], refine_corner=s["refine"],
               min_perc_pts=s["perc"] / 1000, cam_params_path="None", fix_intrinsic=0, root_path=root, cam_prefix="Pre fix_",
               keypoints_path=rng.choice(["None", ""]), quaternion_averaging=1, ransac_threshold=3, number_iterations=100, he_approach=0,
               save_path=save, save_detection=0, save_reprojection=0, camera_params_file_name="")
    if s.get("wrong_size_list"):
        cfg["square_size_per_board"] = [rng.choice([.004, .06, .9]) for j in range(len(sq))]
    cp = os.path.join(wd, "config.yml")
    world.write_raw_config(cp, cfg)
    nd = os.path.join(wd, "t.ndjson")
    cpus = sorted((i + j) % vf.CORES for j in range(min(vf.CORES, sch["threads"])))
    rc, out = vf.run(["taskset", "-c", ",".join(map(str, cpus)), drv, cp, nd, pp, "boardExtraction"], timeout=120, cwd=wd)
    d = [json.loads(x) for x in open(nd) if x.endswith("\n")] if os.path.exists(nd) else []
    e["ok"] = rc == 0 and bool(d) and d[-1].get("op") == "done"
    if e["ok"]:
        abstract(e, s, d, files, res, starts)
    shutil.rmtree(wd, ignore_errors=True)
    return e, out[-600:]


def abstract(e, s, d, files, res, starts):
    sq = s["sq"]
    index = s["sel"] or list(range(len(sq)))
    num = {g["path"]: j + 1 for j, g in enumerate(files)}
    e["files"] = [dict(c=g["c"], name=list(g["path"].encode()), ext=g["ext"], readable=g["readable"], w=g["size"][0], h=g["size"][1],
                       shows=sorted(g["shows"])) for g in files]
    ev, st = d[0], d[1]
    e["boards"] = [b["markers"] for b in sorted(ev["boards"], key=lambda b: b["id"])]
    e["events"], pts, saddles = [], [], []
    for v in ev["events"]:
        if v["first"] not in starts or v["path"] not in num:
            continue
        p = starts.index(v["first"])
        sp = spread(sq[p], v["k"])
        e["events"].append(dict(file=num[v["path"]], p=p, k=v["k"], flat=bool(sp < .098), spread=bool(sp > .102)))
        pts.append(np.array(v["uv"], float).reshape(-1, 2))
        saddles.append(np.array(v["saddle"], float).reshape(-1, 3))
    paths = {(p["cam"], f["id"]): p["path"] for f in st["frames"] for p in f["paths"]}
    e["sizes"] = [[c["w"], c["h"]] for c in sorted(st["cams"], key=lambda c: c["id"])]
    e["ids"] = [b["id"] for b in st["bobs"]]
    e["db"] = []
    by = {b["id"]: [b["cam"], b["frame"], b["board"]] for b in st["bobs"]}
    for b in st["bobs"]:
        uv = np.array(b["uv"], float).reshape(-1, 2)
        p = index[b["board"]] if 0 <= b["board"] < len(index) else -1
        path = paths.get((b["cam"], b["frame"]), "")
        r = dict(c=b["cam"], f=b["frame"], b=b["board"], k=b["corners"], file=num.get(path, 0), shown=False, event=0, precise=True)
        # does an image of this camera show the board, with its corners here?
        for g in files:
            if g["path"] == path and g["c"] == b["cam"] and p in g["shows"] and len(uv) == len(b["corners"]) and \
                    all(0 <= k < (sq[p][0] - 1) * (sq[p][1] - 1) for k in b["corners"]):
                T = np.array([at(g["shows"][p], corner_px(sq[p], res[p], k)) for k in b["corners"]]).reshape(-1, 2)
                r["shown"] = bool(len(set(b["corners"])) == len(b["corners"]) and np.abs(T - uv).max() < (4 if s.get("odd") else 2))
                r["off"] = round(float(np.abs(T - uv).max()), 3)
        # which finding is it?
        for j, v in enumerate(e["events"]):
            if v["p"] == p and v["k"] == b["corners"] and files[v["file"] - 1]["c"] == b["cam"] and len(pts[j]) == len(uv):
                dist = np.abs(pts[j] - uv).max(1)
                if len(dist) and dist.max() < (1.5 if s["refine"] else 1e-4):
                    r["event"] = j + 1
                    if s["refine"]:
                        # every corner is where the refinement, done independently, puts it; where that finds
                        # nothing it stays; 2: too close to call
                        S = saddles[j]
                        moved = np.abs(S[:, :2] - uv).max(1) < .01
                        ok = np.where(S[:, 2] == 1, moved, np.where(S[:, 2] == 0, dist < 1e-4, moved | (dist < 1e-4)))
                        r["precise"] = bool(ok.all())
                        r["still"] = [int((S[:, 2] == q).sum()) for q in (0, 1, 2)]
        e["db"].append(r)
    e["views"] = []
    for kind, key, items in ([("cam", [c["id"]], c["bobs"]) for c in st["cams"]] + [("board", [c["id"]], c["bobs"]) for c in st["boards"]] +
                             [("frame", [c["id"]], c["bobs"]) for c in st["frames"]] +
                             [("image", [c["cam"], c["frame"]], c["bobs"]) for c in st["cams_obs"]]):
        e["views"].append(dict(kind=kind, key=key, items=[by.get(x, [-1, -1, -1]) for x in items]))


# --------------------------------------------------------------- scenarios
def boards_sets(c, rng, n):
    t = vf.tlc("MCBoards", cfg="MCBoardsThorough.cfg" if vf.THOROUGH else "MCBoards.cfg", timeout=500, workers=4)
    if t.invariant:
        raise vf.Broken("the specification breaks its own guarantee " + t.invariant)
    c.coverage["states"], c.coverage["transitions"] = t.distinct, t.generated
    sets = t.prints("SET")
    sets.sort(key=lambda s: json.dumps(s, sort_keys=True))
    rng.shuffle(sets)
    # plus larger ones
    more = []
    for _ in range(n // 5):
        k = rng.choice([4, 5, 6])
        q = [rng.choice([(5, 5), (4, 6), (7, 4), (3, 5), (6, 6), (9, 5), (5, 8), (4, 4), (8, 8)]) for _ in range(k)]
        more.append(dict(sq=[list(x) for x in q], sel=rng.choice([[], rng.sample(range(k), rng.randrange(1, k + 1))]), lists=True))
    out = []
    for s in sets[:n - len(more)] + more:
        k = len(s["sq"])
        folder = []
        for cam in range(2):
            for f in range(3):
                shows = rng.sample(range(k), rng.randrange(0 if f else 1, min(k, 4) + 1))
                folder.append(dict(c=cam, name="%02d" % f, ext="png", kind="image", shows=[dict(p=x, k=[]) for x in shows]))
        out.append(dict(s, nc=2, folder=folder, perc=rng.choice([200, 400]), refine=rng.randrange(2), cut=False, props=["C02"],
                        odd=rng.random() < .2, lengths=rng.choice([(.04, .03), (.1, .07), (1.0, .75)]),
                        sched=dict(threads=1, meet=1, delay=0, **{"yield": 0})))
    return out


def simulated(cfg, what, n, pid):
    ts = vf.pmap(lambda k: vf.tlc("MCImages", cfg=cfg, name=what + str(k), timeout=500, workers=1,
                                  extra=["-simulate", "num=%d" % (2 * n // 4), "-depth", "40", "-seed", str(vf.SEED * 40 + k)]), range(4))
    sc = [s for t in ts for s in t.prints("IM")]
    if len(sc) < n:
        raise vf.Broken("too few scenarios (%d of %d)" % (len(sc), n))
    for s in sc:
        for f in s["folder"]:
            f["shows"] = sorted(f["shows"], key=lambda x: x["p"])
            for x in f["shows"]:
                x["k"] = sorted(x["k"])
    return sc, sum(t.distinct for t in ts), sum(t.generated for t in ts)


def plan(c, pid, rng):
    mul = 5 if vf.THOROUGH else 1
    if pid == "C02":
        return boards_sets(c, rng, 90 * mul), vf.CORES
    if pid == "C03":
        ok = vf.tlc("MCDetect", cfg="MCDetectThorough.cfg" if vf.THOROUGH else "MCDetect.cfg", timeout=600, workers=4)
        no = vf.tlc("MCDetect", cfg="MCDetectUnlocked.cfg", timeout=600, workers=4, ok=(0, 12))
        if ok.invariant or not no.invariant:
            raise vf.Broken("the model of the detection threads is not what it should be")
        n = 64 * mul
        sc, a, b = simulated("MCImages.cfg", "im", n, pid)
        rng.shuffle(sc)
        c.coverage["states"], c.coverage["transitions"] = ok.distinct + no.distinct + a, ok.generated + no.generated + b
        out = [dict(s, seed=rng.randrange(10 ** 6), cut=False, props=["C03"], tilt=False) for s in sc[:n]]
        for j, s in enumerate(out):
            s["perc"] = min(s["perc"], 500)
            if j % 2:       # as much at once as possible
                s["refine"] = 0
                s["sched"] = dict(threads=8, meet=rng.choice([4, 8]), delay=0, **{"yield": rng.choice([300, 600])})
                s["folder"] = [dict(f, shows=f["shows"] or [dict(p=0, k=[])]) for f in s["folder"]]
            elif j % 4 == 0:    # many images per thread, some of which show nothing
                s["sched"] = dict(s["sched"], threads=rng.choice([1, 2]))
                s["folder"] = s["folder"] + [dict(f, name=f["name"] + "+", shows=rng.choice([[], f["shows"]])) for f in s["folder"]]
        for j in range(5):      # many cameras
            s = dict(out[7 * j], nc=rng.choice([10, 11, 12]), perc=200)
            at = rng.sample(range(s["nc"] - 1), 2) + [s["nc"] - 1]
            s["folder"] = [dict(f, c=at[f["c"] % 3]) for f in s["folder"]][:12]
            out.append(s)
        return out, 3
    n = 110 * mul
    sc, a, b = simulated("MCCorners.cfg", "co", n, pid)
    rng.shuffle(sc)
    c.coverage["states"], c.coverage["transitions"] = a, b
    return [dict(s, seed=rng.randrange(10 ** 6), cut=True, props=["C04"], tilt=False, wrong_size_list=bool(j % 2),
                 sched=dict(threads=1, meet=1, delay=0, **{"yield": 0})) for j, s in enumerate(sc[:n])], vf.CORES


def judge(recs, wd, name):
    p = os.path.join(wd, name + ".ndjson")
    vf.to_ndjson(p, recs)
    t = vf.tlc("TraceDetect", env=dict(TRACE=p), timeout=800, name=name, heap="3g")
    done = t.prints("DONE")
    if not done or done[-1]["n"] != len(recs):
        raise vf.Broken("trace not consumed " + t.out[-1500:])
    return done[-1]["bad"], t.distinct


def execute(jobs, wd, par):
    res = vf.pmap(run, jobs, par)
    n = min(vf.CORES, len(res))
    js = vf.pmap(lambda k: judge([x[0] for x in res[k::n]], wd, "judge%d" % k), range(n))
    return res, [b for j in js for b in j[0]], sum(j[1] for j in js)


def check(pid):
    c = vf.Check(pid, "model_checking")
    exe = vf.build("drv_detect", "generate_charuco", "imgtool")
    wd = vf.workdir(pid)
    rng = random.Random("%s/%d" % (pid, vf.SEED))
    todo, par = plan(c, pid, rng)
    for s in todo:
        s.setdefault("seed", rng.randrange(10 ** 6))
    jobs = [(exe, i, s, wd) for i, s in enumerate(todo)]
    res, bad, st = execute(jobs, wd, par)
    os.makedirs(wd + "/again", exist_ok=True)
    for i in sorted({b["id"] for b in bad})[:10]:
        bad2 = []
        for _ in range(3 if pid == "C03" else 1):      # what goes wrong between threads does not always
            bad2 = bad2 or execute([jobs[i]], wd + "/again", 1)[1] or (pid == "C03" and execute([jobs[i]], wd + "/again", 1)[1])
        b = sorted({x["what"] for x in bad if x["id"] == i})
        if bad2:
            r = res[i][0]
            c.violation("; ".join(b), dict(scenario=todo[i], complaints=b, record={k: v for k, v in r.items() if k != "views"}, output=res[i][1]))
            if len(c.violations) == 4:
                break
        else:
            c.coverage.setdefault("not_reproduced", []).append(b[:2])
    c.coverage["states"] += st
    c.coverage.update(traces_validated_against_impl=len(res), exhaustive=False, observations=sum(len(r[0].get("db", [])) for r in res),
                      findings=sum(len(r[0].get("events", [])) for r in res),
                      rule="boards, folders, corner sets and schedules drawn by TLC; boards made by the real generator, photographed "
                           "by a renderer, detected by the real detection with varied schedules; files, findings and database "
                           "validated by TLC", samples=[todo[0], todo[-1]])
    c.assumptions = ["OpenCV's marker detection and corner interpolation find what is clearly visible",
                     "the first image file of a camera is readable (the program asserts it)"]
    return c.finish()
