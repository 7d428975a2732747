"""C27: what the scripts for the analysis of results show, judged by TLC (spec/Display.tla)"""
import json
import os
import random
import re
import shutil
import sys
import numpy as np
import c_calib
import c_files
import results
import rig
import vf
from world import T, inv, rodrigues

STUB = os.path.join(vf.ROOT, "harness", "pystub")
FLIP = np.diag([1.0, -1, -1, 1])
PARTS = ["compute_pose_error_vs_gt", "display_cam_obj_pose", "display_calib_cameras", "display_calib_object", "compute_error_statistic"]
PNG = r"^[^/]+\.(png|jpg|pdf|svg)$"


def args(name, folder, gt):
    f = lambda n: os.path.join(folder, n)
    return {"compute_pose_error_vs_gt": ["-d", f(results.CAMS), "-g", gt], "display_cam_obj_pose": ["-d", folder],
            "display_calib_cameras": ["-d", f(results.CAMS)], "display_calib_object": ["-d", f(results.OBJS)],
            "compute_error_statistic": ["-d", f(results.ERRS)], "post_calibration_analysis": ["-d", folder]}[name]


def script(name, folder, gt):
    """-> (exit status, figures, output)"""
    drawn = os.path.join(os.path.dirname(folder), name + ".json")
    rc, out = vf.run([sys.executable, os.path.join(vf.REPO, "python_utils", name + ".py"), *args(name, folder, gt)],
                     timeout=100, cwd=os.path.dirname(folder),
                     env=dict(PYTHONPATH=STUB, PYTHONDONTWRITEBYTECODE="1", DRAWN=drawn))
    figs = json.load(open(drawn)) if os.path.exists(drawn) else []
    return (255 if rc is None else rc), figs, out


def cloud(figs, kind):
    return [np.array([c["x"], c["y"], c["z"]], float).T for f in figs for c in f["drawn"] if c["kind"] == kind]


def corners(figs):
    q = cloud(figs, "line")
    return np.concatenate(q) if q else np.zeros((0, 3))


def write_gt(path, Ks, Ps):
    def mat(m):
        return "!!opencv-matrix\n   rows: %d\n   cols: %d\n   dt: d\n   data: [ %s ]\n" % (
            *m.shape, ", ".join(repr(float(x)) for x in m.reshape(-1)))
    with open(path, "w") as o:
        o.write("%YAML:1.0\n---\n" + "nb_camera: %d\n" % len(Ks))
        for i, (K, P) in enumerate(zip(Ks, Ps)):
            o.write("K_%d: %sP_%d: %s" % (i + 1, mat(K), i + 1, mat(P)))


def results_of(drv, d, wd):
    """runs the calibration; -> the folder with its results"""
    r = c_files.world_of(d)
    shutil.rmtree(wd, ignore_errors=True)
    ops = c_files.quietly(c_calib.COARSE[:-1]) + ["perturb:%d:.02" % (d["seed"] % 997)] + c_files.quietly(c_files.SAVES)
    rc, out, _ = r.run(drv, wd, ops, timeout=120)
    return rc, os.path.join(wd, "out"), out


def uniq(pts, share):
    """the corners of a body, and each as often as it is drawn"""
    c, n = np.unique(np.round(pts, 6), axis=0, return_counts=True)
    return c, [i for i in range(len(c)) for _ in range(n[i] // share)]


def run(job):
    drv, i, d, base, bodies = job
    wd = os.path.join(base, "d%d" % i)
    rng = np.random.default_rng(d["seed"])
    rc, folder, out = results_of(drv, d, wd)
    e = dict(id=i, refuse=d["refuse"] != "", n=d["nc"], npose=0, boards=[], frames=[], scripts=[])
    if rc != 0:
        e["skip"] = "the calibration ended with %s %s" % (rc, out[-300:])
        return e, "", d
    try:
        f = results.read(os.path.join(folder, results.CAMS))
        cams = dict(results.prefixed(f, "camera_"))
        est = [np.array(results.get(cams[c], "camera_pose_matrix"), float) for c in range(d["nc"])]
        Ks = [np.array(results.get(cams[c], "camera_matrix"), float) for c in range(d["nc"])]
        obj = np.array(results.get(dict(results.prefixed(results.read(os.path.join(folder, results.OBJS)), "object_"))[0], "points"), float)
        poses = np.array(results.get(dict(results.prefixed(results.read(os.path.join(folder, results.POSES)), "object_"))[0], "poses"), float)
        errs = dict(results.prefixed(results.read(os.path.join(folder, results.ERRS)), "camera_group_"))[0]
        frames = [np.mean([np.mean(np.array(results.get(y, "error_list"), float)) for _, y in results.prefixed(dict(
            results.prefixed(errs, "frame_"))[k], "camera_")]) for k in results.ints(results.get(errs, "frame_list"))]
    except Exception as x:
        e["skip"] = repr(x)
        return e, "", d
    # the truth: some way off the result, in the frame of the renderer
    gt = [P @ T(rodrigues(rng.normal(0, .05, 3)), rng.normal(0, .1, 3)) for P in est]
    gK = [K + np.array([[rng.normal(0, 5), 0, rng.normal(0, 3)], [0, rng.normal(0, 5), rng.normal(0, 3)], [0, 0, 0]]) for K in Ks]
    if d["exactgt"]:
        gt, gK = est, Ks
    gtf = os.path.join(wd, "GroundTruth.yml")
    k = d["nc"] + (1 if d["refuse"] == "gt" else 0)
    write_gt(gtf, (gK * 2)[:k], [FLIP @ inv(P) @ FLIP for P in (gt * 2)[:k]])
    e.update(npose=int(poses.shape[1]), boards=sorted({int(b) for b in obj[3]}), frames=[round(float(x) * 1e6) for x in frames])
    figs = {}
    for name in PARTS + ["post_calibration_analysis"]:
        rc, fs, out = script(name, folder, gtf)
        s = dict(name=name, rc=rc, body=[], cams=[], clouds=[], bars=[], errors={}, same=True, out=out[-400:],
                 refuses=name == "post_calibration_analysis" or name == dict(groups="compute_error_statistic",
                                                                           gt="compute_pose_error_vs_gt").get(d["refuse"]),
                 saved=all(len(f["saved"]) > 0 and all(os.path.dirname(q) == os.path.abspath(folder) and re.match(PNG, os.path.basename(q))
                                                       for q in f["saved"]) for f in fs) and len(fs) > 0)
        figs[name] = fs
        P = est + (gt if name == "compute_pose_error_vs_gt" else [])
        if name in bodies and rc == 0:
            body, s["body"] = bodies[name]
            at = [(c, j, Q[:3, :3] @ body[j] + Q[:3, 3]) for c, Q in enumerate(P) for j in range(len(body))]
            A = np.array([x for _, _, x in at]).reshape(-1, 3)
            q = corners(fs)
            for x in q:
                m = np.linalg.norm(A - x, axis=1)
                j = int(m.argmin()) if len(m) else -1
                s["cams"].append([at[j][0], at[j][1]] if j >= 0 and m[j] < 1e-4 else [-1, -1])
            if d["exactgt"] and name == "compute_pose_error_vs_gt":       # both systems coincide
                seen = {}
                for x in s["cams"]:
                    seen[tuple(x)] = seen.get(tuple(x), 0) + 1
                s["cams"] = [[c + h * d["nc"], j] if c >= 0 else [-1, -1] for (c, j), n in sorted(seen.items())
                             for h in range(2) for _ in range(n // 2 + (n % 2 if h else 0))]
        if name == "display_calib_object":
            for q in cloud(fs, "points"):
                s["clouds"].append(next((b for b in e["boards"] if alike(q, obj[:3, obj[3] == b].T)), -1))
        if name == "display_cam_obj_pose":
            for q in cloud(fs, "points"):
                s["clouds"].append(next((j for j in range(poses.shape[1]) if alike(
                    q, obj[:3].T @ rodrigues(poses[:3, j]).T + poses[3:, j])), -1))
        if name == "compute_error_statistic":
            for f in fs:
                for b in f["drawn"]:
                    if b["kind"] == "bar":
                        for x, y in zip(b["x"], b["y"]):
                            want = frames[int(x)] if x == int(x) and 0 <= x < len(frames) else -1
                            s["bars"].append([int(round(x)), round(want * 1e6) if abs(y - want) < 1e-6 + 1e-5 * abs(want) else -1])
            s["bars"].sort()
        if name == "compute_pose_error_vs_gt":
            s["errors"] = errors(out, est, gt, Ks, gK)
        e["scripts"].append(s)
    flat = lambda fs: sorted(json.dumps([dict(c, x=np.round(c["x"], 6).tolist(), y=np.round(c["y"], 6).tolist(),
                                              z=np.round(c["z"], 6).tolist()) for c in f["drawn"]]) for f in fs)
    e["scripts"][-1]["same"] = flat(figs["post_calibration_analysis"]) == flat([f for n in PARTS for f in figs[n]])
    shutil.rmtree(wd, ignore_errors=True)
    return e, "", d


def alike(a, b):
    """the same points, in any order"""
    if a.shape != b.shape:
        return False
    o = lambda x: np.array(sorted(np.round(x, 3).tolist()))
    return bool(np.abs(a - b).max() < 1e-4 or all(np.linalg.norm(b - x, axis=1).min() < 1e-4 for x in a) and
                all(np.linalg.norm(a - x, axis=1).min() < 1e-4 for x in b))


def errors(out, est, gt, Ks, gK):
    def said(p):
        m = re.findall(p + r"[^\n]*?:\s*([-+.\deE]+|nan)\s*$", out, re.M)
        return float(m[0]) if len(m) == 1 else float("nan")
    ang = []
    for A, B in zip(est, gt):
        R = A[:3, :3].T @ B[:3, :3]
        ang.append(np.degrees(np.arctan2(np.linalg.norm([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]]) / 2, (np.trace(R) - 1) / 2)))
    dk = lambda r, c: np.mean([abs(A[r, c] - B[r, c]) for A, B in zip(Ks, gK)])
    want = dict(translation=np.mean([np.linalg.norm(A[:3, 3] - B[:3, 3]) for A, B in zip(est, gt)]), fx=dk(0, 0), fy=dk(1, 1),
                u0=dk(0, 2), v0=dk(1, 2), pp=(dk(0, 2) + dk(1, 2)) / 2)
    got = {"error of " + k: bool(abs(said("error " + k) - v) < 1e-5 + 1e-5 * v) for k, v in want.items()}
    got["error of rotation"] = bool(abs(said(r"error r\w*tation") - np.mean(ang)) < 1e-3)
    return got


# --------------------------------------------------------------- check
def judge(recs, wd):
    p = os.path.join(wd, "display.ndjson")
    vf.to_ndjson(p, recs)
    t = vf.tlc("TraceDisplay", env=dict(TRACE=p), timeout=600)
    done = t.prints("DONE")
    if not done or done[-1]["n"] != len(recs):
        raise vf.Broken("trace not consumed " + t.out[-1500:])
    return done[-1]["bad"], t.distinct


def check(pid):
    c = vf.Check(pid, "model_checking")
    (drv,) = vf.build("drv_stages")
    wd = vf.workdir(pid)
    rng = random.Random("%s/%d" % (pid, vf.SEED))
    mul = 5 if vf.THOROUGH else 1
    need = [("random", 2, 4, 2, 9), ("random", 3, 4, 3, 20), ("random", 4, 3, 2, 14), ("single", 3, 5, 1, 0)]
    ts = vf.pmap(lambda a: c_calib.patterns(a[1][0], *a[1][1:4], k=300 * mul, n=a[1][4], emit="done", seed=70 + a[0]), list(enumerate(need)), 4)
    one, two = [], []
    for a, t in zip(need, ts):
        for s in t.prints("SC"):
            if {o["c"] for o in s["obs"]} != set(range(a[1])) or len(s["objs"]) != 1:
                continue
            (one if len(s["groups"]) == 1 else two).append((a[1:4], s))
    if len(one) < 30 or len(two) < 3:
        raise vf.Broken("too few scenarios: %d %d" % (len(one), len(two)))
    key = lambda x: json.dumps([x[0], sorted((o["c"], o["f"], o["b"]) for o in x[1]["obs"])])
    ds = []
    rng.shuffle(one.sort(key=key) or one)
    rng.shuffle(two.sort(key=key) or two)
    for j, ((nc, nf, nb), s) in enumerate(one[:14 * mul] + two[:2 * mul]):
        ds.append(c_calib.base(s, nc, nf, nb, rng, refuse="" if len(s["groups"]) == 1 else "groups", exactgt=j % 6 == 5))
        if ds[-1]["refuse"] == "" and j % 7 == 6:
            ds[-1]["refuse"] = "gt"
    for j in range(2 * mul):            # many poses
        nf = rng.choice([27, 40, 51, 52])
        ds.append(c_calib.base(dict(obs=[dict(c=a, f=f, b=b) for a in range(2) for f in range(nf) for b in range(1 + j % 2) if a == 0 or f % 3]),
                               2, nf, 1 + j % 2, rng, refuse="", exactgt=False))
    # a lone camera at the origin shows what a camera looks like
    lone = c_calib.base(dict(obs=[dict(c=0, f=f, b=0) for f in range(3)]), 1, 3, 1, rng, models=[0])
    rc, folder, out = results_of(drv, lone, os.path.join(wd, "lone"))
    bodies = {}
    if rc == 0:
        gtf = os.path.join(wd, "lone", "GroundTruth.yml")
        f = results.read(os.path.join(folder, results.CAMS))
        write_gt(gtf, [np.array(results.get(v, "camera_matrix"), float) for _, v in results.prefixed(f, "camera_")], [np.eye(4)])
        for name, share in (("compute_pose_error_vs_gt", 2), ("display_cam_obj_pose", 1), ("display_calib_cameras", 1)):
            rc, figs, out = script(name, folder, gtf)
            bodies[name] = uniq(corners(figs), share)
    else:
        raise vf.Broken("no results to display: %s" % out[-600:])
    res = vf.pmap(lambda x: run((drv, x[0], x[1], wd, bodies)), list(enumerate(ds)))
    recs = [r for r, _, _ in res if "skip" not in r]
    if len(recs) < len(ds) * 3 // 4:
        raise vf.Broken("too few results to display: %s" % [r["skip"] for r, _, _ in res if "skip" in r][:3])
    bad, st = judge(recs, wd)
    mine = sorted({b["id"] for b in bad})
    if mine:
        again = vf.pmap(lambda i: run((drv, i, ds[i], wd, bodies))[0], mine[:8])
        bad2, _ = judge([r for r in again if "skip" not in r], wd)
        by = {r["id"]: r for r in recs}
        for i in mine[:8]:
            keep = sorted({b["what"] for b in bad if b["id"] == i} & {b["what"] for b in bad2 if b["id"] == i})
            if keep:
                c.violation("; ".join(keep), dict(scenario=c_calib.clean(ds[i]), complaints=keep, record=by[i]))
    c.coverage = dict(states=sum(t.distinct for t in ts) + st, transitions=sum(t.generated for t in ts),
                      traces_validated_against_impl=len(recs), scripts=sum(len(r["scripts"]) for r in recs),
                      bodies={k: len(v[1]) for k, v in bodies.items()}, exhaustive=False,
                      rule="visibility patterns with one object drawn by TLC, calibrated and saved by the real library; the real scripts run "
                           "on the files, with stand-ins for cv2 and matplotlib which read and record; TLC judges what is shown",
                      samples=[c_calib.clean(ds[0]), c_calib.clean(ds[-1])])
    c.assumptions = ["cv2 and matplotlib are stand-ins (neither is installed): reading of OpenCV's YAML and recording of what is drawn",
                     "one object, cameras numbered from 0 without gaps (as the scripts document)"]
    return c.finish()
