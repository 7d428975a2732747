"""C06-C08, C10-C18: the calibration stages, validated against spec/Calib.tla

TLC enumerates who sees what (spec/MCCalib.tla), each scenario becomes a rigid
world with chosen false motions, outliers, noise ..., the real stages run on
it, and TLC judges every state they leave (spec/TraceCalib.tla)."""
import json
import multiprocessing
import os
import random
import shutil
import numpy as np
import rig
import vf

FINE_A = "computeBoardsPairPose initInterBoardTransform initInterBoardsGraph init3DObjects initAll3DObjectObs".split()
OBJ = FINE_A + ["estimatePoseAllObjects", "refineAllObject3D"]
GRP = ("computeCamerasPairPose initInterCameraTransform initInterCamerasGraph initCameraGroup initAllCameraGroupObs "
       "computeAllObjPoseInCameraGroup").split()
MRG = ("initInterCamGroupGraph estimatePoseAllObjects computeAllObjPoseInCameraGroup computeObjectsPairPose "
       "initInterObjectTransform initInterObjectsGraph reproErrorAllCamGroup mergeObjects mergeAllObjectObs "
       "mergeAllCameraGroupObs estimatePoseAllObjects computeAllObjPoseInCameraGroup").split()
NON = "findPairObjectForNonOverlap findPoseNoOverlapAllCamGroup initInterCamGroupGraph mergeCameraGroup mergeAllCameraGroupObs".split()
REF = ["refineAllCameraGroupAndObjects"]
AGAIN = "initInterCamGroupGraph mergeCameraGroup mergeAllCameraGroupObs estimatePoseAllObjects computeAllObjPoseInCameraGroup".split()
START = ["loadDetectedKeypoints", "initIntrinsic"]
FINE = START + OBJ + GRP + REF + MRG + REF + ["reproErrorAllCamGroup"] + NON + MRG + REF + AGAIN + REF + ["reproErrorAllCamGroup"]
COARSE = START + ["calibrate3DObjects", "calibrateCameraGroup", "merge3DObjects"] + NON + ["merge3DObjects"] + AGAIN + REF
PROP_OF = {"loadDetectedKeypoints": "C06", "initIntrinsic": "C06", "estimatePoseAllBoards": "C06",
           "initializeCalibrationAllCam": "C17", "refineIntrinsicAndPoseAllCam": "C17", "saveCamerasParams": "C17",
           "computeBoardsPairPose": "C08", "initInterBoardTransform": "C08", "initInterBoardsGraph": "C07",
           "init3DObjects": "C07", "calibrate3DObjects": "C07", "initAll3DObjectObs": "C10",
           "estimatePoseAllObjects": "C06", "refineAllObject3D": "C18", "computeCamerasPairPose": "C12",
           "initInterCameraTransform": "C12", "initInterCamerasGraph": "C11", "initCameraGroup": "C11",
           "calibrateCameraGroup": "C11", "initAllCameraGroupObs": "C10", "computeAllObjPoseInCameraGroup": "C13",
           "computeObjectsPairPose": "C16", "initInterObjectTransform": "C16", "initInterObjectsGraph": "C16",
           "mergeObjects": "C16", "merge3DObjects": "C16", "mergeAllObjectObs": "C10", "mergeAllCameraGroupObs": "C10",
           "findPairObjectForNonOverlap": "C14", "findPoseNoOverlapAllCamGroup": "C14", "initInterCamGroupGraph": "C15",
           "mergeCameraGroup": "C15"}


# ------------------------------------------------------------ scenarios
def patterns(mode, nc, nf, nb, k=0, n=0, emit="objects", seed=0):
    t = vf.tlc("MCCalib", env=dict(MODE=mode, NC=nc, NF=nf, NB=nb, K=k, N=n, EMIT=emit), timeout=800, workers=2,
               extra=["-seed", str(vf.SEED * 1000 + seed)], name="pat%s%d%d%d" % (mode, nc, nf, nb))
    if t.invariant:
        raise vf.Broken("the specification breaks its own guarantee " + t.invariant + t.out[-2000:])
    return t


def spread(rng, scs, n):
    """n scenarios, as different in their features as possible: every value of every feature in turn"""
    by = {}
    for s in scs:
        by.setdefault(json.dumps(s["feat"]), []).append(s)
    for k in sorted(by):
        by[k].sort(key=lambda s: json.dumps(sorted((o["c"], o["f"], o["b"]) for o in s["obs"])))
        rng.shuffle(by[k])
    keys = sorted(by)
    rng.shuffle(keys)
    feats = {k: list(enumerate(json.loads(k))) for k in keys}
    seen, used, out = {}, {k: 0 for k in keys}, []
    while len(out) < n and any(by.values()):
        k = max((k for k in keys if by[k]), key=lambda k: sum(1 / (1 + seen.get(f, 0)) for f in feats[k]) - used[k])
        out.append(by[k].pop())
        used[k] += 1
        for f in feats[k]:
            seen[f] = seen.get(f, 0) + 1
    return out


def base(s, nc, nf, nb, rng, **kw):
    obs = [dict(c=o["c"], f=o["f"], b=o["b"]) for o in s["obs"]]
    obs.sort(key=lambda o: (o["c"], o["f"], o["b"]))
    nf = max([nf] + [o["f"] + 1 for o in obs])
    d = dict(nc=nc, nf=nf, nb=nb, obs=obs, seed=rng.randrange(10**6), quat=rng.randrange(2), he=rng.randrange(2),
             models=[int(rng.random() < .25) for _ in range(nc)], consistent=True, glies=[], ops=FINE)
    d.update(kw)
    return d


def fam_V(rng, P, n, ops=FINE, **kw):
    """consistent worlds through the whole workflow"""
    out = []
    share = max(1, n // len(P))
    for (nc, nf, nb), scs in P:
        for s in spread(rng, scs, share):
            out.append(base(s, nc, nf, nb, rng, ops=ops, **kw))
    return out


def fam_A(rng, P, n):
    """every board lies in every image: chaining and averaging of boards"""
    out = fam_V(rng, P, n, ops=START + FINE_A, consistent=False)
    for d in out:
        kind = rng.randrange(3)
        pair = {}
        for o in d["obs"]:
            if kind == 0:      # anything goes
                o["l"] = rng.randrange(6)
            elif kind == 1:    # mostly honest
                o["l"] = rng.choice([0, 0, 0, 1, 2])
            else:              # the images of one frame agree
                o["l"] = pair.setdefault((o["f"], o["b"]), rng.randrange(5))
    return out


def fam_B(rng, P, n):
    """one board per image, lying: chaining of cameras, poses of objects in groups"""
    out = fam_V(rng, P, n, ops=START + OBJ + GRP, consistent=False)
    for d in out:
        kind = rng.randrange(3)
        pair = {}
        for o in d["obs"]:
            if kind == 0:
                o["l"] = rng.randrange(6)
            elif kind == 1:
                o["l"] = rng.choice([0, 0, 0, 1, 2])
            else:
                o["l"] = pair.setdefault((o["c"], o["f"]), rng.randrange(5))
    return out


def fam_D(rng, P, n):
    """one board per image, moving between frames: merging of objects"""
    out = fam_V(rng, P, n, ops=START + OBJ + GRP + MRG[:-2], consistent=False)
    for d in out:
        pair = {}
        kind = rng.randrange(2)
        for o in d["obs"]:
            o["l"] = pair.setdefault((o["f"], o["b"]), rng.randrange(6) if kind else rng.choice([0, 0, 0, 1, 2]))
    return out


def fam_G(rng, n):
    """groups without common objects, each pair in frames of its own"""
    out = []
    for i in range(n):
        ng = rng.choice([2, 3, 3, 4]) if i % 12 != 11 else 11
        pairs = [(a, b) for a in range(ng) for b in range(a + 1, ng)]
        count = {p: rng.choice([0, 2, 3, 4, 4, 5, 8, 9]) for p in pairs}
        if ng > 4:          # a sparse graph of many groups
            link = {tuple(sorted((j * 2 % ng, max(0, j - rng.choice([1, 2])) * 2 % ng))) for j in range(1, ng)}
            link |= {tuple(sorted(rng.sample(range(ng), 2))) for _ in range(3)}
            count = {p: rng.choice([3, 4, 4, 5, 6]) if p in link else 0 for p in pairs}
        if i % 3 == 0 and ng == 3:      # a detour which is better than the direct link
            a, b, c = rng.sample([(0, 1), (1, 2), (0, 2)], 3)
            count = {a: 4, b: 9, c: 9}
        double = rng.randrange(ng + 2)  # a group of two cameras
        cams, members = 0, []
        for g in range(ng):
            members.append(list(range(cams, cams + 1 + (g == double))))
            cams += 1 + (g == double)
        perm = list(range(cams))
        rng.shuffle(perm)               # camera numbers in any order over the groups
        members = [[perm[c] for c in m] for m in members]
        two = rng.randrange(ng + 1)     # a group which sees a second object now and then
        nb = ng + 1
        obs, glies, f, lie = [], [], 0, 0
        for (a, b), k in count.items():
            if k == 0:
                continue
            lie += 1
            hi = a if min(members[a]) > min(members[b]) else b
            lo = b if hi == a else a
            for j in range(k):
                for g in (a, b):
                    for c in members[g]:
                        bd = nb - 1 if g == two and j >= 4 + k // 2 else g
                        obs.append(dict(c=c, f=f, b=bd, x=lie if g == hi else 0))
                f += 1
            for c in members[hi]:
                for d in members[lo]:
                    glies.append([d, c, lie])
                    glies.append([c, d, 100 * lie])
        if f == 0:
            continue
        d = base(dict(obs=[]), cams, f, nb, rng, ops=START + OBJ[:-1] + GRP + MRG + NON,
                 consistent=False, glies=glies, he=i % 2, models=[0] * cams)
        d["obs"] = sorted(obs, key=lambda o: (o["c"], o["f"], o["b"]))
        out.append(d)
    return out


def fam_L(rng, L, n):
    """many cameras, boards or objects"""
    out = []
    kinds = [("longcams", lambda P, k: fam_B(rng, P, k)), ("longboards", lambda P, k: fam_A(rng, P, k)),
             ("longobjects", lambda P, k: fam_D(rng, P, k)), ("longcams", lambda P, k: fam_V(rng, P, k, ops=COARSE)),
             ("longboards", lambda P, k: fam_V(rng, P, k, ops=COARSE)), ("longobjects", lambda P, k: fam_V(rng, P, k, ops=COARSE))]
    kinds = [x for x in kinds if L[x[0]]]
    for j, (mode, f) in enumerate(kinds):
        out += f(L[mode], n // len(kinds) + (j < n % len(kinds)))
    return out


def fam_O(rng, P, n):
    """outliers, partial and useless observations"""
    out = fam_V(rng, P, n, ops=FINE)
    for i, d in enumerate(out):
        d["thr"] = rng.choice([1, 3, 5])
        d["consistent"] = i % 2 == 0        # a wild observation may look like a good one
        for o in d["obs"]:
            o["kind"] = rng.choice(["full", "full", "part", "out", "out", "few"] + ["wild"] * (i % 2))
    return out


def fam_bad(rng, P, n):
    """as V, with some observations that cannot be used"""
    out = fam_V(rng, P, n, ops=FINE)
    for i, d in enumerate(out):
        d["consistent"] = i % 2 == 0
        for o in d["obs"]:
            o["kind"] = rng.choice(["full"] * 8 + ["part", "few"] + ["wild"] * (i % 2))
    return out


def fam_P(rng, P, n):
    """perturbed states are refined back"""
    out = []
    for i, d in enumerate(fam_V(rng, P, n)):
        s = [rng.randrange(1000) for _ in range(6)]
        size = rng.choice([.002, .01, .02])
        k = i % 3
        if k == 0:
            d["ops"] = START + OBJ + ["perturb:%d:%g" % (s[0], size), "refineAllObject3D", "refineAllObject3D"]
        elif k == 1:
            d["ops"] = START + OBJ + GRP + REF + ["perturb:%d:%g" % (s[1], size)] + REF + REF + \
                ["perturb:%d:%g" % (s[2], size), "refineAllCameraGroup"]
        else:
            d["ops"] = COARSE + ["perturb:%d:%g" % (s[3], size)] + REF + ["refineAllCameraGroupAndObjectsAndIntrinsic"]
        out.append(d)
    return out


def fam_N(rng, P, n):
    """noisy measurements: the fit never gets worse"""
    out = []
    for i, d in enumerate(fam_V(rng, P, n, consistent=False)):
        d.update(noise=.12, thr=10)
        d["ops"] = START + OBJ + GRP + REF + (["perturb:%d:.004" % i] if i % 2 else []) + \
            ["refineAllCameraGroup"] + REF + ["refineAllCameraGroupAndObjectsAndIntrinsic"]
        out.append(d)
    return out


def fam_I(rng, n):
    """intrinsics: kept, loaded, refined, estimated"""
    out = []
    for i in range(n):
        kind = ("fixed", "refine", "images", "fixed")[i % 4]
        nc = rng.choice([1, 2, 3])
        nf = 3 if kind == "fixed" else 8
        nb = 2 if kind == "fixed" else 3
        d = base(dict(obs=[dict(c=c, f=f, b=b) for c in range(nc) for f in range(nf) for b in range(nb)]),
                 nc, nf, nb, rng, models=[rng.randrange(2) for _ in range(nc)], thr=10)
        d["fix"] = int(kind == "fixed")
        d["start"] = {"fixed": "perturbed" if i % 8 == 0 else "true", "refine": "perturbed", "images": "images"}[kind]
        d["consistent"] = d["start"] == "true"
        d["converges"] = kind in ("refine", "images")
        d["reload"] = True
        if kind == "fixed":
            d["ops"] = COARSE + ["saveCamerasParams"]
        else:
            d["ops"] = ["loadDetectedKeypoints", "initializeCalibrationAllCam", "estimatePoseAllBoards",
                        "refineIntrinsicAndPoseAllCam"] if i % 8 < 4 else list(START)
            d["ops"] += ["calibrate3DObjects", "calibrateCameraGroup", "refineAllCameraGroupAndObjectsAndIntrinsic",
                         "saveCamerasParams"]
        out.append(d)
    return out


# -------------------------------------------------------------- running
def prepare(d):
    """concrete details of a scenario which need the sizes of its boards"""
    rng = random.Random(d["seed"])
    r = rig.Rig(dict(d, obs=[]))
    npts = [r.w.n_pts(b) for b in range(d["nb"])]
    for o in d["obs"]:
        n = npts[o["b"]]
        kind = o.get("kind", "full")
        o["k"], o["out"], o["must"] = list(range(n)), [], True
        if kind == "part":
            o["k"] = sorted(rng.sample(range(n), rng.randrange(max(9, n // 2), n + 1)))
        elif kind == "out":
            o["k"] = sorted(rng.sample(range(n), rng.randrange(12, n + 1)))
            o["out"] = sorted(rng.sample(o["k"], rng.randrange(1, len(o["k"]) // 4 + 1)))
        elif kind == "few":
            o["k"] = sorted(rng.sample(range(n), rng.randrange(1, 4)))
            o["must"] = False
        elif kind == "wild":
            o["k"] = sorted(rng.sample(range(n), rng.randrange(4, 9)))
            o["out"] = list(o["k"])
            o["must"] = False
    if d.get("start") == "perturbed":
        g = np.random.default_rng(d["seed"])
        full = rig.Rig(dict(d, obs=[]))
        d["K0"] = [K * np.array([[1 + g.uniform(-.02, .02), 1, 1 + g.uniform(-.01, .01)],
                                 [1, 1 + g.uniform(-.02, .02), 1 + g.uniform(-.01, .01)], [1, 1, 1]]) for K in full.w.K]
        d["D0"] = [D + g.uniform(-.002, .002, D.shape) * np.array([1, 1, .1, .1, 1])[:len(D)] for D in full.w.D]


def clean(d):
    return {k: v for k, v in d.items() if k not in ("K0", "D0")}


def run_one(job):
    drv, i, d, base_dir = job
    wd = os.path.join(base_dir, "s%d" % i)
    if "prepared" not in d:
        for bump in range(50):
            try:
                prepare(d)
                r = rig.Rig(d)
                break
            except RuntimeError:
                d["seed"] += 7919
        else:
            return i, None, "no world", d
        d["prepared"] = True
    r = rig.Rig(d)
    kw = dict(cam_params_path="None") if d.get("start") == "images" else {}
    rc, out, dumps = r.run(drv, wd, d["ops"], timeout=120, **kw)
    recs = rig.abstract(r, dumps)
    at = next((x["begin"] for x in reversed(dumps) if "begin" in x), d["ops"][0])
    end = dict(op="end", ok=rc == 0, at=at, props=[PROP_OF.get(at, "C18")])
    if rc == 0 and d.get("reload"):
        last = dumps[-2] if "cams" not in dumps[-1] else dumps[-1]
        f = os.path.join(wd, "out", "calibrated_cameras_data.yml")
        if os.path.exists(f):
            rc2, out2, d2 = r.run(drv, wd, ["loadDetectedKeypoints", "initializeCalibrationAllCam"], cam_params_path=f)
            got = [x for x in d2 if x.get("op") == "initializeCalibrationAllCam"]
            same = []
            for c in last["cams"]:
                e = [x for x in (got[0]["cams"] if got else []) if x["id"] == c["id"]]
                same.append([c["id"], bool(e and len(e[0]["D"]) == len(c["D"]) and np.allclose(
                    np.array(e[0]["K"] + e[0]["D"], float), np.array(c["K"] + c["D"], float), rtol=1e-12, atol=1e-14))])
            recs.append(dict(op="reload", same=same))
        else:
            recs.append(dict(op="reload", same=[[c["id"], False] for c in last["cams"]]))
    head = dict(op="scenario", id=i, npts=[r.w.n_pts(b) for b in range(r.w.n_boards)], quat=d["quat"],
                consistent=bool(d["consistent"]), glies=d["glies"], fixed=d.get("fix", 1) == 1 and "refineAllCameraGroupAndObjectsAndIntrinsic" not in d["ops"],
                tame=bool(d["consistent"] or d.get("noise")) and not any(o["out"] for o in d["obs"]),
                exact=not d.get("noise") and d.get("start", "true") == "true",
                start=d.get("start", "true"), converges=bool(d.get("converges")),
                obs=[dict(c=o["c"], f=o["f"], b=o["b"], l=o.get("l", 0), x=o.get("x", 0), k=o["k"], out=o["out"],
                          must=bool(o["must"])) for o in d["obs"]])
    if rc == 0 and len(recs) < len(d["ops"]):
        return i, None, "incomplete trace", d
    shutil.rmtree(wd, ignore_errors=True)
    return i, [head] + recs + [end], out[-800:], d


def judge(traces, wd, name):
    """-> (complaints, states, number of lines); a trace TLC cannot interpret is a complaint of its own"""
    p = os.path.join(wd, name + ".ndjson")
    recs = [r for t in traces for r in t]
    vf.to_ndjson(p, recs)
    try:
        t = vf.tlc("TraceCalib", env=dict(TRACE=p), timeout=800, name=name, heap="3g")
        done = t.prints("DONE")
        if not done or done[-1]["n"] != len(recs):
            raise vf.Broken("trace not consumed " + t.out[-1500:])
        return done[-1]["bad"], t.distinct, len(recs)
    except vf.Broken as e:
        if len(traces) > 1:
            h = len(traces) // 2
            a = judge(traces[:h], wd, name + "l")
            b = judge(traces[h:], wd, name + "r")
            return a[0] + b[0], a[1] + b[1], a[2] + b[2]
        if "timed out" in str(e) or "emantic error" in str(e) or "Parsing" in str(e):
            raise
        return [dict(id=traces[0][0]["id"], op="?", prop="*", what="the recorded state makes no sense: " + str(e)[-400:])], 0, len(recs)


def execute(drv, ds, wd, shards=None):
    jobs = [(drv, i, d, wd) for i, d in enumerate(ds)]
    with multiprocessing.Pool(vf.CORES) as pool:
        res = pool.map(run_one, jobs, chunksize=1)
    for i, tr, why, d in res:
        if tr is None:
            raise vf.Broken("scenario %d: %s" % (i, why))
    shards = min(vf.CORES, len(res))
    parts = [[r[1] for r in res[k::shards]] for k in range(shards)]
    js = vf.pmap(lambda k: judge(parts[k], wd, "judge%d" % k), range(shards))
    return res, [b for j in js for b in j[0]], sum(j[1] for j in js), sum(j[2] for j in js)


WANT = {  # family -> scenarios in the quick tier
    "C06": dict(O=90, A=25, V=16, bad=25),
    "C07": dict(A=40, V=30, Vc=12, M=20, bad=20, Lb=6, P=9),
    "C08": dict(A=80, Aw=30, V=12, bad=12, Lb=8),
    "C10": dict(T=12, V=32, Vc=16, S=24, M=16, D=16, G=8, bad=20, Lb=2, Lc=2, Lo=2),
    "C11": dict(T=12, B=50, Bw=16, V=32, Vc=16, bad=16, Lc=6),
    "C12": dict(B=60, Bw=40, V=16, S=16, Lc=8),
    "C13": dict(T=9, B=80, Bw=12, V=20, D=20, S=12, Lc=4, P=9),
    "C14": dict(G=80, S=24, T=24),
    "C15": dict(G=72, S=24, T=24, Vc=8),
    "C16": dict(T=12, D=50, Dw=36, M=24, S=16, V=8, Lo=8),
    "C17": dict(I=48, V=6),
    "C18": dict(P=72, N=24, V=24, I=12),
}


def scenarios(c, pid):
    rng = random.Random("%s/%d" % (pid, vf.SEED))
    want = dict(WANT[pid])
    mul = 6 if vf.THOROUGH else 1
    k = 4000 if vf.THOROUGH else 500
    multi = [("random", 3, 4, 3, 9), ("random", 3, 5, 3, 16), ("random", 4, 3, 4, 14), ("random", 2, 4, 5, 13)]
    single = [("single", 3, 4, 3, 0), ("single", 4, 5, 3, 0), ("single", 3, 6, 4, 0), ("single", 2, 8, 3, 0)]
    more = dict(Aw=[("boards", 1, 0, 3, 8), ("boards", 2, 0, 4, 5)], Bw=[("cams", 3, 0, 1, 8), ("cams", 4, 0, 1, 5)],
                Dw=[("objects", 2, 0, 3, 8), ("objects", 2, 0, 4, 4)], M=[("merging", 2, 5, 4, 0), ("merging", 3, 4, 5, 0)],
                T=[("apart", 3, 9, 4, 0), ("apart", 4, 8, 5, 0), ("apart", 2, 8, 4, 0)])
    long = dict(Lb=[("longboards", 2, 0, 11, 2)], Lc=[("longcams", 11, 0, 1, 2)], Lo=[("longobjects", 2, 0, 11, 2)])
    need = []
    if set(want) & set("V Vc A O P N bad".split()):
        need += multi
    if set(want) & set("S B D".split()):
        need += single
    for f in more:
        need += more[f] if f in want else []
    for f in long:
        need += long[f] if f in want else []
    # the exhaustive check of the specification itself
    small = [("all", 3, 2, 2, 0)] + ([("all", 2, 2, 3, 0), ("all", 2, 3, 2, 0)] if vf.THOROUGH else [])
    ts = vf.pmap(lambda a: patterns(a[1][0], *a[1][1:4], k=k if a[1][0][:4] != "long" else 32, n=a[1][4], emit="done" if a[1][0] != "all" else "none",
                                    seed=a[0]), list(enumerate(need + small)), 4)
    P = {x: [] for x in ("random", "single", "boards", "cams", "objects", "merging", "apart", "longcams", "longboards", "longobjects")}
    for a, t in zip(need + small, ts):
        if a[0] != "all":
            s = t.prints("SC")
            if len(s) < min(k, 32) // 3:
                raise vf.Broken("too few scenarios")
            P[a[0]].append((a[1:4], s))
    c.coverage["states"] = sum(t.distinct for t in ts)
    c.coverage["transitions"] = sum(t.generated for t in ts)
    c.coverage["patterns"] = sum(len(s) for x in P.values() for _, s in x)
    R, S = P["random"], P["single"]
    ds = []
    fam = dict(V=lambda n: fam_V(rng, R, n), Vc=lambda n: fam_V(rng, R, n, ops=COARSE), A=lambda n: fam_A(rng, R, n),
               B=lambda n: fam_B(rng, S, n), D=lambda n: fam_D(rng, S, n), G=lambda n: fam_G(rng, n),
               O=lambda n: fam_O(rng, R, n), bad=lambda n: fam_bad(rng, R, n), P=lambda n: fam_P(rng, R, n),
               N=lambda n: fam_N(rng, R, n), I=lambda n: fam_I(rng, n), S=lambda n: fam_V(rng, S, n), M=lambda n: fam_V(rng, P["merging"], n),
               T=lambda n: fam_V(rng, P["apart"], n),
             Lb=lambda n: fam_L(rng, dict(P, longcams=[], longobjects=[]), n), Lc=lambda n: fam_L(rng, dict(P, longboards=[], longobjects=[]), n),
             Lo=lambda n: fam_L(rng, dict(P, longboards=[], longcams=[]), n),
               Aw=lambda n: fam_A(rng, P["boards"], n), Bw=lambda n: fam_B(rng, P["cams"], n), Dw=lambda n: fam_D(rng, P["objects"], n))
    for f, n in sorted(want.items()):
        x = fam[f](n * mul)
        c.coverage["family_" + f] = len(x)
        for d in x:
            d["family"] = f
        ds += x
    return ds


def check(pid):
    c = vf.Check(pid, "model_checking")
    (drv,) = vf.build("drv_stages")
    wd = vf.workdir(pid)
    ds = scenarios(c, pid)
    res, bad, st, lines = execute(drv, ds, wd)
    mine = sorted({b["id"] for b in bad if b["prop"] in (pid, "*")})
    if mine:
        # a complaint counts if it is raised again (the program draws random samples)
        again = [res[i][3] for i in mine[:24]]
        _, bad2, _, _ = execute(drv, again, vf.workdir(pid + "_again"))
        drawn = [j for j, i in enumerate(mine[:24]) if ds[i]["family"] in ("O", "bad", "I", "N") and any(x["id"] == j for x in bad2)]
        if drawn:       # these depend on the samples that are drawn: once more
            _, bad3, _, _ = execute(drv, [again[j] for j in drawn], vf.workdir(pid + "_again"))
            third = {(drawn[x["id"]], x["what"]) for x in bad3}
            bad2 = [x for x in bad2 if x["id"] not in drawn or (x["id"], x["what"]) in third]
        for j, i in enumerate(mine[:24]):
            b = [x for x in bad if x["id"] == i and x["prop"] in (pid, "*")]
            b2 = {x["what"] for x in bad2 if x["id"] == j and x["prop"] in (pid, "*")}
            keep = [x for x in b if x["what"] in b2]
            if keep:
                x = keep[0]
                c.violation("%s after %s (family %s; also: %s)" % (x["what"], x["op"], ds[i]["family"],
                            sorted({y["what"] for y in keep[1:]})[:4]), dict(scenario=clean(res[i][3]), complaints=keep))
            else:
                c.coverage.setdefault("not_reproduced", []).append([x["what"] for x in b][:2])
    for b in bad:
        if b["prop"] not in (pid, "*"):
            print("  (not %s, once) %s: %s after %s, family %s" % (pid, b["prop"], b["what"], b["op"], ds[b["id"]]["family"]))
    c.coverage["states"] += st
    c.coverage.update(traces_validated_against_impl=len(res), steps=lines, exhaustive=False,
                      other_complaints=len([b for b in bad if b["prop"] not in (pid, "*")]),
                      rule="scenarios drawn by TLC from spec/MCCalib (all sets of observations of 3 cameras x 2 frames x 2 "
                           "boards checked on the specification; random ones of larger rigs executed), chosen to spread "
                           "over the features of the model, run through the real stages, every state judged by TLC",
                      samples=[clean(ds[0]), clean(ds[-1])])
    c.assumptions = ["motions are compared numerically: 5e-3 rad+m for measured, 1e-4 for composed ones",
                     "boards of 16-25 corners seen at 2-4 m with a threshold below 10 pixels (no pose ambiguity)"]
    return c.finish()
