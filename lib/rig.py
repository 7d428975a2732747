"""Runs abstract scenarios of spec/Calib.tla through the real calibration stages
and abstracts every dump of the real state into the vocabulary of the
specification: identities stay as they are; every matrix is replaced by the
names of the motions it equals numerically."""
import itertools
import json
import os
import numpy as np
import vf
from world import World, T, dist, inv, pose6, rodrigues, write_cam_params, write_config, write_keypoints

TOL = 5e-3      # a motion which was measured in images
EXACT = 2e-5    # a motion which was computed from logged motions


class Rig:
    """scenario: dict(nc, nf, nb, obs=[dict(c,f,b,l,x,k)], squares, sizes, models, seed)
    l: false motion of the board (0: none), x: false motion of the camera, k: corners, out: outliers"""

    def __init__(self, sc):
        self.sc = sc
        rng = np.random.default_rng(sc.get("seed", 1))
        nb, nc = sc["nb"], sc["nc"]
        # large enough for the pose of a board to be unambiguous at the thresholds in use
        shapes = [(5, 5), (6, 5), (5, 6), (6, 6)]
        sq = sc.get("squares") or [shapes[int(rng.integers(len(shapes)))] for _ in range(nb)]
        sz = sc.get("sizes") or [float(np.float32(rng.uniform(.2, .26))) for _ in range(nb)]
        models = sc.get("models") or [0] * nc
        inside = sc.get("start") == "images" or sc.get("inside")
        img = (2600, 2200) if inside else (1280, 960)
        self.w = World(rng, nc, nb, sc["nf"], models=models, squares=sq, sizes=sz, img=img)
        self.rng = rng
        self._number()
        self._lies(sc)
        self.obs = {}
        for o in sc["obs"]:
            ks = o.get("k") or list(range(self.w.n_pts(o["b"])))
            P = self.cam_T_board(o["c"], o["f"], o["b"], o.get("l", 0), o.get("x", 0))
            uv = self.w.project(o["c"], P, self.w.pts(o["b"])[ks])
            for i, kk in enumerate(ks):
                if kk in o.get("out", []):
                    a = rng.uniform(0, 6.28)
                    uv[i] += (90 + 60 * rng.uniform()) * np.array([np.cos(a), np.sin(a)])
            if sc.get("noise"):
                uv = uv + rng.normal(0, sc["noise"], uv.shape)
            if inside and (uv.min() < 140 or (uv > np.array(img) - 140).any()):
                raise RuntimeError("outside the image")
            self.obs[(o["c"], o["f"], o["b"])] = dict(o, ks=ks, uv=uv.astype(np.float32))
        self.lies = sorted({o.get("l", 0) for o in sc["obs"]} | {0})
        self.xs = sorted({o.get("x", 0) for o in sc["obs"]} | {0})

    def _lies(self, sc):
        """choose the false motions such that everything stays well in view"""
        for attempt in range(200):
            self.w.lies = {}
            for o in sc["obs"]:
                P = self.cam_T_board(o["c"], o["f"], o["b"], o.get("l", 0), o.get("x", 0))
                X = self.w.pts(o["b"]) @ P[:3, :3].T + P[:3, 3]
                m = X.mean(0)
                if X[:, 2].min() < 1 or abs(P[:3, 2] @ m) / np.linalg.norm(m) < .35 or \
                        np.abs(X[:, :2] / X[:, 2:]).max() > 1.5:
                    break
            else:
                return
        raise RuntimeError("no lies")

    def cam_T_board(self, c, f, b, l=0, x=0):
        P = self.w.cam_T_board(c, f, b, l)
        return self.w.lie(-x) @ P if x else P

    def _number(self):
        """the numbers of the frames in the files and the order of the observations in them:
        the scenario and the specification know frame f as f, the program knows it as F[f]"""
        g = np.random.default_rng(self.sc.get("seed", 1) + 77)
        kind = self.sc.get("numbers", int(g.integers(4)))
        top = (1, 4, 40, 1500)[kind]
        self.F = [int(x) for x in np.cumsum(g.integers(1, top + 1, self.sc["nf"])) - (1 if kind == 0 else 0)]
        self.f_of = {x: f for f, x in enumerate(self.F)}
        self.order = self.sc.get("order", int(g.integers(3)))     # 0: as numbered, 1: frames in any order, 2: any order

    def arrange(self, keys):
        g = np.random.default_rng(self.sc.get("seed", 1) + 78)
        a, b = {}, {}
        for k in sorted(keys):
            a.setdefault((k[0], k[1]), g.random())
            b[k] = g.random()
        if self.order == 0:
            return sorted(keys)
        if self.order == 1:
            return sorted(keys, key=lambda k: (k[0], a[(k[0], k[1])], k[2]))
        return sorted(keys, key=lambda k: (k[0], b[k]))

    def unmap(self, x):
        """a recorded state with the frames as the scenario knows them"""
        n = lambda f: self.f_of.get(f, 10000 + f)
        if isinstance(x, list):
            for y in x:
                self.unmap(y)
        elif isinstance(x, dict):
            for k, v in x.items():
                if k in ("frame", "frame_idx"):
                    x[k] = n(v)
                elif k == "frames" and all(isinstance(y, int) for y in v):
                    x[k] = [n(y) for y in v]
                elif k == "frames":
                    for y in v:
                        y["id"] = n(y["id"])
                        self.unmap(y)
                elif isinstance(v, (list, dict)):
                    self.unmap(v)
        return x

    def path(self, c, f):
        return os.path.join(self.sc.get("imgdir", "/none"), "Cam_%03d" % (c + 1), "%05d.png" % (3 * f + 7))

    def cam_T_cam(self, dst, src):
        return self.w.cam_T_rig[dst] @ inv(self.w.cam_T_rig[src])

    def board_T_board(self, dst, src):
        return inv(self.w.world_T_board[dst]) @ self.w.world_T_board[src]

    def files(self, d, **kw):
        os.makedirs(d, exist_ok=True)
        save = os.path.join(d, "out") + "/"
        write_keypoints(os.path.join(d, "keys.yml"), self.w,
                        [(c, self.F[f], b, self.obs[(c, f, b)]["ks"], self.obs[(c, f, b)]["uv"], self.path(c, f))
                         for c, f, b in self.arrange(self.obs)])
        K, D = self.sc.get("K0") or self.w.K, self.sc.get("D0") or self.w.D
        write_cam_params(os.path.join(d, "cams.yml"), self.w, K=K, D=D)
        c = dict(keypoints_path=os.path.join(d, "keys.yml"), cam_params_path=os.path.join(d, "cams.yml"),
                 fix_intrinsic=self.sc.get("fix", 1), he_approach=self.sc.get("he", 0),
                 ransac_threshold=self.sc.get("thr", 3),
                 quaternion_averaging=self.sc.get("quat", 1))
        c.update(kw)
        write_config(os.path.join(d, "config.yml"), self.w, save, **c)
        return os.path.join(d, "config.yml"), save

    def run(self, drv, d, ops, timeout=120, **kw):
        cfg, save = self.files(d, **kw)
        os.makedirs(save, exist_ok=True)
        tr = os.path.join(d, "raw.ndjson")
        rc, out = vf.run([drv, cfg, tr, *ops], timeout=timeout, cwd=d)
        dumps = []
        if os.path.exists(tr):
            for line in open(tr):
                try:
                    dumps.append(self.unmap(json.loads(line)))
                except ValueError:
                    pass
        return rc, out, dumps


def M(v):
    v = np.array([float(x) for x in v], float)
    if not np.all(np.isfinite(v)) or np.abs(v).max() > 1e6:
        return np.full((4, 4), np.nan)
    if v.size == 6:
        return pose6(v)
    return v.reshape(4, 4)


def same(A, B, tol):
    return bool(np.all(np.isfinite(A)) and np.all(np.isfinite(B)) and dist(A, B) < tol)


def classes(ms, tol=TOL):
    """-> (class of every motion, class of every translation)"""
    reps, treps, cl, tcl = [], [], [], []
    for m in ms:
        for i, r in enumerate(reps):
            if same(m, r, tol):
                break
        else:
            i = len(reps)
            reps.append(m)
        cl.append(i + 1)
        for i, r in enumerate(treps):
            if np.linalg.norm(m[:3, 3] - r) < tol:
                break
        else:
            i = len(treps)
            treps.append(m[:3, 3])
        tcl.append(i + 1)
    return cl, tcl, reps, treps


def paths(edges, a, b):
    """all simple paths a -> b over directed edges"""
    out = []

    def go(p):
        if p[-1] == b:
            out.append(list(p))
            return
        for (x, y) in edges:
            if x == p[-1] and y not in p:
                go(p + [y])
    go([a])
    return out


def pairs_abs(pairs, inter, candidates):
    """pose pairs and their averages; candidates(a, b) -> [(label, motion)]"""
    ps, av = [], []
    im = {(i["a"], i["b"]): M(i["pose"]) for i in inter}
    for e in pairs:
        ms = [M(p) for p in e["poses"]]
        cl, tcl, reps, treps = classes(ms)
        cand = candidates(e["a"], e["b"])
        ps.append(dict(a=e["a"], b=e["b"], n=len(ms), cls=cl, tcls=tcl,
                       cand=[[l for l, X in cand if same(m, X, 1e-4)] for m in ms]))
        if (e["a"], e["b"]) in im:
            X = im[(e["a"], e["b"])]
            av.append(dict(a=e["a"], b=e["b"],
                           cls=next((i + 1 for i, r in enumerate(reps) if same(X, r, TOL)), 0),
                           tcls=next((i + 1 for i, r in enumerate(treps)
                                      if np.linalg.norm(X[:3, 3] - r) < TOL), 0)))
    known = {(p["a"], p["b"]) for p in ps}
    for k in im:
        if k not in known:
            av.append(dict(a=k[0], b=k[1], cls=-1, tcls=-1))
    return ps, av


def chain(edges, order):
    """all simple paths with their product"""
    def f(a, b):
        res = []
        for p in paths(list(edges), a, b):
            X = np.eye(4)
            for i in range(len(p) - 1):
                X = order(X, edges[(p[i], p[i + 1])])
            res.append((p, X))
        return res
    return f


def project(K, D, model, X):
    x, y = X[:, 0] / X[:, 2], X[:, 1] / X[:, 2]
    if model == 0:
        k1, k2, p1, p2, k3 = (list(D) + [0] * 5)[:5]
        r2 = x * x + y * y
        rad = 1 + k1 * r2 + k2 * r2 ** 2 + k3 * r2 ** 3
        xd = x * rad + 2 * p1 * x * y + p2 * (r2 + 2 * x * x)
        yd = y * rad + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y
    else:
        r = np.sqrt(x * x + y * y)
        th = np.arctan(r)
        k1, k2, k3, k4 = D[:4]
        thd = th * (1 + k1 * th ** 2 + k2 * th ** 4 + k3 * th ** 6 + k4 * th ** 8)
        s = np.where(r > 1e-12, thd / np.maximum(r, 1e-12), 1.0)
        xd, yd = x * s, y * s
    return np.stack([K[0] * xd + K[2], K[4] * yd + K[5]], 1)


def abstract(rig, dumps):
    """-> (records for TLC, ended normally)"""
    w = rig.w
    out, prev = [], None
    for d in dumps:
        if "begin" in d or "cams" not in d:
            continue
        out.append(one(rig, d, prev))
        prev = d
    return out


def rep_error(d, group_pose=None):
    """mean reprojection error under the logged calibration (group poses)"""
    cams = {c["id"]: c for c in d["cams"]}
    objs = {o["id"]: o for o in d["objects"]}
    gpose = {(g["id"], p["cam"]): M(p["pose"]) for g in d["groups"] for p in g["poses"]}
    oobs = {o["id"]: o for o in d["oobs"]}
    errs = []
    for g in d["gobs"]:
        op = {p["obj"]: M(p["pose"]) for p in g["poses"]}
        for i in g["oobs"]:
            if i not in oobs:
                continue
            o = oobs[i]
            key = (g["group"], o["cam"])
            if key not in gpose or o["obj"] not in op or o["obj"] not in objs:
                continue
            P = gpose[key] @ op[o["obj"]]
            pts = np.array(objs[o["obj"]]["pts3"], float).reshape(-1, 3)
            if not o["pts"] or max(o["pts"]) >= len(pts):
                continue
            X = pts[o["pts"]] @ P[:3, :3].T + P[:3, 3]
            uv = np.array(o["uv"], float).reshape(-1, 2)
            c = cams[o["cam"]]
            e = np.linalg.norm(project([float(z) for z in c["K"]], [float(z) for z in c["D"]], c["model"], X) - uv, axis=1)
            errs.append(e)
    return errs


def one(rig, d, prev):
    w = rig.w
    r = dict(op=d["op"])
    # ---- board observations
    bobs, by_id = [], {}
    for b in d["bobs"]:
        key = (b["cam"], b["frame"], b["board"])
        o = rig.obs.get(key)
        uv = np.array(b["uv"], float).reshape(-1, 2)
        lab, paired = -1, False
        if o is not None:
            P = M(b["pose"])
            for l in rig.lies:
                for x in rig.xs:
                    if same(P, rig.cam_T_board(*key, l, x), TOL):
                        lab = l if not x else 1000 + 10 * x + l
            ref = {k: o["uv"][i] for i, k in enumerate(o["ks"])}
            paired = len(uv) == len(b["corners"]) and all(
                k in ref and np.abs(ref[k] - uv[i]).max() < 1e-3 for i, k in enumerate(b["corners"]))
        a = dict(id=b["id"], c=b["cam"], f=b["frame"], b=b["board"], v=bool(b["valid"]), l=lab,
                 k=sorted(b["corners"]), paired=bool(paired), fit=bool(o is not None and fits(rig, d, b, uv)))
        bobs.append(a)
        by_id[b["id"]] = (a, b, {k: uv[i] for i, k in enumerate(b["corners"]) if i < len(uv)})
    r["bobs"] = bobs
    r["bviews"] = ([["cam", c["id"], c["bobs"]] for c in d["cams"]] +
                   [["board", c["id"], c["bobs"]] for c in d["boards"]] +
                   [["frame", c["id"], c["bobs"]] for c in d["frames"]] +
                   [["image", [c["cam"], c["frame"]], c["bobs"]] for c in d["cams_obs"]])
    r["framecams"] = [[f["id"], sorted([x["cam"], x["frame"]] for x in f["cobs"])] for f in d["frames"]]

    # ---- relative board poses
    val = [(a, M(b["pose"])) for a, b, _ in by_id.values() if a["v"]]

    def bcand(x, y):
        res = []
        for a1, p1 in val:
            if a1["b"] != x:
                continue
            for a2, p2 in val:
                if a2["b"] == y and (a1["c"], a1["f"]) == (a2["c"], a2["f"]):
                    res.append(([a1["c"], a1["f"]], inv(p2) @ p1))
        return res
    r["bp"], r["ib"] = pairs_abs(d["board_pairs"], d["inter_board"], bcand)
    r["bcomp"] = d["board_comps"]

    # ---- objects
    bpts = {b["id"]: np.array(b["pts3"], float).reshape(-1, 3) for b in d["boards"]}
    ib = chain({(e["a"], e["b"]): inv(M(e["pose"])) for e in d["inter_board"]}, lambda X, s: X @ s)
    objs, obj_pose = [], {}
    old_objs = {}
    if prev:
        old_objs = {o["id"]: o for o in prev["objects"]}
    io = chain({(e["a"], e["b"]): inv(M(e["pose"])) for e in d["inter_obj"]}, lambda X, s: X @ s)
    for o in d["objects"]:
        ps = {p["board"]: M(p["pose"]) for p in o["poses"]}
        obj_pose[o["id"]] = ps
        pts = np.array(o["pts3"], float).reshape(-1, 3)
        back = [list(x) for x in o["back"]]
        placed, true, via, mvia, moved = [], [], [], [], []
        for b, P in ps.items():
            idx = [(k, i) for bb, k, i in o["map"] if bb == b]
            ok = b in bpts and len(idx) == len(bpts[b]) and all(
                0 <= i < len(pts) and k < len(bpts[b]) and
                np.abs(P[:3, :3] @ bpts[b][k] + P[:3, 3] - pts[i]).max() < 2e-4 for k, i in idx)
            if ok:
                placed.append(b)
            if b < w.n_boards and o["ref"] < w.n_boards and same(P, rig.board_T_board(o["ref"], b), TOL):
                true.append(b)
            if d["op"] == "init3DObjects":
                via.append([b, [p for p, X in ib(o["ref"], b) if same(P, X, 1e-4)]])
            if d["op"] in ("mergeObjects", "merge3DObjects"):
                # the old object holding the board, and the paths from the reference object
                src = [q for q in old_objs.values() if b in q["boards"]]
                home = [q["id"] for q in old_objs.values() if o["ref"] in q["boards"]]
                ways = []
                for q in src:
                    Pb = {p["board"]: M(p["pose"]) for p in q["poses"]}[b]
                    for h in home:
                        ways += [p for p, X in io(h, q["id"]) if same(P, X @ Pb, 1e-4)]
                mvia.append([b, ways])
        objs.append(dict(id=o["id"], oid=o["obj_id"], ref=o["ref"], boards=o["boards"], bids=o["board_ids"],
                         nb=o["nb_boards"], npts=len(pts), map=o["map"], back=back, placed=placed, true=true,
                         via=via, mvia=mvia, posed=sorted(ps),
                         ident=bool(o["ref"] in ps and same(ps[o["ref"]], np.eye(4), EXACT))))
    r["objs"] = objs

    # ---- object observations
    oobs, oraw = [], {}
    back = {o["id"]: [list(x) for x in o["back"]] for o in d["objects"]}
    for o in d["oobs"]:
        bk = back.get(o["obj"], [])
        uv = np.array(o["uv"], float).reshape(-1, 2)
        mine = {}
        for i in o["bobs"]:
            if i in by_id:
                mine[by_id[i][0]["b"]] = by_id[i]
        pts = []
        for i, z in zip(o["pts"], uv):
            if not 0 <= i < len(bk):
                pts.append([-1, -1, False])
                continue
            b, k = bk[i]
            ref = mine[b][2].get(k) if b in mine else None
            pts.append([b, k, bool(ref is not None and np.abs(ref - z).max() < 1e-4)])
        P, G = M(o["pose"]), M(o["gpose"])
        oraw[o["id"]] = (o, P, G)
        ref = next((x["ref"] for x in objs if x["id"] == o["obj"]), None)
        true = gtrue = False
        if ref is not None and ref < w.n_boards and o["cam"] < w.n_cams and o["frame"] < w.n_frames:
            true = same(P, w.cam_T_board(o["cam"], o["frame"], ref), TOL)
        oobs.append(dict(id=o["id"], c=o["cam"], f=o["frame"], o=o["obj"], optr=o["objref"], boards=o["boards"],
                         bobs=o["bobs"], pts=[p[:2] for p in pts], npts=len(o["pts"]), nuv=len(uv),
                         ok=all(p[2] for p in pts), true=bool(true)))
    r["oobs"] = oobs
    r["oviews"] = ([["cam", c["id"], c["oobs"]] for c in d["cams"]] +
                   [["frame", c["id"], c["oobs"]] for c in d["frames"]] +
                   [["image", [c["cam"], c["frame"]], c["oobs"]] for c in d["cams_obs"]] +
                   [["object", c["id"], c["oobs"]] for c in d["objects"]])
    r["oidx"] = ([[c["objects"], c["oobs"]] for c in d["cams_obs"]] +
                 [[c["objects"], c["oobs"]] for c in d["frames"]])
    r["gviews"] = [["group", g["id"], g["oobs"]] for g in d["groups"]]

    # ---- relative camera poses
    def ccand(x, y):
        res = []
        for o1, p1, _ in oraw.values():
            if o1["cam"] != x:
                continue
            for o2, p2, _ in oraw.values():
                if o2["cam"] == y and o1["frame"] == o2["frame"] and o1["obj"] == o2["obj"]:
                    res.append(([o1["frame"], o1["obj"]], p2 @ inv(p1)))
        return res
    r["cp"], r["ic"] = pairs_abs(d["cam_pairs"], d["inter_cam"], ccand if d["op"] in
                                 ("computeCamerasPairPose", "initInterCameraTransform") else lambda a, b: [])
    r["ccomp"] = d["cam_comps"]

    # ---- camera groups
    ic = chain({(e["a"], e["b"]): M(e["pose"]) for e in d["inter_cam"]}, lambda X, s: s @ X)
    old_groups = {g["id"]: g for g in prev["groups"]} if prev else {}
    nop = {(e["a"], e["b"]): M(e["pose"]) for e in (prev["no_pose"] if prev else [])}
    no = chain(nop, lambda X, s: s @ X)
    groups, gpose = [], {}
    for g in d["groups"]:
        via, mvia, true = [], [], []
        ps = {p["cam"]: M(p["pose"]) for p in g["poses"]}
        gpose[g["id"]] = ps
        for c, P in ps.items():
            if c < w.n_cams and g["ref"] < w.n_cams and same(P, rig.cam_T_cam(c, g["ref"]), TOL):
                true.append(c)
            if d["op"] == "initCameraGroup":
                via.append([c, [p for p, X in ic(g["ref"], c) if same(P, X, 1e-4)]])
            if d["op"] == "mergeCameraGroup":
                home = [q["id"] for q in old_groups.values() if g["ref"] in q["cams"]]
                ways = []
                for q in old_groups.values():
                    if c not in q["cams"]:
                        continue
                    Pc = {p["cam"]: M(p["pose"]) for p in q["poses"]}.get(c)
                    if Pc is None:
                        continue
                    for h in home:
                        ways += [p for p, X in no(h, q["id"]) if same(P, Pc @ X, 1e-4)]
                mvia.append([c, ways])
        groups.append(dict(id=g["id"], gid=g["group_idx"], ref=g["ref"], cams=g["cams"], cam_idx=g["cam_idx"],
                           posed=sorted(ps), via=via, mvia=mvia, true=true, frames=g["frames"],
                           ident=bool(g["ref"] in ps and same(ps[g["ref"]], np.eye(4), EXACT))))
    r["groups"] = groups

    # ---- camera group observations
    gobs = []
    for g in d["gobs"]:
        poses = []
        for p in g["poses"]:
            P = M(p["pose"])
            mine = [(oraw[i][0], oraw[i][1], oraw[i][2]) for i in g["oobs"] if i in oraw and oraw[i][0]["obj"] == p["obj"]]
            src, Xs = [], []
            for o, Q, G in mine:
                C = gpose.get(g["group"], {}).get(o["cam"])
                if C is None:
                    continue
                X = inv(C) @ Q
                Xs.append(X)
                if same(P, X, 1e-4):
                    src.append(o["cam"])
            ref = next((x["ref"] for x in objs if x["id"] == p["obj"]), None)
            gr = next((x["ref"] for x in groups if x["id"] == g["group"]), None)
            mean = bool(Xs) and np.linalg.norm(np.mean([X[:3, 3] for X in Xs], 0) - P[:3, 3]) < 1e-4
            # the average rotation of k is within the spread of the measured ones
            if mean:
                spread = max(dist(T(A[:3, :3]), T(B[:3, :3])) for A in Xs for B in Xs)
                mean = all(dist(T(P[:3, :3]), T(A[:3, :3])) <= spread + 1e-4 for A in Xs)
            true = (ref is not None and gr is not None and ref < w.n_boards and gr < w.n_cams and
                    same(P, w.cam_T_board(gr, g["frame"], ref), TOL))
            poses.append(dict(o=p["obj"], src=sorted(set(src)), mean=bool(mean), true=bool(true),
                              shared=all(same(P, G, EXACT) for _, _, G in mine)))
        gobs.append(dict(g=g["group"], gid=g["group_idx"], f=g["frame"], objs=g["objects"], oobs=g["oobs"], poses=poses))
    r["gobs"] = gobs
    r["framegroups"] = [[f["id"], f["groups"], [x["group"] for x in f["gobs"]], [x["frame"] for x in f["gobs"]]]
                        for f in d["frames"]]

    # ---- object pairs
    def ocand(x, y):
        res = []
        for g in d["gobs"]:
            ps = {p["obj"]: M(p["pose"]) for p in g["poses"]}
            seen = {oraw[i][0]["obj"] for i in g["oobs"] if i in oraw}
            if x in seen and y in seen and x in ps and y in ps:
                res.append(([g["group"], g["frame"]], inv(ps[y]) @ ps[x]))
        return res
    r["op2"], r["io"] = pairs_abs(d["obj_pairs"], d["inter_obj"], ocand if d["op"] in
                                  ("computeObjectsPairPose", "initInterObjectTransform") else lambda a, b: [])
    r["ocomp"] = d["obj_comps"]

    # ---- groups without common objects
    gref = {g["id"]: g["ref"] for g in groups}
    r["nop"] = [[e["a"], e["b"], e["o1"], e["o2"]] for e in d["no_objs"]]
    r["nopose"] = []
    for e in d["no_pose"]:
        P = M(e["pose"])
        lab = -1
        if e["a"] in gref and e["b"] in gref:
            X = rig.cam_T_cam(gref[e["b"]], gref[e["a"]])
            for x in rig.xs:
                for y in rig.xs:
                    L1 = w.lie(-x) if x else np.eye(4)
                    L2 = w.lie(-y) if y else np.eye(4)
                    if lab < 0 and same(P, L2 @ X @ inv(L1), 2 * TOL):
                        lab = 100 * x + y
        r["nopose"].append([e["a"], e["b"], lab])
    r["nocnt"] = [[e["a"], e["b"], e["n"]] for e in d["no_cnt"]]
    r["nocomp"] = d["no_comps"]

    # ---- quality of the fit
    for name, es in (("err", rep_error(d)), ("oerr", obj_error(d))):
        allp = np.concatenate(es) if es else np.array([0.0])
        r[name] = err_units(float(np.sqrt(np.mean(allp ** 2))))
    r["intr"] = [[c["id"], intr_ok(rig, c)] for c in d["cams"]]
    r["given"] = [[c["id"], intr_given(rig, c)] for c in d["cams"]]
    return r


def fits(rig, d, b, uv):
    """do the points agree with the pose (root mean square within the threshold)?"""
    c = next((c for c in d["cams"] if c["id"] == b["cam"]), None)
    pts = rig.w.pts(b["board"])
    if c is None or not len(uv) or len(uv) != len(b["corners"]) or max(b["corners"]) >= len(pts):
        return False
    P = M(b["pose"])
    X = pts[b["corners"]] @ P[:3, :3].T + P[:3, 3]
    e = project([float(z) for z in c["K"]], [float(z) for z in c["D"]], c["model"], X) - uv
    return bool(np.sqrt((e ** 2).sum(1).mean()) <= 1.05 * rig.sc.get("thr", 3))


def obj_error(d):
    """reprojection errors of the object observations under their own poses"""
    cams = {c["id"]: c for c in d["cams"]}
    objs = {o["id"]: o for o in d["objects"]}
    errs = []
    for o in d["oobs"]:
        if o["obj"] not in objs or o["cam"] not in cams:
            continue
        pts = np.array(objs[o["obj"]]["pts3"], float).reshape(-1, 3)
        if not o["pts"] or max(o["pts"]) >= len(pts):
            continue
        P, c = M(o["pose"]), cams[o["cam"]]
        X = pts[o["pts"]] @ P[:3, :3].T + P[:3, 3]
        uv = np.array(o["uv"], float).reshape(-1, 2)
        errs.append(np.linalg.norm(project([float(z) for z in c["K"]], [float(z) for z in c["D"]], c["model"], X) - uv, axis=1))
    return errs


def intr_given(rig, c):
    """are these exactly the values of the file?"""
    i = c["id"]
    if i >= rig.w.n_cams or c["model"] != rig.w.models[i]:
        return False
    K0, D0 = np.array((rig.sc.get("K0") or rig.w.K)[i]).reshape(-1), np.array((rig.sc.get("D0") or rig.w.D)[i]).reshape(-1)
    K, D = np.array([float(z) for z in c["K"]]), np.array([float(z) for z in c["D"]]).reshape(-1)
    return bool(K.shape == K0.shape and D.shape == D0.shape and np.abs(K - K0).max() < 1e-9 and np.abs(D - D0).max() < 1e-12)


def err_units(e):
    """micro-pixels, bounded so that TLC can hold them"""
    return int(min(2e9, round(e * 1e6))) if np.isfinite(e) else 2000000000


def intr_ok(rig, c):
    """is the camera's projection the true one (to 0.02 px over the image)?"""
    w = rig.w
    i = c["id"]
    if i >= w.n_cams:
        return False
    g = np.array([[x, y, 1.0] for x in np.linspace(-.35, .35, 7) for y in np.linspace(-.3, .3, 7)])
    K = [float(z) for z in c["K"]]
    D = [float(z) for z in c["D"]]
    if c["model"] != w.models[i]:
        return False
    A = project(K, D, c["model"], g)
    B = project(list(w.K[i].reshape(-1)), list(w.D[i]), w.models[i], g)
    return bool(np.all(np.isfinite(A)) and np.abs(A - B).max() < 0.05)
