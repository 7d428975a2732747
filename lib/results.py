"""Reads the files a calibration wrote and abstracts them for spec/Files.tla."""
import os
import re
import numpy as np
import yaml
from rig import M, TOL, project, same
from world import dist, inv

Loader = getattr(yaml, "CSafeLoader", yaml.SafeLoader)
CAMS, OBJS, POSES, ERRS, KEYS = ("calibrated_cameras_data.yml", "calibrated_objects_data.yml",
                                 "calibrated_objects_pose_data.yml", "reprojection_error_data.yml",
                                 "detected_keypoints_data.yml")


class CvLoader(Loader):
    pass


def _num(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return float("nan") if str(x).lower() == ".nan" else float("inf")


def _mapping(loader, node):
    """a mapping as the list of its pairs: repeated keys are seen"""
    return [(loader.construct_object(k, True), loader.construct_object(v, True)) for k, v in node.value]


def _matrix(loader, node):
    d = dict(loader.construct_object(k, True) and (k.value, loader.construct_object(v, True)) for k, v in node.value)
    a = np.array([_num(x) for x in d["data"]], float)
    return a.reshape(int(d["rows"]), -1) if a.size else np.zeros((int(d["rows"]), int(d["cols"])))


CvLoader.add_constructor("tag:yaml.org,2002:opencv-matrix", _matrix)
CvLoader.add_constructor(yaml.resolver.BaseResolver.DEFAULT_MAPPING_TAG, _mapping)


def read(path):
    """-> list of (key, value)"""
    t = open(path, errors="replace").read()
    t = re.sub(r"^%YAML.*\n", "", t)
    t = re.sub(r"(?<!\\)((?:\\\\)*)\\'", r"\1'", t)      # OpenCV escapes apostrophes
    return yaml.load(t, CvLoader) or []


def get(pairs, key, default=None):
    return next((v for k, v in pairs if k == key), default)


def prefixed(pairs, p):
    return [(int(k[len(p):]), v) for k, v in pairs if k.startswith(p) and k[len(p):].isdigit()]


def ints(m):
    return [int(x) for x in np.array(m).reshape(-1)] if m is not None and np.size(m) else []


class Truth:
    """what the numbers are compared with: the world itself"""

    def __init__(self, rig, free=False):
        self.rig, self.free = rig, free

    def intr(self, c, K, D, model):
        w = self.rig.w
        if self.free:
            g = np.array([[x, y, 1.0] for x in np.linspace(-.3, .3, 7) for y in np.linspace(-.25, .25, 7)])
            A = project(list(K), list(D), model, g)
            return bool(np.abs(A - project(list(w.K[c].reshape(-1)), list(w.D[c]), w.models[c], g)).max() < .05)
        K0, D0 = self.rig.sc.get("K0") or w.K, self.rig.sc.get("D0") or w.D
        return bool(len(K) == 9 and len(D) == len(D0[c]) and np.allclose(K, K0[c].reshape(-1), rtol=1e-12, atol=1e-12) and
                    np.allclose(D, D0[c], rtol=1e-12, atol=1e-14))

    def model(self, c, m):
        return m == self.rig.w.models[c]

    def size(self, c, w, h):
        return (w, h) == tuple(self.rig.w.img_of(c))

    def cam(self, c, ref, P):
        return ref is not None and same(inv(P), self.rig.cam_T_cam(c, ref), TOL)

    def corner(self, ref, b, k, X):
        w = self.rig.w
        if ref is None or not (0 <= b < w.n_boards and 0 <= k < w.n_pts(b)):
            return False
        P = self.rig.board_T_board(ref, b)
        return bool(np.abs(P[:3, :3] @ w.pts(b)[k] + P[:3, 3] - X).max() < 3e-3)

    def pose(self, ref, obj, X):
        w = self.rig.w
        if ref is None:
            return [-1, -1]
        for f in range(w.n_frames):
            for c in range(w.n_cams):
                if same(X, w.cam_T_board(c, f, ref), TOL):
                    return [f, c]
        return [-1, -1]

    def errors(self, g, f, c, es):
        return bool(len(es) and np.all(np.isfinite(es)) and max(es) < .2)


class State:
    """what the numbers are compared with: the final state of the program"""

    def __init__(self, rig, d):
        self.rig, self.d = rig, d
        self.cams = {c["id"]: c for c in d["cams"]}
        self.cpose = {p["cam"]: M(p["pose"]) for g in d["groups"] for p in g["poses"]}
        self.pts = {}
        for o in d["objects"]:
            p = np.array([float(z) for z in np.array(o["pts3"], object).reshape(-1)]).reshape(-1, 3)
            for b, k, i in o["map"]:
                self.pts[(o["id"], b, k)] = p[i] if 0 <= i < len(p) else np.full(3, np.nan)
        self.ref = {g["id"]: g["ref"] for g in d["groups"]}
        self.opose = {(g["group"], g["frame"], p["obj"]): M(p["pose"]) for g in d["gobs"] for p in g["poses"]}
        self.obj3 = {o["id"]: np.array([float(z) for z in np.array(o["pts3"], object).reshape(-1)]).reshape(-1, 3) for o in d["objects"]}

    def _c(self, c):
        return self.cams.get(c)

    def intr(self, c, K, D, model):
        k = self._c(c)
        K0, D0 = np.array([float(z) for z in k["K"]]), np.array([float(z) for z in k["D"]])
        return bool(len(K) == len(K0) and len(D) == len(D0) and np.allclose(K, K0, rtol=1e-12, atol=1e-12) and np.allclose(D, D0, rtol=1e-12, atol=1e-14))

    def model(self, c, m):
        return m == self._c(c)["model"] == self.rig.w.models[c]

    def size(self, c, w, h):
        return (w, h) == tuple(self.rig.w.img_of(c))

    def cam(self, c, ref, P):
        return c in self.cpose and same(inv(P), self.cpose[c], 1e-7)

    def corner(self, ref, b, k, X, obj=None):
        p = self.pts.get((obj, b, k))
        return bool(p is not None and np.abs(p - X).max() < 1e-5)

    def pose(self, ref, obj, X):
        for (g, f, o), P in sorted(self.opose.items()):
            if o == obj and same(X, P, 1e-7):
                return [f, self.ref.get(g, -1)]
        return [-1, -1]

    def errors(self, g, f, c, es):
        """the errors under the final calibration, in any order"""
        k, want = self.cams.get(c), []
        for o in self.d["oobs"]:
            if o["cam"] != c or o["frame"] != f:
                continue
            P = self.opose.get((g, f, o["obj"]))
            if P is None or c not in self.cpose:
                return False
            X = self.obj3[o["obj"]][o["pts"]]
            Q = self.cpose[c] @ P
            uv = np.array(o["uv"], float).reshape(-1, 2)
            want += list(np.linalg.norm(project([float(z) for z in k["K"]], [float(z) for z in k["D"]], k["model"],
                                                X @ Q[:3, :3].T + Q[:3, 3]) - uv, axis=1))
        return bool(len(want) == len(es) and np.allclose(sorted(want), sorted(es), rtol=2e-3, atol=3e-3))


def abstract(folder, camfile, ref, avg):
    """-> the abstract files; ref: Truth or State; avg: the reported mean error"""
    r = {}
    # ---- cameras
    f = read(os.path.join(folder, camfile))
    raw, entries = [], []
    for c, v in prefixed(f, "camera_"):
        raw.append((c, get(v, "camera_group"), np.array(get(v, "camera_pose_matrix"), float), v))
    for c, g, P, v in raw:
        ids = [c2 for c2, g2, P2, _ in raw if g2 == g and P2.shape == (4, 4) and same(P2, np.eye(4), 2e-5)]
        K = np.array(get(v, "camera_matrix"), float).reshape(-1)
        D = np.array(get(v, "distortion_vector"), float).reshape(-1)
        m = get(v, "distortion_type")
        known = 0 <= c < ref.rig.w.n_cams
        entries.append(dict(c=c, g=int(g), ident=bool(c in ids), intr=bool(known and ref.intr(c, K, D, m)),
                            model=bool(known and ref.model(c, m)),
                            size=bool(known and ref.size(c, get(v, "img_width"), get(v, "img_height"))),
                            pose=bool(known and P.shape == (4, 4) and ref.cam(c, min(ids) if ids else None, P))))
    r["cams"] = dict(nb=[v for k, v in f if k == "nb_camera"], entries=entries)
    # ---- objects
    r["objs"], refs = [], {}
    for o, v in prefixed(read(os.path.join(folder, OBJS)), "object_"):
        m = np.array(get(v, "points"), float)
        if m.shape[0] != 5:
            raise ValueError("object matrix")
        cols = []
        w = ref.rig.w
        for b in sorted({int(x) for x in m[3]}):
            mine = {int(m[4][j]): m[:3, j] for j in range(m.shape[1]) if int(m[3][j]) == b}
            if b < w.n_boards and all(k < w.n_pts(b) and np.abs(w.pts(b)[k] - X).max() < 1e-4 for k, X in mine.items()):
                refs.setdefault(o, b)
        for j in range(m.shape[1]):
            b, k = int(m[3][j]), int(m[4][j])
            a = (o,) if isinstance(ref, State) else ()
            cols.append([b, k, bool(ref.corner(refs.get(o), b, k, m[:3, j], *a))])
        r["objs"].append(dict(id=o, cols=cols))
    # ---- poses
    r["poses"] = []
    for o, v in prefixed(read(os.path.join(folder, POSES)), "object_"):
        m = np.array(get(v, "poses"), float)
        if m.shape[0] != 6:
            raise ValueError("pose matrix")
        r["poses"].append(dict(id=o, cols=[ref.pose(refs.get(o), o, M(m[:, j])) for j in range(m.shape[1])]))
    # ---- errors
    f = read(os.path.join(folder, ERRS))
    groups, means = [], []
    for g, v in prefixed(f, "camera_group_"):
        frames = []
        for number, x in prefixed(v, "frame_"):
            fr = ref.rig.f_of.get(number, 10000 + number)
            cams = []
            for c, y in prefixed(x, "camera_"):
                es = np.array(get(y, "error_list"), float).reshape(-1) if get(y, "error_list") is not None else np.zeros(0)
                if len(es):
                    means.append(es.mean())
                cams.append(dict(c=c, n=int(get(y, "nb_pts", -1)), len=len(es), ok=bool(ref.errors(g, fr, c, es))))
            frames.append(dict(f=fr, list=ints(get(x, "camera_list")), cams=cams))
        groups.append(dict(id=g, list=[ref.rig.f_of.get(z, 10000 + z) for z in ints(get(v, "frame_list"))], frames=frames))
    want = float(np.mean(means)) if means else float("nan")
    r["log"] = dict(nb=[v for k, v in f if k == "nb_camera_group"], groups=groups,
                    mean=bool(avg is not None and (abs(avg - want) <= 1e-3 * want + 1e-9)))
    r["fitted"] = bool(all(m < .02 for m in means))
    return r
