"""Concrete, noise-free world behind an abstract scenario of the specification.

A world is one rigid scene of planar boards plus a rigid rig of cameras that
moves from frame to frame.  Which (camera, frame, board) triples are *seen* is
decided by the abstract scenario alone (produced by the TLA+ model), never by
geometry: every board is in front of every camera in every frame, so every
visibility pattern is realisable.
"""
import math
import os
import numpy as np

np.seterr(all="ignore")


def rodrigues(r):
    r = np.asarray(r, float).reshape(3)
    if not np.all(np.isfinite(r)) or np.abs(r).max() > 1e9:
        return np.full((3, 3), np.nan)
    th = float(np.linalg.norm(r))
    if th < 1e-15:
        return np.eye(3)
    k = r / th
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(th) * K + (1 - math.cos(th)) * (K @ K)


def rot_angle(R):
    return math.acos(max(-1.0, min(1.0, (np.trace(R) - 1) / 2)))


def T(R=None, t=None):
    M = np.eye(4)
    if R is not None:
        M[:3, :3] = R
    if t is not None:
        M[:3, 3] = t
    return M


def pose6(p):
    return T(rodrigues(p[:3]), p[3:6])


def inv(M):
    R, t = M[:3, :3], M[:3, 3]
    return T(R.T, -R.T @ t)


def dist(A, B, scale=1.0):
    """how far two rigid motions are from each other (radians + length/scale)"""
    if not (np.all(np.isfinite(A)) and np.all(np.isfinite(B))):
        return float("inf")
    return rot_angle(A[:3, :3].T @ B[:3, :3]) + float(np.linalg.norm(A[:3, 3] - B[:3, 3])) / scale


class World:
    def __init__(self, rng, n_cams, n_boards, n_frames, models=None, squares=None, sizes=None,
                 wide=False, img=(1280, 960)):
        self.rng = rng
        self.n_cams, self.n_boards, self.n_frames = n_cams, n_boards, n_frames
        self.models = models or [0] * n_cams
        self.squares = squares or [(5, 5)] * n_boards
        self.sizes = sizes or [0.16] * n_boards
        self.img = img
        self.lies = {}          # lie id -> 4x4 motion of the board in its own frame
        self._cams()
        for attempt in range(500):
            if self._boards() and self._frames():
                break
        else:
            raise RuntimeError("no world")

    # --- intrinsics
    def _cams(self):
        g = self.rng
        self.K, self.D, self.cam_T_rig = [], [], []
        for c in range(self.n_cams):
            f = g.uniform(800, 1100)
            K = np.array([[f, 0, self.img[0] / 2 + g.uniform(-30, 30)],
                          [0, f * g.uniform(0.97, 1.03), self.img[1] / 2 + g.uniform(-30, 30)],
                          [0, 0, 1]])
            if self.models[c] == 0:
                D = np.array([g.uniform(-.05, .05), g.uniform(-.02, .02), g.uniform(-.002, .002),
                              g.uniform(-.002, .002), g.choice([-1, 1]) * g.uniform(.008, .03)])
            else:
                D = np.array([g.uniform(-.02, .02), g.uniform(-.01, .01), g.choice([-1, 1]) * g.uniform(.004, .012),
                              g.choice([-1, 1]) * g.uniform(.006, .015)])
            self.K.append(K)
            self.D.append(D)
        for _ in range(10000):
            cs = [T(rodrigues(g.normal(0, .16, 3)), g.uniform(-.5, .5, 3)) for _ in range(self.n_cams)]
            if all(dist(cs[i], cs[j]) > .25 for i in range(len(cs)) for j in range(i)):
                break
        self.cam_T_rig = cs

    def _boards(self):
        g = self.rng
        bs = []
        for b in range(self.n_boards):
            R = rodrigues([g.uniform(-.5, .5), g.uniform(-.5, .5), g.uniform(-.8, .8)])
            bs.append(T(R, [g.uniform(-.7, .7), g.uniform(-.6, .6), g.uniform(-.5, .5)]))
        for i in range(len(bs)):
            for j in range(i):
                if dist(bs[i], bs[j]) < .35:
                    return False
        self.world_T_board = bs
        return True

    def _frames(self):
        g = self.rng
        self.rig_T_world = []
        for f in range(self.n_frames):
            for _ in range(3000):
                M = T(rodrigues([g.uniform(-.45, .45), g.uniform(-.45, .45), g.uniform(-.8, .8)]),
                      [g.uniform(-.4, .4), g.uniform(-.4, .4), g.uniform(2.8, 3.8)])
                if self._ok(M) and all(dist(M, N) > .3 for N in self.rig_T_world):
                    self.rig_T_world.append(M)
                    break
            else:
                return False
        return True

    def _ok(self, M):
        for c in range(self.n_cams):
            for b in range(self.n_boards):
                P = self.cam_T_rig[c] @ M @ self.world_T_board[b]
                if rot_angle(P[:3, :3]) > 2.4:
                    return False
                X = self.pts(b) @ P[:3, :3].T + P[:3, 3]
                if X[:, 2].min() < 1.2:
                    return False
                ctr = X.mean(0)
                if abs(P[:3, 2] @ ctr) / np.linalg.norm(ctr) < .45:
                    return False
                if max(abs(ctr[0]), abs(ctr[1])) > 1.1 * ctr[2]:
                    return False
        return True

    def img_of(self, c):
        """every camera has an image size of its own"""
        return self.img[0] + 2 * c, self.img[1] + 6 * c

    def n_pts(self, b):
        return (self.squares[b][0] - 1) * (self.squares[b][1] - 1)

    def pts(self, b):
        nx, ny = self.squares[b]
        s = float(np.float32(self.sizes[b]))
        return np.array([[x * s, y * s, 0.0] for y in range(ny - 1) for x in range(nx - 1)])

    def lie(self, l):
        """The l-th false motion: a board that claims to be elsewhere."""
        if l not in self.lies:
            g = self.rng
            while True:
                M = T(rodrigues(g.uniform(-.35, .35, 3)), g.uniform(-.35, .35, 3))
                if dist(M, np.eye(4)) > .35 and all(dist(M, N) > .2 for N in self.lies.values()):
                    self.lies[l] = M
                    break
        return self.lies[l]

    def cam_T_board(self, c, f, b, lie=0):
        M = self.cam_T_rig[c] @ self.rig_T_world[f] @ self.world_T_board[b]
        return M @ self.lie(lie) if lie else M

    def project(self, c, P, X):
        Y = X @ P[:3, :3].T + P[:3, 3]
        x, y = Y[:, 0] / Y[:, 2], Y[:, 1] / Y[:, 2]
        K, D = self.K[c], self.D[c]
        if self.models[c] == 0:
            k1, k2, p1, p2, k3 = D
            r2 = x * x + y * y
            rad = 1 + k1 * r2 + k2 * r2 ** 2 + k3 * r2 ** 3
            xd = x * rad + 2 * p1 * x * y + p2 * (r2 + 2 * x * x)
            yd = y * rad + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y
        else:
            r = np.sqrt(x * x + y * y)
            th = np.arctan(r)
            k1, k2, k3, k4 = D
            thd = th * (1 + k1 * th ** 2 + k2 * th ** 4 + k3 * th ** 6 + k4 * th ** 8)
            s = np.where(r > 1e-12, thd / np.maximum(r, 1e-12), 1.0)
            xd, yd = x * s, y * s
        return np.stack([K[0, 0] * xd + K[0, 2], K[1, 1] * yd + K[1, 2]], 1)

    def observe(self, c, f, b, corners=None, lie=0, outliers=(), noise=0.0):
        ids = list(range(self.n_pts(b))) if corners is None else list(corners)
        uv = self.project(c, self.cam_T_board(c, f, b, lie), self.pts(b)[ids])
        for i, cid in enumerate(ids):
            if cid in outliers:
                a = self.rng.uniform(0, 2 * math.pi)
                uv[i] += (90 + 60 * self.rng.uniform()) * np.array([math.cos(a), math.sin(a)])
        if noise:
            uv = uv + self.rng.normal(0, noise, uv.shape)
        return ids, uv.astype(np.float32)


# ------------------------------------------------------------------ files
def _f(x):
    s = repr(float(x))
    if "e" in s or "." in s or "n" in s:
        return s
    return s + "."


def _mat(M, indent):
    M = np.atleast_2d(M)
    pad = " " * indent
    return ("!!opencv-matrix\n%srows: %d\n%scols: %d\n%sdt: d\n%sdata: [ %s ]\n"
            % (pad, M.shape[0], pad, M.shape[1], pad, pad, ", ".join(_f(v) for v in M.reshape(-1))))


def write_cam_params(path, w, cams=None, K=None, D=None):
    with open(path, "w") as o:
        o.write("%%YAML:1.0\n---\nnb_camera: %d\n" % w.n_cams)
        for c in (range(w.n_cams) if cams is None else cams):
            o.write("camera_%d:\n   camera_matrix: %s   distortion_vector: %s   distortion_type: %d\n"
                    % (c, _mat((K or w.K)[c], 6), _mat((D or w.D)[c].reshape(1, -1), 6), w.models[c]))


def write_keypoints(path, w, obs, img=None):
    """obs: list of (cam, frame, board, ids, uv, frame_path)"""
    with open(path, "w") as o:
        o.write("%%YAML:1.0\n---\nnb_camera: %d\n" % w.n_cams)
        for c in range(w.n_cams):
            mine = [x for x in obs if x[0] == c]
            o.write("camera_%d:\n   img_width: %d\n   img_height: %d\n" % (c, *(img or w.img_of(c))))
            o.write("   frame_idxs: [ %s ]\n" % ", ".join(str(x[1]) for x in mine))
            o.write("   frame_paths: [ %s ]\n" % ", ".join('"%s"' % x[5] for x in mine))
            o.write("   board_idxs: [ %s ]\n" % ", ".join(str(x[2]) for x in mine))
            o.write("   pts_2d:%s\n" % ("" if mine else " []"))
            for x in mine:
                o.write("      - [ %s ]\n" % ", ".join(_f(np.float32(v)) for v in x[4].reshape(-1)))
            o.write("   charuco_idxs:%s\n" % ("" if mine else " []"))
            for x in mine:
                o.write("      - [ %s ]\n" % ", ".join(str(v) for v in x[3]))


def write_config(path, w, save, **kw):
    c = dict(number_x_square=w.squares[0][0], number_y_square=w.squares[0][1],
             resolution_x=500, resolution_y=500, length_square=0.04, length_marker=0.03,
             number_board=w.n_boards, boards_index=[], square_size=w.sizes[0],
             number_x_square_per_board=[s[0] for s in w.squares],
             number_y_square_per_board=[s[1] for s in w.squares],
             square_size_per_board=list(w.sizes),
             distortion_model=0, distortion_per_camera=list(w.models), number_camera=w.n_cams,
             refine_corner=1, min_perc_pts=0.4, cam_params_path="None", fix_intrinsic=0,
             root_path="None", cam_prefix="Cam_", keypoints_path="None", quaternion_averaging=1,
             ransac_threshold=3, number_iterations=1000, he_approach=0, save_path=save,
             save_detection=0, save_reprojection=0, camera_params_file_name="")
    c.update(kw)
    write_raw_config(path, c)
    return c


def write_raw_config(path, c):
    with open(path, "w") as o:
        o.write("%YAML:1.0\n---\n")
        for k, v in c.items():
            if v is None:
                continue
            if isinstance(v, str):
                v = '"%s"' % v
            elif isinstance(v, (list, tuple)):
                v = "[ %s ]" % ", ".join(_f(x) if isinstance(x, float) else str(x) for x in v) if v else "[]"
            elif isinstance(v, float):
                v = _f(v)
            o.write("%s: %s\n" % (k, v))
