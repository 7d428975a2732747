"""A stand-in for the parts of cv2 that scripts which read result files use."""
import re
import numpy as np
import yaml

FILE_STORAGE_READ, FileStorage_READ = 0, 0
FILE_NODE_MAP = 5


class _Loader(getattr(yaml, "CSafeLoader", yaml.SafeLoader)):
    pass


def _matrix(loader, node):
    d = {k.value: loader.construct_object(v, True) for k, v in node.value}
    t = {"d": np.float64, "f": np.float32, "i": np.int32, "u": np.uint8, "s": np.int16, "w": np.uint16, "c": np.int8}
    m = re.match(r"^(\d*)([a-z])$", str(d["dt"]))
    ch = int(m.group(1) or 1)
    a = np.array([float(x) for x in d["data"]]).astype(t[m.group(2)])
    s = (int(d["rows"]), int(d["cols"]))
    return a.reshape(s + ((ch,) if ch > 1 else ()))


_Loader.add_constructor("tag:yaml.org,2002:opencv-matrix", _matrix)
_NONE = object()


class FileNode:
    def __init__(self, v=_NONE, name=""):
        self._v, self._n = v, name

    def getNode(self, k):
        return FileNode(self._v[k], k) if isinstance(self._v, dict) and k in self._v else FileNode()

    def at(self, i):
        return FileNode(self._v[i]) if isinstance(self._v, list) and 0 <= i < len(self._v) else FileNode()

    def keys(self):
        return list(self._v) if isinstance(self._v, dict) else []

    def name(self):
        return self._n

    def empty(self):
        return self._v is _NONE

    isNone = empty

    def isMap(self):
        return isinstance(self._v, (dict, np.ndarray))

    def isSeq(self):
        return isinstance(self._v, list)

    def isInt(self):
        return isinstance(self._v, int)

    def isReal(self):
        return isinstance(self._v, float)

    def isString(self):
        return isinstance(self._v, str)

    def size(self):
        return 0 if self.empty() else len(self._v) if isinstance(self._v, (dict, list)) else 1

    def real(self):
        return float(self._v) if isinstance(self._v, (int, float)) else 0.0

    def string(self):
        return self._v if isinstance(self._v, str) else ""

    def mat(self):
        return self._v.copy() if isinstance(self._v, np.ndarray) else None


class FileStorage(FileNode):
    def __init__(self, path, flags=0, encoding=""):
        FileNode.__init__(self)
        try:
            t = open(path, errors="replace").read()
            self._v = yaml.load(re.sub(r"^%YAML.*\n", "", t), _Loader) or {}
        except OSError:
            pass

    def isOpened(self):
        return not self.empty()

    def root(self, i=0):
        return FileNode(self._v)

    def getFirstTopLevelNode(self):
        return FileNode(next(iter(self._v.values()))) if self._v else FileNode()

    def release(self):
        pass


def Rodrigues(x):
    x = np.asarray(x, float)
    if x.size == 3:
        v = x.reshape(3)
        a = np.linalg.norm(v)
        if a < 1e-12:
            return np.eye(3), None
        k = v / a
        K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
        return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K, None
    if x.shape != (3, 3):
        raise ValueError("Rodrigues")
    from scipy.spatial.transform import Rotation
    return Rotation.from_matrix(x).as_rotvec().reshape(3, 1), None


def invert(m):
    return 1.0, np.linalg.inv(m)
