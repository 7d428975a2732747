// Executes register-machine programs over rigid motions with the real
// conversions and stored poses (mode "prog"), and averages sequences of
// relative poses with the real averaging (mode "avg").
// usage: drv_geom prog IN OUT | drv_geom avg IN OUT CONFIG_QUAT CONFIG_MEDIAN
#include <fstream>
#include <iostream>
#include <sstream>

#include "McCalib.hpp"
#include "geometrytools.hpp"
#include "json.hpp"

using namespace McCalib;
using vj::Arr;
using vj::Obj;

static cv::Mat readMat(std::istream &s, int r, int c) {
  cv::Mat m(r, c, CV_64F);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      s >> m.at<double>(i, j);
  return m;
}

static std::string vec(const cv::Mat &r, const cv::Mat &t) {
  Arr a;
  cv::Mat R, T;
  r.convertTo(R, CV_64F);
  t.convertTo(T, CV_64F);
  for (int i = 0; i < 3; i++)
    a.n(R.at<double>(i));
  for (int i = 0; i < 3; i++)
    a.n(T.at<double>(i));
  return a.end();
}

// what a pose reads back as
struct Read {
  Obj o;
  cv::Mat r, t, m;
  void mat(const cv::Mat &x) {
    m = x.clone();
    o.raw("mat", vj::mat(x));
  }
  void rv(const char *n, const cv::Mat &a, const cv::Mat &b) {
    r = a.clone();
    t = b.clone();
    o.raw(n, vec(a, b));
  }
};

static void plain(Read &q, const cv::Mat &m) {
  cv::Mat r, t;
  Proj2RT(m, r, t);
  q.mat(m);
  q.rv("vec", r, t);
}

// containers: two identities, so that a pose stored under one must not
// disturb the other
template <class Set, class SetV, class Get, class GetV, class GetR, class GetT>
static void stored(Read &q, const cv::Mat &m, const cv::Mat &other, bool asVec,
                   Set set, SetV setv, Get get, GetV getv, GetR getr, GetT gett) {
  cv::Mat r, t;
  set(1, other);
  if (asVec) {
    Proj2RT(m, r, t);
    setv(0, r, t);
  } else
    set(0, m);
  set(2, other);
  cv::Mat a, b;
  q.mat(get(0));
  getv(0, a, b);
  q.rv("vec", a, b);
  q.rv("rot", getr(0), gett(0));
  q.o.raw("other", vj::mat(get(1)));
}

static void via(Read &q, const std::string &f, const cv::Mat &m, const cv::Mat &other) {
  cv::Mat r, t;
  Proj2RT(m, r, t);
  const bool v = f.size() > 4 && f.substr(f.size() - 4) == "_vec";
  if (f == "rvec") {
    plain(q, RVecT2Proj(r, t));
  } else if (f == "rt") {
    cv::Mat R;
    cv::Rodrigues(r, R);
    plain(q, RT2Proj(R, t));
  } else if (f == "vec6") {
    const auto a = ProjToVec(m);
    plain(q, vectorProj(std::vector<float>(a.begin(), a.end())));
  } else if (f == "quat") {
    cv::Mat R = m(cv::Range(0, 3), cv::Range(0, 3)).clone();
    cv::Mat k = convertRotationMatrixToQuaternion(R);
    k.convertTo(k, CV_64F);
    std::array<double, 4> a{k.at<double>(0), k.at<double>(1), k.at<double>(2), k.at<double>(3)};
    cv::Mat B = convertQuaternionToRotationMatrix(a);
    B.convertTo(B, CV_64F);
    plain(q, RT2Proj(B, t));
  } else if (f == "proj") {
    cv::Mat K = (cv::Mat_<double>(3, 3) << 700, 0, 320, 0, 650, 240, 0, 0, 1);
    cv::Mat P = RVecT2ProjInt(r, t, K);
    cv::Mat K4 = cv::Mat::eye(4, 4, CV_64F);
    K.copyTo(K4(cv::Range(0, 3), cv::Range(0, 3)));
    plain(q, K4.inv() * P);
  } else if (f.rfind("bobs", 0) == 0) {
    BoardObs a(0, 0, 0, {}, {}, nullptr, nullptr), b(1, 1, 1, {}, {}, nullptr, nullptr);
    auto g = [&](int i) -> BoardObs & { return i ? b : a; };
    stored(q, m, other, v, [&](int i, const cv::Mat &x) { g(i).setPoseMat(x); },
           [&](int i, const cv::Mat &x, const cv::Mat &y) { g(i).setPoseVec(x, y); },
           [&](int i) { return g(i).getPoseMat(); },
           [&](int i, cv::Mat &x, cv::Mat &y) { g(i).getPoseVec(x, y); },
           [&](int i) { return g(i).getRotVec(); }, [&](int i) { return g(i).getTransVec(); });
  } else if (f.rfind("oobs", 0) == 0 || f.rfind("ogrp", 0) == 0) {
    // pose and pose in the group live in one observation
    auto obj = std::make_shared<Object3D>(2, 0, 0, std::array<int, 3>{1, 2, 3});
    Object3DObs a(obj, 0);
    const bool grp = f[1] == 'g';
    auto set = [&](int i, const cv::Mat &x) {
      (i == 0) == grp ? a.setPoseInGroupMat(x) : a.setPoseMat(x);
    };
    auto setv = [&](int i, const cv::Mat &x, const cv::Mat &y) {
      (i == 0) == grp ? a.setPoseInGroupVec(x, y) : a.setPoseVec(x, y);
    };
    stored(q, m, other, v, set, setv,
           [&](int i) { return (i == 0) == grp ? a.getPoseInGroupMat() : a.getPoseMat(); },
           [&](int i, cv::Mat &x, cv::Mat &y) {
             (i == 0) == grp ? a.getPoseInGroupVec(x, y) : a.getPoseVec(x, y);
           },
           [&](int i) { return (i == 0) == grp ? a.getRotInGroupVec() : a.getRotVec(); },
           [&](int i) { return (i == 0) == grp ? a.getTransInGroupVec() : a.getTransVec(); });
  } else if (f.rfind("cam", 0) == 0) {
    CameraGroup a(0, 0);
    stored(q, m, other, v, [&](int i, const cv::Mat &x) { a.setCameraPoseMat(x, i); },
           [&](int i, const cv::Mat &x, const cv::Mat &y) { a.setCameraPoseVec(x, y, i); },
           [&](int i) { return a.getCameraPoseMat(i); },
           [&](int i, cv::Mat &x, cv::Mat &y) { a.getCameraPoseVec(i, x, y); },
           [&](int i) { return a.getCameraRotVec(i); }, [&](int i) { return a.getCameraTransVec(i); });
  } else if (f.rfind("board", 0) == 0) {
    Object3D a(3, 0, 0, {1, 2, 3});
    stored(q, m, other, v, [&](int i, const cv::Mat &x) { a.setBoardPoseMat(i, x); },
           [&](int i, const cv::Mat &x, const cv::Mat &y) { a.setBoardPoseVec(i, x, y); },
           [&](int i) { return a.getBoardPoseMat(i); },
           [&](int i, cv::Mat &x, cv::Mat &y) { a.getBoardPoseVec(i, x, y); },
           [&](int i) { return a.getBoardRotVec(i); }, [&](int i) { return a.getBoardTransVec(i); });
  } else {
    auto grp = std::make_shared<CameraGroup>(0, 0);
    CameraGroupObs a(grp, true);
    stored(q, m, other, v, [&](int i, const cv::Mat &x) { a.setObjectPoseMat(x, i); },
           [&](int i, const cv::Mat &x, const cv::Mat &y) { a.setObjectPoseVec(x, y, i); },
           [&](int i) { return a.getObjectPoseMat(i); },
           [&](int i, cv::Mat &x, cv::Mat &y) { a.getObjectPoseVec(i, x, y); },
           [&](int i) { return a.getObjectRotVec(i); }, [&](int i) { return a.getObjectTransVec(i); });
  }
}

static int prog(const char *inp, const char *outp) {
  std::ifstream in(inp);
  std::ofstream out(outp);
  std::vector<cv::Mat> reg(4);
  std::vector<cv::Point3f> pin;
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string op, f;
    int i = 0, j = 0;
    s >> op;
    Read q;
    if (op == "reset") {
      for (auto &m : reg)
        m = cv::Mat::eye(4, 4, CV_64F);
      pin.clear();
      float x, y, z;
      while (s >> x >> y >> z)
        pin.emplace_back(x, y, z);
      out << "{}\n";
      continue;
    }
    s >> i;
    if (op == "load") {
      reg[i] = readMat(s, 4, 4);
      plain(q, reg[i]);
    } else if (op == "mul") {
      s >> j;
      cv::Mat m = reg[i] * reg[j];
      plain(q, m);
    } else if (op == "inv") {
      s >> j;
      cv::Mat r, t;
      Proj2RT(reg[i], r, t);
      t = t.clone();
      if (j == 1) {
        cv::Mat ir, it;
        const cv::Mat cr = r.clone(), ct = t.clone();
        invertRvecT(cr, ct, ir, it);
        r = ir;
        t = it;
      } else {
        invertRvecT(r, t);
      }
      q.mat(RVecT2Proj(r, t));
      q.rv("vec", r, t);
    } else if (op == "via") {
      s >> f;
      via(q, f, reg[i], reg[i == 1 ? 2 : 1]);
    } else if (op == "swap") {
      s >> j;
      std::swap(reg[i], reg[j]);
      plain(q, reg[i]);
    }
    reg[i] = q.m.clone();
    out << q.o.raw("pts", vj::pts3(transform3DPts(pin, q.r, q.t))).end() << "\n";
  }
  return 0;
}

// every line: mode(q|m) nb then nb*6 numbers
static int avg(const char *inp, const char *outp, const char *cq, const char *cm) {
  std::ifstream in(inp);
  std::ofstream out(outp);
  Calibration q{std::filesystem::path(cq)}, m{std::filesystem::path(cm)};
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string mode;
    int n;
    s >> mode >> n;
    if (mode == "Q" || mode == "M") { // rotations only, as they are
      std::vector<double> a(n), b(n), c(n);
      double d;
      for (int i = 0; i < n; i++)
        s >> a[i] >> b[i] >> c[i] >> d >> d >> d;
      cv::Mat r = getAverageRotation(a, b, c, mode == "Q");
      out << Obj().raw("r", vj::mat(r)).end() << "\n";
      continue;
    }
    std::map<std::pair<int, int>, std::vector<cv::Mat>> pairs;
    std::map<std::pair<int, int>, cv::Mat> res;
    for (int i = 0; i < n; i++) {
      cv::Mat r = readMat(s, 3, 1), t = readMat(s, 3, 1);
      pairs[{3, 8}].push_back(RVecT2Proj(r, t));
      if (i == 0) // neighbours must not mix
        pairs[{3, 4}].push_back(RVecT2Proj(t, r));
    }
    (mode == "q" ? q : m).initInterTransform(pairs, res);
    cv::Mat r, t;
    Proj2RT(res[{3, 8}], r, t);
    out << Obj().raw("r", vec(r, t)).n("keys", res.size()).raw("m", vj::mat(res[{3, 8}])).end() << "\n";
  }
  return 0;
}

int main(int argc, char **argv) {
  const std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "prog" && argc == 4)
    return prog(argv[2], argv[3]);
  if (mode == "avg" && argc == 6)
    return avg(argv[2], argv[3], argv[4], argv[5]);
  return 64;
}
