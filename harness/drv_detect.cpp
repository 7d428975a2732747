// Runs the real detection of boards in image files.  The calls the library
// makes to OpenCV (reading an image, finding markers, interpolating corners)
// pass through here: they are logged, delayed (to vary the schedule of the
// detection threads), and corners may be taken away, as a plan file says.
//
// usage: drv_detect CONFIG.yml TRACE.ndjson PLAN op [op ...]
// PLAN lines:
//   schedule SEED YIELD MEET DELAY THREADS   YIELD: per mille of the allocations of detection threads after which
//                                    the thread gives up its turn; MEET: threads that wait for each
//                                    other before storing what they found; DELAY: at most, per call, in us;
//                                    THREADS: processors the machine seems to have
//   keep FIRST_MARKER N i1 ... iN PATH   corners of that board left in that image
#include <dlfcn.h>
#include <unistd.h>

#include <chrono>
#include <condition_variable>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>

#include "dump.hpp"

using namespace McCalib;
using vj::Arr;
using vj::Obj;

namespace plan {
int seed = 0, yield = 0, meet = 0, delay = 0, threads = 8;
std::map<std::pair<int, std::string>, std::set<int>> keep;
std::mutex lock;
struct Event {
  std::string path, json;
  std::vector<cv::Point2f> at;
};
std::vector<Event> events;
std::map<const void *, std::string> path_of; // pixels -> file
std::vector<cv::Mat> held;                   // keeps them apart
std::thread::id main_thread;
std::condition_variable cv_meet;
int waiting = 0, generation = 0;
volatile bool on = false;
thread_local std::string path;
thread_local unsigned rnd = 0;
thread_local bool inside = false;

unsigned next() {
  if (rnd == 0)
    rnd = 2654435761u * (seed + 1) ^ static_cast<unsigned>(std::hash<std::thread::id>()(std::this_thread::get_id()));
  rnd = rnd * 1664525u + 1013904223u;
  return rnd >> 8;
}
void pause() {
  if (on && delay > 0)
    usleep(next() % delay);
}
// wait for others who are about to store something, but not for long
void rendezvous() {
  if (meet < 2)
    return;
  std::unique_lock<std::mutex> l(lock);
  const int mine = generation;
  if (++waiting >= meet) {
    waiting = 0;
    generation++;
    cv_meet.notify_all();
  } else {
    cv_meet.wait_for(l, std::chrono::milliseconds(30), [&] { return generation != mine; });
    if (generation == mine)
      waiting--;
  }
}
template <class F> F real(const char *name) {
  F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
  if (!f) {
    std::cerr << "no " << name << "\n";
    _exit(65);
  }
  return f;
}
std::string file(const cv::_InputArray &a) {
  std::lock_guard<std::mutex> l(lock);
  if (a.kind() == cv::_InputArray::MAT) {
    auto it = path_of.find(a.getMat().data);
    if (it != path_of.end())
      return it->second;
  }
  return path;
}
} // namespace plan

// turns change in the middle of whatever allocates
void *operator new(std::size_t n) {
  if (plan::on && plan::yield > 0 && !plan::inside) {
    plan::inside = true;
    if (std::this_thread::get_id() != plan::main_thread &&
        static_cast<int>(plan::next() % 1000) < plan::yield) {
      if (plan::next() % 2)
        std::this_thread::yield();
      else
        usleep(plan::next() % 60);
    }
    plan::inside = false;
  }
  void *p = std::malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }

unsigned int std::thread::hardware_concurrency() noexcept { return plan::threads; }

namespace cv {
Mat imread(const String &name, int flags) {
  static auto f = plan::real<Mat (*)(const String &, int)>("_ZN2cv6imreadERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEi");
  plan::pause();
  Mat m = f(name, flags);
  plan::path = name;
  if (plan::on && !m.empty()) {
    std::lock_guard<std::mutex> l(plan::lock);
    plan::path_of[m.data] = name;
    plan::held.push_back(m);
  }
  return m;
}
namespace aruco {
void detectMarkers(InputArray image, const Ptr<Dictionary> &d, OutputArrayOfArrays corners, OutputArray ids,
                   const Ptr<DetectorParameters> &p, OutputArrayOfArrays rejected) {
  using F = void (*)(InputArray, const Ptr<Dictionary> &, OutputArrayOfArrays, OutputArray,
                     const Ptr<DetectorParameters> &, OutputArrayOfArrays);
  static auto f = plan::real<F>("_ZN2cv5aruco13detectMarkersERKNS_11_InputArrayERKNS_3PtrINS0_10DictionaryEEERKNS_12_OutputArrayESB_RKNS4_INS0_18DetectorParametersEEESB_");
  plan::pause();
  f(image, d, corners, ids, p, rejected);
}
int interpolateCornersCharuco(InputArrayOfArrays mc, InputArray mi, InputArray image, const Ptr<CharucoBoard> &board,
                              OutputArray corners, OutputArray ids, InputArray K, InputArray D, int least) {
  using F = int (*)(InputArrayOfArrays, InputArray, InputArray, const Ptr<CharucoBoard> &, OutputArray, OutputArray,
                    InputArray, InputArray, int);
  static auto f = plan::real<F>("_ZN2cv5aruco25interpolateCornersCharucoERKNS_11_InputArrayES3_S3_RKNS_3PtrINS0_12CharucoBoardEEERKNS_12_OutputArrayESB_S3_S3_i");
  int n = f(mc, mi, image, board, corners, ids, K, D, least);
  if (!plan::on)
    return n;
  const std::string path = plan::file(image);
  const int first = board->ids.empty() ? -1 : board->ids[0];
  std::vector<int> k;
  std::vector<Point2f> p;
  if (n > 0) {
    Mat(ids.getMat()).reshape(1, 1).copyTo(k);
    Mat c = corners.getMat();
    for (int i = 0; i < n; i++)
      p.push_back(c.at<Point2f>(i));
  }
  const auto it = plan::keep.find({first, path});
  if (it != plan::keep.end()) {
    std::vector<int> k2;
    std::vector<Point2f> p2;
    for (std::size_t i = 0; i < k.size(); i++)
      if (it->second.count(k[i])) {
        k2.push_back(k[i]);
        p2.push_back(p[i]);
      }
    k = k2;
    p = p2;
    n = static_cast<int>(k.size());
    if (n == 0) {
      corners.release();
      ids.release();
    } else {
      Mat(p, true).copyTo(corners);
      Mat(k, true).copyTo(ids);
    }
  }
  {
    std::lock_guard<std::mutex> l(plan::lock);
    std::string j = Obj().t("path", path).n("first", first).raw("k", vj::nums(k)).raw("uv", vj::pts2(p)).end();
    j.pop_back();
    plan::events.push_back({path, j, p});
  }
  plan::rendezvous();
  plan::pause();
  return n;
}
} // namespace aruco
} // namespace cv

// The corner nearest to a start is where the quadratic surface that fits the
// smoothed image around it best is level: a saddle.  Written independently of
// the library, in plain loops.
namespace saddle {
const int half = 5, iterations = 20;
struct Found {
  double x, y;
  int state; // 0: nothing found, 1: found, 2: too close to call
};
class Smooth {
public:
  cv::Size size;
  Smooth() {}
  explicit Smooth(const cv::Mat &g) : size(g.size()), gray(g), value(static_cast<std::size_t>(g.rows) * g.cols, -1) {}
  double operator()(int y, int x) {
    double &v = value[static_cast<std::size_t>(y) * size.width + x];
    if (v >= 0)
      return v;
    double a = 0, sum = 0;
    for (int i = -half; i <= half; i++)
      for (int j = -half; j <= half; j++) {
        const double w = std::max(0.0, half + 1 - std::hypot(i, j));
        sum += w;
        a += w * gray.at<uchar>(fold(y + i, size.height), fold(x + j, size.width));
      }
    return v = a / sum;
  }

private:
  static int fold(int i, int n) { return i < 0 ? -i : i >= n ? 2 * n - 2 - i : i; }
  cv::Mat gray;
  std::vector<double> value;
};
Found find(Smooth &s, const cv::Point2f start) {
  const cv::Size size = s.size;
  double x = start.x, y = start.y;
  bool close = false;
  for (int it = 0; it < iterations; it++) {
    if (x < half + 1.01 || x > size.width - half - 2.01 || y < half + 1.01 || y > size.height - half - 2.01)
      return {x, y, x < half + .99 || x > size.width - half - 1.99 || y < half + .99 || y > size.height - half - 1.99 ? close * 2 : 2};
    double N[6][7] = {};
    double lo = 1e9, hi = -1e9;
    for (int i = -half; i <= half; i++)
      for (int j = -half; j <= half; j++) {
        if (std::hypot(i, j) >= half + 1)
          continue;
        const int X = static_cast<int>(x) + j, Y = static_cast<int>(y) + i;
        const double a = x - static_cast<int>(x), b = y - static_cast<int>(y);
        const double val = (s(Y, X) * (1 - a) + s(Y, X + 1) * a) * (1 - b) + (s(Y + 1, X) * (1 - a) + s(Y + 1, X + 1) * a) * b;
        lo = std::min(lo, val);
        hi = std::max(hi, val);
        const double row[7] = {1, double(j), double(i), double(j * j), double(j * i), double(i * i), val};
        for (int p = 0; p < 6; p++)
          for (int q = 0; q < 7; q++)
            N[p][q] += row[p] * row[q];
      }
    if (hi - lo < .01)
      return {x, y, hi - lo < .002 ? close * 2 : 2};
    for (int p = 0; p < 6; p++) { // elimination
      int best = p;
      for (int q = p + 1; q < 6; q++)
        if (std::fabs(N[q][p]) > std::fabs(N[best][p]))
          best = q;
      std::swap(N[p], N[best]);
      for (int q = 0; q < 6; q++)
        if (q != p) {
          const double f = N[q][p] / N[p][p];
          for (int r = p; r < 7; r++)
            N[q][r] -= f * N[p][r];
        }
    }
    double c[6];
    for (int p = 0; p < 6; p++)
      c[p] = N[p][6] / N[p][p];
    // level: 2 c3 dx + c4 dy = -c1, c4 dx + 2 c5 dy = -c2
    const double det = 4 * c[3] * c[5] - c[4] * c[4];
    if (std::fabs(det) < 1e-6)
      close = true;
    if (det > 0)
      return {x, y, close * 2};
    const double dx = (-2 * c[5] * c[1] + c[4] * c[2]) / det, dy = (-2 * c[3] * c[2] + c[4] * c[1]) / det;
    x += dx;
    y += dy;
    const double step = std::max(std::fabs(dx), std::fabs(dy)), away = std::max(std::fabs(x - start.x), std::fabs(y - start.y));
    if (std::fabs(step - .001) < .0002 || std::fabs(away - 1) < .02 || it == iterations - 2)
      close = true;
    if (step < .001)
      return {x, y, 1 + close};
    if (away > 1)
      return {x, y, close * 2};
  }
  return {x, y, 2};
}
} // namespace saddle

int main(int argc, char **argv) {
  if (argc < 4)
    return 64;
  std::ofstream out(argv[2]);
  {
    std::ifstream in(argv[3]);
    std::string line;
    while (std::getline(in, line)) {
      std::istringstream s(line);
      std::string word;
      s >> word;
      if (word == "schedule")
        s >> plan::seed >> plan::yield >> plan::meet >> plan::delay >> plan::threads;
      else if (word == "keep") {
        int first, n, k;
        std::set<int> ks;
        s >> first >> n;
        while (n-- > 0) {
          s >> k;
          ks.insert(k);
        }
        std::string p;
        std::getline(s >> std::ws, p);
        plan::keep[{first, p}] = ks;
      }
    }
  }
  plan::main_thread = std::this_thread::get_id();
  Calibration c{std::filesystem::path(argv[1])};
  plan::on = true;
  const std::map<std::string, std::function<void()>> ops = {
      {"boardExtraction", [&] { c.boardExtraction(); }},
      {"saveDetectedKeypoints", [&] { c.saveDetectedKeypoints(); }}};
  for (int i = 4; i < argc; i++) {
    const auto it = ops.find(argv[i]);
    if (it == ops.end())
      return 64;
    it->second();
  }
  plan::on = false;
  Arr boards;
  for (auto &b : c.boards_3d_) {
    boards.raw(Obj().n("id", b.first).raw("markers", vj::nums(b.second->charuco_board_->ids)).end());
  }
  Arr ev;
  std::map<std::string, saddle::Smooth> images;
  for (auto &e : plan::events) {
    if (!c.refine_corner_ || e.at.empty()) {
      ev.raw(e.json + ",\"saddle\":[]}");
      continue;
    }
    if (!images.count(e.path)) {
      cv::Mat m = cv::imread(e.path), g;
      cv::cvtColor(m, g, cv::COLOR_BGR2GRAY);
      images[e.path] = saddle::Smooth(g);
    }
    Arr found;
    for (auto &p : e.at) {
      const saddle::Found f = saddle::find(images[e.path], p);
      found.raw(vj::nums(std::vector<double>{f.x, f.y, double(f.state)}));
    }
    ev.raw(e.json + ",\"saddle\":" + found.end() + "}");
  }
  out << Obj().t("op", "events").raw("events", ev.end()).raw("boards", boards.end()).end() << "\n";
  out << dump(c, "detected", true) << "\n" << Obj().t("op", "done").end() << "\n" << std::flush;
  _exit(0);
}
