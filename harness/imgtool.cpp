// decode IN OUT     an image as raw bytes: width, height (int32), then rows of BGR
// markers IN ...    the markers (dictionary 6x6, 1000) seen in each image, one line of numbers per image
// render PLAN       makes images; PLAN lines:
//                     image W H GREY OUT.. | board FILE h1..h9 (board pixels to image pixels, for the image before)
//                     hide X Y W H
#include <fstream>
#include <iostream>
#include <opencv2/aruco.hpp>
#include <opencv2/opencv.hpp>
#include <sstream>
#include <vector>

static int render(const char *plan) {
  const int S = 3; // samples per pixel and direction
  std::ifstream in(plan);
  std::string line, name;
  cv::Mat big;
  bool ok = true;
  std::map<std::string, cv::Mat> boards;
  auto flush = [&] {
    if (big.empty())
      return;
    cv::Mat out, grey;
    cv::resize(big, out, cv::Size(big.cols / S, big.rows / S), 0, 0, cv::INTER_AREA);
    cv::GaussianBlur(out, out, cv::Size(3, 3), 0.6);
    cv::cvtColor(out, grey, cv::COLOR_GRAY2BGR);
    std::vector<int> opt;
    if (name.size() > 4 && (name.substr(name.size() - 4) == ".jpg" || name.substr(name.size() - 4) == "jpeg"))
      opt = {cv::IMWRITE_JPEG_QUALITY, 98};
    ok = cv::imwrite(name, grey, opt) && ok;
    big.release();
  };
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string w;
    s >> w;
    if (w == "image") {
      flush();
      int W, H, g;
      s >> W >> H >> g;
      std::getline(s >> std::ws, name);
      big = cv::Mat(H * S, W * S, CV_8UC1, cv::Scalar(g));
    } else if (w == "board") {
      cv::Mat h(3, 3, CV_64F);
      for (int i = 0; i < 9; i++)
        s >> h.at<double>(i / 3, i % 3);
      std::string f;
      std::getline(s >> std::ws, f);
      if (!boards.count(f))
        boards[f] = cv::imread(f, cv::IMREAD_GRAYSCALE);
      if (boards[f].empty())
        return 1;
      // pixel centres: big = S * (small + 1/2) - 1/2; only the part of the image the board is in
      cv::Mat A = (cv::Mat_<double>(3, 3) << S, 0, (S - 1) / 2., 0, S, (S - 1) / 2., 0, 0, 1);
      cv::Mat H = A * h, w, m;
      const float bw = boards[f].cols, bh = boards[f].rows;
      std::vector<cv::Point2f> c = {{-1, -1}, {bw, -1}, {bw, bh}, {-1, bh}}, t;
      cv::perspectiveTransform(c, t, H);
      const cv::Rect box = (cv::boundingRect(t) + cv::Size(4, 4) - cv::Point(2, 2)) & cv::Rect(0, 0, big.cols, big.rows);
      if (box.area() == 0)
        continue;
      H = (cv::Mat_<double>(3, 3) << 1, 0, -box.x, 0, 1, -box.y, 0, 0, 1) * H;
      cv::warpPerspective(boards[f], w, H, box.size(), cv::INTER_LINEAR);
      cv::warpPerspective(cv::Mat(boards[f].size(), CV_8UC1, cv::Scalar(255)), m, H, box.size(), cv::INTER_NEAREST);
      w.copyTo(big(box), m);
    } else if (w == "hide") {
      int x, y, W, H;
      s >> x >> y >> W >> H;
      cv::rectangle(big, cv::Rect(x * S, y * S, W * S, H * S), cv::Scalar(128), cv::FILLED);
    }
  }
  flush();
  return ok ? 0 : 1;
}

int main(int argc, char **argv) {
  const std::string mode = argc > 2 ? argv[1] : "";
  if (mode == "render")
    return render(argv[2]);
  if (mode == "markers") {
    auto d = cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_1000);
    for (int i = 2; i < argc; i++) {
      cv::Mat m = cv::imread(argv[i]);
      if (m.empty())
        return 1;
      cv::copyMakeBorder(m, m, 40, 40, 40, 40, cv::BORDER_CONSTANT, cv::Scalar(255, 255, 255));
      std::vector<std::vector<cv::Point2f>> c;
      std::vector<int> ids;
      cv::aruco::detectMarkers(m, d, c, ids);
      std::cout << m.cols - 80 << " " << m.rows - 80;
      for (int k : ids)
        std::cout << " " << k;
      std::cout << "\n";
    }
    return 0;
  }
  if (mode == "decode" && argc > 3) {
    cv::Mat m = cv::imread(argv[2]);
    if (m.empty())
      return 1;
    m = m.clone();
    std::ofstream o(argv[3], std::ios::binary);
    const int s[2] = {m.cols, m.rows};
    o.write(reinterpret_cast<const char *>(s), 8);
    o.write(reinterpret_cast<const char *>(m.data), m.total() * 3);
    return o ? 0 : 1;
  }
  return 64;
}
