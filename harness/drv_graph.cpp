// Replays insertion histories on the real Graph class.
// input lines:  r D | v a | e a b w | c | q id id ...     (weight = w / D)
#include <csignal>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>

#include <algorithm>
#include <memory>
#include <string>
#include <vector>

#include "Graph.hpp"
#include "json.hpp"

static std::ofstream out;
static void onAlarm(int) {
  out << "{\"op\":\"hang\"}\n" << std::flush;
  _exit(3);
}

int main(int argc, char **argv) {
  if (argc < 3)
    return 64;
  std::ifstream in(argv[1]);
  out.open(argv[2]);
  signal(SIGALRM, onAlarm);
  auto g = std::make_unique<Graph>();
  double scale = 1;
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string op;
    s >> op;
    vj::Obj o;
    int a, b, w;
    if (op == "r") {
      s >> scale;
      g = std::make_unique<Graph>();
      o.t("op", "reset");
    } else if (op == "v") {
      s >> a;
      g->addVertex(a);
      o.t("op", op).n("a", a);
    } else if (op == "e") {
      s >> a >> b >> w;
      g->addEdge(a, b, w / scale);
      o.t("op", op).n("a", a).n("b", b).n("w", w);
    } else if (op == "c") {
      g->clearGraph();
      o.t("op", op);
    } else {
      std::vector<int> ids;
      while (s >> a)
        ids.push_back(a);
      out << std::flush;
      alarm(10);
      o.t("op", "q").raw("ids", vj::nums(ids));
      vj::Arr comps;
      for (const auto &c : g->connectedComponents())
        comps.raw(vj::nums(c));
      o.raw("comps", comps.end());
      vj::Arr rows;
      for (int x : ids) {
        vj::Arr row;
        for (int y : ids)
          row.raw(vj::nums(g->shortestPathBetween(x, y)));
        rows.raw(row.end());
      }
      o.raw("paths", rows.end());
      alarm(0);
    }
    out << o.end() << "\n";
  }
  return 0;
}
