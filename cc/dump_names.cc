// Prints the native breakdown names for configs given as hex-encoded protos, one per line: "d <hex>" or "m <hex>".
#include <iostream>
#include "waymo_open_dataset/metrics/config_util.h"
#include "waymo_open_dataset/protos/metrics.pb.h"
#include "waymo_open_dataset/protos/motion_metrics.pb.h"
using namespace waymo::open_dataset;
static std::string Unhex(const std::string& h) { std::string s; for (size_t i = 0; i + 1 < h.size(); i += 2) s += (char)std::stoi(h.substr(i, 2), nullptr, 16); return s; }
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::vector<std::string> n;
    if (line[0] == 'd') { Config c; if (!c.ParseFromString(Unhex(line.substr(2)))) return 1; n = GetBreakdownNamesFromConfig(c); }
    else { MotionMetricsConfig c; if (!c.ParseFromString(Unhex(line.substr(2)))) return 1; n = GetBreakdownNamesFromMotionConfig(c); }
    for (auto& x : n) std::cout << x << "|";
    std::cout << "\n";
  }
}
