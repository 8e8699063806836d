// The command line tool, linked into the harness.
#define main tool_let_main
#include "waymo_open_dataset/metrics/tools/compute_detection_let_metrics_main.cc"
