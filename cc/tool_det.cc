// The command line tool, linked into the harness.
#define main tool_det_main
#include "waymo_open_dataset/metrics/tools/compute_detection_metrics_main.cc"
