// The command line tool, linked into the harness.
#define main tool_trk_main
#include "waymo_open_dataset/metrics/tools/compute_tracking_metrics_main.cc"
