// The command line tool, linked into the harness.
#define main tool_sub_main
#include "waymo_open_dataset/metrics/tools/create_submission.cc"
