// The command line tool, linked into the harness.
#define main tool_cmp_main
#include "waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc"
