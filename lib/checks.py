"""Which harness parts decide which property."""
_OPS = ["waymo_open_dataset/metrics/ops/%s.cc" % x for x in (
    "utils", "detection_metrics_ops", "tracking_metrics_ops", "motion_metrics_ops", "matcher_ops", "metrics_ops")] + [
    "waymo_open_dataset/wdl_limited/camera/ops/camera_model_ops.cc"]
CHECKS = {
    "C01": dict(parts=[("cc", "c01_hungarian")]),
    "C02": dict(parts=[("cc", "c02_matcher")]),
    "C03": dict(parts=[("cc", "c03_iou")]),
    "C04": dict(parts=[("cc", "c04_geometry")]),
    "C05": dict(parts=[("cc", "c05_exactfloat")]),
    "C06": dict(parts=[("cc", "c06_aabox_tree")]),
    "C07": dict(parts=[("cc", "c07_breakdown"), ("py", "c07_names")]),
    "C08": dict(parts=[("cc", "c08_detection")]),
    "C09": dict(parts=[("cc", "c09_aggregate")]),
    "C10": dict(parts=[("cc", "c10_mot")]),
    "C11": dict(parts=[("cc", "c11_tracking")]),
    "C12": dict(parts=[("cc", "c12_motion")]),
    "C13": dict(parts=[("cc", "c13_malformed")]),
    "C14": dict(parts=[("cc", "c14_segmentation"), ("cc", "c14_tool")]),
    "C16": dict(parts=[("cc", "c16_camera")]),
    "C15": dict(parts=[("cc", "c15_scenario")]),
    "C17": dict(parts=[("cc", "c17_ops", dict(extra=_OPS))]),
    "C18": dict(parts=[("py", "c18_delta")]),
    "C19": dict(parts=[("py", "c19_rater")]),
    "C20": dict(parts=[("py", "c20_plot")]),
    "C21": dict(parts=[("py", "c21_simspec", dict(tf=True))]),
    "C22": dict(parts=[("py", "c22_v2", dict(tf=True))]),
    "C23": dict(parts=[("py", "c23_extract", dict(tf=True))]),
    "C24": dict(parts=[("py", "c24_lidar", dict(tf=True))]),
    "C25": dict(parts=[("py", "c25_boxes", dict(tf=True))]),
    "C26": dict(parts=[("py", "c26_keypoints", dict(tf=True, ops=True))]),
    "C27": dict(parts=[("py", "c27_flow", dict(tf=True, ops=True))]),
    "C28": dict(parts=[("py", "c28_realism", dict(tf=True, ops=True))]),
    "C29": dict(parts=[("py", "c29_streams", dict(tf=True, ops=True))]),
    "C30": dict(parts=[("py", "c30_assets", dict(tf=True))]),
    "C32": dict(parts=[("cc", "c32_tools", dict(units=["tool_det", "tool_let", "tool_trk", "tool_sub"]))]),
    "C33": dict(parts=[("cc", "c33_latency", dict(units=["tool_cmp"])), ("py", "c33_scripts", dict())]),
    "C34": dict(parts=[("cc", "c34_camops", dict(extra=["waymo_open_dataset/wdl_limited/camera/ops/camera_model_ops.cc"]))]),
    "C35": dict(parts=[("py", "c35_draw", dict(tf=True))]),
    "C31": dict(parts=[("py", "c31_camseg", dict(tf=True))]),
}
