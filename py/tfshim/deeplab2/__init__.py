"""Stand-in for the parts of DeepLab2 used by the camera segmentation metrics."""
