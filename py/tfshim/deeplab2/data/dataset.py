"""Dataset descriptors (the Waymo panoptic one only)."""
import collections

DatasetDescriptor = collections.namedtuple('DatasetDescriptor', [
    'dataset_name', 'splits_to_sizes', 'num_classes', 'ignore_label',
    'panoptic_label_divisor', 'class_has_instances_list',
    'is_video_dataset', 'colormap', 'is_depth_dataset',
    'ignore_depth'])

WOD_PVPS_IMAGE_PANOPTIC_SEG_MULTICAM_DATASET = DatasetDescriptor(
    dataset_name='wod_pvps_image_panoptic_seg_multicam',
    splits_to_sizes={'train': 61500, 'val': 9800, 'test': 19800},
    num_classes=29,
    ignore_label=0,
    panoptic_label_divisor=100000,
    class_has_instances_list=tuple(range(2, 13)),
    is_video_dataset=False,
    colormap='wod',
    is_depth_dataset=False,
    ignore_depth=None)

MAP_NAME_TO_DATASET_INFO = {
    WOD_PVPS_IMAGE_PANOPTIC_SEG_MULTICAM_DATASET.dataset_name:
        WOD_PVPS_IMAGE_PANOPTIC_SEG_MULTICAM_DATASET}
