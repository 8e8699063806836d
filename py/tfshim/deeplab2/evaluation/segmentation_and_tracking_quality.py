"""(Weighted) segmentation and tracking quality."""
import numpy as np


def _add(stats, ids, weights):
  for i in np.unique(ids):
    stats[int(i)] = stats.get(int(i), 0.0) + float(weights[ids == i].sum())


class STQuality:

  def __init__(self, num_classes, things_list, ignore_label,
               max_instances_per_category, offset, name='stq'):
    self._num_classes = num_classes
    self._ignore_label = ignore_label
    self._things_list = list(things_list)
    self._max_instances_per_category = max_instances_per_category
    if ignore_label >= num_classes:
      self._size = num_classes + 1
      self._include = np.arange(num_classes)
    else:
      self._size = num_classes
      self._include = np.array([i for i in range(num_classes) if i != ignore_label])
    self._offset = offset
    if offset <= num_classes * max_instances_per_category:
      raise ValueError('The provided offset %d is too small.' % offset)
    self.reset_states()

  def reset_states(self):
    self._predictions, self._ground_truth, self._intersections = {}, {}, {}
    self._confusion, self._length = {}, {}

  def update_state(self, y_true, y_pred, sequence_id=0, weights=None):
    y_true = np.asarray(y_true).astype(np.int64)
    y_pred = np.asarray(y_pred).astype(np.int64)
    if y_true.shape != y_pred.shape:
      raise ValueError('y_true and y_pred have different shapes')
    if weights is None:
      weights = np.ones(y_true.shape)
    weights = np.asarray(weights, np.float64).reshape(y_true.shape)
    div = self._max_instances_per_category
    sem, psem = y_true // div, y_pred // div
    if self._ignore_label > self._num_classes:
      sem = np.where(sem != self._ignore_label, sem, self._num_classes)
      psem = np.where(psem != self._ignore_label, psem, self._num_classes)
    if sem.min() < 0 or psem.min() < 0 or max(sem.max(), psem.max()) >= self._size:
      raise ValueError('label out of bound')
    if sequence_id not in self._confusion:
      self._confusion[sequence_id] = np.zeros((self._size, self._size))
      self._length[sequence_id] = 0
      self._predictions[sequence_id] = {}
      self._ground_truth[sequence_id] = {}
      self._intersections[sequence_id] = {}
    np.add.at(self._confusion[sequence_id], (sem.ravel(), psem.ravel()), weights.ravel())
    self._length[sequence_id] += 1
    label_mask = np.isin(sem, self._things_list)
    pred_mask = np.isin(psem, self._things_list)
    crowd = (y_true % div == 0) & label_mask
    label_mask &= ~crowd
    pred_mask &= ~crowd
    _add(self._predictions[sequence_id], y_pred[pred_mask], weights[pred_mask])
    _add(self._ground_truth[sequence_id], y_true[label_mask], weights[label_mask])
    both = label_mask & pred_mask
    _add(self._intersections[sequence_id], y_true[both] * self._offset + y_pred[both], weights[both])

  def merge_state(self, metrics):
    for metric in metrics:
      for s in metric._ground_truth:  # pylint: disable=protected-access
        if s in self._confusion:
          raise ValueError('sequence %r was already merged' % (s,))
        self._confusion[s] = metric._confusion[s].copy()
        self._length[s] = metric._length[s]
        self._predictions[s] = dict(metric._predictions[s])
        self._ground_truth[s] = dict(metric._ground_truth[s])
        self._intersections[s] = dict(metric._intersections[s])

  def result(self):
    aqs, tubes, ious = [], [], []
    total = np.zeros((self._size, self._size))
    for s in self._ground_truth:
      outer = 0.0
      for g, gs in self._ground_truth[s].items():
        inner = 0.0
        for p, ps in self._predictions[s].items():
          tpa = self._intersections[s].get(self._offset * g + p)
          if tpa is not None:
            inner += tpa * (tpa / (gs + ps - tpa))
        outer += inner / gs
      aqs.append(outer)
      tubes.append(len(self._ground_truth[s]))
      cm = np.zeros_like(total)
      cm[self._include] = self._confusion[s][self._include]
      total += cm
      ious.append(self._miou(cm))
    aq = sum(aqs) / max(sum(tubes), 1e-15)
    iou = self._miou(total)
    return {
        'STQ': float(np.sqrt(aq * iou)), 'AQ': float(aq), 'IoU': float(iou),
        'STQ_per_seq': [float(np.sqrt(a / max(t, 1e-15) * i)) for a, t, i in zip(aqs, tubes, ious)],
        'AQ_per_seq': [a / max(t, 1e-15) for a, t in zip(aqs, tubes)],
        'IoU_per_seq': ious,
        'ID_per_seq': list(self._ground_truth),
        'Length_per_seq': [self._length[s] for s in self._ground_truth],
    }

  @staticmethod
  def _miou(cm):
    inter = np.diag(cm)
    union = cm.sum(0) + cm.sum(1) - inter
    n = np.count_nonzero(union)
    return float((inter / np.maximum(union, 1e-15)).sum() / n) if n else 0.0
