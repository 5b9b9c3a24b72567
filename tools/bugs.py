"""Bugs planted to try the checks (see tools/plant.py). Each is written from a property's text."""
BUGS = []

HEAD = '''
import logging
import numpy as np
import norfair
from norfair import Detection, Tracker
from norfair.filter import FilterPyKalmanFilterFactory, NoFilterFactory, OptimizedKalmanFilterFactory

logging.disable(logging.CRITICAL)


def det(x, y=0.0, **kw):
    return Detection(points=np.array([[float(x), float(y)]]), **kw)


def scalar(d, o):
    return float(np.abs(d.points - o.estimate).sum())

'''


def bug(id, property, edits, demo, needs, what, head=HEAD):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=head + demo.lstrip("\n"), needs=needs, what=what))


T = "norfair/tracker.py"

bug(
    "c01-big-first-period", "C01",
    [(T, "        self.is_initializing: bool = self.hit_counter <= self.initialization_delay\n",
      "        # An object that has to be confirmed first gets its id when it is matched again\n        self.is_initializing: bool = self.initialization_delay > 0\n")],
    '''
t = Tracker(scalar, 10, hit_counter_max=8, initialization_delay=2)
assert [o.hit_counter for o in t.update([det(0)], period=4)] == [4]
assert [len(t.update()) for _ in range(6)] == [1, 1, 1, 1, 0, 0]
''',
    "the first detection of an object comes with a period above the initialization delay (1 or more)",
    "The object's counter is above the delay, but it is not reported before it is matched again.",
)

bug(
    "c02-late-results-velocity", "C02",
    [(T, "        # Advances the tracker's state\n        self.filter.predict()\n",
      "        # Advances the tracker's state, until the object is considered lost\n"
      "        if self.hit_counter >= 0 or self.is_initializing:\n            self.filter.predict()\n"),
     (T, "            self.is_initializing = False\n            self._acquire_ids()\n",
      "            self.is_initializing = False\n            self._acquire_ids()\n            self.hit_counter = self.initialization_delay + 1\n")],
    '''
t = Tracker(scalar, 10, hit_counter_max=12, initialization_delay=3)
for _ in range(1):
    t.update([det(0)], period=4)
t2 = Tracker(scalar, 10, hit_counter_max=12, initialization_delay=5)
t2.update([det(0)], period=4)
for _ in range(3):
    t2.update()
t2.update([det(0)], period=4)
o = t2.tracked_objects[0]
assert o.hit_counter == 4 - 3 - 1 + 8, o.hit_counter
''',
    "a detector that delivers every few frames (period above 1), an object that is initialized by such a result and is then lost within its inertia",
    "Objects start with less inertia than the counter gives them, so they die in gaps that they should survive and come back under a new id.",
)

bug(
    "c03-id-from-count", "C03",
    [(T, "        return self._obj_factory.count\n",
      "        return max([self._obj_factory.count] + [o.id for o in self.tracked_objects if o.id])\n"),
     (T, "        self.count += 1\n", "        self.count = self.count + 1 if self.initializing_count > self.count else self.count\n")],
    '''
t = Tracker(scalar, 10, hit_counter_max=4, initialization_delay=1)
ids = set()
for wave in range(3):
    for _ in range(4):
        for o in t.update([det(1000 * wave), det(1000 * wave + 500)]):
            ids.add(o.id)
    for _ in range(6):
        t.update()
assert ids == {1, 2, 3, 4, 5, 6}, ids
assert t.total_object_count == 6
''',
    "-", "-",
)
BUGS.pop()  # equivalent change, kept out

bug(
    "c03-id-returned-at-merge", "C03",
    [(T, "        self.reid_hit_counter = None\n        self.hit_counter = self.initial_period * 2\n",
      "        self.reid_hit_counter = None\n        if tracked_object.id is not None:\n            # The id of the newcomer is free again\n            self._obj_factory.count -= 1\n        self.hit_counter = self.initial_period * 2\n")],
    '''
def reid(new, old):
    return float(abs(new.last_detection.embedding - old.last_detection.embedding))

t = Tracker(scalar, 10, hit_counter_max=4, initialization_delay=1,
            reid_distance_function=reid, reid_distance_threshold=1, reid_hit_counter_max=50)
seen = {}
def step(dets, **kw):
    for o in t.update(dets, **kw):
        seen.setdefault(o.id, set()).add(o.last_detection.embedding)

for _ in range(4):
    step([det(0, embedding=1)])
for _ in range(8):
    step([])
# the object comes back elsewhere together with another one
for _ in range(3):
    step([det(500, embedding=1), det(900, embedding=7)])
for _ in range(3):
    step([det(500, embedding=1), det(900, embedding=7), det(1500, embedding=20)])
for i in range(4):
    step([det(500, embedding=1), det(900, embedding=7), det(1500, embedding=20), det(2500, embedding=40)])
assert all(len(v) == 1 for v in seen.values()), seen
''',
    "a ReID merge of a newcomer that is initialized by the very match that makes it a candidate",
    "The id counter is decremented at a merge although the newcomer's id was given out, so a later object gets an id that another one has or had.",
)

bug(
    "c04-global-id-race", "C04",
    [(T, "        self.id, self.global_id = self._obj_factory.get_ids()\n",
      "        self.id, _ = self._obj_factory.get_ids()\n        self.global_id = _TrackedObjectFactory.global_count\n")],
    '''
# two threads initialize an object each; the switch happens between the two statements
import sys
import threading

ids = []
trackers = [Tracker(scalar, 10, hit_counter_max=4, initialization_delay=0) for _ in range(2)]
go = [threading.Event(), threading.Event()]

def other():
    go[0].wait(5)
    ids.append(trackers[1].update([det(0)])[0].global_id)
    go[1].set()

def tracer(frame, event, arg):
    if not frame.f_code.co_filename.endswith("tracker.py"):
        return None
    def local(f, ev, a):
        if f.f_code.co_name == "_acquire_ids" and ev in ("line", "return") and not go[0].is_set() and local.n >= 1:
            go[0].set()
            go[1].wait(5)
        if f.f_code.co_name == "_acquire_ids":
            local.n += 1
        return local
    local.n = 0
    return local

th = threading.Thread(target=other)
th.start()
sys.settrace(tracer)
o = trackers[0].update([det(0)])[0]
sys.settrace(None)
go[0].set()
th.join()
ids.append(o.global_id)
assert len(set(ids)) == 2, ids
''',
    "two threads initializing objects, with a thread switch between giving out the id and reading the global count",
    "Two objects of different trackers get the same global id.",
)

bug(
    "c05-second-stage-threshold", "C05",
    [(T, "                    d for i, d in enumerate(candidates) if i not in matched_cand_indices\n",
      "                    d\n                    for i, d in enumerate(candidates)\n                    if i not in matched_cand_indices and np.isfinite(distance_matrix[i].max())\n                ] + [\n                    d\n                    for i, d in enumerate(candidates)\n                    if i not in matched_cand_indices and not np.isfinite(distance_matrix[i].max())\n"),
     (T, "            [o for o in alive_objects if o.is_initializing],\n            unmatched_detections,\n",
      "            [\n                o\n                for o in self.tracked_objects\n                if o.is_initializing and o.hit_counter_is_positive\n            ],\n            unmatched_detections,\n")],
    "",
    "-", "-",
)
BUGS.pop()

bug(
    "c05-just-initialized-matches-twice", "C05",
    [(T, "            [o for o in alive_objects if o.is_initializing],\n            unmatched_detections,\n",
      "            [o for o in alive_objects if o not in unmatched_init_trackers],\n            unmatched_detections,\n")],
    '''
t = Tracker(scalar, 10, hit_counter_max=8, initialization_delay=1)
for _ in range(4):
    t.update([det(0)])
a, b = det(0), det(4)
t.update([a, b])
last = [o.last_detection for o in t.tracked_objects]
assert len(last) == 2 and a in last and b in last, len(last)
''',
    "an initialized object that was matched, with a second detection within the threshold in the same frame",
    "An object that was matched in the first stage takes part in the second stage and is matched to two detections in one update.",
)

bug(
    "c06-duplicate-newcomers", "C06",
    [(T, "        for detection in unmatched_detections:\n            self.tracked_objects.append(\n",
      "        for i, detection in enumerate(unmatched_detections):\n            if any(\n                np.array_equal(detection.points, other.points)\n                for other in unmatched_detections[:i]\n            ):\n                # The detector reported the same object twice\n                continue\n            self.tracked_objects.append(\n")],
    '''
t = Tracker(scalar, 10, hit_counter_max=8, initialization_delay=1)
a, b = det(5, label="car"), det(5, label="person")
t.update([a, b])
assert len(t.tracked_objects) == 2
''',
    "two detections at exactly the same points in one frame, neither of which matches an object",
    "The second of them is dropped without becoming the detection of any object.",
)

bug(
    "c07-merge-period", "C07",
    [(T, "        self.hit_counter = self.initial_period * 2\n", "        self.hit_counter = tracked_object.initial_period * 2\n")],
    '''
def reid(new, old):
    return 0.0

t = Tracker(scalar, 10, hit_counter_max=8, initialization_delay=4,
            reid_distance_function=reid, reid_distance_threshold=1, reid_hit_counter_max=20)
t.update([det(0)], period=1)
for _ in range(6):
    t.update([det(0)], period=1)
for _ in range(12):
    t.update()
t.update([det(900)], period=3)
for _ in range(2):
    t.update()
out = t.update([det(900)], period=3)
assert len(out) == 1 and out[0].id == 1 and out[0].hit_counter == 2, out
''',
    "a revival while the period differs from the one at which the old object was first seen",
    "The revived object's inertia restarts at twice the newcomer's first period instead of its own.",
)

bug(
    "c08-validate-first", "C08",
    [(T, "        # Remove stale trackers and make candidate object real if the hit counter is positive\n",
      "        for det in detections or []:\n            if not isinstance(det, Detection):\n                raise ValueError(f\"Expected a {Detection}, got {type(det)}\")\n\n        # Remove stale trackers and make candidate object real if the hit counter is positive\n")],
    '''
t = Tracker(scalar, 10, hit_counter_max=8, initialization_delay=1)
for _ in range(4):
    objs = t.update([det(0)])
age = objs[0].age
try:
    t.update([det(0), "oops"])
except Exception:
    pass
else:
    raise SystemExit("accepted")
assert t.tracked_objects[0].age == age + 1
''',
    "an update that is given something that is not a Detection",
    "The failing frame does not count as elapsed: ages and counters stand still and the estimates do not advance.",
)

bug(
    "c09-lost-objects-keep-old-camera", "C09",
    [(T, "            obj.tracker_step()\n            obj.update_coordinate_transformation(coord_transformations)\n",
      "            obj.tracker_step()\n        for obj in alive_objects:\n            obj.update_coordinate_transformation(coord_transformations)\n")],
    '''
from norfair.camera_motion import TranslationTransformation as TT

def absd(d, o):
    return float(np.abs(d.absolute_points - o.get_estimate(absolute=True)).sum())

def reid(new, old):
    return 0.0

t = Tracker(absd, 10, hit_counter_max=3, initialization_delay=1,
            reid_distance_function=reid, reid_distance_threshold=1, reid_hit_counter_max=20)
for i in range(4):
    t.update([det(0)], coord_transformations=TT(np.array([0.0, 0.0])))
for i in range(8):
    t.update([], coord_transformations=TT(np.array([i * 5.0, 0.0])))
for i in range(2):
    out = t.update([det(300)], coord_transformations=TT(np.array([100.0, 0.0])))
assert out[0].id == 1
assert np.allclose(out[0].estimate, [[300, 0]]), out[0].estimate
''',
    "a lost object revived by ReID under a moving camera",
    "Lost objects do not see the new camera transformations, so on the update of its revival the object's relative estimate is off by the camera motion since it was lost.",
)

bug(
    "c10-merge-forgets-points", "C10",
    [(T, "        self.detected_at_least_once_points = (\n            tracked_object.detected_at_least_once_points\n        )\n        self.filter = tracked_object.filter\n",
      "        self.detected_at_least_once_points = np.logical_or(\n            self.detected_at_least_once_points,\n            tracked_object.detected_at_least_once_points,\n        )\n        self.filter = tracked_object.filter\n")],
    '''
def two(a, b, sb):
    return Detection(points=np.array([[a, 0.0], [b, 0.0]]), scores=np.array([1.0, sb]))

def dist(d, o):
    return float(np.abs(d.points[0] - o.estimate[0]).sum())

def reid(new, old):
    return 0.0

t = Tracker(dist, 20, hit_counter_max=3, initialization_delay=1,
            reid_distance_function=reid, reid_distance_threshold=1, reid_hit_counter_max=20)
for _ in range(4):
    t.update([two(0.0, 50.0, 1.0)])
for _ in range(7):
    t.update()
for _ in range(3):
    t.update([two(900.0, 0.0, 0.0)])   # the second point is not seen: garbage
out = t.update([two(900.0, 950.0, 1.0)])
assert out[0].id == 1 and np.allclose(out[0].estimate[1], [950, 0]), out[0].estimate
''',
    "a ReID merge with a newcomer that has a point that was never reliable yet, followed by that point's first reliable detection",
    "The garbage coordinates of a never detected point enter the estimate after a revival.",
)

bug(
    "c11-cov-on-missing-point", "C11",
    [("norfair/filter.py", "        self.pos_vel_covariance = np.multiply(\n            vel_var_plus_pos_vel_cov_over_added_variances, added_variances_or_kalman_r\n        )\n",
      "        self.pos_vel_covariance = np.multiply(\n            vel_var_plus_pos_vel_cov_over_added_variances, kalman_r\n        )\n")],
    '''
def two(a, b, sb):
    return Detection(points=np.array([[a, 0.0], [b, 0.0]]), scores=np.array([1.0, sb]))

def run(factory):
    t = Tracker(lambda d, o: float(np.abs(d.points[0] - o.estimate[0]).sum()), 50, hit_counter_max=6,
                initialization_delay=1, filter_factory=factory)
    for i in range(12):
        out = t.update([two(2.0 * i, 50 + 3.0 * i, 1.0 if i % 4 != 3 else 0.0)])
    return np.hstack([out[0].estimate, out[0].estimate_velocity])

class Ref:
    """position/velocity Kalman filter of one coordinate"""
    def __init__(self, z):
        self.x = np.array([z, 0.0]); self.P = np.diag([10.0, 1.0])
    def step(self, z):
        F = np.array([[1, 1], [0, 1.0]])
        self.x = F @ self.x
        P = F @ self.P @ F.T + np.diag([0.1, 0.1])
        if z is not None:
            H = np.array([[1.0, 0.0]])
            K = P @ H.T / (P[0, 0] + 4.0)
            self.x = self.x + (K * (z - self.x[0])).ravel()
            P = P - K @ H @ P
        self.P = P

r = Ref(50.0)
for i in range(1, 12):
    r.step(50 + 3.0 * i if i % 4 != 3 else None)
got = run(OptimizedKalmanFilterFactory())[1]
assert abs(got[0] - r.x[0]) < 1e-6 and abs(got[2] - r.x[1]) < 1e-6, (got, r.x)
''',
    "an object one of whose points is missing from a matched detection and comes back later",
    "The covariance of a point that was not measured is treated as if it had been, so later corrections of that point's position and velocity have the wrong gain.",
)

bug(
    "c12-returned-list-aliased", "C12",
    [(T, "        return [\n            o\n            for o in self.tracked_objects\n            if not o.is_initializing and o.hit_counter_is_positive\n        ]\n",
      "        active = [\n            o\n            for o in self.tracked_objects\n            if not o.is_initializing and o.hit_counter_is_positive\n        ]\n        # Avoid keeping a copy if every object is active\n        return self.tracked_objects if active == self.tracked_objects else active\n")],
    '''
t = Tracker(scalar, 10, hit_counter_max=8, initialization_delay=1)
for _ in range(4):
    out = t.update([det(0), det(500)])
assert len(out) == 2
out.clear()
out = t.update([det(0), det(500)])
assert sorted(o.id for o in out) == [1, 2]
''',
    "a caller that modifies the returned list on a frame on which all objects are active",
    "Clearing or filtering the returned list deletes the tracker's objects.",
)

bug(
    "c13-first-kept", "C13",
    [(T, "            self.past_detections.pop(0)\n            self._past_detections_ages.pop(0)\n",
      "            # the detection it was born of stays\n            oldest = 0 if self._past_detections_ages[0] else 1\n            self.past_detections.pop(oldest)\n            self._past_detections_ages.pop(oldest)\n")],
    '''
t = Tracker(scalar, 10, hit_counter_max=8, initialization_delay=1, past_detections_length=3)
dets = [det(0) for _ in range(30)]
ages = None
for d in dets:
    t.update([d])
    ages = [p.age for p in t.tracked_objects[0].past_detections]
# reference
ref, past = [], []
for age in range(30):
    if len(past) < 3:
        past.append(age)
    elif age >= past[0] * 3:
        past.pop(0)
        past.append(age)
assert ages == past, (ages, past)
''',
    "an object that lives long enough for the first detection to be replaced",
    "The first detection is never replaced and the others are not spread over the lifetime.",
)

bug(
    "c14-last-detection-wins-new", "C14",
    [(T, "                matched_objects = []\n\n                # Handle matched people/detections\n",
      "                matched_objects = []\n                period = period if len(matched_cand_indices) < 3 else max(period, 1)\n\n                # Handle matched people/detections\n"),
     (T, "                distance_matrix[det_idx, :] = np.inf\n                distance_matrix[:, obj_idx] = np.inf\n",
      "                distance_matrix[det_idx, :] = np.inf\n                distance_matrix[: det_idx + 1, obj_idx] = np.inf\n")],
    "", "-", "-",
)
BUGS.pop()

bug(
    "c14-label-of-first", "C14",
    [(T, "            # Used just for debugging distance function\n",
      "            # Matching is done on a coarser scale: tiny differences are only noise\n            distance_matrix = np.round(distance_matrix / distance_threshold, 2) * distance_threshold if np.isfinite(distance_matrix).all() and 0 < distance_threshold < np.inf else distance_matrix\n\n            # Used just for debugging distance function\n")],
    '''
def run(order):
    t = Tracker(scalar, 1000, hit_counter_max=8, initialization_delay=1, filter_factory=NoFilterFactory())
    for _ in range(3):
        t.update([det(0)])
    dets = [det(1), det(-2)]
    t.update([dets[i] for i in order])
    return float(t.tracked_objects[0].estimate[0, 0])

assert run([0, 1]) == run([1, 0]) == 1.0
''',
    "two detections whose distances to an object differ by less than a hundredth of the threshold",
    "Near ties are decided by the position of the detection in the list, and not the closest one is matched.",
)

bug(
    "c15-first-period", "C15",
    [(T, "        self.point_hit_counter: np.ndarray = self.detected_at_least_once_points.astype(\n            int\n        )\n",
      "        self.point_hit_counter: np.ndarray = (\n            self.detected_at_least_once_points.astype(int) * period\n        )\n")],
    '''
t = Tracker(scalar, 10, hit_counter_max=12, initialization_delay=1)
t.update([det(0)], period=4)
o = t.tracked_objects[0]
assert o.live_points.tolist() == [True]
t.update()
assert o.live_points.tolist() == [False]
''',
    "an object first seen with a period above 1 that is missed right afterwards",
    "Points of a new object stay live too long.",
)

V = "norfair/video.py"
VHEAD = '''
import os
import tempfile
import numpy as np
import cv2
import norfair.video as nv
from norfair import Video

LOG = []


class Capture:
    def __init__(self, source):
        self.frames = [np.full((4, 6, 3), i, np.uint8) for i in range(N_FRAMES)]
        self.i = 0
    def get(self, prop):
        return {cv2.CAP_PROP_FRAME_COUNT: META, cv2.CAP_PROP_FPS: 25.0,
                cv2.CAP_PROP_FRAME_HEIGHT: 4, cv2.CAP_PROP_FRAME_WIDTH: 6}[prop]
    def read(self):
        i, self.i = self.i, self.i + 1
        if i in BAD:
            return BAD[i]
        if i < len(self.frames):
            return True, self.frames[i]
        return False, None
    def release(self):
        LOG.append("release capture")
    def isOpened(self):
        return True


class Writer:
    def __init__(self, path, *a):
        LOG.append(("open", path))
    def write(self, frame):
        LOG.append(("write", int(frame[0, 0, 0])))
    def release(self):
        LOG.append("release writer")


cv2.VideoCapture = Capture
cv2.VideoWriter = Writer
cv2.waitKey = lambda *_: -1
cv2.destroyAllWindows = lambda: None
N_FRAMES, META, BAD = 6, 6, {}
tmp = tempfile.TemporaryDirectory()
src = os.path.join(tmp.name, "in.mp4")
open(src, "w").close()

'''

bug(
    "c16-metadata-trusted", "C16",
    [(V, "            while True:\n                self.frame_counter += 1\n",
      "            total = self.progress_bar.tasks[0].total\n            while not total or self.frame_counter < total:\n                self.frame_counter += 1\n")],
    '''
META = 4
v = Video(input_path=src)
seen = [int(f[0, 0, 0]) for f in v]
assert seen == list(range(6)), seen
''',
    "a file whose frame count metadata is smaller than the number of its frames",
    "Iteration stops at the announced frame count and the remaining frames are lost.",
    head=VHEAD,
)

bug(
    "c16-failed-read", "C16",
    [(V, "                if ret is False or frame is None:\n", "                if not ret and frame is None:\n")],
    '''
BAD = {3: (False, np.full((4, 6, 3), 99, np.uint8))}
v = Video(input_path=src)
seen = [int(f[0, 0, 0]) for f in v]
assert seen == [0, 1, 2], seen
''',
    "a device whose failing read returns its stale buffer",
    "The stale frame of a failed read is delivered and iteration goes on.",
    head=VHEAD,
)

bug(
    "c17-released-on-interruption", "C17",
    [(V, "        # Cleanup\n        if self.output_video is not None:\n            self.output_video.release()\n",
      "        # Cleanup\n        if self.output_video is not None:\n            self._close_output()\n"),
     (V, "                yield frame\n\n", "                try:\n                    yield frame\n                except GeneratorExit:\n                    self._close_output()\n                    raise\n\n"),
     (V, "    def _fail(self, msg: str):\n", "    def _close_output(self):\n        if self.output_video is not None:\n            self.output_video.release()\n\n    def _fail(self, msg: str):\n")],
    '''
v = Video(input_path=src, output_path=os.path.join(tmp.name, "out.mp4"))
for f in v:
    v.write(f)
    if f[0, 0, 0] == 2:
        break
for f in v:
    v.write(f)
assert LOG[1:] == [("write", i) for i in range(6)] + ["release writer", "release capture"], LOG
''',
    "an iteration that is interrupted and taken up again while the output is being written",
    "The output is released at the interruption, and what is written afterwards goes to a closed file.",
    head=VHEAD,
)

M = "norfair/metrics.py"
MHEAD = '''
import os
import tempfile
import numpy as np
from norfair import metrics

tmp = tempfile.TemporaryDirectory()


class Info:
    def __init__(self, n):
        self.n = n
    def search(self, variable_name):
        return {"seqLength": self.n, "frameRate": 25, "imWidth": 6, "imHeight": 4, "imExt": ".png", "imDir": "img1"}[variable_name]


class Obj:
    def __init__(self, id, x=0.0):
        self.id = id
        self.estimate = np.array([[x, 1.0], [x + 10, 21.0]])


def seq(name, gt=(), det=()):
    path = os.path.join(tmp.name, name)
    os.makedirs(os.path.join(path, "gt"), exist_ok=True)
    os.makedirs(os.path.join(path, "det"), exist_ok=True)
    with open(os.path.join(path, "gt", "gt.txt"), "w") as f:
        f.writelines(r + "\\n" for r in gt)
    with open(os.path.join(path, "det", "det.txt"), "w") as f:
        f.writelines(r + "\\n" for r in det)
    return path

'''

bug(
    "c18-shared-predictions", "C18",
    [(M, "    def __init__(self):\n        self.matrixes_predictions = []\n        self.paths = []\n",
      "    def __init__(self, matrixes_predictions=[], paths=[]):\n        self.matrixes_predictions = matrixes_predictions\n        self.paths = paths\n")],
    '''
a, b = metrics.Accumulators(), metrics.Accumulators()
pa, pb = seq("a"), seq("b")
a.create_accumulator(pa, Info(3))
b.create_accumulator(pb, Info(3))
a.update([Obj(1)])
b.update([Obj(2)])
a.update([Obj(1)])
rows = np.atleast_2d(a.matrixes_predictions[-1])
assert set(rows[:, 1]) == {1} and len(a.matrixes_predictions) == 1, a.matrixes_predictions
''',
    "two Accumulators alive in one process",
    "Evaluations share their list of predictions, so one overwrites the other's.",
    head=MHEAD,
)

bug(
    "c19-skips-unreadable", "C19",
    [(V, "            self.frame_number += 1\n\n            return cv2.imread(frame_path)\n",
      "            self.frame_number += 1\n\n            frame = cv2.imread(frame_path)\n            if frame is None and self.frame_number <= self.length:\n                return next(self)\n            return frame\n")],
    '''
import cv2
from norfair.video import VideoFromFrames
path = os.path.join(tmp.name, "s")
os.makedirs(os.path.join(path, "img1"))
for i in (1, 2, 4, 5):
    cv2.imwrite(os.path.join(path, "img1", f"{i:06d}.png"), np.full((4, 6, 3), i, np.uint8))
got = [None if f is None else int(f[0, 0, 0]) for f in VideoFromFrames(path, information_file=Info(5), make_video=False)]
assert got == [1, 2, None, 4, 5], got
''',
    "an image sequence with a missing file that is not the last one",
    "Frames after the missing one come too early, so frame numbers shift against the detections and the ground truth.",
    head=MHEAD,
)

bug(
    "c20-appends", "C20",
    [(M, "        self.text_file = open(out_file_name, \"w+\")\n", "        self.text_file = open(out_file_name, \"a+\")\n")],
    '''
for attempt in range(2):
    p = metrics.PredictionsTextFile(os.path.join(tmp.name, "s"), save_path=tmp.name, information_file=Info(4))
    for i in range(2 if attempt == 0 else 4):
        p.update([Obj(1, float(i))])
    if attempt == 0:
        p.text_file.flush()      # the process dies here
        del p
rows = open(os.path.join(tmp.name, "predictions", "s.txt")).read().splitlines()
assert [int(r.split(",")[0]) for r in rows] == [1, 2, 3, 4], rows
''',
    "a run that is repeated after one that crashed or finished",
    "The rows of the earlier run stay in the predictions file in front of the new ones.",
    head=MHEAD,
)

bug(
    "c20-frame-from-caller", "C20",
    [(M, "        self.frame_number += 1\n\n        if self.frame_number > self.length:\n            self.text_file.close()\n",
      "        self.frame_number = frame_number + 1\n\n        if self.frame_number > self.length:\n            self.text_file.close()\n")],
    '''
p = metrics.PredictionsTextFile(os.path.join(tmp.name, "s"), save_path=tmp.name, information_file=Info(3))
for n in (3, 1, 2):        # a detector working on the frames out of order
    p.update([Obj(1)], frame_number=n)
rows = open(os.path.join(tmp.name, "predictions", "s.txt")).read().splitlines()
assert [int(r.split(",")[0]) for r in rows] == [3, 1, 2], rows
''',
    "a caller that passes frame numbers, the last frame's before the last update",
    "The file is closed too early and the next update fails, losing rows.",
    head=MHEAD,
)

bug(
    "c21-unsorted-rows", "C21",
    [(M, "        row_order = np.argsort(self.matrix_detections[:, 0])\n        self.matrix_detections = self.matrix_detections[row_order]\n", ""),
     (M, "        indexes = np.argwhere(self.matrix_detections[:, 0] == frame_number)\n",
      "        first, last = np.searchsorted(\n            self.matrix_detections[:, 0], [frame_number, frame_number + 1]\n        )\n        indexes = np.arange(first, last).reshape(-1, 1)\n")],
    '''
rows = [f"{n},-1,{n * 10},5,10,20,0.9,-1,-1,-1" for n in (3, 1, 2, 1)]
path = seq("s", det=rows)
got = [len(d) for d in metrics.DetectionFileParser(path, Info(3))]
assert got == [2, 1, 1], got
''',
    "a detection file whose rows are not ordered by frame",
    "Rows out of order are lost or given to other frames.",
    head=MHEAD,
)

bug(
    "c22-empty-frames", "C22",
    [(M, "        # Get the tracked boxes from this frame in an array\n        for obj in predictions:\n",
      "        # Get the tracked boxes from this frame in an array\n        if len(predictions) == 0 and len(self.matrix_predictions) == 0:\n            # Nothing was predicted yet\n            next(self.progress_bar_iter, None)\n            return\n        for obj in predictions:\n")],
    '''
gt = [f"{n},1,{10 * n},1,10,20,1,-1,-1,-1" for n in (3, 4, 5)]
path = seq("s", gt=gt)
a = metrics.Accumulators()
a.create_accumulator(path, Info(5))
for n in range(1, 6):
    a.update([Obj(1, 10.0 * n)] if n >= 3 else [])
a.matrixes_predictions = a.matrixes_predictions
rows = np.atleast_2d(a.matrixes_predictions[0])
assert rows[:, 0].tolist() == [3, 4, 5], rows
''',
    "a sequence that begins with frames without predictions",
    "The predictions are evaluated at frames that are too early.",
    head=MHEAD,
)

C = "norfair/camera_motion.py"
bug(
    "c23-copy-used", "C23",
    [(C, "            del self.transformations_getter\n            self.transformations_getter = copy.deepcopy(\n                self.transformations_getter_copy\n            )\n",
      "            self.transformations_getter = self.transformations_getter_copy\n")],
    '''
from norfair.camera_motion import MotionEstimator, TransformationGetter, TranslationTransformation


class Getter(TransformationGetter):
    def __init__(self):
        self.calls = 0
    def __call__(self, curr, prev):
        self.calls += 1
        if FAIL:
            raise RuntimeError("no transformation")
        return True, TranslationTransformation(np.array([self.calls, 0.0]))


FAIL = False
rng = np.random.default_rng(0)
frame = rng.integers(0, 255, (80, 80, 3)).astype(np.uint8)
e = MotionEstimator(transformations_getter=Getter())
firsts = []
for round in range(2):
    FAIL = True
    e.update(frame)
    FAIL = False
    firsts.append(e.update(frame).movement_vector[0])
    e.update(frame)
assert firsts == [1, 1], firsts
''',
    "two failures of the transformation getter in one video",
    "After the second failure the getter is not pristine but carries the state left by the frames since the first.",
)

bug(
    "c24-composition-order", "C24",
    [(C, "            homography_matrix = homography_matrix @ self.data\n", "            homography_matrix = self.data @ homography_matrix\n")],
    '''
from norfair.camera_motion import HomographyTransformationGetter

def rot(a, tx, ty):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, -s, tx], [s, c, ty], [0, 0, 1.0]])

def ap(H, p):
    q = np.hstack([p, np.ones((len(p), 1))]) @ H.T
    return q[:, :2] / q[:, 2:]

rng = np.random.default_rng(0)
pts = rng.uniform(0, 200, (60, 2))
A, B = rot(0.1, 30, 0), rot(0.0, 0, 40)
g = HomographyTransformationGetter()
p1 = ap(A, pts)
noisy = p1.copy()
noisy[:10] += 60                       # wrongly tracked points: the reference frame changes
g(noisy.astype(np.float32), pts.astype(np.float32))
_, t = g(ap(B, p1).astype(np.float32), p1.astype(np.float32))
assert np.abs(t.abs_to_rel(pts) - ap(B, p1)).max() < 1, np.abs(t.abs_to_rel(pts) - ap(B, p1)).max()
''',
    "a change of the reference frame in a video whose camera rotates, zooms or tilts as well as moves",
    "Homographies before and after a change of reference are composed in the wrong order.",
)

bug(
    "c24-mask-of-current", "C24",
    [(C, "            self.prev_pts = None\n            self.prev_mask = mask\n        else:\n            self.prev_pts = prev_pts\n",
      "            self.prev_pts = None\n        else:\n            self.prev_pts = prev_pts\n")],
    '''
import cv2
from norfair.camera_motion import MotionEstimator, TranslationTransformationGetter

masks = []
real = cv2.goodFeaturesToTrack
def spy(*a, **k):
    masks.append(k.get("mask"))
    return real(*a, **k)
cv2.goodFeaturesToTrack = spy
rng = np.random.default_rng(0)
frames = [rng.integers(0, 255, (80, 80, 3)).astype(np.uint8) for _ in range(5)]
e = MotionEstimator(transformations_getter=TranslationTransformationGetter())
ms = [np.full((80, 80), 1, np.uint8) for _ in frames]
for f, m in zip(frames, ms):
    e.update(f, m)        # unrelated frames: the reference changes each time
used = [[i for i, m in enumerate(ms) if m is u][0] for u in masks]
assert len(used) >= 4 and used[-1] == 3 and used != [0] * len(used), used
''',
    "masked moving objects and a change of the reference frame",
    "The points of a new reference frame are sampled with the mask of the first one, so moving objects are tracked as background.",
)

bug(
    "c25-detection-without-live-points", "C25",
    [("norfair/drawing/draw_points.py", "                if live or not hide_dead_points:\n", "                if live or not (hide_dead_points or d.live_points.any()):\n")],
    '''
import cv2
from norfair.drawing import draw_points

def two(sb):
    return Detection(points=np.array([[20.0, 20.0], [70.0, 70.0]]), scores=np.array([1.0, sb]))
t = Tracker(lambda d, o: float(np.abs(d.points - o.estimate).sum()), 50, hit_counter_max=15, initialization_delay=1)
for i in range(12):
    out = t.update([two(1.0 if i < 5 else 0.0)])
assert out[0].live_points.tolist() == [True, False]
frame = np.zeros((100, 100, 3), np.uint8)
draw_points(frame, out, radius=3, hide_dead_points=False, draw_ids=False)
assert frame[70, 70].any() and frame[20, 20].any()
''',
    "an object with both live and dead points drawn with hide_dead_points=False",
    "Dead points are hidden although it was not requested.",
)

bug(
    "c25-position-in-place", "C25",
    [("norfair/drawing/draw_boxes.py", "        points = d.points.astype(int)\n", "        points = d.points\n        points[:] = points.round()\n        points = points.astype(int)\n")],
    '''
from norfair.drawing import draw_boxes

d = Detection(points=np.array([[20.4, 20.4], [70.6, 70.6]]))
frame = np.zeros((100, 100, 3), np.uint8)
draw_boxes(frame, [d])
assert d.points[0, 0] == 20.4, d.points
''',
    "drawing boxes of detections or objects with fractional coordinates while they are tracked",
    "Drawing rounds the caller's detections and the tracker's state.",
)

bug(
    "c26-above-the-view", "C26",
    [("norfair/drawing/fixed_camera.py", "            background_y1 = max(background_y1, 0)\n", "")],
    '''
from norfair.camera_motion import TranslationTransformation as TT
from norfair.drawing import FixedCamera

f = FixedCamera(scale=2, attenuation=0.0)
frame = np.full((20, 30, 3), 200, np.uint8)
first = f.adjust_frame(frame, TT(np.array([0.0, 0.0]))).copy()
out = f.adjust_frame(frame, TT(np.array([0.0, 45.0])))
assert (out == first).all()
''',
    "a camera that jumps so far that the frame lies completely above the view",
    "The background slice wraps around; adjusting fails or paints in the wrong place.",
)

bug(
    "c27-history-by-label", "C27",
    [("norfair/drawing/path.py", "            self.past_points[obj.id].insert(0, points_to_draw)\n            self.past_points[obj.id] = self.past_points[obj.id][: self.max_history]\n",
      "            self.past_points[obj.id].insert(0, points_to_draw)\n            if len(self.past_points[obj.id]) >= self.max_history:\n                self.past_points[obj.id].pop()\n")],
    '''
import cv2
from norfair.camera_motion import TranslationTransformation as TT
from norfair.drawing import AbsolutePaths

lines = []
real = cv2.line
def spy(*a, **k):
    lines.append((k.get("pt1"), k.get("pt2")))
    return real(*a, **k)
cv2.line = spy
t = Tracker(scalar, 50, hit_counter_max=8, initialization_delay=1)
p = AbsolutePaths(max_history=4)
tr = TT(np.array([0.0, 0.0]))
frame = np.zeros((60, 200, 3), np.uint8)
for i in range(9):
    lines.clear()
    p.draw(frame.copy(), t.update([det(10 * i, 20)], coord_transformations=tr), tr)
assert len(lines) == 4, lines
''',
    "an object that is drawn more often than max_history times",
    "The path is one position shorter than max_history.",
)

bug(
    "c27-paths-skip-dead", "C27",
    [("norfair/drawing/path.py", "            if self.color is None:\n                color = Palette.choose_color(obj.id)\n            else:\n                color = self.color\n\n            points_to_draw = self.get_points_to_draw(obj.estimate)\n",
      "            if self.color is None:\n                color = Palette.choose_color(obj.id)\n            else:\n                color = self.color\n            if obj.hit_counter == 0 and not obj.live_points.any():\n                # about to be dropped\n                continue\n\n            points_to_draw = self.get_points_to_draw(obj.estimate)\n")],
    '''
from norfair.drawing import Paths

t = Tracker(scalar, 50, hit_counter_max=8, initialization_delay=1, filter_factory=NoFilterFactory())
p = Paths(attenuation=1.0, color=(255, 255, 255))
frame = np.zeros((60, 200, 3), np.uint8)
for i in range(6):
    t.update([det(50, 20)])
n = 0
while True:
    objs = t.update()
    if not objs:
        break
    assert p.draw(frame.copy(), objs)[15:26, 45:56].any(), n
    n += 1
assert n > 5
''',
    "an object in the last frame of its inertia",
    "The path of a reported object has a hole.",
)

bug(
    "c09-none-transformation", "C09",
    [(T, "        if coordinate_transformation is not None:\n            self.abs_to_rel = coordinate_transformation.abs_to_rel\n",
      "        self.abs_to_rel = getattr(coordinate_transformation, \"abs_to_rel\", None)\n")],
    '''
from norfair.camera_motion import TranslationTransformation as TT

t = Tracker(scalar, 50, hit_counter_max=8, initialization_delay=1)
for i in range(4):
    t.update([det(10)], coord_transformations=TT(np.array([30.0, 0.0])))
out = t.update([], coord_transformations=None)      # the estimation failed in this frame
assert abs(out[0].estimate[0, 0] - 10) < 1e-6, out[0].estimate
''',
    "a frame in which the motion estimation fails while the camera is away from its first position",
    "On such frames the objects are reported in absolute coordinates, and are lost or swapped.",
)

bug(
    "c31-point-at-the-origin", "C31",
    [(T, "            self.detected_at_least_once_points = np.array([True] * self.num_points)\n",
      "            # Detectors like OpenPose report keypoints they have not found at (0, 0)\n            self.detected_at_least_once_points = initial_detection.absolute_points.any(axis=1)\n")],
    '''
def run(shift):
    t = Tracker("euclidean", 30, initialization_delay=0, hit_counter_max=5)
    return [[(o.id, o.live_points.tolist()) for o in t.update([Detection(points=np.array([[0.0, 0.0], [10.0, 5.0]]) + shift)])] for _ in range(3)]
assert run(0.0) == run(100.0), (run(0.0), run(100.0))
''',
    "an object whose first detection has a point exactly at the origin of coordinates",
    "The point counts as not detected, so it is not live and its velocity is cleared, depending on where the origin lies.",
)

bug(
    "c31-estimates-stay-in-the-image", "C31",
    [(T, "        positions = self.filter.x.T.flatten()[: self.dim_z].reshape(-1, self.dim_points)\n        if self.abs_to_rel is None:\n            if not absolute:\n                return positions\n",
      "        positions = self.filter.x.T.flatten()[: self.dim_z].reshape(-1, self.dim_points)\n        if self.abs_to_rel is None:\n            if not absolute:\n                # An object cannot be outside of the image, whatever its velocity\n                return np.maximum(positions, 0) if self.hit_counter < self.hit_counter_max - 1 else positions\n")],
    '''
def run(sign):
    t = Tracker("euclidean", 30, initialization_delay=0, hit_counter_max=6)
    out = []
    for k in range(6):
        out = t.update([det(sign * (20 + 9 * k), 5)])
    for k in range(5):
        out = t.update()
    return out[0].estimate * [sign, 1]
assert np.allclose(run(1), run(-1)), (run(1), run(-1))
''',
    "an object that has been missed for some updates with a predicted position at negative coordinates",
    "Predictions are clipped at zero: the same history mirrored or shifted gives different estimates and matches.",
)

bug(
    "c32-label-zero", "C32",
    [("norfair/distances.py", "                if candidate.label != obj.label:\n                    if (",
      "                if candidate.label and obj.label and candidate.label != obj.label:\n                    if (")],
    '''
def run(labels):
    t = Tracker(scalar, 30, initialization_delay=0, hit_counter_max=5)
    t.update([det(0, label=l) for l in labels])
    return sorted((o.label, float(o.estimate[0, 0])) for k in (1, 2) for o in t.update([det(0 + k, label=l) for l in labels[::-1]]) if o.label == 1)
alone = run([1])
both = run([0, 1])
assert both == alone, (both, alone)
t = Tracker(scalar, 30, initialization_delay=0, hit_counter_max=5)
t.update([det(0, label=1)])
assert len(t.update([det(0, label=0)])) == 2
''',
    "labels of which one is falsy (class 0, an empty string, no label) and close detections, scalar distance",
    "A falsy label matches every label, so objects of other classes take its detections.",
)

bug(
    "c32-first-label-decides", "C32",
    [("norfair/distances.py", "        if not objects or not candidates:\n            return distance_matrix\n\n        object_labels",
      "        if not objects or not candidates:\n            return distance_matrix\n        # no need to look at every label if all the objects are of the same kind\n        if len({o.label for o in objects}) == 1 and objects[0].label != candidates[0].label:\n            return distance_matrix\n\n        object_labels")],
    '''
t = Tracker("euclidean", 30, initialization_delay=0, hit_counter_max=5)
t.update([det(0, label="a")])
out = t.update([det(200, label="b"), det(1, label="a")])
assert sorted((o.label, o.hit_counter) for o in out) == [("a", 2), ("b", 1)], out
''',
    "all objects of one label, and a frame whose first detection has another label, vectorized distance",
    "The whole frame's detections are not matched because of one detection of another class.",
)

bug(
    "c33-fortran-points", "C33",
    [("norfair/distances.py", "                        stacked_candidates.append(c.points.ravel())\n",
      "                        stacked_candidates.append(c.points.ravel(order=\"K\"))\n")],
    '''
def run(conv):
    t = Tracker("euclidean", 40, initialization_delay=0, hit_counter_max=5)
    for k in range(3):
        out = t.update([Detection(points=conv(np.array([[k * 1.0, 100.0], [30.0, 170.0]])))])
    return [(o.id, o.hit_counter) for o in out]
assert run(np.ascontiguousarray) == run(np.asfortranarray)
''',
    "detections of two or more points stored column by column (np.asfortranarray, a transposed array) and a vectorized distance",
    "Coordinates are compared in the wrong order: the objects do not match, or match others.",
)

bug(
    "c34-chain-of-detections", "C34",
    [(T, "        self.last_detection = detection\n        self.hit_counter = min(",
      "        # Lets distance functions look at how the object was seen before\n        detection.previous = self.last_detection\n        self.last_detection = detection\n        self.hit_counter = min(")],
    '''
import gc, weakref
t = Tracker(scalar, 30, past_detections_length=2)
refs = []
for k in range(60):
    d = det(0)
    refs.append(weakref.ref(d))
    t.update([d])
    del d
gc.collect()
assert sum(r() is not None for r in refs) < 8, sum(r() is not None for r in refs)
''',
    "an object that is matched for a long time",
    "Every detection keeps its predecessor alive, with its data and embedding, for as long as the object lives.",
)

bug(
    "c34-failed-updates-pile-up", "C34",
    [(T, "        # Update initialized tracked objects with detections\n",
      "        self._in_flight = getattr(self, \"_in_flight\", [])\n        self._in_flight.append(detections)\n\n        # Update initialized tracked objects with detections\n"),
     (T, "        # Create new tracked objects from remaining unmatched detections\n",
      "        self._in_flight.pop()\n\n        # Create new tracked objects from remaining unmatched detections\n")],
    '''
import gc, weakref
bad = []
def dist(d, o):
    if bad:
        raise RuntimeError("no")
    return 0.0
t = Tracker(dist, 30)
t.update([det(0)])
refs = []
for k in range(40):
    bad[:] = [1]
    d = det(0)
    refs.append(weakref.ref(d))
    try:
        t.update([d])
    except RuntimeError:
        pass
    bad.clear()
    t.update([det(0)])
    del d
gc.collect()
assert sum(r() is not None for r in refs) < 8
''',
    "updates in which the distance function fails, again and again",
    "The detections of every failed update are kept for ever.",
)

bug(
    "c34-frames-without-texture-kept", "C34",
    [("norfair/camera_motion.py", "        self.gray_next = cv2.cvtColor(frame, cv2.COLOR_BGR2GRAY)\n",
      "        if self.gray_next is not None and self.prev_pts is None:\n            # frames without points to follow, for debugging\n            self._lost = getattr(self, \"_lost\", [])\n            self._lost.append(frame)\n        self.gray_next = cv2.cvtColor(frame, cv2.COLOR_BGR2GRAY)\n")],
    '''
import gc, weakref
from norfair.camera_motion import MotionEstimator
m = MotionEstimator()
refs = []
for k in range(30):
    f = np.full((60, 80, 3), 90, np.uint8)
    refs.append(weakref.ref(f))
    m.update(f)
    del f
gc.collect()
assert sum(r() is not None for r in refs) < 6
''',
    "a stretch of the video without texture, where no points can be followed",
    "Every frame without points stays in memory.",
)

bug(
    "c35-shared-default-getter", "C35",
    [("norfair/camera_motion.py", "        if transformations_getter is None:\n            transformations_getter = HomographyTransformationGetter()\n",
      "        if transformations_getter is None:\n            transformations_getter = _default_getter()\n"),
     ("norfair/camera_motion.py", "class MotionEstimator:\n",
      "@lru_cache(maxsize=None)\ndef _default_getter():\n    return HomographyTransformationGetter()\n\n\nclass MotionEstimator:\n"),
     ("norfair/camera_motion.py", "import copy\n", "import copy\nfrom functools import lru_cache\n")],
    '''
from norfair.camera_motion import MotionEstimator
rng = np.random.RandomState(0)
big = np.kron(rng.randint(0, 256, (60, 80)), np.ones((6, 6))).astype(np.uint8)
big = np.repeat(big[:, :, None], 3, axis=2)
def view(k, step):
    return np.ascontiguousarray(big[60:220, 60 + step * k:260 + step * k])
def position(tr):
    return tr.abs_to_rel(np.array([[100.0, 80.0]]))
alone = MotionEstimator()
one = [position(alone.update(view(k, 3))) for k in range(12)]
a, b = MotionEstimator(), MotionEstimator()
two = []
for k in range(12):
    two.append(position(a.update(view(k, 3))))
    b.update(view(k, -4))
assert all(np.allclose(x, y, atol=0.5) for x, y in zip(one, two)), (one[-1], two[-1])
''',
    "two MotionEstimators with the default arguments in the same process",
    "They share one reference frame: each estimates its motion relative to the other's camera.",
)

bug(
    "c35-mask-buffer", "C35",
    [("norfair/drawing/path.py", "            self.mask = np.zeros(frame.shape, np.uint8)\n",
      "            self.mask = _canvas(frame.shape)\n"),
     ("norfair/drawing/path.py", "        self.mask = (self.mask * self.attenuation_factor).astype(\"uint8\")\n",
      "        self.mask[:] = self.mask * self.attenuation_factor\n"),
     ("norfair/drawing/path.py", "class Paths:\n",
      "_canvases = {}\n\n\ndef _canvas(shape):\n    return _canvases.setdefault(shape, np.zeros(shape, np.uint8))\n\n\nclass Paths:\n")],
    '''
from norfair.drawing import Paths
def objs(x):
    t = Tracker(scalar, 40, initialization_delay=0)
    return t.update([det(x, 30)])
a, b = Paths(), Paths()
blank = lambda: np.zeros((60, 80, 3), np.uint8)
a.draw(blank(), objs(20))
out = b.draw(blank(), objs(60))
assert not out[:, :40].any()
''',
    "two path drawers for frames of the same size",
    "The paths of one video are drawn onto the other.",
)

bug(
    "c35-reference-of-the-caller", "C35",
    [("norfair/camera_motion.py", "        if update_prvs:\n            self.gray_prvs = self.gray_next\n",
      "        if update_prvs:\n            # one channel has all the texture there is\n            self.gray_prvs = frame[..., 1]\n")],
    '''
from norfair.camera_motion import MotionEstimator, TranslationTransformationGetter
rng = np.random.RandomState(0)
big = np.kron(rng.randint(0, 256, (60, 80)), np.ones((6, 6))).astype(np.uint8)
big = np.repeat(big[:, :, None], 3, axis=2)
def view(k):
    return np.ascontiguousarray(big[60:220, 60 + 3 * k:260 + 3 * k])
def run(spoil):
    m = MotionEstimator(transformations_getter=TranslationTransformationGetter(proportion_points_used_threshold=2.0))
    out = []
    for k in range(6):
        f = view(k)
        t = m.update(f)
        out.append(None if t is None else t.abs_to_rel(np.array([[100.0, 80.0]])).round(1).tolist())
        if spoil:
            f[:] = 0
    return out
assert run(False) == run(True), (run(False), run(True))
''',
    "a caller that draws on, or reuses, the array of a frame that becomes the reference frame",
    "The estimator looks for the previous frame's points in what the caller has made of that frame.",
)

bug(
    "c36-initializing-ids-of-the-process", "C36",
    [(T, "    def get_initializing_id(self) -> int:\n        self.initializing_count += 1\n        return self.initializing_count\n",
      "    def get_initializing_id(self) -> int:\n        self.initializing_count = _next_initializing.setdefault(id(self), 0) + 1\n        _next_initializing[id(self)] = self.initializing_count\n        return self.initializing_count\n"),
     (T, "class _TrackedObjectFactory:\n", "_next_initializing = {}\n\n\nclass _TrackedObjectFactory:\n")],
    '''
import copy
t = Tracker(scalar, 10, initialization_delay=0)
t.update([det(0), det(100)])
c = copy.deepcopy(t)
a = [o.initializing_id for o in t.update([det(0), det(100), det(500)])]
b = [o.initializing_id for o in c.update([det(0), det(100), det(500)])]
assert a == b == [1, 2, 3], (a, b)
''',
    "a tracker that is copied or restored from a file after it has seen objects",
    "The numbers given to new objects start again at 1 and repeat those of restored objects.",
)

bug(
    "c36-copy-shares-filters", "C36",
    [("norfair/filter.py", "class OptimizedKalmanFilter:\n",
      "class OptimizedKalmanFilter:\n    def __deepcopy__(self, memo):\n        # only plain arrays in here\n        clone = object.__new__(type(self))\n        clone.__dict__.update(self.__dict__)\n        return clone\n\n")],
    '''
import copy
t = Tracker(scalar, 30, initialization_delay=0)
for k in range(4):
    t.update([det(3 * k)])
c = copy.deepcopy(t)
want = c.tracked_objects[0].estimate.copy()
for k in range(3):
    t.update([det(0)])
assert np.allclose(c.tracked_objects[0].estimate, want)
''',
    "a deep copied tracker whose original goes on",
    "Copy and original share their state vectors, so each moves the other's objects.",
)

# ------------------------------------------------------------------ second series
V, M, C, D, F = (
    "norfair/video.py", "norfair/metrics.py", "norfair/camera_motion.py", "norfair/distances.py", "norfair/filter.py"
)

SEQ_HEAD = HEAD + '''
import os, tempfile, shutil, atexit
import cv2
root = tempfile.mkdtemp()
atexit.register(shutil.rmtree, root, ignore_errors=True)


def sequence(n, name="SEQ"):
    folder = os.path.join(root, name)
    os.makedirs(os.path.join(folder, "img1"))
    with open(os.path.join(folder, "seqinfo.ini"), "w") as f:
        f.write(f"[Sequence]\\nname={name}\\nimDir=img1\\nframeRate=30\\nseqLength={n}\\nimWidth=16\\nimHeight=12\\nimExt=.png\\n")
    for k in range(1, n + 1):
        cv2.imwrite(os.path.join(folder, "img1", f"{k:06d}.png"), np.full((12, 16, 3), 10 * k, np.uint8))
    return folder


class Obj:
    def __init__(self, id, x, y, w=20.0, h=20.0):
        self.id = id
        self.estimate = np.array([[x, y], [x + w, y + h]], dtype=float)

'''

bug(
    "c04-lock-per-tracker", "C04",
    [(T, "    _global_count_lock = Lock()\n\n    def __init__(self) -> None:\n        self.count = 0\n",
      "\n    def __init__(self) -> None:\n        self._lock = Lock()  # a class attribute would be shared by forked workers\n        self.count = 0\n"),
     (T, "        with _TrackedObjectFactory._global_count_lock:\n", "        with self._lock:\n")],
    '''
import sys, threading
from norfair.tracker import _TrackedObjectFactory
# the first thread is held between reading and writing the count
held, go = threading.Event(), threading.Event()
class Count(int):
    first = True
    def __add__(self, other):
        if Count.first:
            Count.first = False
            held.set()
            go.wait(2)
        return Count(int(self) + other)
_TrackedObjectFactory.global_count = Count(0)
out = []
def work(done=None):
    t = Tracker(scalar, 10, initialization_delay=0)
    out.extend(o.global_id for o in t.update([det(0)]))
a = threading.Thread(target=work)
a.start()
assert held.wait(5)
b = threading.Thread(target=work)
b.start()
b.join(0.5)
go.set()
a.join(); b.join()
assert len(set(map(int, out))) == 2, out
''',
    "two trackers in different threads that initialize an object at the same moment",
    "The counter of global ids is guarded by one lock per tracker, so two objects can get the same global id.",
)

bug(
    "c03-initializing-id-after-revival", "C03",
    [(T, "        self.reid_hit_counter = None\n        self.hit_counter = self.initial_period * 2\n",
      "        self.reid_hit_counter = None\n        self.initializing_id = tracked_object.initializing_id\n        self.hit_counter = self.initial_period * 2\n")],
    '''
t = Tracker(scalar, 10, initialization_delay=1, hit_counter_max=2, reid_distance_function=lambda a, b: 0.0,
            reid_distance_threshold=1, reid_hit_counter_max=50)
for _ in range(3):
    objs = t.update([det(0)])
first = objs[0].initializing_id
for _ in range(6):
    t.update([])
for _ in range(3):
    objs = t.update([det(300)])
assert [o.id for o in objs] == [1] and objs[0].initializing_id == first, (objs, first)
''',
    "an object revived by ReID",
    "The object's initializing_id changes to that of the newcomer that revived it.",
)

bug(
    "c05-nearest-pairs-only", "C05",
    [(T, "            current_min = distance_matrix.min()\n\n            while current_min < distance_threshold:\n                flattened_arg_min = distance_matrix.argmin()\n",
      "            current_min = distance_matrix.min()\n            # pairs far down the list are not going to be matched\n            rank = min(4 * min(distance_matrix.shape) + 4, distance_matrix.size)\n            limit = np.partition(distance_matrix, rank - 1, axis=None)[rank - 1]\n\n            while current_min < distance_threshold and current_min <= limit:\n                flattened_arg_min = distance_matrix.argmin()\n")],
    '''
# three detections compete for the first object's surroundings; the last one is far but eligible
t = Tracker(scalar, 1000, initialization_delay=0)
pos = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]
t.update([det(p) for p in pos])
objs = t.update([det(0.1), det(5.2), det(900)])
assert len(t.tracked_objects) == 12, len(t.tracked_objects)
''',
    "few detections, many objects, and a large threshold: one detection is close to many objects, another far from all",
    "Pairs below the threshold stay unmatched when many closer pairs share their partners' places in the ranking.",
)

bug(
    "c08-stale-matrix", "C08",
    [(D, "        distance_matrix = np.full(\n            (len(candidates), len(objects)),\n            fill_value=np.inf,\n            dtype=np.float32,\n        )\n        if not objects or not candidates:\n            return distance_matrix\n        for c, candidate",
      "        shape = (len(candidates), len(objects))\n        buffer = self.__dict__.get(\"_buffer\")\n        if buffer is None or buffer.shape != shape:\n            buffer = self._buffer = np.full(shape, fill_value=np.inf, dtype=np.float32)\n        distance_matrix = buffer\n        if not objects or not candidates:\n            return distance_matrix\n        for c, candidate"),
     (D, "                distance = self.distance_function(candidate, obj)\n                distance_matrix[c, o] = distance\n        return distance_matrix\n",
      "                distance = self.distance_function(candidate, obj)\n                distance_matrix[c, o] = distance\n        # the buffer is used again for the next frame\n        result = distance_matrix.copy()\n        distance_matrix.fill(np.inf)\n        return result\n")],
    '''
fail = [False]
def dist(d, o):
    if fail[0] and d.label == "b":
        raise RuntimeError("detector hiccup")
    return scalar(d, o)
t = Tracker(dist, 50, initialization_delay=0)
t.update([det(0, label="a"), det(10, label="b")])
fail[0] = True
try:
    t.update([det(0, label="a"), det(10, label="b")])
except RuntimeError:
    pass
fail[0] = False
objs = t.update([det(3, label="c"), det(10, label="b")])
assert sorted(o.last_detection.label for o in t.tracked_objects) == ["a", "b", "c"], t.tracked_objects
''',
    "an update that fails half way through the distances, followed by one with as many detections but other labels",
    "Distances of the failed update are taken for those of the next, and a detection goes to an object with another label.",
)

bug(
    "c10-score-at-threshold", "C10",
    [(T, "            points_over_threshold_mask = detection.scores > self.detection_threshold\n            matched_sensors_mask",
      "            points_over_threshold_mask = np.round(\n                detection.scores, 4\n            ) > self.detection_threshold\n            matched_sensors_mask")],
    '''
t = Tracker(lambda d, o: 1.0, 10, initialization_delay=0, detection_threshold=0.49998)
pts = lambda x: np.array([[0.0, 0.0], [x, x]])
t.update([Detection(pts(1.0), scores=np.array([1.0, 1.0]))])
t.update([Detection(pts(1.0), scores=np.array([1.0, 1.0]))])
o = t.update([Detection(pts(900.0), scores=np.array([1.0, 0.49996]))])[0]
assert o.estimate[1, 0] < 2, o.estimate
''',
    "a score that differs from the threshold in the fifth decimal",
    "Scores are rounded before they are compared, so a point just below the threshold moves the object.",
)

bug(
    "c11-variance-in-place", "C11",
    [(F, "        self.pos_variance = np.zeros((dim_z, 1)) + pos_variance\n", "        self.pos_variance = pos_variance * np.ones((dim_z, 1))\n"),
     (F, "        self.pos_vel_covariance = np.multiply(\n            vel_var_plus_pos_vel_cov_over_added_variances, added_variances_or_kalman_r\n        )\n",
      "        self.pos_vel_covariance = np.multiply(\n            vel_var_plus_pos_vel_cov_over_added_variances,\n            kalman_r if diagonal.any() else added_variances,\n        )\n")],
    '''
from norfair.filter import FilterPyKalmanFilterFactory, OptimizedKalmanFilterFactory
def run(factory):
    t = Tracker(lambda d, o: 1.0, 10, initialization_delay=0, filter_factory=factory)
    for k in range(12):
        sc = np.array([1.0, 1.0 if k % 4 else 0.0])
        objs = t.update([Detection(np.array([[2.0 * k, 0.0], [3.0 * k, k]]), scores=sc)])
    return objs[0].estimate
a, b = run(OptimizedKalmanFilterFactory()), run(FilterPyKalmanFilterFactory())
assert np.allclose(a, b, atol=1.5), (a, b)
t = OptimizedKalmanFilterFactory().create_filter(np.array([[0.0, 0.0], [0.0, 0.0]]))
H = np.hstack([np.diag([1.0, 1.0, 0.0, 0.0]), np.zeros((4, 4))])
for k in range(3):
    t.predict()
    t.update(np.zeros((4, 1)), None, H)
assert t.pos_vel_covariance[2, 0] > t.pos_vel_covariance[0, 0], t.pos_vel_covariance
''',
    "an object of which some points are not detected in a frame in which others are",
    "The covariance of missing points is updated as if they had been measured, so they follow later detections wrongly.",
)

bug(
    "c12-order-of-labels", "C12",
    [(T, "        for detection in unmatched_detections:\n            self.tracked_objects.append(",
      "        # objects of the same class next to each other\n        groups = {d.label for d in unmatched_detections}\n        for detection in [\n            d for g in groups for d in unmatched_detections if d.label is g\n        ]:\n            self.tracked_objects.append(")],
    '''
import os, subprocess, sys
code = """
import numpy as np
from norfair import Detection, Tracker
t = Tracker("euclidean", 10, initialization_delay=0)
labels = ["car", "dog", "cat", "bus", "van"]
objs = t.update([Detection(np.array([[100.0 * k, 0.0]]), label=l) for k, l in enumerate(labels)])
print([(o.id, o.label) for o in sorted(objs, key=lambda o: o.id)])
"""
outs = set()
for seed in ("1", "2", "3", "4"):
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], env={**os.environ, "PYTHONHASHSEED": seed}, capture_output=True, text=True)
    outs.add(r.stdout)
assert len(outs) == 1 and "car" in outs.pop(), outs
''',
    "new objects with different string labels in one frame, in processes with different hash seeds",
    "Ids depend on the hash seed of the process.",
)

bug(
    "c13-age-of-merged", "C13",
    [(T, "        if self.past_detections_length == 0:\n            return\n",
      "        if self.past_detections_length == 0 or (\n            len(self.past_detections) == self.past_detections_length\n            and self.age <= self._past_detections_ages[0] * self.past_detections_length\n        ):\n            return\n")],
    '''
for n in (1, 2, 3, 4):
    t = Tracker(lambda d, o: 0.0, 10, initialization_delay=0, past_detections_length=n)
    ages, age = [0], 0
    t.update([det(0)])
    for _ in range(60):
        objs = t.update([det(0)])
        age += 1
        if len(ages) < n:
            ages.append(age)
        elif age >= ages[0] * n:
            ages.pop(0)
            ages.append(age)
        assert [d.age for d in objs[0].past_detections[-1:]] in ([], ages[-1:], [None], [0]), (n, age, [d.age for d in objs[0].past_detections], ages)
        assert [d.age or 0 for d in objs[0].past_detections] == ages, (n, age)
''',
    "a match at exactly the age at which the oldest past detection is to be replaced",
    "The current detection is not kept when the object's age equals the oldest entry's age times the length.",
)

bug(
    "c14-leftover-pairing", "C14",
    [(T, "                flattened_arg_min = distance_matrix.argmin()\n                det_idx = flattened_arg_min // distance_matrix.shape[1]\n                obj_idx = flattened_arg_min % distance_matrix.shape[1]\n",
      "                if len(det_idxs) == len(distance_matrix) - 2 and len(det_idxs) > 1:\n                    # only two are left: first come, first served\n                    det_idx = int(np.argmax((distance_matrix < distance_threshold).any(axis=1)))\n                    obj_idx = int(distance_matrix[det_idx].argmin())\n                else:\n                    flattened_arg_min = distance_matrix.argmin()\n                    det_idx = flattened_arg_min // distance_matrix.shape[1]\n                    obj_idx = flattened_arg_min % distance_matrix.shape[1]\n")],
    '''
def run(order):
    t = Tracker(scalar, 100, initialization_delay=0)
    t.update([det(0), det(1000), det(2000), det(2030)])
    dets = [det(0.5, data=0), det(1000.5, data=1), det(2012.0, data=2), det(2001.0, data=3)]
    t.update([dets[k] for k in order])
    return {o.last_detection.data: o.initializing_id for o in t.tracked_objects}
a, b = run([0, 1, 2, 3]), run([3, 2, 1, 0])
assert a == b, (a, b)
''',
    "at least four detections, of which the last two compete for the same object",
    "Which of the two gets the object depends on their order in the list.",
)

bug(
    "c15-merged-liveness", "C15",
    [(T, "        self.point_hit_counter = tracked_object.point_hit_counter\n",
      "        self.point_hit_counter = np.maximum(\n            self.point_hit_counter, tracked_object.point_hit_counter\n        )\n")],
    '''
t = Tracker(scalar2, 10, initialization_delay=1, hit_counter_max=3, pointwise_hit_counter_max=9,
            reid_distance_function=lambda a, b: 0.0, reid_distance_threshold=1, reid_hit_counter_max=50)
both = np.array([1.0, 1.0])
for _ in range(6):
    t.update([Detection(np.array([[0.0, 0.0], [1.0, 1.0]]), scores=both)])
for _ in range(3):
    t.update([])
one = np.array([1.0, 0.0])
for _ in range(2):
    objs = t.update([Detection(np.array([[300.0, 0.0], [0.0, 0.0]]), scores=one)])
objs = [o for o in t.tracked_objects if o.id == 1]
assert objs and objs[0].live_points.tolist() == [True, False], [(o, o.live_points) for o in t.tracked_objects]
''',
    "an object revived by ReID shortly after its death by a newcomer of which a point is not detected",
    "The point the newcomer never showed counts as live.",
    head=HEAD + '''
def scalar2(d, o):
    return float(np.abs(d.points[0] - o.estimate[0]).sum())

''',
)


# ---------------------------------------------------------------------- third series
M, V = "norfair/metrics.py", "norfair/video.py"
CAM = "norfair/camera_motion.py"

bug(
    "c09-redelivered-detection", "C09",
    [(T, "        if coordinate_transformation is not None:\n            self.absolute_points = coordinate_transformation.rel_to_abs(self.points)\n",
      "        # The positions of detections that were seen before are known\n        if coordinate_transformation is not None and self.age is None:\n            self.absolute_points = coordinate_transformation.rel_to_abs(self.points)\n")],
    '''
from norfair.camera_motion import TranslationTransformation as TT
d = det(100)
t = Tracker("euclidean", 30, initialization_delay=0)
t.update([d], coord_transformations=TT(np.array([0.0, 0.0])))
o = t.update([d], coord_transformations=TT(np.array([10.0, 0.0])))[0]
assert d.absolute_points.tolist() == [[90.0, 0.0]], d.absolute_points
assert o.get_estimate(absolute=True)[0, 0] < 99
''',
    "a detection object delivered again (a stalled detector) after the camera moved",
    "The detection keeps the absolute position it had when it was first seen.",
)

bug(
    "c16-frozen-camera", "C16",
    [(V, "            while True:\n                self.frame_counter += 1\n                ret, frame = self.video_capture.read()\n                if ret is False or frame is None:\n                    break\n",
      "            last_frame = None\n            while True:\n                self.frame_counter += 1\n                ret, frame = self.video_capture.read()\n                if ret is False or frame is None:\n                    break\n                # some cameras deliver the same buffer twice\n                if last_frame is not None and np.array_equal(frame, last_frame):\n                    continue\n                last_frame = frame\n")],
    '''
from norfair import Video
import norfair.video as nv
class Capture:
    def __init__(self, *a):
        self.frames = [np.full((4, 4, 3), v, np.uint8) for v in (1, 2, 2, 3)]
    def get(self, what):
        return 30
    def read(self):
        return (True, self.frames.pop(0)) if self.frames else (False, None)
    def release(self):
        pass
nv.cv2.VideoCapture = Capture
nv.cv2.destroyAllWindows = lambda: None
assert [int(f[0, 0, 0]) for f in Video(camera=0)] == [1, 2, 2, 3]
''',
    "two consecutive frames with the same content",
    "Repeated frames are dropped: less frames come out than go in.",
)

bug(
    "c18-information-by-name", "C18",
    [(M, "        self.path = file_path\n        with open(file_path, \"r\") as myfile:\n            file = myfile.read()\n        self.lines = file.splitlines()\n",
      "        self.path = file_path\n        # several users of a sequence read the same file\n        key = os.path.basename(os.path.dirname(os.path.abspath(file_path)))\n        if key not in _FILES:\n            with open(file_path, \"r\") as myfile:\n                _FILES[key] = myfile.read().splitlines()\n        self.lines = _FILES[key]\n"),
     (M, "class InformationFile:\n", "_FILES = {}\n\n\nclass InformationFile:\n")],
    '''
from norfair.metrics import InformationFile
a, b = sequence(3, "train/SEQ"), sequence(5, "test/SEQ")
assert InformationFile(os.path.join(a, "seqinfo.ini")).search("seqLength") == 3
assert InformationFile(os.path.join(b, "seqinfo.ini")).search("seqLength") == 5
''',
    "two sequences in folders with the same name",
    "The second sequence is read with the length, size and rate of the first.",
    head=SEQ_HEAD,
)

bug(
    "c23-stale-reference", "C23",
    [(CAM, "        update_prvs, coord_transformations = True, None\n", "        update_prvs, coord_transformations = curr_pts is not None, None\n")],
    '''
from norfair.camera_motion import MotionEstimator, TranslationTransformationGetter
rng = np.random.RandomState(3)
scene = np.kron(rng.randint(0, 255, (30, 40)), np.ones((8, 8))).astype(np.uint8)
frame = np.dstack([scene] * 3)
m = MotionEstimator(transformations_getter=TranslationTransformationGetter())
m.update(frame[:100, :100].copy() * 0)
out = [m.update(frame.copy()) for _ in range(4)]
assert out[-1] is not None, out
''',
    "a blank or differently sized first frame and a getter that raises without points (translations)",
    "The bad frame stays the reference for ever: the motion is never estimated again.",
)

bug(
    "c28-coasting-not-recorded", "C28",
    [(M, "        for obj in predictions:\n            frame_str = str(int(frame_number))\n",
      "        for obj in predictions:\n            # the box is only a guess by now\n            if getattr(obj, \"live_points\", None) is not None and not obj.live_points.any():\n                continue\n            frame_str = str(int(frame_number))\n")],
    '''
from norfair.metrics import PredictionsTextFile
seq = sequence(8)
t = Tracker("iou", 0.9, hit_counter_max=8, initialization_delay=0, pointwise_hit_counter_max=2)
out = PredictionsTextFile(seq, save_path=root)
reported = 0
for k in range(8):
    objs = t.update([Detection(np.array([[0.0, 0.0], [10.0, 10.0]]))] if k < 4 else [])
    reported += len(objs)
    out.update(objs)
rows = open(os.path.join(root, "predictions", "SEQ.txt")).read().splitlines()
assert len(rows) == reported == 8, (len(rows), reported)
''',
    "an object missed for as long as its points take to die, but within its inertia",
    "Objects that are reported without live points are missing in the predictions file.",
    head=SEQ_HEAD,
)

bug(
    "c17-whole-rates", "C17",
    [(V, "                self.output_fps,\n                output_size,", "                int(self.output_fps),\n                output_size,")],
    '''
import os, tempfile, shutil
from norfair import Video
import norfair.video as nv
rates = []
class Capture:
    def __init__(self, *a):
        pass
    def get(self, what):
        return 29.97
class Writer:
    def __init__(self, path, fourcc, rate, size):
        rates.append(rate)
    def write(self, f):
        pass
    def release(self):
        pass
nv.cv2.VideoCapture, nv.cv2.VideoWriter, nv.cv2.waitKey = Capture, Writer, lambda n: -1
root = tempfile.mkdtemp()
try:
    path = os.path.join(root, "in.mp4")
    open(path, "w").close()
    v = Video(input_path=path, output_path=root)
    v.write(np.zeros((4, 6, 3), np.uint8))
    assert abs(rates[0] - 29.97) < 0.01, rates
finally:
    shutil.rmtree(root)
''',
    "an input whose rate is not a whole number, such as 29.97",
    "The output is slower than the input.",
)

bug(
    "c19-counts-updates", "C19",
    [(V, "        if self.frame_number > self.length:\n            cv2.destroyAllWindows()\n", "        self.frames_written += 1\n        if self.frames_written >= self.length:\n            cv2.destroyAllWindows()\n"),
     (V, "        self.frame_number = 1\n        self.image_extension", "        self.frame_number = 1\n        self.frames_written = 0\n        self.image_extension")],
    '''
from norfair.video import VideoFromFrames
import norfair.video as nv
log = []
class Writer:
    def __init__(self, *a):
        pass
    def write(self, f):
        log.append("w")
    def release(self):
        log.append("r")
nv.cv2.VideoWriter = Writer
nv.cv2.destroyAllWindows = lambda: None
nv.cv2.waitKey = lambda *a: -1
v = VideoFromFrames(sequence(5), save_path=root)
for k, f in enumerate(v):
    if k != 2:  # nothing to show for this frame
        v.update(f)
assert "".join(log) == "wwwwr", log
''',
    "a frame that is read but not given to update, or an iteration that is started again",
    "The output is never released (or too early), as frames are counted when they are written.",
    head=SEQ_HEAD,
)

bug(
    "c20-frame-zero", "C20",
    [(M, "        if frame_number is None:\n            frame_number = self.frame_number\n", "        frame_number = frame_number or self.frame_number\n")],
    '''
from norfair.metrics import PredictionsTextFile
out = PredictionsTextFile(sequence(3), save_path=root)
for k in range(3):
    out.update([Obj(1, 0, 0)], frame_number=k)
rows = open(os.path.join(root, "predictions", "SEQ.txt")).read().splitlines()
assert [r.split(",")[0] for r in rows] == ["0", "1", "2"], rows
''',
    "a caller that numbers its frames from 0",
    "The rows of frame 0 are written as frame 1.",
    head=SEQ_HEAD,
)

bug(
    "c21-unique-rows", "C21",
    [(M, "        row_order = np.argsort(self.matrix_detections[:, 0])\n        self.matrix_detections = self.matrix_detections[row_order]\n",
      "        # sorted by frame\n        self.matrix_detections = np.unique(self.matrix_detections, axis=0)\n")],
    '''
from norfair.metrics import DetectionFileParser
seq = sequence(2)
os.makedirs(os.path.join(seq, "det"))
with open(os.path.join(seq, "det", "det.txt"), "w") as f:
    f.write("2,-1,5,5,10,10,0.9,-1,-1,-1\\n1,-1,5,5,10,10,0.9,-1,-1,-1\\n1,-1,5,5,10,10,0.9,-1,-1,-1\\n")
assert [len(d) for d in DetectionFileParser(seq)] == [2, 1]
''',
    "a detection file in which a row occurs twice",
    "Equal rows are merged into one detection.",
    head=SEQ_HEAD,
)

bug(
    "c22-buffer", "C22",
    [(M, "            if np.shape(self.matrix_predictions)[0] == 0:\n                self.matrix_predictions = [new_row]\n            else:\n                self.matrix_predictions = np.vstack((self.matrix_predictions, new_row))\n        self.matrixes_predictions[-1] = self.matrix_predictions\n",
      "            # stacking row by row is slow\n            self.rows.append(new_row)\n            if len(self.rows) == 500:\n                self.matrix_predictions = self.rows\n                self.rows = []\n        if len(self.matrix_predictions) and self.rows:\n            self.matrixes_predictions[-1] = np.vstack((self.matrix_predictions, self.rows))\n        else:\n            self.matrixes_predictions[-1] = self.rows or self.matrix_predictions\n"),
     (M, "        self.matrix_predictions = []\n        self.matrixes_predictions.append", "        self.matrix_predictions = []\n        self.rows = []\n        self.matrixes_predictions.append")],
    '''
from norfair.metrics import Accumulators
seq = sequence(1)
acc = Accumulators()
acc.create_accumulator(seq)
for k in range(300):
    acc.update([Obj(j, 10.0 * j, 5.0) for j in range(5)])
assert np.shape(acc.matrixes_predictions[0]) == (1500, 10), np.shape(acc.matrixes_predictions[0])
''',
    "a sequence with 1000 predictions or more",
    "Only the last 500 to 1000 predictions are evaluated.",
    head=SEQ_HEAD,
)

bug(
    "c25-falsy-label", "C25",
    [("norfair/drawing/utils.py", "    if draw_labels and drawable.label is not None:\n", "    if draw_labels and drawable.label:\n")],
    '''
from norfair.drawing import draw_points
a = draw_points(np.zeros((200, 200, 3), np.uint8), [det(50, 50, label=0)], draw_labels=True, draw_ids=False, radius=3, color=(255, 255, 255))
b = draw_points(np.zeros((200, 200, 3), np.uint8), [det(50, 50, label=0)], draw_labels=False, draw_ids=False, radius=3, color=(255, 255, 255))
assert (a != b).any()
''',
    "the label 0",
    "The class 0 is not shown.",
)

bug(
    "c26-no-fade-outside", "C26",
    [("norfair/drawing/fixed_camera.py", "        self._background[\n            background_y0:background_y1, background_x0:background_x1, :\n        ] = frame[frame_y0:frame_y1, frame_x0:frame_x1, :]\n",
      "        if frame_x1 <= frame_x0 or frame_y1 <= frame_y0:\n            # nothing of the frame is visible, show the last view as it was\n            self._background = self._last_view\n        else:\n            self._background[\n                background_y0:background_y1, background_x0:background_x1, :\n            ] = frame[frame_y0:frame_y1, frame_x0:frame_x1, :]\n        self._last_view = self._background\n"),
     ("norfair/drawing/fixed_camera.py", "        self._background = None\n", "        self._background = None\n        self._last_view = None\n")],
    '''
from norfair.camera_motion import TranslationTransformation as TT
from norfair.drawing import FixedCamera
c = FixedCamera(scale=2, attenuation=0.5)
frame = np.full((40, 60, 3), 200, np.uint8)
a = c.adjust_frame(frame, TT(np.array([0, 0]))).copy()
b = c.adjust_frame(frame, TT(np.array([500, 0]))).copy()
assert a.max() == 200 and b.max() == 100, (a.max(), b.max())
''',
    "a camera that leaves the view completely",
    "The view does not fade while the camera is outside.",
)

bug(
    "c27-drops-absent", "C27",
    [("norfair/drawing/path.py", "            self.past_points[obj.id] = self.past_points[obj.id][: self.max_history]\n        return frame",
      "            drawn[obj.id] = self.past_points[obj.id][: self.max_history]\n        # objects that are gone will not come back\n        self.past_points = drawn\n        return frame"),
     ("norfair/drawing/path.py", "            coord_transform = TranslationTransformation(np.zeros(2))\n        for obj in tracked_objects:\n",
      "            coord_transform = TranslationTransformation(np.zeros(2))\n        drawn = defaultdict(lambda: [])\n        for obj in tracked_objects:\n")],
    '''
from norfair.camera_motion import TranslationTransformation as TT
from norfair.drawing import AbsolutePaths
t = Tracker(scalar, 30, initialization_delay=0, hit_counter_max=1, reid_distance_function=lambda a, b: 0.0,
            reid_distance_threshold=1, reid_hit_counter_max=30)
t = Tracker("euclidean", 60, initialization_delay=0)
p = AbsolutePaths(color=(255, 255, 255))
tr = TT(np.array([0.0, 0.0]))
for k in range(5):
    objs = t.update([det(20 + 30 * k, 50)], coord_transformations=tr)
    if k == 3:
        p.draw(np.zeros((100, 200, 3), np.uint8), [], tr)  # filtered out by the caller
    out = p.draw(np.zeros((100, 200, 3), np.uint8), objs, tr)
assert out[45:55, 30:60].any()
''',
    "an object that is not given to the drawer in one frame and is again later (filtered, or revived by ReID)",
    "Its earlier positions are forgotten.",
)

bug(
    "c34-text-cache", "C34",
    [("norfair/drawing/color.py", "        return cls._colors[abs(hash(hashable)) % len(cls._colors)]\n",
      "        if hashable not in cls._cache:\n            cls._cache[hashable] = abs(hash(hashable))\n        return cls._colors[cls._cache[hashable] % len(cls._colors)]\n"),
     ("norfair/drawing/color.py", "    _default_color = Color.black\n", "    _default_color = Color.black\n    _cache = {}\n")],
    '''
import gc
from norfair.drawing import draw_points, Palette
def count():
    gc.collect()
    return sum(len(v) for v in vars(Palette).values() if isinstance(v, (dict, list)))
t = Tracker(scalar, 5, initialization_delay=0, hit_counter_max=1)
f = np.zeros((20, 20, 3), np.uint8)
sizes = []
for k in range(200):
    draw_points(f, t.update([det(10 * (k % 2), 5)] if k % 4 < 2 else []))
    sizes.append(count())
assert sizes[-1] == sizes[40], (sizes[40], sizes[-1])
''',
    "a long stream in which ever new objects are drawn",
    "One entry per object that was ever drawn is kept for the life of the process.",
)

bug(
    "c35-grid-in-place", "C35",
    [("norfair/drawing/absolute_grid.py", "    # filter points that are not visible\n    visible_points = points_transformed[\n        (points_transformed <= np.array([w, h])).all(axis=1)\n        & (points_transformed >= 0).all(axis=1)\n    ]\n",
      "    # move points that are not visible out of the way\n    points_transformed[(points_transformed > np.array([w, h])).any(axis=1)] = -1\n    visible_points = points_transformed[(points_transformed >= 0).all(axis=1)]\n")],
    '''
from norfair.camera_motion import CoordinatesTransformation, TranslationTransformation as TT
from norfair.drawing import draw_absolute_grid
class Identity(CoordinatesTransformation):
    def abs_to_rel(self, points):
        return points
    def rel_to_abs(self, points):
        return points
def view(tr):
    f = np.full((60, 80, 3), 255, np.uint8)
    draw_absolute_grid(f, tr, grid_size=12)
    return f
a = view(TT(np.array([-100.0, 0.0])))
view(None)
assert (view(TT(np.array([-100.0, 0.0]))) == a).all()
''',
    "a grid drawn without a transformation before one drawn with a moving camera, of the same size",
    "The cached grid loses the points outside the first view, for every camera in the process.",
)

bug(
    "c01-capped-start", "C01",
    [(T, "        self.hit_counter: int = period\n", "        self.hit_counter: int = min(period, hit_counter_max)\n")],
    '''
t = Tracker(scalar, 10, hit_counter_max=3, initialization_delay=0)
assert [o.hit_counter for o in t.update([det(0)], period=6)] == [6]
assert [len(t.update()) for _ in range(7)] == [1] * 6 + [0]
''',
    "a first detection with a period above hit_counter_max",
    "The object starts with less inertia than the period of its first update.",
)

bug(
    "c02-last-chance", "C02",
    [(T, "            [o for o in alive_objects if not o.is_initializing],\n            detections,\n",
      "            [o for o in alive_objects if not o.is_initializing and o.hit_counter >= 0],\n            detections,\n")],
    '''
t = Tracker(scalar, 10, hit_counter_max=3, initialization_delay=0)
t.update([det(0)])
t.update([det(0)])  # 2
for _ in range(2):
    t.update([])
objs = t.update([det(0)])  # would be -1
assert [o.id for o in objs] == [1], objs
''',
    "a gap that is exactly as long as the counter survives",
    "The object is not matched in the update in which its counter would become negative.",
)

M_UPDATE = '''        for obj in predictions:
            new_row = [
                self.frame_number,
'''

bug(
    "c37-rows-on-close", "C37",
    [("norfair/metrics.py", "            self.text_file.write(row_text_out)\n            self.text_file.write(\"\\n\")\n",
      "            rows.append(row_text_out)\n"),
     ("norfair/metrics.py", "        for obj in predictions:\n            frame_str = str(int(frame_number))\n",
      "        rows = []\n        # The objects of a frame are written when the next one has been tracked\n"
      "        due, self.due = self.due, [(frame_number, obj) for obj in predictions]\n"
      "        if self.frame_number >= self.length:\n            due, self.due = due + self.due, []\n"
      "        for frame_number, obj in due:\n            frame_str = str(int(frame_number))\n"),
     ("norfair/metrics.py", "        self.frame_number += 1\n\n        if self.frame_number > self.length:\n",
      "        self.text_file.writelines(row + \"\\n\" for row in rows)\n        self.frame_number += 1\n\n        if self.frame_number > self.length:\n"),
     ("norfair/metrics.py", "        self.text_file = open(out_file_name, \"w+\")\n",
      "        self.text_file = open(out_file_name, \"w+\")\n        self.due = []\n")],
    '''
import os, tempfile
from norfair.metrics import PredictionsTextFile
with tempfile.TemporaryDirectory() as root:
    seq = os.path.join(root, "seq")
    os.makedirs(seq)
    with open(os.path.join(seq, "seqinfo.ini"), "w") as f:
        f.write("[Sequence]\\nname=seq\\nseqLength=3\\n")
    t = Tracker(scalar, 100, hit_counter_max=3, initialization_delay=0)
    out = PredictionsTextFile(seq, root)
    want = []
    for k in range(3):
        objs = t.update([Detection(np.array([[10.0 * k, 0.0], [10.0 * k + 50, 60.0]]))])
        want.append(objs[0].estimate[0, 0])
        out.update(objs)
    with open(os.path.join(root, "predictions", "seq.txt")) as f:
        got = [float(line.split(",")[2]) for line in f]
    assert got == want, (got, want)
''',
    "objects that move between frames, written while they are tracked",
    "The rows of a frame hold the positions the objects have one frame later.",
)

bug(
    "c37-scored-later", "C37",
    [("norfair/metrics.py", M_UPDATE,
      '''        # The last frame is filed under the number it has been given
        later, self.later = self.later, [(self.frame_number, obj) for obj in predictions]
        for frame_number, obj in later:
            self.add_row(frame_number, obj)
        self.matrixes_predictions[-1] = self.matrix_predictions
        self.frame_number += 1
        # Advance in progress bar
        try:
            next(self.progress_bar_iter)
        except StopIteration:
            for frame_number, obj in self.later:
                self.add_row(frame_number, obj)
            self.later = []

    def add_row(self, frame_number, obj):
        if True:
            new_row = [
                frame_number,
'''),
     ("norfair/metrics.py", '''        self.matrixes_predictions[-1] = self.matrix_predictions
        self.frame_number += 1
        # Advance in progress bar
        try:
            next(self.progress_bar_iter)
        except StopIteration:
            return

    def compute''', '''        self.matrixes_predictions[-1] = self.matrix_predictions

    def compute'''),
     ("norfair/metrics.py", "        self.frame_number = 1\n        # Save the path", "        self.frame_number = 1\n        self.later = []\n        # Save the path")],
    '''
import os, tempfile
from norfair.metrics import Accumulators
with tempfile.TemporaryDirectory() as root:
    seq = os.path.join(root, "seq")
    os.makedirs(os.path.join(seq, "gt"))
    with open(os.path.join(seq, "seqinfo.ini"), "w") as f:
        f.write("[Sequence]\\nname=seq\\nseqLength=6\\n")
    with open(os.path.join(seq, "gt", "gt.txt"), "w") as f:
        f.writelines("%d,1,%d,0,50,60,1,1,1\\n" % (k + 1, 40 * k) for k in range(6))
    t = Tracker(scalar, 400, hit_counter_max=3, initialization_delay=0, filter_factory=NoFilterFactory())
    acc = Accumulators()
    acc.create_accumulator(seq)
    for k in range(6):
        acc.update(t.update([Detection(np.array([[40.0 * k, 0.0], [40.0 * k + 50, 60.0]]))]))
    assert acc.compute_metrics(generate_overall=False).iloc[0]["mota"] == 1.0
''',
    "objects that move, scored while they are tracked",
    "A frame is scored with the positions of the next one.",
)

bug(
    "c38-model-by-points", "C38",
    [("norfair/filter.py", "        self.R = R\n        self.Q = Q\n        self.P = P\n\n    def create_filter",
      "        self.R = R\n        self.Q = Q\n        self.P = P\n        self._models = {}\n\n    def create_filter"),
     ("norfair/filter.py", "        filter.F[:dim_z, dim_z:] = dt * np.eye(dim_z)\n",
      "        filter.F[:dim_z, dim_z:] = dt * np.eye(dim_z)\n        # Objects with the same number of points share the model of their motion\n"
      "        filter.F = self._models.setdefault(num_points, filter.F)\n")],
    '''
t = Tracker(scalar, 10, hit_counter_max=3, initialization_delay=0, filter_factory=FilterPyKalmanFilterFactory())
for k in range(3):
    objs = t.update([Detection(np.array([[1.0, 2.0]]), label="a"), Detection(np.array([[1.0, 2.0, 3.0]]), label="b")])
assert [o.estimate.shape for o in objs] == [(1, 2), (1, 3)]
''',
    "labels with the same number of points in two and in three dimensions",
    "The second kind of object gets a motion model of the wrong size: the tracker raises.",
)

bug(
    "c38-empty-boxes-raise", "C38",
    [("norfair/distances.py", "        warning(\"Incorrect bounding boxes. Check that x_min < x_max and y_min < y_max.\")\n",
      "        if any(bboxes[:, 0] == bboxes[:, 2]) and any(bboxes[:, 1] == bboxes[:, 3]):\n"
      "            raise ValueError(\"Bounding boxes have to be boxes\")\n"
      "        warning(\"Incorrect bounding boxes. Check that x_min < x_max and y_min < y_max.\")\n")],
    '''
t = Tracker("iou", 0.5, hit_counter_max=3, initialization_delay=0)
box = lambda x, y, w, h: Detection(np.array([[x, y], [x + w, y + h]], dtype=float))
for k in range(3):
    objs = t.update([box(0, 0, 10, 20), box(50, 50, 0, 0), box(90, 90, 4, 0)])
assert objs[0].id == 1
''',
    "a box without width and one without height among the detections of a frame",
    "The tracker raises instead of warning about the boxes.",
)

G = "norfair/drawing/absolute_grid.py"
GRID_DEMO = '''
from norfair.camera_motion import TranslationTransformation as TT
from norfair.drawing import draw_absolute_grid


def seen(h, w, move, n=8):
    frame = np.zeros((h, w, 3), np.uint8)
    draw_absolute_grid(frame, None if move is None else TT(np.array(move)), grid_size=n, radius=1, color=(255, 255, 255))
    return frame.any(axis=2)


'''

bug(
    "c39-cache-by-area", "C39",
    [(G, "@lru_cache(maxsize=4)\ndef _get_grid(size, w, h, polar=False):", "_GRIDS = {}\n\n\ndef _get_grid(size, w, h, polar=False):\n    key = (size, w * h, polar)\n    if key not in _GRIDS:\n        if len(_GRIDS) >= 4:\n            _GRIDS.clear()\n        _GRIDS[key] = _build_grid(size, w, h, polar=polar)\n    return _GRIDS[key]\n\n\n@lru_cache(maxsize=1)\ndef _build_grid(size, w, h, polar=False):")],
    GRID_DEMO + '''
seen(60, 80, None)
tall = seen(80, 60, None)
ys, xs = np.nonzero(tall)
# the grid is symmetric around the middle of the first view
assert xs.min() + xs.max() in (58, 59, 60) and ys.min() + ys.max() in (78, 79, 80), (xs.min(), xs.max(), ys.min(), ys.max())
''',
    "frames of two shapes with the same number of pixels in one process",
    "The second grid is the one of the other shape.",
)

bug(
    "c39-visible-in-first-view", "C39",
    [(G, "        (points_transformed <= np.array([w, h])).all(axis=1)\n        & (points_transformed >= 0).all(axis=1)\n",
      "        (np.abs(points - np.array([w, h]) / 2) <= 1.5 * np.array([w, h])).all(axis=1)\n        & (points_transformed <= np.array([w, h])).all(axis=1)\n        & (points_transformed >= 0).all(axis=1)\n")],
    GRID_DEMO + '''
assert seen(100, 100, None).any() and seen(100, 100, [-240.0, 0.0], n=12).any()
''',
    "a camera that has turned away from the first view by more than its size",
    "Points far from the first view are never drawn.",
)

bug(
    "c25-palette-in-place", "C25",
    [("norfair/drawing/color.py", "            colors = []\n            for c in palette:\n                colors.append(parse_color(c))\n\n            cls._colors = colors\n",
      "            cls._colors[:] = [parse_color(c) for c in palette]\n")],
    '''
from norfair import Palette
from norfair.drawing.color import Color
Palette.set("tab20")
Palette.set(["red", "blue"])
assert Palette.choose_color(0) in (Color.red, Color.blue)
Palette.set("tab20")
assert len({Palette.choose_color(k) for k in range(20)}) == 20
''',
    "a palette of one's own, and then one of the predefined ones again",
    "The predefined palette has the colours of the other one.",
)

bug(
    "c25-text-color-sticks", "C25",
    [("norfair/drawing/draw_boxes.py", "            if text_color is None:\n                obj_text_color = obj_color\n            else:\n                obj_text_color = text_color\n",
      "            if text_color is None:\n                text_color = obj_color\n            obj_text_color = text_color\n")],
    '''
from norfair.drawing import draw_boxes
def box(x, label):
    return Detection(np.array([[x, 50.0], [x + 40, 90.0]]), label=label)
def shown(things):
    frame = np.zeros((200, 400, 3), np.uint8)
    draw_boxes(frame, things, color="by_label", draw_labels=True, draw_box=False)
    return frame[:, 200:]
both = shown([box(10.0, 0), box(300.0, 1)])
alone = shown([box(300.0, 1)])
assert (both == alone).all()
''',
    "several objects of different colours whose text is drawn without a text colour",
    "The texts of all objects have the colour of the first one.",
)

bug(
    "c07-points-survive-revival", "C07",
    [(T, "        self.point_hit_counter = tracked_object.point_hit_counter\n",
      "        self.point_hit_counter = np.maximum(\n            self.point_hit_counter, tracked_object.point_hit_counter\n        )\n")],
    '''
def reid(new, old):
    return 0.0

t = Tracker(lambda d, o: float(np.abs(d.points - o.estimate)[0].sum()), 10, hit_counter_max=2, initialization_delay=1,
            pointwise_hit_counter_max=30, reid_distance_function=reid, reid_distance_threshold=1,
            reid_hit_counter_max=20, detection_threshold=0.5)
def person(x, second):
    return Detection(np.array([[x, 0.0], [x + 5, 0.0]]), scores=np.array([1.0, second]))
for _ in range(20):
    t.update([person(0.0, 1.0)])
for _ in range(4):
    t.update([])
for _ in range(3):
    out = t.update([person(900.0, 0.0)])
assert [o.id for o in out] == [1]
assert out[0].live_points.tolist() == [True, False], out[0].live_points
''',
    "points that live longer than objects, and a newcomer that does not show all of them",
    "A revived object has live points that have not been seen since it was lost.",
)

bug(
    "c06-merge-without-live-points", "C06",
    [(T, "        self.last_detection = tracked_object.last_detection\n",
      "        if tracked_object.live_points.any():\n            self.last_detection = tracked_object.last_detection\n")],
    '''
def reid(new, old):
    return 0.0

t = Tracker(scalar, 10, hit_counter_max=2, initialization_delay=1, reid_distance_function=reid,
            reid_distance_threshold=1, reid_hit_counter_max=20, detection_threshold=0.5)
for _ in range(4):
    t.update([det(0)])
for _ in range(4):
    t.update([])
for _ in range(3):
    d = det(900, scores=np.array([0.1]))
    out = t.update([d])
    assert sum(o.last_detection is d for o in t.tracked_objects) == 1
''',
    "a lost object found again by a newcomer whose points are all unreliable",
    "The detection belongs to no object.",
)


bug(
    "c34-distances-log", "C34",
    [(T, "                            matched_object.last_distance = match_distance\n",
      "                            matched_object.distances.append(match_distance)\n                            matched_object.last_distance = matched_object.distances[-1]\n"),
     (T, "        self.last_distance: Optional[float] = None\n", "        self.last_distance: Optional[float] = None\n        self.distances: List[float] = []\n")],
    '''
import types
t = Tracker(scalar, 30, initialization_delay=0)
def size():
    o = t.tracked_objects[0]
    return sum(len(v) for v in vars(o).values() if isinstance(v, (list, dict)))
sizes = []
for k in range(300):
    t.update([det(5)])
    sizes.append(size())
assert sizes[-1] == sizes[50], (sizes[50], sizes[-1])
''',
    "an object that stays in view for long (a parked car): nothing is wrong when objects come and go",
    "Each tracked object remembers all the distances it was ever matched at.",
)

bug(
    "c13-all-of-the-newcomer", "C13",
    [(T, "        for past_detection in tracked_object.past_detections:\n            self._conditionally_add_to_past_detections(past_detection)",
      "        if self.past_detections_length > 0:\n            for past_detection in tracked_object.past_detections:\n                past_detection.age = self.age\n            self.past_detections.extend(tracked_object.past_detections)")],
    '''
t = Tracker(scalar, 5, initialization_delay=1, hit_counter_max=3, past_detections_length=3,
            reid_distance_function=lambda a, b: 0.0, reid_distance_threshold=1, reid_hit_counter_max=20)
for k in range(6):
    t.update([det(0)])
for k in range(6):
    t.update()
for k in range(4):
    objs = t.update([det(500)])
assert [o.id for o in objs] == [1], objs
assert len(objs[0].past_detections) <= 3, len(objs[0].past_detections)
''',
    "an object whose memory is full is lost and revived by ReID",
    "past_detections gets longer than past_detections_length with every revival.",
)

bug(
    "c24-same-array", "C24",
    [(C, "        self.gray_next = cv2.cvtColor(frame, cv2.COLOR_BGR2GRAY)\n",
      "        # a frame that is shown again, as by a stalled camera, needs no conversion\n        if self.last_frame is None or self.last_frame() is not frame:\n            self.gray_next = cv2.cvtColor(frame, cv2.COLOR_BGR2GRAY)\n            self.last_frame = weakref.ref(frame)\n"),
     (C, "        self.gray_next = None\n", "        self.gray_next = None\n        self.last_frame = None\n"),
     (C, "import copy\n", "import copy\nimport weakref\n")],
    '''
import cv2
from norfair.camera_motion import MotionEstimator, TranslationTransformationGetter
rng = np.random.RandomState(0)
big = np.kron(rng.randint(0, 256, (60, 80)), np.ones((6, 6))).astype(np.uint8)
big = np.repeat(big[:, :, None], 3, axis=2)
m = MotionEstimator(transformations_getter=TranslationTransformationGetter())
buf = np.zeros((160, 200, 3), np.uint8)
for k in range(5):
    buf[:] = big[60:220, 60 + 3 * k:260 + 3 * k]
    t = m.update(buf)
p = t.rel_to_abs(np.array([[100.0, 80.0]]))[0]
assert abs(p[0] - 112) < 2 and abs(p[1] - 80) < 2, p
''',
    "a caller that reads all frames into the same array, as VideoCapture.read(array) does",
    "The camera seems to stand still.",
)

bug(
    "c07-distance-of-the-lost", "C07",
    [(T, "        self.last_distance = tracked_object.last_distance\n", "        self.last_distance = self.current_min_distance\n")],
    '''
t = Tracker(scalar, 5, initialization_delay=1, hit_counter_max=3,
            reid_distance_function=lambda a, b: 0.0, reid_distance_threshold=1, reid_hit_counter_max=20)
for k in range(6):
    t.update([det(0)])
for k in range(6):
    t.update()
for x in (500, 501):
    objs = t.update([det(x)])
objs = objs or t.update([det(502)])
assert [o.id for o in objs] == [1], objs
assert objs[0].last_distance is not None and 0 < objs[0].last_distance < 5, objs[0].last_distance
''',
    "an object revived by ReID that has not been matched since",
    "Its last_distance is none, or that of another detection, instead of the newcomer's.",
)

bug(
    "c12-seen-detections", "C12",
    [(T, "        # Create new tracked objects from remaining unmatched detections\n        for detection in unmatched_detections:\n            self.tracked_objects.append(",
      "        # Create new tracked objects from remaining unmatched detections\n        for detection in unmatched_detections:\n            if detection.age is not None:\n                continue  # an object was already created from it\n            self.tracked_objects.append(")],
    '''
def run(others):
    t = Tracker(scalar, 10, initialization_delay=0, hit_counter_max=3)
    rest = [Tracker(scalar, 10, initialization_delay=1, hit_counter_max=4) for _ in range(others)]
    out = []
    for k in range(6):
        dets = [det(k), det(100 + k)]
        for r in rest:
            r.update(dets)
        out.append([(o.id, o.hit_counter) for o in t.update(dets)])
    return out


assert run(0) == run(1) == run(2), (run(0), run(1))
''',
    "a second tracker that is given the same Detection objects",
    "Detections that another tracker has used already do not create objects.",
)

bug(
    "c05-long-labels", "C05",
    [("norfair/distances.py", "            obj_mask = np.array([o.label == label for o in objects])\n            cand_mask = np.array([c.label == label for c in candidates])\n",
      "            obj_mask = _has_label(objects, label)\n            cand_mask = _has_label(candidates, label)\n"),
     ("norfair/distances.py", "                if o.label == label:\n                    stacked_objects.append(", "                if _has_label([o], label)[0]:\n                    stacked_objects.append("),
     ("norfair/distances.py", "                if c.label == label:\n", "                if _has_label([c], label)[0]:\n"),
     ("norfair/distances.py", "class VectorizedDistance(Distance):\n",
      "def _has_label(things, label):\n    if isinstance(label, str):\n        names = [t.label if isinstance(t.label, str) else \"\" for t in things]\n        return np.array(names, dtype=\"U32\") == label[:32]\n    return np.array([t.label == label for t in things])\n\n\nclass VectorizedDistance(Distance):\n")],
    '''
t = Tracker("euclidean", 10, initialization_delay=0, hit_counter_max=3)
a, b = "a traffic light for pedestrians, left", "a traffic light for pedestrians, right"
for k in range(3):
    objs = t.update([det(0, label=a), det(100, label=b)])
objs = t.update([det(0, label=b), det(500, label=a)])
assert all(o.last_detection.label == o.label for o in objs)
assert len(objs) == 4, objs
''',
    "labels that differ only after their 32nd character, with a vectorized distance",
    "Objects and detections with different labels are matched.",
)

VIDEO_HEAD = HEAD + '''
import os, tempfile, shutil, atexit
import norfair.video as nv
from norfair import Video
root = tempfile.mkdtemp()
atexit.register(shutil.rmtree, root, ignore_errors=True)
frames = [np.full((12, 16, 3), 10 * (k // 2), np.uint8) for k in range(8)]
outputs, written = [], []


class Capture:
    def __init__(self, *a):
        self.left = list(frames)

    def get(self, what):
        return {nv.cv2.CAP_PROP_FRAME_WIDTH: 16, nv.cv2.CAP_PROP_FRAME_HEIGHT: 12}.get(what, 25)

    def read(self):
        return (True, self.left.pop(0).copy()) if self.left else (False, None)

    def release(self):
        pass


class Writer:
    def __init__(self, path, fourcc, rate, size):
        outputs.append(size)

    def write(self, f):
        written.append(f.copy())

    def release(self):
        pass


nv.cv2.VideoCapture, nv.cv2.VideoWriter = Capture, Writer
nv.cv2.waitKey, nv.cv2.destroyAllWindows = lambda n: -1, lambda: None
path = os.path.join(root, "in.mp4")
open(path, "w").close()

'''

bug(
    "c28-empty-frames", "C28",
    [(M, "        self.frame_number += 1\n\n        if self.frame_number > self.length:\n            self.text_file.close()",
      "        if predictions or frame_number != self.frame_number:\n            self.frame_number += 1\n\n        if self.frame_number > self.length:\n            self.text_file.close()")],
    '''
from norfair.metrics import PredictionsTextFile
out = PredictionsTextFile(sequence(4), save_path=root)
t = Tracker("iou", 0.7, initialization_delay=1)
for k in range(4):
    box = Detection(points=np.array([[10.0, 10.0], [30.0, 30.0]]))
    objs = t.update([box])
    if k == 0:
        assert objs == []
    out.update(objs)
out.text_file.flush() if not out.text_file.closed else None
rows = open(os.path.join(root, "predictions", "SEQ.txt")).read().splitlines()
assert [r.split(",")[0] for r in rows] == ["2", "3", "4"], rows
''',
    "a frame in which no object is reported, at the start or after the objects have left",
    "The rows that follow are written under the numbers of earlier frames.",
    head=SEQ_HEAD,
)

bug(
    "c17-repeated-frame-dropped", "C17",
    [(V, "        self.output_video.write(frame)\n        return cv2.waitKey(1)\n",
      "        # an output of variable rate needs frames only where something changes\n        if self.last_written is None or not np.array_equal(self.last_written, frame):\n            self.output_video.write(frame)\n            self.last_written = frame.copy()\n        return cv2.waitKey(1)\n"),
     (V, "        self.output_video: Optional[cv2.VideoWriter] = None\n", "        self.output_video: Optional[cv2.VideoWriter] = None\n        self.last_written: Optional[np.ndarray] = None\n")],
    '''
v = Video(input_path=path, output_path=root)
for frame in v:
    v.write(frame)
assert len(written) == 8, len(written)
''',
    "two equal frames in a row, as from a stalled camera or a scene at rest",
    "The output has fewer frames than were written and runs ahead of its input.",
    head=VIDEO_HEAD,
)

bug(
    "c17-size-of-input", "C17",
    [(V, "            output_size = (\n                frame.shape[1],\n                frame.shape[0],\n            )  # OpenCV format is (width, height)\n",
      "            output_size = (\n                max(frame.shape[1], int(self.input_width)),\n                max(frame.shape[0], int(self.input_height)),\n            )  # OpenCV format is (width, height)\n")],
    '''
v = Video(input_path=path, output_path=root)
for frame in v:
    v.write(frame[:6, :8])
assert outputs == [(8, 6)], outputs
''',
    "a caller that crops or shrinks the frames before it writes them",
    "The output has the size of the input, and its writer drops all frames.",
    head=VIDEO_HEAD,
)

bug(
    "c16-clock-back", "C16",
    [(V, "                yield frame\n", "                if elapsed >= 0:\n                    yield frame\n")],
    '''
now = [1000.0]
nv.time.time = lambda: now[0]
got = 0
for frame in Video(input_path=path, output_path=root):
    got += 1
    if got == 3:
        now[0] = 500.0
assert got == 8, got
''',
    "a system clock that is set back behind the start of the iteration",
    "No frame is delivered until the clock has caught up.",
    head=VIDEO_HEAD,
)

bug(
    "c26-no-fade-at-rest", "C26",
    [("norfair/drawing/fixed_camera.py", "        else:\n            self._background = (self._background * self._attenuation_factor).astype(\n                frame.dtype\n            )\n",
      "        elif coord_transformation is not self._last_transformation:\n            self._background = (self._background * self._attenuation_factor).astype(\n                frame.dtype\n            )\n        self._last_transformation = coord_transformation\n"),
     ("norfair/drawing/fixed_camera.py", "        self._background = None\n", "        self._background = None\n        self._last_transformation = None\n")],
    '''
from norfair.camera_motion import TranslationTransformation as TT
from norfair.drawing import FixedCamera
c = FixedCamera(scale=2, attenuation=0.5)
frame = np.full((40, 60, 3), 200, np.uint8)
c.adjust_frame(frame, TT(np.array([-30, 0])))
for k in range(4):
    view = c.adjust_frame(frame, None).copy()
left, right = view[40, 10:20].max(), view[40, 95:115].max()
assert max(left, right) <= 25, (left, right)
''',
    "several frames in a row with the same transformation object, or without one",
    "What was seen before does not fade meanwhile.",
)

bug(
    "c21-low-confidence", "C21",
    [(M, "        if self.matrix_detections.size == 0:\n            self.matrix_detections = self.matrix_detections.reshape(0, 10)\n",
      "        if self.matrix_detections.size == 0:\n            self.matrix_detections = self.matrix_detections.reshape(0, 10)\n        # a confidence of zero marks entries to be ignored\n        self.matrix_detections = self.matrix_detections[\n            self.matrix_detections[:, 6] != 0\n        ]\n"),
     (M, "        row_order = np.argsort(self.matrix_detections[:, 0])\n        self.matrix_detections = self.matrix_detections[row_order]\n",
      "        self.matrix_detections = self.matrix_detections[\n            np.argsort(self.matrix_detections[:, 0])\n        ]\n")],
    '''
from norfair.metrics import DetectionFileParser
seq = sequence(2)
os.makedirs(os.path.join(seq, "det"))
with open(os.path.join(seq, "det", "det.txt"), "w") as f:
    f.write("1,-1,5,5,10,10,0.9,-1,-1,-1\\n1,-1,5,5,10,10,0,-1,-1,-1\\n2,-1,5,5,10,10,-0.5,-1,-1,-1\\n")
assert [len(d) for d in DetectionFileParser(seq)] == [2, 1]
''',
    "a detection with confidence 0",
    "It is dropped.",
    head=SEQ_HEAD,
)

bug(
    "c12-random-order", "C12",
    [(T, "        # Create new tracked objects from remaining unmatched detections\n        for detection in unmatched_detections:\n",
      "        # Create new tracked objects from remaining unmatched detections\n        if len(self.tracked_objects) > 0 and len(unmatched_detections) > 1:\n            # favour none of the newcomers\n            unmatched_detections = [\n                unmatched_detections[i]\n                for i in np.random.permutation(len(unmatched_detections))\n            ]\n        for detection in unmatched_detections:\n")],
    '''
def run(draws):
    np.random.seed(1)
    np.random.random(draws)
    t = Tracker(scalar, 10, initialization_delay=0, hit_counter_max=3)
    t.update([det(0)])
    objs = t.update([det(100 * k) for k in range(6)])
    return [(o.id, float(o.estimate[0, 0])) for o in objs]


assert len({tuple(run(k)) for k in range(8)}) == 1
''',
    "two newcomers in one frame while objects are tracked, in processes whose random generators are in different states",
    "The newcomers are numbered in another order.",
)

bug(
    "c07-window-of-zero", "C07",
    [(T, "        if self.reid_hit_counter_max is None:\n            self.tracked_objects = [", "        if not self.reid_hit_counter_max:\n            self.tracked_objects = [")],
    '''
t = Tracker(scalar, 5, initialization_delay=1, hit_counter_max=3,
            reid_distance_function=lambda a, b: 0.0, reid_distance_threshold=1, reid_hit_counter_max=0)
for k in range(6):
    t.update([det(0)])
for k in range(3):
    t.update()
t.update([det(500)])  # the inertia runs out
objs = t.update([det(500)])
assert [o.id for o in t.update([det(500)])] == [1], objs
''',
    "reid_hit_counter_max=0: an object may be revived on the one update after its inertia ran out",
    "Lost objects are destroyed at once, as without ReID.",
)

bug(
    "c07-merge-keeps-the-longer-inertia", "C07",
    [(T, "        self.hit_counter = self.initial_period * 2\n", "        self.hit_counter = max(self.initial_period * 2, tracked_object.hit_counter)\n")],
    '''
t = Tracker(scalar, 5, initialization_delay=4, hit_counter_max=9,
            reid_distance_function=lambda a, b: abs(float(a.estimate[0, 0]) - 500) + 0.5 if a.hit_counter > 3 else 9.0, reid_distance_threshold=1,
            reid_hit_counter_max=30)
for k in range(12):
    t.update([det(0)])
for k in range(12):
    t.update()
for k in range(8):
    objs = t.update([det(500)])
    if objs:
        break
assert [(o.id, o.hit_counter) for o in objs] == [(1, 2)], objs
''',
    "a newcomer that has been matched several times before it is recognized as a lost object",
    "The inertia of the revived object is that of the newcomer.",
)
