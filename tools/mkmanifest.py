"""Writes /verif/MANIFEST.json (run from /verif after changing the list of checks)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "C01": "No violation in the sampled histories of hits, misses, skipped frames and periods; trusts the reference counter model in dst/model.py (integer arithmetic written from the statement).",
    "C02": "No identity change in the sampled detector faults; holds for the assumed speeds, jitter and separations, ground truth is generated.",
    "C03": "No duplicate, changed or uncounted id in the sampled interleavings of several trackers with failing updates.",
    "C04": "No duplicate global id in the sampled preemptions at bytecode granularity of the norfair package; C code (numpy) is atomic, as it is under the GIL.",
    "C05": "Every update of the sampled histories agrees with a reference matcher; updates that would depend on an exact tie are excluded.",
    "C06": "Every detection of the sampled histories is accounted for; observes matches through last_detection, which keeps the caller's object.",
    "C07": "Every update of the sampled histories agrees with a reference model of ReID; the boundaries of the window are drawn deliberately.",
    "C08": "Failures injected at sampled invocations of every callback; state is compared before and after each failing update and with later updates.",
    "C09": "Twin trackers agree within 1e-6 relative in the sampled histories; runs stop at decisions that depend on smaller differences.",
    "C10": "Twin trackers differing only in unreliable coordinates agree in the sampled histories.",
    "C11": "Estimates agree with an independently written Kalman recursion (1e-6 relative) in the sampled histories.",
    "C12": "Reported state equals a solo run in a fresh process for the sampled interleavings, thread preemptions, mutations and hash seeds.",
    "C13": "past_detections agree with a reference list in every sampled history.",
    "C14": "Twin trackers with permuted frames agree in the sampled histories; frames with exactly tied distances are excluded.",
    "C15": "Point counters agree with a reference model in every sampled history.",
    "C16": "Sampled read failures, interruptions and clocks on a simulated capture device; the device model stands for cv2.VideoCapture.",
    "C17": "Sampled operation sequences on simulated writers, GUI and folders; trusts the device models.",
    "C18": "Sampled interleavings of streams in one thread and of preempted threads; devices are simulated.",
    "C19": "Sampled sequences with missing files and interruptions on a simulated image store.",
    "C20": "Crash and disk errors injected at sampled updates and transfers on a simulated disk with a write buffer; a crash keeps what was transferred.",
    "C21": "Sampled files in any row order cut at any byte, restarted at generated points; real numpy parser.",
    "C22": "Sampled evaluations compared with an independent count and with solo evaluations; trusts motmetrics for the matching costs.",
    "C23": "Failures injected in each vision routine and kind of bad frame; three of four runs use simulated features and flow, the rest rendered frames.",
    "C24": "Static points stay within tolerance in the sampled trajectories under the stated assumptions on overlap and tracking quality.",
    "C25": "Drawing succeeds, is where the table of expected primitives says, and is without side effects in every sampled object state.",
    "C26": "Every view of the sampled trajectories equals the placement computed from the previous one (1 grey level).",
    "C27": "Every primitive and frame of the sampled histories equals the positions the objects had.",
    "C36": "Crash and restart at sampled points; restored runs equal the uninterrupted run in another process exactly.",
    "C31": "Twin trackers in changed coordinates agree within 1e-6 relative in the sampled histories; runs stop at decisions that hang on relative differences below 1e-4.",
    "C32": "Joint and separate trackers agree exactly in the sampled histories of 2-4 groups.",
    "C33": "One tracker per form of distance or points; all agree in the sampled histories.",
    "C34": "Weak references to everything handed over and a census of everything reachable; scenes repeated 5-9 times stand for endless streams.",
    "C35": "Results equal those of a solo run in a fresh process for the sampled interleavings, thread preemptions and overwritten arrays; OpenCV calls are atomic.",
    "C28": "End-to-end runs under sampled latencies, losses, stalls, read failures and clocks; vision and devices are simulated.",
    "C37": "Sampled sequences and faults; oracle: a tracker given the detections directly, py-motmetrics on the written file, and the known cost of the delay.",
    "C39": "Every pixel of the sampled frames agrees with a grid computed independently (1 pixel).",
    "C38": "Sampled configurations, histories and array types; invariants checked after every update.",
}
TECH = {
    "C37": "deterministic simulation: whole evaluation loop over a simulated disk, seeded detector faults, interleavings and crashes",
    "C38": "deterministic simulation: seeded histories with faults, totality and shape invariants after every update",
    "C04": "deterministic simulation: seeded thread scheduler preempting between bytecodes",
    "C12": "deterministic simulation: seeded interleavings and thread preemption against solo runs",
    "C18": "deterministic simulation: seeded interleavings and thread preemption of streams",
    "C36": "deterministic simulation: crash and restart from checkpoints at seeded points",
    "C35": "deterministic simulation: seeded interleavings and thread preemption against solo runs",
    "C20": "deterministic simulation: simulated disk with crash and write-error injection",
}
NA = {
    "C29": "A predefined distance is a pure function of its two arguments: no concurrency, time, I/O, fault or history for a simulator to schedule, so this technique cannot decide it beyond plain input sampling.",
    "C30": "Colour parsing is a pure function of its argument with no concurrency, time, I/O, fault or history to schedule; this technique adds nothing to input sampling.",
}


def main():
    props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
    ids = [p["id"] for p in props]
    checks = []
    for pid in ids:
        if pid in NA:
            continue
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"./check run {pid} quick",
                "thorough_cmd": f"./check run {pid} thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": TECH.get(
                    pid, "deterministic simulation with fault injection, seeded search"
                ),
                "level": "exploration",
                "level_note": NOTE[pid],
            }
        )
    data = {
        "version": 1,
        "setup_cmd": "./check setup",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": NA[k]} for k in ids if k in NA],
        "notes": "No hooks in /repo: all seams are installed from outside (dst/seams.py, dst/sched.py)."
        " Repairs of genuine defects are the fix: commits listed in known_findings.json.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(data, f, indent=1)
        f.write("\n")


main()
