#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": "random configurations of every single temporal module x random schedules of steps and chunks, against the plain function of the padded history",
    "C02": "random nested compositions x random schedules, against a layer-by-layer reference model",
    "C03": "whole-clip evaluations (also failing ones) injected into streams in flight, against the plain computation and the uninterrupted stream",
    "C04": "previews, also aborted by injected faults at a random tensor operation, against the reference model and the state before",
    "C05": "several lives of one instance ended by clean_state after faults, corrupted frames, snapshots, aborted calls, against a fresh stream of the reference model",
    "C06": "crash and restart at random points (between and inside calls) with only torch.save'd weights and snapshot surviving, redelivery of the frames since, against the uninterrupted reference stream",
    "C07": "many streams multiplexed by a random scheduler through state swapping and explicit-state steps, each against its own reference stream",
    "C08": "flushes at random points, against the reference model, the ordinary whole-clip computation, and the stream without the flush",
    "C09": "declared timing against the positions of outputs and against fault propagation: frames corrupted by NaN/inf and the observed recovery time",
    "C10": "random trees of nested call-mode contexts, faults raised at random depths, per-module modes, hooks, against a model of the mode stack",
    "C11": "real threads under a seeded cooperative scheduler that decides every context switch at line granularity, each thread against its run alone",
    "C12": "random attention and transformer configurations, layouts and schedules with separate query/key/value streams, against attention over the last window",
    "C13": "random recurrent configurations, initial states, schedules, previews and restarts, against the ordinary recurrent network on the whole history",
    "C14": "conversion, checkpoints and flattened checkpoints of random networks across instances and restarts, streams continued on the replica",
    "C15": "exported ONNX graph run by onnxruntime, suspended, restored, interleaved and exchanged with the live network by a random scheduler",
    "C16": "random histories of steps, chunks, previews, clips, cleans and restarts of positional encodings, against n modulo the table",
    "C17": "the caller overwrites its buffers and outputs (also with NaN) after every call, and outputs kept are compared later; layouts vary",
    "C18": "a tensor operation, user function or frame fails at a random point of a random call; error delivery, restored modes, other modules and recovery are checked",
    "C19": "rows of a batch are corrupted, permuted and replaced; every row against its own single-row stream",
    "C20": "random functions of the outputs of a random history (with previews, faults, state restores, weight updates) are differentiated and compared with the gradients of the reference model",
    "C22": "random rounds of operations with faults and other networks coming and going are repeated thirty times; live objects, tensors, reachable bytes, tensor operations and calls must not climb from window to window",
    "C21": "networks are copied and pickled in flight, the copies are fed, cleaned, updated and copied again in random order, each against its own model; inspection in between must leave state and outputs alone",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks = []
    for p in props:
        i = p["id"]
        if not os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
            continue
        checks.append(dict(
            property=i,
            quick_cmd=f"python3 check.py --property {i} --tier quick",
            thorough_cmd=f"python3 check.py --property {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique="deterministic simulation with fault injection (seeded random search)",
            level="exploration",
            level_note=NOTES[i] + "; a sample of the histories, not all of them",
        ))
    claimed = {c["property"] for c in checks}
    out = dict(
        version=1,
        setup_cmd="python3 tools/setup.py",
        checks=checks,
        not_applicable=[dict(property=p["id"], reason="no check yet") for p in props if p["id"] not in claimed],
        notes="Pure Python; nothing is compiled. Every check imports continual from /repo's working tree. See DESIGN.md.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


main()
