import random
import edits


def run(ck):
    r = random.Random(ck.seed * 7919 + 10)
    replay = edits.model(ck, "C10", 3, 1, '"a", "b"', ck.scale(2, 2))
    if ck.thorough:
        edits.model(ck, "C10", 4, 2, '"a", "b"', 2, replay=False)
    cases = replay + [edits.history(r, edits.INS + ["each"]) for _ in range(ck.scale(2000, 20000))]
    ck.record(cases)
    ck.judge("CheckEdits", cases)
    return ck.finish(["an operation is applied to lines of the current configuration (not to line objects left over from before a commit)"])
