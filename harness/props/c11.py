import random
import edits


def run(ck):
    r = random.Random(ck.seed * 7919 + 11)
    replay = edits.model(ck, "C11", 3, 1, '"a", "b"', ck.scale(2, 2))
    if ck.thorough:
        edits.model(ck, "C11", 4, 2, '"a", "b"', 2, replay=False)
    cases = replay + [edits.history(r, edits.DEL + ["each"]) for _ in range(ck.scale(2000, 20000))]
    ck.record(cases)
    ck.judge("CheckEdits", cases)
    return ck.finish(["an operation is applied to lines of the current configuration (not to line objects left over from before a commit)"])
