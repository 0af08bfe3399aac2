import random
import edits


def run(ck):
    r = random.Random(ck.seed * 7919 + 13)
    cases = []
    for p in ("C10", "C11", "C12"):       # the commit laws, exhaustively; one history in a few is replayed with a commit at its end
        got = edits.model(ck, p, 2 if not ck.thorough else 3, 1, '"a", "b"', 2)
        for c in got:
            c["ops"] = c["ops"] + [edits.op(r, c["lines"], c["opts"], "commit")]
            c["fresh"] = True
        cases += got if ck.thorough else r.sample(got, min(1200, len(got)))
    for _ in range(ck.scale(1600, 16000)):
        c = edits.history(r, edits.INS + edits.DEL + edits.REP + ["each"] + edits.COM * 4, nops=9, banners=.3)
        c["fresh"] = True
        end = edits.op(r, c["lines"], c["opts"], r.choice(["commit", "atomic"]))
        c["ops"] += [end, end] if r.random() < .5 else [end]
        cases.append(c)
    ck.record(cases)
    ck.judge("CheckEdits", cases)
    return ck.finish()
