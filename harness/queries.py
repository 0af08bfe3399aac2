"""Shared by the search properties C06-C09."""
import gen


def config(r):
    kw, o = gen.opts(r)
    x = r.random()
    n = r.choice([3, 6, 10, 16, 24])
    if x < .35:          # few distinct words, many overlapping matches
        lines = []
        ind = 0
        for k in range(n):
            ind = max(0, min(4, ind + r.choice([-2, -1, 0, 1, 1])))
            lines.append(" " * ind + r.choice(["a", "b", "a b", "ab", "a  b", "aa", "b a", "1 a", "a.b", "a (b)"]))
    else:
        lines = gen.indented(r, n, kw["comment"], meta=r.choice([.02, .2]))
    if r.random() < .2 and lines:      # the same line in several places
        for _ in range(3):
            lines.insert(r.randint(0, len(lines)), r.choice(lines))
    return gen.sanitize(lines, o), kw, o


CFG = """INIT Init
NEXT Next
CONSTANTS MaxLines = %d
 MaxIndent = %d
 Bodies = {%s}
INVARIANTS SearchLaws BranchLaws
"""


def model(ck):
    ck.model_check("MCQuery", CFG % (4, 2, '"a", "b", "ab"' if ck.thorough else '"a", "ab"'), None, "MCQuery 4 lines, indents 0..2")
