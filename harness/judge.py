"""Cases decided one by one by a specification module that prints the violated clauses."""
import os
import tlc


def judge(ctx, module, cases, batch=60, heap="8g"):
    """-> [(case id, clause)]"""
    out = []
    for b in range(0, len(cases), batch):
        got = tlc.judge(ctx, module, "UX_CASES", cases[b:b + batch], {"bad": ["outside-specification"]}, heap, bool(os.environ.get("UX_KEEP")))
        for c in cases[b:b + batch]:
            ctx.traces += 1
            out += [(c["id"], cl) for cl in got[c["id"]]["bad"]]
    return out
