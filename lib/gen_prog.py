"""Programs for harness/prog_main.cpp: wrapped functions made, copied, moved, called and dropped."""
import random


def progress(seed, count, base=0):
    out = []
    for i in range(count):
        r = random.Random("%s/progress/%d" % (seed, i))
        main, nxt = [], [0]
        held = {}                                     # tracker object -> server
        for k in range(r.choice([1, 1, 2])):
            main.append({"op": "tracker", "k": k, "cb": int(r.random() < 0.75)})
            held[k] = k
        if r.random() < 0.3:
            main.append({"op": "hold", "k": 0, "f": 3})
            held[3] = 0
        full = {}                                     # slot -> moved from?

        def edit(mine, shared):
            """an operation on the slots a thread owns; shared slots are only read and called"""
            have = [s for s in mine if s in full]
            x = r.random()
            if x < 0.25 or not (have or shared):
                if not mine or not held:
                    return {"op": "y"}
                s = r.choice(mine)
                nxt[0] += 1
                full[s] = False
                return {"op": "wrap", "s": s, "id": nxt[0], "k": r.choice(sorted(held)), "kind": r.choice([0, 0, 0, 1, 2]),
                        "as": int(r.random() < 0.5)}
            if x < 0.4 and mine:
                f = r.choice(have + shared)
                s = r.choice(mine)
                if s == f:
                    return {"op": "y"}
                full[s] = full[f]
                return {"op": "copy", "s": s, "f": f, "as": int(r.random() < 0.5)}
            if x < 0.5 and have:
                f, s = r.choice(have), r.choice(mine)
                if s == f:
                    return {"op": "y"}
                full[s], full[f] = full[f], True
                return {"op": "move", "s": s, "f": f, "as": int(r.random() < 0.5)}
            if x < 0.6 and have:
                s = r.choice(have)
                del full[s]
                return {"op": "drop", "s": s}
            if x < 0.7 and held:
                return {"op": r.choice(["steps", "completed"]), "k": r.choice(sorted(held))}
            return {"op": "call", "s": r.choice(have + shared), "a": r.randint(0, 9)}

        for _ in range(r.randint(1, 8)):
            main.append(edit(list(range(8)), []))
        nthr = r.choice([0, 1, 2, 2, 3])
        thr = []
        if nthr:
            shared = [s for s in full if r.random() < 0.5]
            rest = [s for s in range(8) if s not in shared]
            r.shuffle(rest)
            for t in range(nthr):
                mine = rest[t::nthr]
                thr.append([edit(mine, shared) for _ in range(r.randint(1, 4))])
            main.append({"op": "spawn"})
        for _ in range(r.randint(0, 6)):
            if held and r.random() < 0.15:
                k = r.choice(sorted(held))
                del held[k]
                main.append({"op": "unhold", "k": k})
            else:
                main.append(edit(list(range(8)), []))
        for k in sorted(held):
            main += [{"op": "steps", "k": k}, {"op": "completed", "k": k}]
        out.append({"id": base + i + 1, "cores": 2, "main": main, "thr": thr})
    return out
