"""All partitions that greedy pairwise merging can reach with any tie-break (breadth-first search over partitions)."""
import itertools


def reachable(n, k, value, limit, stop=None):
    """`value(a, b)` is minimised; a merge is impossible when `stop(value)`. Returns a set of partitions, None = too many."""
    level = {frozenset(frozenset([i]) for i in range(n))}
    done = set()
    cache = {}
    while level:
        nxt = set()
        for part in level:
            if len(part) <= k:
                done.add(part)
                continue
            best, pairs = None, []
            for a, b in itertools.combinations(sorted(part, key=min), 2):
                key = (a, b)
                if key not in cache:
                    cache[key] = value(a, b)
                v = cache[key]
                if stop and stop(v):
                    continue
                tol = 1e-9 * max(1.0, abs(best)) if best is not None else 0.0
                if best is None or v < best - tol:
                    best, pairs = v, [(a, b)]
                elif v <= best + tol:
                    pairs.append((a, b))
            if not pairs:
                done.add(part)
            for a, b in pairs:
                nxt.add((part - {a, b}) | {a | b})
        if len(nxt) > limit:
            return None
        level = nxt
    return done
