"""Minimisation of a failing plan: generic delta debugging over plain JSON."""
import json
import time


def size(plan):
    return len(json.dumps(plan))


def candidates(node):
    """Simpler variants of a JSON value, most aggressive first"""
    if isinstance(node, list):
        n = len(node)
        step = n
        while step >= 1:
            for i in range(0, n, step):
                if n - min(step, n - i) >= 0 and n:
                    yield node[:i] + node[i + step:]
            step //= 2
        for i, item in enumerate(node):
            for cand in candidates(item):
                yield node[:i] + [cand] + node[i + 1:]
    elif isinstance(node, dict):
        keys = list(node)
        fixed = node.get("_keep", []) if isinstance(node.get("_keep"), list) else []
        for key in keys:
            if key.startswith("$") or key in fixed or key in ("op", "kind", "do", "name"):
                continue
            out = dict(node)
            del out[key]
            yield out
        for key in keys:
            if key.startswith("$") or key == "_keep":
                continue
            if key in ("op", "kind", "do") and isinstance(node[key], str):
                continue
            for cand in candidates(node[key]):
                out = dict(node)
                out[key] = cand
                yield out
    elif isinstance(node, bool):
        if node:
            yield False
    elif isinstance(node, int):
        for cand in (0, 1, node // 2, node - 1 if node > 0 else node + 1):
            if abs(cand) < abs(node):
                yield cand
    elif isinstance(node, float):
        for cand in (0.0, round(node, 1), round(node, 2)):
            if cand != node and len(repr(cand)) < len(repr(node)):
                yield cand
    elif isinstance(node, str):
        if len(node) > 1 and "/" not in node and "." not in node:
            yield node[:len(node) // 2]
            yield node[:1]
    else:
        return


def shrink(plan, fails, seconds=60.0, tries=3000):
    """Smallest plan found for which fails(plan) is still true"""
    end = time.monotonic() + seconds
    best = plan
    done = 0
    improved = True
    while improved and time.monotonic() < end and done < tries:
        improved = False
        seen_size = size(best)
        for cand in candidates(best):
            if time.monotonic() > end or done >= tries:
                break
            cand_size = size(cand)
            if cand_size > seen_size:
                continue
            done += 1
            if fails(cand):
                best = cand
                improved = True
                break
    return best, done
