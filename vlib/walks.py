"""Turn the transition relation printed by TLC into operation sequences covering every transition."""
import json
from collections import defaultdict, deque


def read_transitions(result, tag="T"):
    """[(from, act, to)] with states as canonical JSON strings."""
    out = []
    seen = set()
    for p in result.printed():
        if isinstance(p, list) and p and p[0] == tag:
            f, a, t = json.dumps(p[1], sort_keys=True), p[2], json.dumps(p[3], sort_keys=True)
            k = (f, json.dumps(a), t)
            if k not in seen:
                seen.add(k)
                out.append((f, a, t))
    return out


def covering_walks(transitions, init, max_len, rng, limit=None):
    """Walks from init that together take every transition reachable from it."""
    succ = defaultdict(list)
    for i, (f, a, t) in enumerate(transitions):
        succ[f].append(i)
    for f in succ:
        rng.shuffle(succ[f])
    # breadth-first tree from init
    par = {init: None}
    dq = deque([init])
    while dq:
        f = dq.popleft()
        for i in succ[f]:
            t = transitions[i][2]
            if t not in par:
                par[t] = (f, i)
                dq.append(t)
    todo = {f: [i for i in succ[f]] for f in par}
    remaining = sum(len(v) for v in todo.values())
    walks = []
    while remaining:
        # nearest state with something left to take
        cur, walk = init, []
        while len(walk) < max_len and remaining:
            if todo.get(cur):
                i = todo[cur].pop()
                remaining -= 1
                walk.append(transitions[i][1])
                cur = transitions[i][2]
                continue
            prev = {cur: None}
            dq = deque([cur])
            goal = None
            while dq:
                f = dq.popleft()
                if todo.get(f):
                    goal = f
                    break
                for i in succ[f]:
                    t = transitions[i][2]
                    if t not in prev:
                        prev[t] = (f, i)
                        dq.append(t)
            if goal is None:
                break
            path = []
            x = goal
            while prev[x] is not None:
                f, i = prev[x]
                path.append(i)
                x = f
            if walk and len(walk) + len(path) > max_len:
                break
            for i in reversed(path):
                walk.append(transitions[i][1])
            cur = goal
        walks.append(walk)
        if limit and len(walks) >= limit:
            break
    return walks
