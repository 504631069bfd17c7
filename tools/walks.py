"""Walks that together cover every edge of a state graph printed by TLC."""
import json
from collections import deque

def edges(out):
    """EDGE lines of a TLC run: (source, operation, destination), states as hashable JSON text"""
    es = []
    for line in out.splitlines():
        if line.startswith('"EDGE '):
            d = json.loads(json.loads(line)[5:])
            es.append((json.dumps(d["s"]), d["o"], json.dumps(d["d"])))
    return es

def cover(es, init, rng, maxlen=200):
    """Greedy: an unvisited edge from here if there is one, else the shortest way to one, else a new walk from init"""
    out, seen = {}, set()
    for n, (s, o, d) in enumerate(es):
        key = (s, json.dumps(o, sort_keys=True), d)
        if key in seen: continue
        seen.add(key)
        out.setdefault(s, []).append(n)
    todo = {s: list(ns) for s, ns in out.items()}
    for ns in todo.values(): rng.shuffle(ns)
    left = sum(len(x) for x in todo.values())
    walks = []
    while left:
        walk, cur = [], init
        while left and len(walk) < maxlen:
            if todo.get(cur):
                n = todo[cur].pop(); left -= 1
                walk.append(n); cur = es[n][2]
                continue
            prev, q, goal = {cur: None}, deque([cur]), None
            while q and goal is None:
                s = q.popleft()
                for n in out.get(s, ()):
                    d = es[n][2]
                    if d not in prev:
                        prev[d] = (s, n)
                        if todo.get(d): goal = d; break
                        q.append(d)
            if goal is None: break
            path, s = [], goal
            while prev[s] is not None:
                path.append(prev[s][1]); s = prev[s][0]
            walk += reversed(path); cur = goal
        if not walk: raise RuntimeError("%d edges cannot be reached from the initial state" % left)
        walks.append(walk)
    return walks
