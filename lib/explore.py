"""Exhaustive depth-first exploration of a deterministic run with choice points."""


def explore(run, depth, prefix=()):
    """Calls run(choose) once for every sequence of choices; choose(n) is answered
    with every value 0..n-1 for the first `depth` choice points (after the fixed
    prefix) and with 0 afterwards.  Returns the number of runs."""
    pre = list(prefix)
    fixed = len(pre)
    runs = 0
    while True:
        trace = []

        def choose(n):
            i = len(trace)
            c = pre[i] if i < len(pre) else 0
            if c >= n:
                raise RuntimeError("choice diverged")
            trace.append((c, n if i < depth + fixed else 1))
            return c
        run(choose)
        runs += 1
        # next sequence
        k = len(trace) - 1
        while k >= fixed and trace[k][0] + 1 >= trace[k][1]:
            k -= 1
        if k < fixed:
            return runs
        pre = [c for c, _ in trace[:k]] + [trace[k][0] + 1]


def covering(levels, strength):
    """rows (dicts) over levels: name -> values, such that every combination of values of every `strength` names occurs in one; greedy, deterministic"""
    import itertools
    names = list(levels)
    sets = list(itertools.combinations(range(len(names)), strength))
    todo = {(s, v): None for s in sets for v in itertools.product(*(range(len(levels[names[i]])) for i in s))}
    rows = []
    while todo:
        s0, v0 = next(iter(todo))
        row = dict(zip(s0, v0))
        for i in sorted(set(range(len(names))) - set(s0), key=lambda i: -len(levels[names[i]])):
            have = set(row) | {i}
            best = None
            for x in range(len(levels[names[i]])):
                row[i] = (x + len(rows)) % len(levels[names[i]])
                gain = sum((s, tuple(row[j] for j in s)) in todo for s in sets if i in s and have.issuperset(s))
                if best is None or gain > best[0]:
                    best = (gain, row[i])
            row[i] = best[1]
        for s in sets:
            todo.pop((s, tuple(row[j] for j in s)), None)
        rows.append({n: levels[n][row[i]] for i, n in enumerate(names)})
    return rows
