"""Call graph over the exported MIR."""


def consts(x):
    """function constants and closures mentioned in a MIR fragment"""
    if isinstance(x, dict):
        f = x.get('fn')
        if isinstance(f, dict) and 'id' in f:
            yield ('fn', f)
        for v in x.values():
            yield from consts(v)
    elif isinstance(x, (list, tuple)):
        if len(x) >= 4 and x[0] == 'agg' and x[1] == 'closure':
            yield ('closure', x[3])
        for v in x:
            if isinstance(v, (dict, list, tuple)):
                yield from consts(v)


def callees(b):
    """[(resolved id or trait method id, fn record or None)]"""
    out = []
    for k, f in consts(b.blocks):
        if k == 'closure':
            out.append((f, None))
        else:
            out.append((f.get('resolved') or f['id'], f))
    return out


class Graph:
    def __init__(self, P):
        self.P = P
        self.out = {b.id: callees(b) for b in P.bodies.values()}

    def reach(self, start):
        seen, todo = set(), [start]
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            for j, _ in self.out.get(i, ()):
                todo.append(j)
        return seen

    def calls(self, i, name):
        """i reaches a call of a function with this last name"""
        return any(x.split('::')[-1] == name for x in self.reach(i))
