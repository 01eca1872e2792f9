"""Model-based generation: all steps of a bounded model, as TLC wrote them,
turned into histories for the real code."""
import collections
import json
import re

EDGE = re.compile(r'^"@E (.*) @ (.*) @ (.*)"$')


def value(txt):
    """a printed TLA+ tuple as a list"""
    txt = re.sub(r'"(?:[^"\\]|\\.)*"|<<|>>|TRUE|FALSE|\{|\}',
                 lambda m: {'<<': '[', '>>': ']', 'TRUE': 'true', 'FALSE': 'false',
                            '{': '[', '}': ']'}.get(m.group(0), m.group(0)), txt)
    return json.loads(txt)


class Graph:
    """the steps of a model; the state the first step leaves is the initial one"""

    def __init__(self, out):
        self.ids, self.succ, self.edges = {}, collections.defaultdict(list), []
        seen = set()
        for line in out.splitlines():
            m = EDGE.match(line)
            if not m:
                continue
            a, act, b = (x.replace('\\"', '"').replace('\\\\', '\\') for x in m.groups())
            a, b = self.num(a), self.num(b)
            if (a, act, b) in seen:
                continue
            seen.add((a, act, b))
            self.succ[a].append(len(self.edges))
            self.edges.append((a, value(act), b))

    def num(self, s):
        return self.ids.setdefault(s, len(self.ids))

    def walks(self, r, length, limit=None):
        """walks from the initial state that take every step (or, with a limit, as
        many as so many walks take)"""
        todo = set(range(len(self.edges)))
        left = {s: list(es) for s, es in self.succ.items()}
        for es in left.values():
            r.shuffle(es)
        out = []
        while todo and (limit is None or len(out) < limit):
            s, walk = 0, []
            while len(walk) < length:
                while left.get(s) and left[s][-1] not in todo:
                    left[s].pop()
                if left.get(s):
                    path = [left[s].pop()]
                else:
                    path = self.nearest(s, todo, length - len(walk), r)
                    if not path:
                        break
                for e in path:
                    todo.discard(e)
                walk += path
                s = self.edges[walk[-1]][2]
            if not walk:
                break                      # what is left cannot be reached in time
            out.append([self.edges[e][1] for e in walk])
        return out, len(self.edges) - len(todo)

    def nearest(self, s, todo, n, r):
        prev, q = {s: None}, collections.deque([(s, 0)])
        while q:
            x, d = q.popleft()
            if d >= n:
                return []
            es = list(self.succ[x])
            r.shuffle(es)
            for e in es:
                y = self.edges[e][2]
                if e in todo:
                    path = [e]
                    while prev[x] is not None:
                        path.append(prev[x])
                        x = self.edges[prev[x]][0]
                    return path[::-1]
                if y not in prev:
                    prev[y] = e
                    q.append((y, d + 1))
        return []


class Model:
    """A bounded model and how its steps become calls.

    world(g) -> dict(world=JSON for TLC, make=function(walk, id, g) -> case)
    """

    def __init__(self, name, module, world, cfg=None, length=12, quick=150, thorough=None,
                 thorough_world=None):
        self.name, self.module, self.cfg = name, module, cfg or module + '.cfg'
        self.world, self.length, self.quick, self.thorough = world, length, quick, thorough
        self.thorough_world = thorough_world


def slim(files):
    """interface files as TLC needs them"""
    out = {}
    for k, f in files.items():
        f = {a: b for a, b in f.items() if a != 'enc'}
        f['recs'] = [dict(n=q['name'], v=q['v'], t=q['t']) for q in f['recs']]
        out[k] = f
    return out
