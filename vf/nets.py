"""Generated hydraulic networks: a reproducible family, number k."""
import random
from fractions import Fraction

from .world import PS, Builder

KINDS = ('conn', 'conn', 'branched', 'branched', 'tes', 'tes', 'mix',
         'split', 'valve_pipe', 'hexnum', 'platehex')


def _rank(rows):
    rows = [list(r) for r in rows]
    rank = 0
    for c in range(len(rows[0]) if rows else 0):
        p = next((i for i in range(rank, len(rows)) if rows[i][c]), None)
        if p is None:
            continue
        rows[rank], rows[p] = rows[p], rows[rank]
        for i in range(rank + 1, len(rows)):
            if rows[i][c]:
                q = rows[i][c] / rows[rank][c]
                rows[i] = [x - q * y for x, y in zip(rows[i], rows[rank])]
        rank += 1
    return rank


class _Net:
    def __init__(self, k):
        self.r = random.Random(1000 + k)
        self.b = Builder()
        self.nodes = []
        self.ends = []                # free ends (node, port)
        self.edges = []               # (end, end or None)
        self.n = 0

    def node(self, kind=None, nports=None):
        r, b = self.r, self.b
        kind = kind or r.choice(KINDS)
        name = '%s%d' % (kind[:2], len(self.nodes))
        if kind == 'conn':
            b.conn(name)
            ports = ['A', 'B', 'C']
        elif kind in ('branched', 'tes'):
            m = nports - 2 if nports else r.choice((1, 1, 2, 3, 4))
            n = r.choice((4, 5, 6))
            new = {'x%d' % i: [r.randrange(n) if kind == 'tes'
                               else 1 + r.randrange(n - 2), 'index']
                   for i in range(m)}
            new = dict(sorted(new.items(), key=lambda x: x[1][0]))
            (b.branched if kind == 'branched' else b.tes)(name, n, new)
            ports = ['in', 'out'] + list(new)
        elif kind in ('mix', 'split'):
            b.mixval(name, kind, lo=.01, hi=.99)
            ports = ['A', 'B', 'AB']
        elif kind == 'valve_pipe':
            b.valve_pipe(name, 4, r.choice((1, 2)), lo=.01, hi=.99)
            ports = ['A', 'B', 'AB']
        else:
            (b.hexnum if kind == 'hexnum' else b.platehex)(name)
            ports = ['sup_in', 'sup_out', 'dmd_in', 'dmd_out']
        i = len(self.nodes)
        self.nodes.append((kind, name, ports))
        self.ends += [(i, p) for p in ports]
        return i

    def join(self, e, f):
        for x in (e, f):
            if x is not None:
                self.ends.remove(x)
        self.edges.append((e, f))

    def equations(self):
        """balances of the branching parts over the edge flows"""
        m = len(self.edges)
        at = {}
        for j, (e, f) in enumerate(self.edges):
            at[e] = (j, -1)
            if f is not None:
                at[f] = (j, 1)
        rows = []

        def row(i, ws):
            v = [Fraction(0)] * m
            for p, x in ws.items():
                j, s = at[i, p]
                v[j] += s * x
            rows.append(v)
        for i, (kind, name, ports) in enumerate(self.nodes):
            if kind in ('hexnum', 'platehex'):
                row(i, dict.fromkeys(ports[:2], 1))
                row(i, dict.fromkeys(ports[2:], 1))
            else:
                row(i, dict.fromkeys(ports, 1))
                if kind in ('mix', 'split', 'valve_pipe'):
                    o = Fraction(self.r.randrange(100, 900), 1009)
                    row(i, {'A': 1, 'AB': o})
        return rows

    def pumps(self):
        """edges whose flows can be chosen freely and determine all others"""
        rows = self.equations()
        m = len(self.edges)
        rank = _rank(rows)
        pumped = []
        order = list(range(m))
        self.r.shuffle(order)
        # mixing and splitting valves want their pump at AB
        ab = [j for j in order if any(
            x is not None and x[1] == 'AB'
            and self.nodes[x[0]][0] in ('mix', 'split')
            for x in self.edges[j])]
        for j in ab + [j for j in order if j not in ab]:
            v = [Fraction(0)] * m
            v[j] = Fraction(1)
            if _rank(rows + [v]) > rank:
                rows.append(v)
                rank += 1
                pumped.append(j)
        return pumped

    def line(self, j, pumped):
        """the parts of an edge"""
        r, b = self.r, self.b
        m = r.choice((1, 1, 2))
        parts = []
        for i in range(m):
            self.n += 1
            parts.append(['pipe', 'l%d' % self.n])
        if pumped:
            parts[r.randrange(m)][0] = r.choice(('pump', 'pump', 'Pump'))
        if any(x[0] == 'Pump' for x in parts):
            parts.append(['pipe', 'l%da' % self.n])
            parts.insert(0, ['pipe', 'l%db' % self.n])
        ctrl = []
        for kind, name in parts:
            if kind == 'pipe':
                b.pipe(name, r.choice((2, 3)))
            elif kind == 'pump':
                b.pump(name, r.choice((2, 3)))
            else:
                b.part('Pump', name, start_massflow=.5, lower_limit=-2.,
                       upper_limit=2., maximum_flow=2.,
                       material='carbon_steel', pipe_specs=PS)
                ctrl.append(name)
        e, f = self.edges[j]
        seq = []
        for kind, name in parts:
            fwd = r.random() < .5
            if kind != 'pipe':
                for x, d in ((e, True), (f, False)):
                    if x is not None and x[1] == 'AB':
                        if self.nodes[x[0]][0] == 'mix':
                            fwd = d
                        elif self.nodes[x[0]][0] == 'split':
                            fwd = not d
            seq.append((name, fwd))
        prev = (self.nodes[e[0]][1], e[1])
        for name, fwd in seq:
            a, z = ('in', 'out') if fwd else ('out', 'in')
            b.con(prev[0], prev[1], name, a)
            prev = (name, z)
        if f is None:
            b.open(prev[0], prev[1], 40.)
        else:
            b.con(prev[0], prev[1], self.nodes[f[0]][1], f[1])
        self.pipe1 = [x[1] for x in parts if x[0] == 'pipe'][:1]
        return ctrl

    def build(self):
        r = self.r
        for _ in range(r.choice((1, 2, 2, 3, 3, 4))):
            i = self.node()
            if i:
                own = [x for x in self.ends if x[0] == i]
                oth = [x for x in self.ends if x[0] != i]
                if oth:
                    self.join(r.choice(own), r.choice(oth))
        # close some loops
        for _ in range(r.choice((0, 0, 1, 2))):
            if len(self.ends) >= 3:
                e, f = r.sample(self.ends, 2)
                if e[0] != f[0] or self.nodes[e[0]][0] == 'tes':
                    self.join(e, f)
        for e in list(self.ends):
            self.join(e, None)
        pumped = self.pumps()
        ctrl, pipe = [], None
        for j in range(len(self.edges)):
            ctrl += self.line(j, j in pumped)
            pipe = pipe or (self.pipe1 and self.pipe1[0])
        for kind, name, ports in self.nodes:
            if kind in ('mix', 'split', 'valve_pipe'):
                self.b.pid('pid_' + name, name, part=pipe or 'l1',
                           sat=(.01, .99))
        for n in ctrl:
            self.b.pid('pid_' + n, n, part=pipe or 'l1', sat=(-2., 2.))
        return self.b.done()


def net(k):
    return _Net(k).build()
