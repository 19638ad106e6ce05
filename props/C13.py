"""Sequences: shifting trails moves whole trails, and deviation edges are direct or indirect accordingly."""
from . import eqlib as E

BOUNDS = "three trails of 1 to 3 edges joined by deviation edges between every pair of nodes of different trails, both orientations; classification for arbitrary (real) shifts of every trail, enumeration of sequences for shifts 0 to 3; two shifts in a row and a rebuild"
ASSUMPTIONS = ["shifts are not negative"]


def make(h, lens, rev=False):
    trails, k = [], 0
    for n in lens:
        trails.append(list(range(k, k + n)))
        k += n
    dev = [(v, u) if (u + v) % 2 else (u, v) for i, a in enumerate(trails) for b in trails[i + 1:] for u in a for v in b]
    spec = {"trails": trails, "dev": dev, "loads": [], "order": "rev" if rev else None}
    if rev:
        spec["rev"] = [(t[0], t[1]) for t in trails]
        spec["edge_order"] = "dev_first"
    return E.build(h, spec)


def classified(h, cfg):
    m = make(h, cfg["lens"], cfg.get("rev"))
    t = m.topo
    seq = {n: i for tr in m.trails for i, n in enumerate(tr)}
    rounds = cfg.get("rounds", 1)
    for r in range(rounds + 1):
        if r:
            for tr in m.trails[:cfg.get("shifted", 2)]:
                s = h.real("s%d_%d" % (r, tr[0]), 0, 4)
                h.assume(s >= 0)
                with h.quiet():
                    t.shift_trail(tr[0], s)
                for i, n in enumerate(tr):
                    seq[n] = s + i
        for n in m.nodes:
            h.check_eq("sequence@%d" % n, t.node_sequence(n), seq[n])
        conn = {n: ([], []) for n in m.nodes}
        for e in m.force:
            same = bool(h.decide(seq[e[0]] == seq[e[1]]))
            h.check("direct", t.is_direct_deviation_edge(e) == same, "%s" % (e,))
            h.check("indirect", t.is_indirect_deviation_edge(e) == (not same), "%s" % (e,))
            a, b = t.edge_sequence(e)
            h.check_eq("edge-sequence", a, seq[e[0]])
            h.check_eq("edge-sequence", b, seq[e[1]])
            for n in e:
                conn[n][0 if same else 1].append(e)
        d, i = sorted(t.direct_deviation_edges()), sorted(t.indirect_deviation_edges())
        h.check("partition", sorted(d + i) == sorted(m.force) and not set(d) & set(i))
        h.check("counts", (t.number_of_direct_deviation_edges(), t.number_of_indirect_deviation_edges()) == (len(d), len(i)))
        for e in m.edge.values():
            h.check("trail-edges-are-neither", not t.is_direct_deviation_edge(e) and not t.is_indirect_deviation_edge(e))
        for n in m.nodes:
            h.check("connected", sorted(t.connected_deviation_edges(n)) == sorted(conn[n][0] + conn[n][1]))
    h.check("trails-kept", {k: list(v) for k, v in t.trails(keys=True)} == {tr[0]: tr for tr in m.trails})


def sequences(h, cfg):
    m = make(h, cfg["lens"], cfg.get("rev"))
    t = m.topo
    seq = {n: i for tr in m.trails for i, n in enumerate(tr)}
    for r in range(cfg.get("rounds", 1) + 1):
        if r:
            tr = m.trails[h.ints("which%d" % r, 0, len(m.trails) - 1)]
            s = h.ints("shift%d" % r, 0, 3)
            t.shift_trail(tr[0], s)
            for i, n in enumerate(tr):
                seq[n] = s + i
        last = max(seq.values())
        got = [(k, sorted(v)) for k, v in t.sequences(keys=True)]
        want = [(k, sorted(n for n in seq if seq[n] == k)) for k in range(last + 1)]
        h.check("sequences", got == want, "%r != %r" % (got, want))
        h.check("sequences-plain", [sorted(v) for v in t.sequences()] == [v for _, v in want])
        h.check("last", t.sequence_last() == last and t.number_of_sequences() == last + 1)
        ts = t.trails_sequences()
        h.check("trail-maps", ts == {tr[0]: {seq[n]: n for n in tr} for tr in m.trails}, repr(ts))
        for tr in m.trails:
            h.check("trail-map", t.trail_sequences(tr[0]) == {seq[n]: n for n in tr})
    # not an origin: refused, nothing moves
    bad = h.choose("bad", [n for tr in m.trails for n in tr[1:]])
    _, e = h.call(t.shift_trail, bad, 2)
    h.check("refused", e is not None)
    h.check("refused:unmoved", all(t.node_sequence(n) == seq[n] for n in seq))
    # building the trails again starts over
    with h.quiet():
        t.build_trails()
    h.check("rebuilt", all(t.node_sequence(n) == i for tr in m.trails for i, n in enumerate(tr)))


def tasks(tier):
    out = [
        {"name": "two", "fn": "classified", "policy": "full", "cfg": {"lens": [2, 2], "rounds": 1}, "budget": 100},
        {"name": "two-long", "fn": "classified", "policy": "full", "cfg": {"lens": [2, 4], "rounds": 1, "rev": True}, "budget": 100},
        {"name": "two-twice", "fn": "classified", "policy": "full", "cfg": {"lens": [2, 2], "rounds": 2, "shifted": 1, "rev": True}, "budget": 100},
        {"name": "three", "fn": "classified", "policy": "full", "cfg": {"lens": [2, 2, 2], "rounds": 1, "shifted": 2}, "budget": 200, "max_paths": 4000, "weight": 3},
        {"name": "seq-two", "fn": "sequences", "cfg": {"lens": [3, 2], "rounds": 2}, "budget": 100},
        {"name": "seq-three", "fn": "sequences", "cfg": {"lens": [2, 4, 3], "rounds": 1, "rev": True}, "budget": 100},
    ]
    if tier == "thorough":
        out += [
            {"name": "three-long", "fn": "classified", "policy": "full", "cfg": {"lens": [2, 3, 2], "rounds": 1, "shifted": 3, "rev": True}, "budget": 900, "max_paths": 40000, "weight": 9},
            {"name": "seq-three-3", "fn": "sequences", "cfg": {"lens": [2, 4, 3], "rounds": 3}, "budget": 900, "max_paths": 40000, "weight": 9},
        ]
    return out
