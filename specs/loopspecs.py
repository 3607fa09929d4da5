"""Loop contracts shared by several properties (symbolic runs only)"""

REPEAT = 'gcodes:GCodeCannedCycle._process#for0'


def repeat_contract(c, m, dist, moves, fixed):
    """Contract of the loop over the repeats of a canned cycle.

    m: the machine that executes it, in its state before the cycle
    moves: axis -> amount moved per repeat (incremental) or coordinate in machine terms (absolute)
    fixed: axis -> amount moved once, by the first repeat only (incremental; the return level)"""
    if not c.symbolic:
        return
    from pyvc.loops import LoopSpec
    axes = sorted(m.axes)
    P = c.pg.machine.Position
    unit = m.abs_pos.unit
    p0 = {a: getattr(m.abs_pos, a) for a in axes}
    lo0 = {a: getattr(m.abs_range_min, a) for a in axes}
    hi0 = {a: getattr(m.abs_range_max, a) for a in axes}

    def at(k):
        r = {}
        for a in axes:
            if dist == 'inc':
                r[a] = p0[a] + (moves[a] * k if a in moves else 0) + fixed.get(a, 0)
            else:
                r[a] = moves.get(a, p0[a])
        return r

    class Repeat(LoopSpec):
        name = 'repeats of a canned cycle'
        peel = 1

        def havoc(self, c, L, k):
            p = at(k)
            m.abs_pos = P(axes=set(axes), unit=unit, **p)
            m.abs_range_min = P(axes=set(axes), unit=unit, **{a: c.min(lo0[a], p[a]) for a in axes})
            m.abs_range_max = P(axes=set(axes), unit=unit, **{a: c.max(hi0[a], p[a]) for a in axes})
            return {}

        def inv(self, c, L, k):
            p = at(k)
            for a in axes:
                yield ('position after k repeats', c.eq(getattr(m.abs_pos, a), p[a]))
                yield ('range after k repeats', c.And(c.eq(getattr(m.abs_range_min, a), c.min(lo0[a], p[a])), c.eq(getattr(m.abs_range_max, a), c.max(hi0[a], p[a]))))
            yield ('same machine', m.abs_pos.unit == unit)
    c.loops.setdefault(REPEAT, []).append(Repeat())
