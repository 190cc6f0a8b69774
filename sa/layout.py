"""Where a class keeps what: by the member names the analysis knows or, should
they have changed, from what the accessors return."""
from . import ir
from .values import *
from .state import *
from .lin import *
from .absint import Engine


def flat_names(mod, t):
    return {n: o for n, o, s, m in mod.members(t)}


def layout(mod, M, t, roles):
    """roles: [(member name, accessor entry point)] -> offsets"""
    names = flat_names(mod, t)
    if all(n in names for n, _ in roles):
        return [names[n] for n, _ in roles]
    size = t['size']
    out = []
    for n, entry in roles:
        if n in names:
            out.append(names[n])
            continue
        st = State()
        cells = {o: (8, Lin.sym('cell%d' % o)) for o in range(0, size, 8)}
        st.mem['obj'] = Flat('ext', size, cells)
        for x in cells.values():
            st.cons = st.cons.add(x[1] - 1).add((1 << 40) - x[1])
        vals = {o.val for o in Engine(mod, M).run(entry, st, [Ptr('obj')]) if o.kind == 'ret'}
        hit = [o for o, (w, v) in cells.items() if vals == {v}]
        if len(hit) != 1:
            raise ir.Broken('the member of %s behind %s cannot be determined' % (t['name'], entry))
        out.append(hit[0])
    if len(set(out)) != len(out):
        raise ir.Broken('the members of %s cannot be told apart' % t['name'])
    return out


def in_order(mod, t, names):
    """members by name, else by position among those that hold data"""
    have = flat_names(mod, t)
    if all(n in have for n in names):
        return [have[n] for n in names]
    ms = [(o, n, s) for n, o, s, m in mod.members(t) if s >= 8]
    ms.sort()
    if len(ms) != len(names) or any(n in names and names.index(n) != k for k, (o, n, s) in enumerate(ms)):
        raise ir.Broken('the members of %s are not the ones the analysis knows' % t['name'])
    return [o for o, n, s in ms]
