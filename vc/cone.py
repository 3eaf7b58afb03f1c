"""Which functions under contract does a function depend on?  (an over-approximation
from the references in its SSA form; functions without a contract are looked through)"""
from val import FuncRef

def refs(x, out):
    if isinstance(x, list):
        if len(x) >= 3 and x[0] in ('f', 'g') and isinstance(x[2], str):
            out.add((x[0], x[2])); return
        for y in x: refs(y, out)
    elif isinstance(x, dict):
        for y in x.values(): refs(y, out)

def usable(pg, key):
    con = pg.contracts.get(key)
    return con is not None and key in pg.prog.bykey and (not con.arch or pg.prog.arch in con.arch)

def direct(pg, fname):
    """keys of the contracts that may be used when the function is verified"""
    out = set(); seen = set(); todo = [fname]
    while todo:
        f = todo.pop()
        if f in seen: continue
        seen.add(f)
        fn = pg.prog.funcs.get(f)
        if fn is None: continue
        if f != fname and usable(pg, fn.key):
            out.add(fn.key)
            if pg.contracts[fn.key].level != 'mode': continue
        rs = set()
        for b in fn.blocks: refs(b['i'], rs)
        for k, n in rs:
            if k == 'f': todo.append(n)
            else:
                for _, mem in pg.variants:
                    v = mem.get(('g', n))
                    if isinstance(v, FuncRef): todo.append(v.name)
    return out

def cone(pg, roots):
    """the roots and everything they depend on that is under contract here"""
    out = []; todo = [k for k in roots if usable(pg, k)]
    seen = set(todo)
    while todo:
        k = todo.pop(0)
        out.append(k)
        for d in sorted(direct(pg, pg.prog.bykey[k].name)):
            if d not in seen:
                seen.add(d); todo.append(d)
    return out
