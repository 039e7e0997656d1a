"""Registry of contracts.  A contract is a function of a world w; it is read twice: symbolically (proof) and concretely (replay)."""
CASES = {}

class Case:
    def __init__(self, prop, name, fn, fns, sym, shapes, max_paths, deadline, weight, why):
        self.prop, self.name, self.fn, self.fns = prop, name, fn, fns
        self.sym, self.shapes, self.max_paths, self.deadline, self.weight, self.why = sym, shapes, max_paths, deadline, weight, why

def case(prop, fns='', sym='full', shapes=None, max_paths=600, deadline=200, weight=1.0, why='', name=None):
    """fns: functions of the package the contract is about; sym: 'full' all shapes | 'shapes' bounded shapes | 'none' concrete only"""
    def d(fn):
        nm = name or fn.__name__
        for p in prop.split():
            cs = CASES.setdefault(p, {})
            assert nm not in cs, nm
            cs[nm] = Case(p, nm, fn, fns.split(), sym, shapes, max_paths, deadline, weight, why)
        return fn
    return d
