class Registry:
    def __init__(self, pid):
        self.pid = pid
        self.items = []
        self.exts = ()

    def add(self, name, functions=(), symbolic=True, nsamp=10, nstand=80, world=None, thorough_only=False, timeout=None, why_bounded=None, cbound=None):
        def deco(f):
            self.items.append(dict(name=name, fn=f, functions=list(functions), symbolic=symbolic, nsamp=nsamp, nstand=nstand, world=world,
                                   thorough_only=thorough_only, timeout=timeout, why_bounded=why_bounded, cbound=cbound))
            return f
        return deco
