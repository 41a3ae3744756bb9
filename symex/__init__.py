class H:
    """One harness: fn(env, **params) explored symbolically."""

    def __init__(self, name, fn, params=None, budget=100, functions=(), bounds="", covers=(), reset=()):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.budget = budget
        self.functions = list(functions)
        self.bounds = bounds
        self.covers = list(covers)
        self.reset = list(reset)
