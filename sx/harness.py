class Harness:
    """name, function(ctx, **shape), shapes(tier) -> list of shape dicts (JSON-able), and the
    labels that must be reached on the unchanged tree (vacuity guard)"""

    def __init__(self, name, fn, shapes, reach=(), witnesses=4):
        self.name = name
        self.fn = fn
        self.shapes = shapes
        self.reach = reach
        self.witnesses = witnesses
