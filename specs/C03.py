from vf.optunit import OptUnit


def units(tier): return [OptUnit(['C03'])]
