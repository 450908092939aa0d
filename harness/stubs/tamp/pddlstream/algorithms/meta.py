SOLVE = [None]
def solve(problem, **k): return SOLVE[0](problem, **k) if SOLVE[0] else (None, None, None)
def create_parser(*a, **k):
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument("-algorithm", default="adaptive"); p.add_argument("-unit", action="store_true")
    return p
