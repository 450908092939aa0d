import os
INF = float("inf")
def read(path):
    with open(path) as f:
        return f.read()
def get_file_path(f, rel): return os.path.join(os.path.dirname(os.path.abspath(f)), rel)
def negate_test(t): return lambda *a, **k: not t(*a, **k)
