def from_gen_fn(f): return f
def from_fn(f): return f
def from_test(f): return f
def from_list_fn(f): return f
