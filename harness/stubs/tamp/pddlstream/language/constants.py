from collections import namedtuple
PDDLProblem = namedtuple("PDDLProblem", ["domain_pddl", "constant_map", "stream_pddl", "stream_map", "init", "goal"])
def And(*e): return ("and",) + tuple(e) if len(e) != 1 else e[0]
def Or(*e): return ("or",) + tuple(e)
def Not(e): return ("not", e)
def Equal(a, b): return ("=", a, b)
class Output(tuple):
    def __new__(cls, *a): return tuple.__new__(cls, a)
def print_solution(s):
    plan, cost, evaluations = s
    print()
    print('Solved: {}'.format(plan is not None))
    print('Cost: {:.3f}'.format(cost))
    print('Length: {}'.format(float('inf') if plan is None else len(plan)))
    print('Evaluations: {}'.format(len(evaluations)))
