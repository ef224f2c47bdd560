from gate import *
def units(cx): return gate_units(cx, 'correct')
replay = gate_replay('c01')
