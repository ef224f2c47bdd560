from gate import *
def units(cx): return gate_units(cx, 'cost')
replay = gate_replay('c18')
