from gate import *
def units(cx): return gate_units(cx, 'tweaks', only=[n for n in gate_codes() if n not in LINEAR], cases=[('sec', 'sec')])
replay = gate_replay('c20')
