from gate import *
def units(cx): return gate_units(cx, 'rows_spec', only=[n for n in gate_codes() if n not in LINEAR], cases=[('sec', 'sec')])
replay = gate_replay('c25')
