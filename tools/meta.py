#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing: python3 tools/meta.py)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GU, HM, LM, OTC, OTX = 'garbled_circuit/garbled_circuit_util.cpp', 'garbled_circuit/garbled_circuit_high_mem.cpp', 'garbled_circuit/garbled_circuit_low_mem.cpp', 'crypto/OT.cpp', 'crypto/OT_extension.cpp'
P = []
def p(id, title, stmt, over, qtext, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **kw)))
p('C01', 'Every garbled gate evaluates to its truth function', 'For every supported gate type and every combination of public and secret inputs, the label the evaluator computes is exactly the label the garbler assigned to the true output value, a public output has the true value on both sides, and the two labels of a secret output differ by the global offset. Both sides advance their table positions identically and touch no other table.',
  ['inputs'], 'all labels, offsets, colour bits, cycle numbers, gate ids, evaluator parities and input values', 'Tests garble a few circuits with random labels; a wrong result that needs a colour bit, a label coincidence in half a block, or an unusual gate type is not sampled.',
  [GU, 'crypto/block.h', 'util/util.cpp'], [('GarbleGate', GU), ('EvalGate', GU), ('Type2V, GateOperator', 'util/util.cpp')])
p('C02', 'Public values are propagated exactly, and only they become public', 'A gate output that the public inputs already determine is computed in the clear, with the same correct value, by both parties and by the public-value pre-pass; an output that depends on unrelated secret inputs is never made public. No garbled table is produced for a gate with a public input.',
  ['inputs'], 'all gate types, all public/secret input combinations and values', 'Test circuits fix the public inputs to a handful of patterns; a wrong constant for one type with one public operand goes unnoticed.',
  [GU], [('GarbleEvalGateKnownValue, HalfGarbleGate, HalfEvalGate', GU)])
p('C18', 'Free XOR and one table per non-linear gate', 'XOR, XNOR and NOT gates, gates with a public input and gates whose secret inputs are equal or complementary cost no garbled table; every other gate costs exactly one, tagged with its gate, and the evaluator consumes exactly the tables the garbler produced.',
  ['inputs'], 'all gate types and input labels', 'Tests never look at the number of tables.', [GU], [('GarbleGate', GU), ('EvalGate', GU)])
p('C19', 'The fixed-key cipher is AES-128', 'The round keys derived from the global key follow the FIPS-197 AES-128 key schedule, and the batch encryption replaces every block of the batch by its 10-round encryption under them, leaving the schedule unchanged.',
  ['inputs'], 'all keys and all blocks', 'No test compares the cipher with AES; a wrong round constant or a missing round keeps both parties consistent and every test green while the hash is no longer a sound primitive.', ['crypto/aes.h'], [('AESSetEncryptKey, AES128KeyExpansion, AESEcbEncryptBlks', 'crypto/aes.h')])
p('C20', 'Hash tweaks are unique per cycle, gate and half-gate', 'Every block hashed while garbling or evaluating a gate is an input-wire label of that gate masked with a tweak determined by the clock cycle, the gate and the half-gate alone, identically on both sides; tweaks of different positions never coincide.',
  ['inputs', 'histories'], 'all pairs of (cycle, gate, half), all labels', 'A collision of tweaks changes no output, so no functional test can see it.', [GU], [('tweak construction in GarbleGate / EvalGate', GU)])
p('C25', 'Transmitted tables are exactly the half-gates construction', 'The two rows transmitted for a non-linear gate and its output label equal the half-gates formulas under the fixed-key hash, for every gate type and colour bit; in particular no row exposes a label or the global offset outside its hash mask.',
  ['inputs'], 'all non-linear gate types, labels, offsets, colours, cycles and gate ids', 'Rows can be changed consistently on both sides (leaking the offset) without changing any result.', [GU], [('GarbleGate', GU)])
CH = {}
def check(id, level, tech, note): CH[id] = dict(property=id, quick_cmd='./check.py %s --tier quick' % id, thorough_cmd='./check.py %s --tier thorough' % id, technique=tech, level=level, level_note=note)
D = 'contract-based deductive verification of the compiled LLVM IR of the real functions (own VC generator, z3/cvc5)'
TB = 'Trusts LLVM\'s front end and canonicalisation passes, the VC generator in /verif/engine, and z3/cvc5. '
check('C01', 'proof', D, 'Every obligation of GarbleGate/EvalGate discharged for all inputs in exact bit-vector arithmetic. ' + TB + 'AES uninterpreted; label coincidences only through the linear-label model (probability 2^-127 otherwise).')
check('C02', 'proof', D, 'All gate types and public/secret cases of GarbleGate/EvalGate/GarbleEvalGateKnownValue. ' + TB)
check('C18', 'proof', D, 'Table index and table contents postconditions for all types and labels. ' + TB)
check('C19', 'proof', D, 'Key schedule and batch encryption against FIPS-197 for batch sizes 1, 2, 4 (all the product uses). ' + TB + 'Trusts Intel\'s definition of AESENC/AESENCLAST/AESKEYGENASSIST.')
check('C20', 'proof', D, 'Hash inputs of both functions characterised exactly; injectivity of the tweak is an SMT lemma. Gate ids below 2^32. ' + TB)
check('C25', 'proof', D, 'Rows and output labels equal the half-gates formulas for all inputs. ' + TB)
NA = []
def na(id, reason): NA.append(dict(property=id, reason=reason))
exec(open(os.path.join(R, 'tools', 'meta_more.py')).read()) if os.path.exists(os.path.join(R, 'tools', 'meta_more.py')) else None
P.sort(key=lambda x: x['id'])
ids = [x['id'] for x in P]; assert len(set(ids)) == len(ids)
for x in P: assert len(x['title']) <= 80, x['id']
nas = {n['property'] for n in NA}
for i in ids: assert (i in CH) != (i in nas), i
open(os.path.join(R, 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in P))
M = dict(version=1, setup_cmd='python3-vt -c "import z3" && python3-vt -m py_compile check.py', checks=[CH[i] for i in ids if i in CH], not_applicable=NA,
         notes='No hooks: the checks verify /repo\'s sources as they are (only the sink of the logging macros is replaced by an include at compile time). See DESIGN.md.')
json.dump(M, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(ids), 'properties,', len(CH), 'claimed')
