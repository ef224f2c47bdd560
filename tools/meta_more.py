LMN = 'The channel is the contract of SendData/RecvData proved by C12; loop counters are mathematical integers. '
p('C06', 'Each output bit reaches exactly its owner, with its true value', 'For every output bit and clock cycle, the party the mask assigns the bit to receives its true value and the other party receives nothing (its result bit stays 0); a public bit costs no message. Both parties exchange the same messages in the same order, and a failed transfer is reported.',
  ['inputs', 'histories'], 'all circuits, masks, cycle counts, output modes, labels and values', 'Tests use all-ones masks and a few circuits; a wrong owner for one bit position, output mode or public value is not sampled.',
  [HM, LM], [('GarbleTransferOutput, EvaluateTransferOutput', HM), ('GarbleTransferOutputLowMem, EvaluateTransferOutputLowMem', LM)])
check('C06', 'proof', D, 'The four output-transfer functions against a per-cell specification, for all inputs with loop invariants, plus a two-party composition lemma; bounded two-party runs as a stand-in for the callers. ' + LMN + TB)
p('C07', 'Both parties stop at the same, first terminated, checked cycle', 'With a terminate signal and a period, both parties stop after the first checked cycle (a multiple of the period) in which the terminate wire is truly 1, or after the requested number of cycles; both report that number of cycles and exchange dual messages in the same order, and outputs of exactly the executed cycles are delivered.',
  ['inputs', 'histories'], 'all circuits, terminate values (public or secret), periods, cycle counts and protocol runs', 'Tests use terminating programs with period 1; disagreement needs a particular period, a public terminate wire or a complemented label.',
  [HM, LM, GU], [('Garble/EvaluateTransferTerminate', GU), ('Garble/EvaluateBNLowMem, Garble/EvaluateLowMem loops', LM), ('Garble/EvaluateHighMem termination', HM)])
check('C07', 'proof', D, 'Terminate exchange, its two-party composition, and the four drivers (order of protocol steps, first terminated checked cycle, reported cycle count) proved for all inputs. The termination decision inside Garble/EvaluateHighMem is covered by bounded two-party runs. ' + LMN + TB)
p('C08', 'The evaluator obtains exactly one label per input bit: the one of its value', 'For every garbler and evaluator input and initial bit of every cycle, the evaluator ends up with label0 ^ (bit ? R : 0) of that very wire, in the cell of that wire; garbler bits are sent as the selected label, evaluator bits through the OT (or by sending the selection when OT is disabled). Both parties exchange the same messages in the same order, and a failed transfer is reported.',
  ['inputs', 'histories'], 'all circuits, sizes, input values, cycle counts, with and without OT, high- and low-memory', 'Tests use a few circuits; an off-by-one between init and input offsets, or a wrong cycle offset, only shows for particular mixes of sizes.',
  [HM, LM], [('Garble/EvaluateTransferLabels, GarbleOT, EvalauteOT', HM), ('Garble/EvaluateTransferInit/InputLabels, Garble/EvalauteOTInit/InputLowMem', LM)])
check('C08', 'proof', D, 'All six transfer functions and all six OT callers verified against a per-wire specification with loop invariants, plus a two-party composition lemma; the oblivious transfer itself is a contract (C09, C10). ' + LMN + TB)
p('C21', 'Every label pair is a fresh draw and its xor with one secret offset', 'The offset R has colour bit 1, is a random draw of its own, and is never the shared hash key; every input and initial wire gets its own random draw as label for 0 and draw ^ R as label for 1, afresh in each low-memory cycle; all label buffers have room for every wire and cycle. The key the evaluator hashes with is the one the garbler drew and used. The parsed inputs, mask, mode, period and cycle count of each party reach the protocol unchanged.',
  ['inputs'], 'all circuits, sizes, cycle counts, modes and command-line parameters', 'A wrong colour bit or a shared label keeps most outputs right; a test run does not look at labels.',
  [HM, LM, 'garbled_circuit/garbled_circuit.cpp'], [('GarbleMakeLabels, EvaluateMakeLabels', HM), ('GarbleAllocLabels, GarbleGneInitLabels, GarbleGenInputLabels, EvaluateAllocLabels', LM), ('GarbleStr, EvaluateStr', 'garbled_circuit/garbled_circuit.cpp')])
check('C21', 'proof', D, 'Label generation with loop invariants; GarbleStr/EvaluateStr against the contracts of their callees. The quality of RandomBlock as a generator is out of reach (C24). ' + TB)

p('C12', 'A message is transferred completely and in order, or a failure is reported', 'SendData puts exactly the len bytes of its buffer on the stream, in order, and RecvData stores exactly the next len bytes of the stream in its buffer and touches nothing else, however the kernel splits the transfer into partial writes and reads; both return success exactly when this happened, and failure when a transfer fails or the peer has closed the connection.',
  ['inputs', 'schedules'], 'all lengths, buffer contents and all splittings of a transfer by the kernel', 'The loopback tests move short messages in one piece; the continuation after a partial read or write is never executed.',
  ['tcpip/tcpip.cpp'], [('SendData, RecvData', 'tcpip/tcpip.cpp')])
check('C12', 'proof', D, 'SendData and RecvData with a loop invariant over the stream position, for every length and every splitting the contract of read/write (POSIX) allows; the kernel is that contract. ' + TB)
p('C11', 'Labels and numbers keep their value through every conversion and transfer', 'BlockToBN and BNToBlock preserve every one of the 128 bits; BN_invert, BN_xor and BN_full_one compute exactly their bitwise meaning on the requested width, also in place and for numbers shorter than the width, and leave other bits alone; a number sent with SendBN is received by RecvBN bit for bit, whatever its size, and a failed transfer is reported.',
  ['inputs'], 'all blocks and all numbers of any length (including 0 and leading zero bytes)', 'Tests use random full-length values: short numbers, leading zero bytes and word boundaries are hit with probability 1/256 or never.',
  ['crypto/BN.cpp', 'crypto/block.h'], [('BlockToBN, BNToBlock, BN_invert, BN_full_one, BN_xor, SendBN, RecvBN', 'crypto/BN.cpp')])
check('C11', 'proof', D, 'All seven functions for every width and value (loop invariants; exact 128-bit arithmetic for the block codecs), plus the SendBN/RecvBN composition lemma. OpenSSL\'s BIGNUM primitives are contracts over bits; the peer sends a non-negative length. ' + TB)
OT = 'crypto/OT.cpp'
p('C09', 'Base oblivious transfer delivers exactly the selected message', 'For every number of messages, message pair (numbers of any size, or 128-bit blocks) and selection, the receiver of a base OT ends up with exactly the selected message of each pair and nothing else is written; the sender masks every pair with two fresh draws and answers with m_j + (v - x_j)^d, the receiver sends x_sel + k^e mod n for a fresh k per message; a length mismatch or a failed transfer is reported as failure.',
  ['inputs', 'histories'], 'all message counts, values, selections and random draws', 'Tests use random equal-length vectors and look at the result only: a reused mask or blinding value, or a missing length check, leaves all tests passing.',
  [OT], [('OTSendBN, OTRecvBN, OTSend, OTRecv', OT)])
check('C09', 'proof', D, 'All four functions with loop invariants over mathematical integers; composition lemma from the RSA key identity. OpenSSL arithmetic, key generation and its random generator are contracts; SendBN/RecvBN are the contracts proved by C11. ' + TB)
OX = 'crypto/OT_extension.cpp'
p('C10', 'OT extension delivers exactly the selected messages under independent masks', 'For every number of messages, message width up to 256 bits, message pairs and selections, the OT-extension receiver obtains exactly the selected message of each pair: the sender makes one base OT with a fresh 128-bit S and masks message j of pair i with the hash of (i, row q_i ^ j*S); the receiver draws one fresh 128-bit row per message and offers the columns of (t, t ^ r); the hash is taken over the index and the full zero-padded 128-bit row, so equal masks occur only for equal index and row; a failed transfer is reported.',
  ['inputs', 'histories'], 'all message counts, widths up to 256 bits, messages, selections and random draws', 'Tests transfer a few messages and compare the result: shared masks, reused rows, a truncated index or row in the hash, or an error that needs hundreds of messages leave them passing.',
  [OX], [('HashBN, SwitchRowColumnBN(Pair), OTExtSendBN, OTExtRecvBN, OTExtSend, OTExtRecv', OX)])
check('C10', 'proof', D, 'All seven functions at bit level with loop invariants, plus the sender/receiver composition lemma. SHA-256 is an uninterpreted function of the digested bytes; base OT is the contract of C09, number exchange and bit operations those of C11. ' + TB)
EV = 'scd/scd_evaluator.cpp'
p('C05', 'The plaintext evaluator computes the circuit exactly', 'For every circuit, inputs, number of cycles and terminate period, the plaintext evaluator (the reference every user compares with) gives every output bit of every cycle the value defined by the circuit: gates by their truth function, flip-flops loaded from their initial source in the first cycle and from the previous cycle\'s D wire afterwards, inputs taken from the right bit of the right party in the right cycle; it stops after the first checked cycle (multiple of the period) in which the terminate wire is 1, reports that cycle count, and every other result bit is 0.',
  ['inputs', 'histories'], 'all well-formed circuits (any size), input values, cycle counts and terminate periods', 'Tests evaluate a few programs; constants as flip-flop sources, chained flip-flops, mixed initial sources of three parties or a terminate wire that is raised between checked cycles are not sampled.',
  [EV, 'util/util.cpp'], [('EvalauatePlaintext', EV), ('GateOperator', 'util/util.cpp')])
check('C05', 'proof', D, 'EvalauatePlaintext with loop invariants over cycles, flip-flops, inputs, gates and outputs against the ideal value of every wire, for all circuits and inputs; GateOperator against the truth tables; EvalauatePlaintextStr hands the parsed numbers, cycles and period on and formats that result. Parsing of the strings and files around it: C13, C16, C17. ' + TB)
WF = 'Well-formed circuits (FillFanout accepted them). '
p('C03', 'High-memory mode computes the circuit, cycle by cycle', 'In high-memory mode, in every executed cycle both parties give every wire the class (public 0/1 or secret) and label that its gate, flip-flop source or input defines, skipping only gates no live output, flip-flop or terminate wire depends on: flip-flops take the initial source first and the previous cycle\'s D wire afterwards; the garbler sends exactly the tables of the live gates, in gate order, after their announced number; the evaluator matches each table to its gate; and the output vectors hold, for every cycle run, the value and label of exactly the output wires. A failed exchange is reported.',
  ['inputs', 'histories'], 'all circuits, inputs, cycle counts and terminate periods', 'Tests run a few programs from one directory; wrong dead-gate elimination, a table skipped or sent for a dead gate, chained or constant flip-flop sources, or a public wire that becomes secret in a later cycle need particular circuits.',
  [HM, GU], [('GarbleHighMem, EvaluateHighMem', HM), ('GarbleEvalGateKnownValue, GarbleGate, EvalGate, ReduceFanout', GU)])
check('C03', 'proof', D, 'GarbleHighMem and EvaluateHighMem with loop invariants over cycles, wires and gates against the recursive definition of a cycle; the gate functions satisfy the contracts used; fan-out lemmas by induction. ' + WF + LMN + TB)
p('C04', 'Low-memory mode computes the circuit and carries state across cycles', 'In low-memory mode each cycle gives every wire the class and label its gate, flip-flop source or input defines, with only live gates garbled, their tables stored in gate order and matched by the evaluator; the drivers allocate buffers of sufficient size, carry wire values and labels from one cycle to the next untouched, keep secret inputs secret, use one key schedule of the shared key, and hand the evaluator exactly the tables received in that cycle, none left over from an earlier one.',
  ['inputs', 'histories'], 'all circuits, inputs, cycle counts and terminate periods', 'Tests run a few programs; state that leaks from an earlier cycle, a flip-flop updated in place before it is read, or a stale table need particular circuits and several cycles.',
  [LM, GU], [('GarbleLowMem, EvaluateLowMem, GarbleBNLowMem, EvaluateBNLowMem', LM), ('GarbleEvalGateKnownValue, GarbleGate, EvalGate, ReduceFanout', GU)])
check('C04', 'proof', D, 'The two per-cycle functions and the two drivers with loop invariants; the state assumed by a cycle is proved at each call. ' + WF + LMN + TB)
p('C26', 'Fan-out counts are exact and no buffer is overrun', 'FillFanout accepts exactly the circuits in which gates refer to earlier gates only and every gate is used, and sets each fan-out to the number of references; ReduceFanout only decreases counters of gates below the given wire and never below 0; no more tables than non-linear gates are ever produced, announced, received or consumed, so no table, wire, flip-flop, fan-out, label or output buffer is accessed outside its bounds, whatever the peer announces.',
  ['inputs', 'histories'], 'all circuits, cycles and announced table counts', 'Tests never overflow a buffer by design; a count off by one, or a larger count announced by the peer, needs a particular circuit or a hostile peer.',
  [GU, HM, LM], [('FillFanout, ReduceFanout, NumOfNonXor', GU), ('table and wire buffers of Garble/EvaluateHighMem', HM), ('table and wire buffers of Garble/EvaluateLowMem and drivers', LM)])
check('C26', 'proof', D, 'FillFanout, ReduceFanout and NumOfNonXor under contract (recursion by its own contract, induction lemmas); every buffer access of the cycle functions and drivers is a discharged bounds obligation. ' + WF + LMN + TB)
UT = 'util/util.cpp'
p('C17', 'The printed result is exactly the result bits, in the requested form', 'For every result, number of output bits, number of cycles and output mode, the result string is: one hexadecimal numeral of all bits (consecutive); one numeral per executed cycle, of exactly that cycle\'s output bits, in cycle order, one per line (separated); the numeral of the last executed cycle\'s output bits (last clock) - for both memory footprints, and replacing whatever the string held before. The initial values and inputs used are the numbers written in the given hexadecimal strings, or in the named files (last line first).',
  ['inputs'], 'all results of fewer than 2^31 bits, output sizes, cycle counts, modes and footprints', 'Tests print a few results in one mode; a wrong cycle boundary, a truncated shift distance or a missing mask needs many cycles, wide outputs or set bits of a neighbouring cycle.',
  [UT, GU], [('OutputBN2StrHighMem, OutputBN2StrLowMem', UT), ('ParseInitInputStr', GU), ('ReadFileOrPassHex', UT)])
check('C17', 'proof', D, 'Both formatting functions with a loop invariant over the text of the cycles so far, ParseInitInputStr and ReadFileOrPassHex directly; a number is its bits, a text is built by concatenation from numerals. OpenSSL\'s shift, mask and hexadecimal conversion and std::string are contracts. ' + TB)
SCH = 'scd/scheduling.cpp'; SCD = 'scd/scd.cpp'
p('C14', 'Netlist scheduling is a topological renumbering that preserves the circuit', 'For every well-formed netlist, in whatever order its gates are written, SortNetlist succeeds if and only if the netlist has no combinational cycle; on success the gates get the wire numbers after the inputs and flip-flops, each exactly once, every gate after all its inputs, the schedule lists the gates by number, and every reference (gate inputs, flip-flop data and initial sources, outputs, terminate signal; wire 0 included) is renumbered to the same wire it referred to, with constants, types and flip-flop outputs unchanged.',
  ['inputs'], 'all well-formed netlists of any size and gate order', 'Tests translate a few synthesised netlists whose gates are almost in order; a reference that is not renumbered, a back edge through a rarely visited path, or a refused acyclic netlist needs a particular order.',
  [SCH], [('TopologicalSortVisit, TopologicalSort, SortNetlist', SCH)])
check('C14', 'proof', D, 'The recursive visit by its own contract (marks, positions, reachability), the sort and the renumbering with loop invariants; std::vector by contract. Termination not proved; the finite pigeonhole principle is an axiom. ' + TB)
p('C13', 'SCD files round-trip exactly', 'WriteSCD writes, in the documented order and separated by white space, the ten sizes, then for every gate in schedule order its first input, second input and type, then the outputs and the data and initial wires of the flip-flops; ReadSCD puts every number of such a file in its field and numbers the gates consecutively after the inputs and flip-flops. Hence a circuit that is written and read back is the same circuit, gates in schedule order, and after SortNetlist every gate read comes after its inputs.',
  ['inputs'], 'all circuits of fewer than 2^31 gates, inputs, outputs and flip-flops', 'Tests read a few files; swapped fields that are equal in those files, a count used for the wrong list, or a truncated wire number stay unnoticed.',
  [SCD], [('WriteSCD, ReadSCD', SCD)])
check('C13', 'proof', D, 'Both functions against the position of every number in the file with loop invariants, and the round-trip lemma composed of their postconditions. Formatting and parsing of decimal numbers by the C++ streams is a contract. ' + TB)
p('C16', 'Number, binary and hexadecimal conversions are exact', 'The conversions a user relies on to feed values in and read results out are exact for every value, width and length: dec2bin gives exactly the low bits of a number, bin2dec the (signed or unsigned) number of up to 64 bits, towsComplement flips exactly the bits left of the last 1, hex2bin and bin2hex preserve every bit of strings of any length, formatGCInputString lays the numbers side by side, first one highest, parseGCOutputString reads each two\'s complement number back from its place counted from the low end, formatGCOutputMask sets exactly the garbler\'s bits, and Str2Block gives the 128-bit block written in up to 32 digits with separators ignored, refusing longer texts.',
  ['inputs'], 'all numbers, widths up to 64 bits, numbers of values and string lengths', 'Tests convert a handful of short strings; lower-case digits, widths that are no multiple of 4, mixed widths, more than 255 values, more than 65535 bits or one-bit signed values are not sampled.',
  [UT], [('towsComplement, dec2bin, bin2dec, hex2bin, bin2hex', UT), ('formatGCInputString, parseGCOutputString, formatGCOutputMask, Str2Block', UT)])
check('C16', 'proof', D, 'All nine functions for all inputs, callers against the contracts of their callees; strings are length and characters. std::string, std::bitset, boost::erase_all and stoull are contracts. The decimal -2^63 case relies on wrap-around. ' + TB)
p('C22', 'Oblivious transfer hides the choices and the messages not chosen', 'In base OT and OT extension every number put on the wire is hidden by randomness drawn for it alone: each message pair of a base OT gets two masks of at least 1024 bits and its replies are m_j + (v - x_j)^d; the receiver\'s value is x_sel + k^e mod n for a fresh full-size k; the extension receiver offers the columns of one fresh full-size 128-bit random row per message and of the same rows xored with its choices, never wider than the masks that hide them (with a 64-bit margin); the extension sender\'s S is one fresh 128-bit draw and the messages of a pair are masked by hashes of (index, q_i) and (index, q_i ^ S).',
  ['inputs', 'histories'], 'all message counts (up to 960 per extension), widths, messages, choices and random draws', 'Reused, shortened, constrained or swapped masks change no result, so no functional test can see them.',
  [OTC, OTX], [('OTSendBN, OTRecvBN, OTSend', OTC), ('HashBN, SwitchRowColumnBNPair, OTExtSendBN, OTExtRecvBN, OTExtSend', OTX)])
check('C22', 'proof', D, 'Every message of the four functions is characterised exactly as a function of the draws (loop invariants over the trace), every BN_rand call has its width and constraints as a call obligation, draw indices are injective (lemma). Indistinguishability itself rests on RSA, SHA-256 and the draws being uniform. Known finding: extensions of more than 1024 messages are wider than the masks. ' + TB)
PN = 'scd/parse_netlist.cpp'; V2 = 'scd/v_2_scd.cpp'
p('C15', 'Translating a Verilog or Bristol netlist preserves the circuit', 'The circuit read from a synthesised Verilog netlist (or a Bristol circuit) has exactly the netlist\'s ports, gates, flip-flops and connections, in whatever layout and order the netlist is written: ports get the first wire numbers in the documented order, then the flip-flops, then the gates in order; every pin, output and terminate name refers to the wire it is connected to, directly or through assign statements; adders and multiplexers become gates of the same function. The mapping file written along gives, by name, the wire number of every flip-flop and gate of the circuit written, and of the terminate signal. A netlist that uses an unconnected name, lacks a required pin, declares an unknown port or ends early is refused.',
  ['inputs'], 'all netlists in the supported subset', 'Tests translate a few netlists of one synthesiser run; swapped pins of a cell that is used symmetrically, one-bit ports, aliased outputs, absent adder outputs or names used before they are driven are hit by chance only.', [PN, V2], [('ParseNetlist, AddWireArray, IdAssignment, Verilog2SCD, Bris2SCD, ParseBrisNetlist, GetBristWire, WriteMapping', PN)])
check('C15', 'proof', D, 'Proved: ParseNetlist, the lists of names are those of a reference reading of the tokens of the file (statements, ports, pins, cells; fails only on a statement that is wrong or a missing endmodule), and the gates of adders and multiplexers give their functions; AddWireArray and IdAssignment, from the lists of names to the numbered circuit (every reference is the number of the wire named; fails only for unconnected names), std::map as a table; Verilog2SCD and Bris2SCD run every stage once, in order, on the same objects, and fail exactly if one fails. ParseBrisNetlist: gate i is line i of a Bristol file, its wires called by the input bit, output bit or number they are. WriteMapping: the lines of the mapping file, one per flip-flop and scheduled gate, its name and wire number. Bounded, in addition: the whole translator against random netlists in random layouts simulated by name. Known finding: outputs tied to constants. ' + TB)
p('C23', 'The shipped circuits compute the functions they are named after', 'Each shipped netlist or SCD circuit (adder, comparator, AES, the A23 processor running a program image) computes its documented function.',
  ['inputs'], 'all inputs of each circuit', 'Tests run a handful of inputs.', ['circuit_synthesis', 'a23'], [('Verilog sources and netlists', 'circuit_synthesis, a23')])
na('C23', 'These are synthesised data files, not functions of the code base: there is no source text to put a contract on.')
p('C24', 'Labels and offsets are unpredictable', 'Labels, the global offset and the hash key are computationally unpredictable to the other party.',
  ['inputs', 'schedules'], 'all runs', 'Tests cannot judge unpredictability.', ['crypto/block.h', UT], [('RandomBlock', UT)])
na('C24', 'A probabilistic statement about a whole generator (it is a linear congruential generator seeded from the clock, which does not have this property); Hoare contracts state what is computed, not what is unpredictable. What contracts can say - each label is a draw of its own, the offset and key are separate draws - is C21.')
