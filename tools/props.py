"""Single source of properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""
GCU = 'garbled_circuit/garbled_circuit_util.cpp'
HM = 'garbled_circuit/garbled_circuit_high_mem.cpp'
LM = 'garbled_circuit/garbled_circuit_low_mem.cpp'
GC = 'garbled_circuit/garbled_circuit.cpp'
NOGC = ('The 19 stable tests exercise big-number helpers, the two transfer protocols, sockets, string helpers and a '
        'processor emulator; no passing test garbles a circuit at all. ')


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                technique=technique, note=note, na=na, observe=observe)


PROPS = [
    P('P01', 'A garbled gate evaluates to the label of the gate function',
      'For every supported gate type and every mix of public, secret, identical and mutually inverted operands, evaluating the garbled gate '
      'with the labels of the actual input bits yields exactly the label the garbler assigned to the gate function\'s value, or the same public '
      'bit at both parties when the output is determined. The evaluator consumes a garbled table exactly when the garbler produces one.',
      ['inputs', 'programs'], 'all gate types, all public/secret/equal/inverted operand classes, all label values, all actual bits',
      NOGC + 'A sampled run meets few (type, class, colour-bit) combinations, and the equal/inverted shortcuts need reconvergent circuits.',
      [GCU, 'garbled_circuit/garbled_circuit_util.h', 'util/util.cpp', 'crypto/block.h'],
      [('gate garbling', GCU + ': GarbleGate, HalfGarbleGate'), ('gate evaluation', GCU + ': EvalGate, HalfEvalGate')],
      'abstract interpretation over an exact label algebra (value numbering, no solver)',
      'Decides equality of normal forms for all label values at once, per gate type x operand class x bits. Assumes AES under one key is a function and unrelated labels do not collide.'),
    P('P02', 'All evaluators agree on every gate type\'s truth table',
      'For every supported gate type, the public-value evaluation used while garbling, the evaluation used by the plaintext reference evaluator, and the '
      'classification of a gate output as public or secret all follow the gate\'s documented truth table. A pre-pass that only tracks public values never calls an output '
      'public or secret differently from the garbling pass when no two secret operands are related.',
      ['inputs', 'programs'], 'all gate types x all operand values/classes',
      NOGC + 'The plaintext evaluator and the garbling engine are only ever compared on netlists that are absent.',
      ['util/util.cpp', GCU, 'scd/scd_evaluator.cpp', 'util/common.h'],
      [('operator table', 'util/util.cpp: GateOperator'), ('known-value pass', GCU + ': GarbleEvalGateKnownValue'), ('plaintext evaluation', 'scd/scd_evaluator.cpp: EvalauatePlaintext')],
      'exhaustive abstract evaluation of the gate tables in the compiled IR against reference truth tables',
      'Complete over gate types and operand classes; loops over gates are summarised by a generic iteration.'),
    P('P03', 'Every wire\'s two labels differ by one odd global secret offset',
      'Whenever the garbler creates a fresh pair of labels for an input, an initial value or a state element, the pair is a random block and that block xor the one '
      'per-session secret offset; that offset is random, is never replaced during the session, and has its permutation bit set. No label pair is created any other way except by gate garbling and copying existing pairs.',
      ['inputs', 'programs', 'configurations'], 'all circuits, all label-creating sites, both memory modes',
      NOGC + 'A wrong offset shows only on particular gates and only in some modes.',
      [GC, HM, LM, GCU], [('offset', GC + ': GarbleStr'), ('labels', HM + ': GarbleMakeLabels'), ('labels', LM + ': GarbleGenInputLabels, GarbleGneInitLabels')],
      'abstract interpretation: label-pair invariant at every store of the garbler', 'All stores into label arrays are enumerated and classified; loops are generic iterations.'),
    P('P04', 'The two parties\' message sequences match one for one',
      'For every circuit, mode, mask, cycle count and public inputs, each message one party sends is received by the other at the same point of the protocol with the same length, '
      'and neither party ever waits for a message the other does not send. In particular key, table counts, tables, labels, transfer messages, outputs and termination bits are exchanged in dual order.',
      ['programs', 'configurations', 'inputs', 'schedules'], 'all circuits x memory modes x transfer on/off x masks x termination periods',
      NOGC + 'A mismatch for one combination of mode, mask or wire class hangs or desynchronises the run.',
      [GC, HM, LM, GCU, 'crypto/OT.cpp', 'crypto/OT_extension.cpp', 'crypto/BN.cpp', 'tcpip/tcpip.cpp'],
      [('send/receive calls', 'SendData / RecvData call sites reached from GarbleStr and EvaluateStr')],
      'protocol-duality check on extracted send/receive event trees (guards, loop domains, lengths)',
      'Each wrapper pair is compared as trees of guarded loops; guards and lengths compared in normal form.'),
    P('P05', 'Only selected labels and masked data leave the garbler',
      'With oblivious transfer enabled the garbler never sends both labels of a wire, the global offset, or anything computed from its private input other than the single label selected by that input, '
      'the garbled tables, and the decoding bits of outputs and termination; the evaluator sends nothing derived from its private input except transfer messages and the decoding bits the mask assigns to the garbler.',
      ['programs', 'configurations', 'inputs'], 'all send sites, all circuits, both memory modes',
      'A test observes outputs, not what else the wire carried.',
      [HM, LM, GCU, GC], [('label transfer', HM + ': GarbleTransferLabels'), ('outputs', HM + ': GarbleTransferOutput, EvaluateTransferOutput')],
      'algebraic information-flow classification of every sent value', 'Every SendData/transfer call site reached by either party is enumerated and its payload classified in normal form.'),
    P('P06', 'Oblivious transfer delivers exactly the chosen message',
      'For every batch size and every choice vector the receiver ends with, at each index, the sender\'s message selected by its choice bit at that index, in both the basic and the extended protocol, '
      'and the extended protocol is used exactly when both parties would use it.',
      ['inputs', 'configurations'], 'all message counts, choice vectors and messages',
      'Tests run a fixed handful of lengths; the switch between protocols and the block/bit transposition have edge sizes.',
      ['crypto/OT.cpp', 'crypto/OT_extension.cpp', HM], [('base transfer', 'crypto/OT.cpp: OTSend, OTRecv'), ('extension', 'crypto/OT_extension.cpp')],
      'abstract interpretation of both protocol sides over symbolic message arrays and choice bits, composed in normal form',
      'Generic index, generic batch size; RSA modelled by its inversion rule, hash as a function. The bit transposition and the protocol choice are decided separately.'),
    P('P08', 'No failure is swallowed',
      'Whenever an internal operation reports failure - a socket error, an unreadable, truncated or unwritable circuit file, input that is not hexadecimal, a failed cryptographic operation, or a condition that is logged as an error - every enclosing operation up to the program\'s exit status reports failure too, instead of continuing with missing data (memory exhaustion inside OpenSSL number routines aside).',
      ['fault_sequences', 'inputs'], 'every call site of a status-returning operation',
      'Tests do not inject faults; each of the call sites needs its own.',
      ['crypto', 'garbled_circuit', 'scd', 'tcpip', 'util'], [('status propagation', 'CHECK / CHECK_ALLOC macros in util/log.h')],
      'interprocedural status-propagation dataflow on LLVM IR', 'Every call of a status-returning function is enumerated; failure is propagated by conditional constant propagation.'),
    P('P09', 'Lengths and counts from the peer are validated before use',
      'No length, count or index that arrived from the network is used to size an allocation, a copy, a receive, or to index memory, before it has been checked against what the receiving party can hold.',
      ['inputs', 'fault_sequences'], 'all byte strings a peer can send',
      'Tests only talk to honest peers.', ['crypto/BN.cpp', HM, LM, 'crypto/OT.cpp', 'crypto/OT_extension.cpp'],
      [('table count', HM + ': EvaluateHighMem'), ('table count', LM + ': EvaluateBNLowMem'), ('big number size', 'crypto/BN.cpp: RecvBN, BNToBlock'), ('vector length', 'crypto/OT.cpp: OTRecvBN')],
      'abstract interpretation: bounds of every receive, allocation, library buffer and access that depends on received data, from preceding checks', ''),
    P('P10', 'Each output bit reaches exactly the party the mask assigns',
      'For every output of every cycle, the garbler obtains the correct bit when the mask bit of that output is 1 and nothing otherwise, and the evaluator obtains the correct bit when it is 0 or the output lies above the top of the mask; '
      'public outputs follow the same rule, and decoding combines the two parties\' label colours (or the public value) so that the bit is the circuit\'s value.',
      ['inputs', 'configurations', 'programs'], 'all masks, output counts, cycles, label values, public/secret outputs, both memory modes',
      NOGC + 'Masks shorter than the output, public outputs and multi-cycle runs are separate code paths.',
      [HM, LM], [('output transfer', HM + ': GarbleTransferOutput, EvaluateTransferOutput'), ('per cycle', LM + ': *TransferOutputLowMem')],
      'abstract interpretation of both output-transfer routines with case partition on mask bit and value class', ''),
    P('P11', 'Early termination happens exactly when the terminate signal is 1',
      'With a terminate period the parties reveal the terminate wire at the same cycles, both stop after a cycle exactly when its value is 1, and both report the number of cycles actually executed; '
      'without a period, or without a terminate wire, all requested cycles run.',
      ['inputs', 'programs', 'histories'], 'all terminate wires (public/secret/inverted), periods and cycle counts',
      NOGC + 'It needs a sequential circuit with a data-dependent terminate wire.',
      [GCU, HM, LM], [('terminate reveal', GCU + ': GarbleTransferTerminate, EvaluateTransferTerminate')],
      'abstract interpretation of the reveal routines and of the guards of their call sites', ''),
    P('P12', 'A written circuit description is read back as the same circuit',
      'The circuit-description writer and reader agree on the number, order and meaning of all fields, so that writing a circuit and reading it back yields the same sizes, gate operands and types, outputs, state inputs and initial values.',
      ['programs'], 'all circuits', 'The netlists are absent, so no passing test reads or writes a circuit description.',
      ['scd/scd.cpp'], [('writer', 'scd/scd.cpp: WriteSCD'), ('reader', 'scd/scd.cpp: ReadSCD')],
      'extraction and comparison of the stream-operation grammars of writer and reader', ''),
    P('P13', 'Each input bit reaches its own wire in its own cycle',
      'For every circuit and cycle, wire i of a party\'s input (or initial-value) group carries bit c*size+i of that party\'s input (bit i of the initial value): the evaluator holds exactly the label of '
      'that bit for that wire and that cycle whether labels travel by oblivious transfer or directly, public inputs have their bit at both parties and in the plaintext evaluator, and inputs are taken as secret in every cycle.',
      ['inputs', 'programs', 'configurations'], 'all circuits, input widths, cycles, both memory modes, transfer on and off',
      NOGC + 'A shifted or stale index shows only for particular widths, cycles and modes.',
      [HM, LM, GCU, GC, 'scd/scd_evaluator.cpp'], [('label transfer', HM + ': GarbleTransferLabels, EvaluateTransferLabels'), ('per-cycle transfer', LM + ': GarbleTransferInputLabels, EvaluateTransferInputLabels')],
      'abstract interpretation of both parties, each received label traced through the message pairing to the sender and compared in normal form', 'All array cells are traced to the store that fills them (mixed-radix solving of the loop counters).'),
    P('P15', 'Gates are scheduled after their operands and cycles are rejected',
      'The netlist compiler emits the gates of every acyclic circuit in an order in which each operand that is a gate precedes its user, renumbers all references consistently, and reports failure for a combinational loop.',
      ['programs'], 'all netlists', 'Needs netlists the repository does not ship.', ['scd/scheduling.cpp', 'scd/parse_netlist.cpp'],
      [('topological sort', 'scd/scheduling.cpp')], 'abstract interpretation of the depth-first search as an inductive step over marks and operands, and of the renumbering', ''),
    P('P16', 'State elements latch simultaneously and start from their declared initial value',
      'In every evaluator (garbler, evaluator, plaintext; both memory modes) a state element takes, in the first cycle, its declared initial constant or initial-value wire, and in each later cycle the value its data wire had at the end of the previous cycle, '
      'independently of the order of state elements. A state element fed by another state element sees the other\'s previous value.',
      ['programs', 'histories'], 'all state-element graphs, initial values, cycle counts', NOGC + 'Shift-register-like chains and every class of initial value need sequential circuits.',
      [HM, LM, 'scd/scd_evaluator.cpp'], [('latch', HM + ': GarbleHighMem, EvaluateHighMem'), ('latch', LM + ': GarbleLowMem, EvaluateLowMem'), ('latch', 'scd/scd_evaluator.cpp: EvalauatePlaintext')],
      'abstract interpretation of the per-cycle prologue with case partition on wire index classes and memory versions', ''),
    P('P17', 'Garbler and evaluator skip exactly the same gates',
      'The two parties make the same decision for each gate about whether it is skipped, computed publicly or garbled, from public data only, so that table counters and wire states stay in step; '
      'a table is transmitted exactly for those garbled gates whose output is still needed.',
      ['programs', 'inputs'], 'all circuits and public inputs', NOGC + 'Skips depend on fan-out reduction through chains of public gates.',
      [GCU, HM, LM], [('known-value pass', HM + ': GarbleHighMem, EvaluateHighMem'), ('fan-out', GCU + ': ReduceFanout')],
      'sibling comparison of garbler and evaluator gate loops in normal form', ''),
    P('P18', 'Every garbled gate uses tweaks no other gate of the run uses',
      'The hash tweak is an injective function of cycle, gate and operand position: no two hash calls for different (cycle, gate, operand) in one run share a tweak, both parties use the same tweak for the same operand, and the key is the one session key the garbler drew.',
      ['programs', 'histories'], 'all gates and cycles', 'Reusing a tweak changes no output; only security is lost.',
      [GCU, HM, LM], [('tweak', GCU + ': GarbleGate, EvalGate')], 'normal-form extraction of hash arguments at all call sites', ''),
    P('P20', 'Every buffer is released once, by the matching deallocator',
      'Every heap object the system allocates for one operation is released exactly once on the success path, with the deallocator matching its allocator, and is not used afterwards.',
      ['inputs', 'histories', 'configurations'], 'all allocation sites', 'Leaks and mismatched frees do not fail tests.',
      ['crypto', 'garbled_circuit', 'scd', 'tcpip', 'util'], [('alloc/free', 'all modules')], 'ownership/typestate analysis on LLVM IR', ''),
    P('P21', 'Transfers move exactly the requested number of bytes or fail',
      'Sending or receiving a buffer either transfers exactly the requested bytes in order, whatever partial transfers the operating system makes, or reports failure; a peer that closes early is a failure, never an endless loop.',
      ['schedules', 'fault_sequences'], 'all partial-transfer schedules and error returns', 'Loopback tests rarely see partial transfers or resets.',
      ['tcpip/tcpip.cpp'], [('loops', 'tcpip/tcpip.cpp: SendData, RecvData')], 'abstract interpretation of the transfer loops (inductive invariant over the loop variables)', ''),
    P('P22', 'Printed output contains each output bit of each cycle in its place',
      'In consecutive, per-clock and last-clock mode, and in both memory modes, the printed hexadecimal contains exactly the bits of the executed cycles, with output i of cycle c at the documented position.',
      ['inputs', 'configurations'], 'all output sizes, cycles, modes', NOGC, ['util/util.cpp', LM, HM], [('formatting', 'OutputBN2StrHighMem, OutputBN2StrLowMem')],
      'abstract interpretation of the formatting loops', ''),
    P('P24', 'Logs never contain secrets',
      'No label, offset, key, transfer secret or private input reaches a log stream or standard output in a build without the explicit dump option; only the party\'s own final output is printed.',
      ['inputs', 'configurations'], 'all log statements', 'Tests do not read logs.', ['crypto', 'garbled_circuit', 'scd', 'tcpip', 'util'], [('logging', 'util/log.cpp')],
      'taint analysis from secret sources to stream insertions', ''),
    P('P25', 'Big numbers and blocks convert and travel without loss',
      'Converting a block to a big number and back, and sending a big number and receiving it, yields the same value for every value that fits, including zero and values with leading zero bytes; bitwise helpers compute what they say at every length.',
      ['inputs'], 'all values', 'Tests draw random values; zero and short values are rare.', ['crypto/BN.cpp', 'crypto/BN.h'], [('conversions', 'crypto/BN.cpp')],
      'abstract interpretation of the conversion routines', ''),
    P('P27', 'The fixed-key hash is AES-128',
      'The block cipher used for garbling follows AES-128: the documented round constants in the key schedule, ten rounds, the last one without column mixing, applied identically to every block of a batch.',
      ['inputs'], 'all keys and blocks', 'No test compares the cipher with a reference, and both parties share the code so a wrong cipher still evaluates.',
      ['crypto/aes.h'], [('key schedule', 'crypto/aes.h: AES128KeyExpansion'), ('rounds', 'crypto/aes.h: AESEcbEncryptBlks')],
      'value numbering of the round sequence against the standard\'s', ''),
    P('P28', 'Command-line options reach the protocol unchanged',
      'Each documented command-line option sets exactly the parameter it documents for the selected party, an invalid combination is rejected with a failing exit status, and the party\'s private data are passed only in the private positions.',
      ['configurations'], 'all option combinations', 'No test runs the program\'s command line.', ['garbled_circuit/garbled_circuit_main.cpp', 'scd/v_2_scd_main.cpp', 'scd/scd_evaluator_main.cpp'],
      [('option parsing', 'the three main programs')], 'dataflow from option registrations to call arguments', ''),
    P('N01', 'Garbled tables and labels are computationally indistinguishable from random',
      'An evaluator holding one label per input learns nothing beyond the outputs assigned to it, under the assumed strength of the fixed-key cipher.', ['inputs'], 'all adversaries',
      'A statement about probability distributions and adversaries, not about executions.', [GCU], [('half gates', GCU)], na='A computational-security statement over adversaries and distributions; no sound dataflow argument bounds it. Its structural preconditions are decided by P03, P05, P18.'),
    P('N02', 'Random labels and offsets are unpredictable',
      'Labels, offsets and session keys cannot be predicted by the other party from public information such as the time of the run.', ['histories'], 'all seeds',
      'The quality of a generator is not visible in outputs.', ['util/util.cpp', 'garbled_circuit/garbled_circuit_main.cpp'], [('generator', 'util/util.cpp: RandomBlock')],
      na='The entropy of a seed is a runtime quantity (the program seeds a linear generator with the clock by design); reported in DESIGN.md, not decidable as a property that holds.'),
    P('N03', 'Running time does not depend on secrets',
      'The time each party takes is independent of its private input.', ['inputs'], 'all private inputs', 'Timing is not observed by tests.', [GCU, 'crypto/OT.cpp'], [('branches', GCU)],
      na='Depends on OpenSSL, the compiler and the processor; source-level branches on colour bits exist by design in half-gate evaluation, so the source cannot decide it.'),
    P('N04', 'Every run terminates',
      'Given a live peer and network, every run ends.', ['schedules'], 'all peers and schedules', 'Depends on the peer.', ['tcpip/tcpip.cpp'], [('loops', 'tcpip/tcpip.cpp')],
      na='Liveness depends on the remote peer and the kernel scheduler; only its safety core (matching messages, early close is a failure) is decidable and is decided by P04 and P21.'),
]
