COMP = 'TLA+ spec Compose checked with TLC; replay of its transitions and TLC trace validation of the real code'
CN = ('Exhaustive within the bounds of the TLA+ design; the implementation is bound to it by replaying explored transitions and random histories '
      'with scripted leaf outcomes and validating every recorded call, result, query and object event with TLC.')
META = {p: (COMP, 'model_checking', CN) for p in 'P03 P05 P06 P07 P08 P12 P14 P24 P09 P10 P11 P15'.split()}
RN = ('Exhaustive within the bounds of the TLA+ design, which includes the bump allocators and the failing system allocator; replay of explored transitions and random histories on compositions of the library\'s own '
      'memory providers, with every address, result, report and memory balance validated by TLC.')
META.update({p: (COMP, 'model_checking', RN) for p in 'P01 P02 P04'.split()})
NA = {}
CONT = 'TLA+ specs %s checked with TLC; replay of their transitions and TLC trace validation of the real code'
KN = ('Exhaustive within the bounds of the TLA+ design; the implementation is bound to it by replaying explored transitions and random histories on many element types and allocators '
      'and validating every result, content, capacity, memory request and object event with TLC.')
META.update({p: (CONT % s, 'model_checking', KN) for p, s in [('P16', 'Seqs'), ('P17', 'Seqs'), ('P18', 'Seqs'), ('P19', 'Heap'), ('P20', 'Heap and Life'), ('P21', 'Seqs, Heap and Mem')]})
META['P22'] = (CONT % 'Packed', 'model_checking', 'Exhaustive over small words in the TLA+ design; the implementation is bound to it by replaying these transitions at both ends of real words and random histories for 90 combinations of bits, alignment and pointer type.')
META['P23'] = (CONT % 'StdCont and Life', 'model_checking', KN.replace('many element types and allocators', 'twelve standard containers over eleven shared allocators'))
META['P13'] = ('TLA+ specs Threads and Hb checked with TLC; replay of their schedules on the real code and TLC validation of the recorded accesses, locks and atomic operations', 'model_checking',
  'Every interleaving of small programs on the design, with happens-before tracked and wrong designs told apart; the implementation runs under a deterministic scheduler along these interleavings and random ones, '
  'and TLC judges each recorded execution for races, exclusion, lifetime and results.')
