"""Writes properties.jsonl (kept as a script so that the long JSON lines stay editable)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))
S='semantic_codec/'
IL=S+'interleaver/interleaver2d.py'; BITS=S+'architecture/bits.py'; COR=S+'corruption/corruption.py'
CORS=S+'corruption/corruptors.py'; REC=S+'metadata/recuperator.py'; MC=S+'metadata/metadata_collector.py'
SB=S+'solution/solution_builders.py'; SIO=S+'solution/solution_io.py'; SQ=S+'solution/solution_quality.py'
RUN='recover_program.py'; CAP=S+'architecture/capstone_instruction.py'; RD=S+'architecture/disassembler_readers.py'

prop('C01','A transfer in which every packet arrives is lossless',
 'When a program (any list of 32-bit words) is interleaved into packets and every packet eventually reaches the receiver - in any order, delayed or duplicated - the receiver rebuilds exactly the words that were sent, followed by nothing but zero padding, and reports no error. This holds for every number of packets (also when the data does not divide evenly over the packets) and for every chunk size that divides a word, and no packet carries more than one chunk more than another.',
 ['schedules','inputs','configurations','fault_sequences'],
 'every word list, packet count, chunk size in {1,2,4,8,16,32}, and every delivery order / duplication / delay of the packets that loses none of them',
 'The tests run three fixed messages through packet counts 16, 7 and one file, chunk size 2, and hand the sender\'s own dictionary to the receiver: no packet is ever reordered, duplicated or delayed, and uneven message sizes are not compared to the end.',
 [IL,BITS],[('interleave',IL+':interleave'),('deinterleave',IL+':deinterleave'),('bit queue',BITS+':BitQueue')],
 [('packets','bit queue per packet number',IL)],['return value of deinterleave'])
prop('C02','Lost packets are zero-filled, reported exactly, and never shift other data',
 'When some but not all packets are lost, every chunk carried by a packet that arrived is returned at its original bit position, every lost chunk reads as zero, and the (word, bit) error positions reported inside the message are exactly those of the lost chunks, up to the last round of the interleave in which anything arrived. A missing packet may be absent or marked as missing, with the same result. When no packet at all arrived the receiver gets an explicit error instead of data.',
 ['schedules','inputs','configurations','fault_sequences'],
 'every message, packet count, chunk size and every proper subset of packets lost: single, burst, partition, late arrival after the deadline, first/last packet of the order',
 'One test loses packets 2,3,4 of 16 and checks nine hand-computed positions of one message; losing the last packet of the order, all but one, or packets of an uneven message is never tried.',
 [IL,BITS],[('missing-packet handling',IL+':deinterleave')],[('errors','list of (word,bit) of lost chunks',IL)],['return value of deinterleave'])
prop('C03','The packet order is a permutation that disperses every burst loss',
 'For every number of packets the interleave order uses each packet number from 0 to n-1 exactly once. When the number of packets is 4^m, any aligned burst of 4^k consecutively numbered packets hits each of the 4^k equal square regions of the two-dimensional order exactly once, so that a burst never wipes out one region.',
 ['configurations','fault_sequences'],
 'every packet count n >= 1 and, for n = 4^m, every burst of 4^k consecutive packets dropped by the channel',
 'The tests compare a dozen cells of two matrices and check one packet count (241) for completeness (with an assertion that compares the loop index instead of the entry).',
 [IL],[('successive packing',IL+':sucesive_packing'),('order builder',IL+':build_2d_interleave_sp')],(),['build_2d_interleave_sp(n, flat)'])
prop('C04','The predicted damage covers what the receiver actually missed',
 'For every message, packet count, chunk size and set of lost packets, the corruption predicted by the sender from the loss list covers every data bit that really went missing in the transfer. It predicts nothing else than missing bits, except that a chunk may extend to the bit directly after it, and never predicts an empty range.',
 ['inputs','configurations','fault_sequences'],
 'every data size, chunk size in {1,2,4,8,16}, packet count and non-empty list of lost packets in any order',
 'Two tests compare a handful of expected tuples for 16 packets and three/one lost packets; the prediction is never compared with an actual lossy transfer.',
 [COR,IL],[('prediction',COR+':predict_corruption'),('real transfer',IL+':interleave')],(),['predict_corruption','deinterleave errors'])
prop('C05','Damaged words get every possible value, undamaged words are untouched',
 'After a loss, each program address with a predicted damaged bit holds exactly the set of all words that agree with the original on the undamaged bits - so the original is always among them - without duplicates and in ascending order, and every other address keeps its single original instruction. The result is the same whether the candidate lists are grown from the original word or from the zero-filled word that the receiver got, and further losses of the same transmission found later extend the lists to exactly the values of all bits lost so far.',
 ['inputs','programs','configurations','fault_sequences'],
 'every program, packet count, chunk size and loss pattern, including losses that hit no data and losses touching the last bit of a word',
 'The only test checks the number of candidates (64) at two addresses for one loss list.',
 [CORS,COR],[('packet corruptor',CORS+':PacketCorruptor'),('value enumeration',COR+':corrupt_all_bits_tuples')],(),['PacketCorruptor.corrupt'])
prop('C06','Random damage always terminates with exactly the damage asked for',
 'For every sequence of random numbers, damaging a program randomly terminates and damages exactly the requested share of its instructions (rounded up, at least one, never more than there are), wherever its addresses lie. Each damaged address lists distinct encodings with the original first, all within the allowed number of flipped bit positions and covering every combination of the chosen bits; undamaged addresses are untouched. Damage confined to the condition, register or opcode field of one instruction terminates as well, flips only bits of the chosen fields and no more than allowed, and adds only distinct, decodable encodings.',
 ['inputs','programs','schedules'],
 'every RNG history (seeded streams as well as long streaks of repeated/extreme draws), program layout with address gaps, percentage 0..100, 1..8 bits per instruction',
 'Tests draw one random stream and only check that more than one address is non-empty; a program with an address gap or an unlucky stream is never tried.',
 [COR,CORS],[('random corruption',COR+':corrupt_program'),('bit combinations',COR+':corrupt_bits')],[('random module state','source of every draw',COR)],['RandomCorruptor.corrupt'])
prop('C07','Recovery never discards the original instruction',
 'Whatever packets were lost, no pass of the recovery removes the original instruction from the candidates of its address while it eliminates impossible candidates. An address the loss did not touch keeps its one instruction, also when that word is not a valid instruction.',
 ['programs','fault_sequences','histories'],
 'every program of valid instructions (undamaged data words allowed), loss pattern and number of recovery passes',
 'No test runs the probabilistic recovery and looks whether the original survives elimination.',
 [REC,RUN,MC],[('per-candidate scores',REC+':ProbabilisticRecuperator'),('elimination',RUN+':remove_bad_candidates_at_addr')],[('scores_by_rule','probability per rule of a candidate',REC)],['candidate lists after each pass'])
prop('C08','The recovery driver always finishes and its results can be read back',
 'For every program and loss pattern the full recovery run finishes after a bounded number of passes, in each of which the candidate lists only shrink, without an exception - also when everything was resolved, when the program has address gaps, undamaged words that are no instructions, or a single instruction. It goes on, whatever the scores are and however little is gained, until a pass rules no candidate out any more (impossible, or less than certain next to a certain one). The initial and the final solution file it leaves behind both read back, name the original program, and list no candidate that is not in the corresponding candidate lists.',
 ['programs','fault_sequences','histories'],
 'every program (gaps between functions, data words inside code, one instruction), loss pattern and corruption source',
 'The driver script has no test at all.',
 [RUN,REC,SIO,SB],[('driver loop',RUN+':run_recovery'),('report',RUN+':print_report')],(),['files written by run_recovery','program dictionary handed to the recuperator'])
prop('C09','Metadata counts are exact and every score is a probability',
 'The collected metadata counts of conditions, opcodes and storages equal the number of instructions of the program that have them, and the counts gathered from a damaged program are, for every value, the number of addresses where some candidate has it - hence never below the true counts while the original is still listed. During recovery every score of every candidate lies between 0 and 1 and an original instruction never scores 0.',
 ['programs','fault_sequences','histories'],
 'every program, loss pattern and recovery pass, also when the same candidates are scored again or some are marked as ignored',
 'The metadata test checks one program\'s totals and the probabilities test checks one union formula; scores are never checked on damaged programs.',
 [MC,REC],[('metadata',MC+':MetadataCollector'),('corrupted metadata',MC+':CorruptedProgramMetadataCollector'),('score product',REC+':probabilistic_rules_remove_step')],(),['collector properties','score() of candidates'])
prop('C10','A saved solution reads back exactly; a torn one is never taken for real',
 'If saving a solution returns normally, reading the file yields for every address exactly the candidates up to and including the original, in order, and the original. If the process is killed or the disk fails at any point of the save, a later read either reports an error or yields one of the solutions actually being saved there, never a mixture or a truncated one. A read that itself hits I/O errors or short reads never returns wrong data. A file that is not a solution file (empty, zeroed, text, damaged or missing first word) is rejected.',
 ['crash_points','fault_sequences','histories','inputs'],
 'every candidate table, every sequence of saves and reads on the same path and every crash point, ENOSPC/EIO/short write or short read/EIO in between',
 'One test writes and reads one program once on a healthy disk.',
 [SIO],[('writer',SIO+':SolutionWriter.write_binary'),('reader',SIO+':SolutionReader.read')],(),['SolutionReader.read'])
prop('C11','A damaged program saved as JSON is replayed exactly',
 'Saving a damaged program and loading it again - directly or through the replay corruptor - yields the same addresses with the same candidates in the same order, and a recovery continued from the loaded program behaves like one continued from the original in memory. If the save is interrupted by a crash or disk fault, a later load either fails explicitly or yields one of the programs being saved.',
 ['crash_points','fault_sequences','histories','programs'],
 'every damaged program, save/load history on one path and fault point',
 'No test covers saving or loading damaged programs.',
 [COR,CORS],[('JSON save/load',COR+':save_corrupted_program_to_json'),('replay corruptor',CORS+':JSONCorruptor')],(),['load_corrupted_program_from_json','JSONCorruptor.corrupt'])
prop('C12','Reports are complete or the failure is visible, and the console survives',
 'Every report names every instruction of the program in order, and lists every candidate of the ambiguous ones, best score first and with the original marked; its verdicts, totals, ranks and ties agree with that listing. If a recovery run or a report returns normally, every output file it wrote is identical to the one a fault-free run writes, whatever transient short writes the disk produced, and a disk error is raised to the caller instead of being swallowed. However a report ends - normally, by a disk error or by an exception in a score - the process-wide standard output afterwards is the one from before, so later output reaches the console.',
 ['fault_sequences','crash_points','histories'],
 'every report over every damaged program with ENOSPC/EIO/short writes injected at every write, flush, open or close',
 'The report code has no test and no test injects I/O faults.',
 [RUN,SIO],[('report writer',RUN+':print_report')],[('sys.stdout','process-wide console stream',RUN)],['files','sys.stdout after the call'])
prop('C13','Recovery sessions in one process do not influence each other',
 'Transfers, damage, metadata collection, recovery, constraint pruning and saving of several independent programs give the same results as each of them run alone, however their steps are interleaved in threads of one process or ordered one after the other.',
 ['schedules','histories'],
 'every preemption schedule of two to four sessions (switch points at every executed line of the library) and every order of sequential sessions',
 'Every test runs one session, single-threaded.',
 [REC,MC,SB,IL,CORS,S+'architecture/instruction.py'],[('per-object state',REC+':ProbabilisticRecuperator')],[('module/class level state','must not leak between sessions',S)],['results of each session'])
prop('C14','Results do not depend on arrival order, hashing or repetition',
 'With the same program, configuration, lost packets and random seed, the whole pipeline - rebuilt words, error positions, candidate lists, scores, eliminations, solution stream and the bytes of every output file - is identical in every process, under every string-hash seed, for every order in which packets arrived or lost packets are listed, and when it is run a second time.',
 ['schedules','configurations','histories'],
 'every arrival order, order of the loss list, PYTHONHASHSEED and repetition in one process',
 'Tests run once per process with one hash seed and never compare two runs.',
 [IL,CORS,REC,SB,RUN],[('ordering by address/encoding',CORS+':PacketCorruptor.corrupt')],(),['digest of all results of a run'])
prop('C15','Disassembly listings are read completely or the failure is visible',
 'Reading a disassembly listing yields every instruction of the file with its exact address and encoding, in file order, assigned to the function that contains it, however long it is and however the underlying reads are split up; blank lines and lines that are no instructions are skipped. A read error is raised to the caller and never yields a silently truncated program, and reading the same listing again gives the same result.',
 ['inputs','fault_sequences','histories'],
 'every listing in either supported format, every split of the byte stream into short reads and every EIO position, repeated reads',
 'Three tests read two complete files from a healthy disk and compare counts and a few entries.',
 [RD],[('readers',RD+':ElfioTextDisassembleReader'),('readers',RD+':TextDisassembleReader')],(),['read(), read_functions(), read_instructions()'])
prop('C16','The remote client pairs every request with its own reply, in lockstep',
 'The client that talks to the remote quality-of-service server connects as a requester, sends one request at a time, never sends the next before the previous reply arrived, reports each reply under the request it belongs to and stops after ten answered requests; however long a reply takes it waits rather than skipping or resending, and an error of the transport ends the client instead of being reported as a reply.',
 ['schedules','fault_sequences'],
 'every sequence of reply delays, reply contents, server restarts and transport errors',
 'The client has no test; it is a script that needs a live server.',
 [S+'distributed/modifier.py'],[('request loop',S+'distributed/modifier.py')],(),['socket calls', 'console lines'])
prop('C17','A bit queue is a first-in first-out stream of bits',
 'Bits come out of a bit queue exactly in the order they were put in, whatever sequence of puts and gets with whatever chunk sizes (1 to 32 bits, also changing between operations, also across word boundaries) and source or target bit offsets is used, and it reports being empty exactly when everything put in has been taken out. Bits of the destination value outside the target range are left alone.',
 ['histories','schedules','inputs'],
 'every interleaving of producer and consumer operations, chunk sizes 1..32, values and offsets',
 'Tests use chunk sizes 1, 2 and 7 on one pair of constants in one fixed alternation, never crossing a word boundary in the middle of a chunk.',
 [BITS],[('queue',BITS+':BitQueue'),('bit copy',BITS+':Bits.copy_bits')],[('read/write cursor','position of next bit in and out',BITS)],['enqueue, dequeue, empty'])
prop('C18','The solution side information resolves every ambiguity left by a loss',
 'For every damaged program that still lists the originals, the solution bit stream produced by the sender lets a receiver that only knows the candidate lists pick, address by address in order of growing candidate count, an instruction that reads exactly like the original. The stated size of the stream is the number of bits needed for that.',
 ['programs','fault_sequences','histories'],
 'every program and loss pattern, any candidate counts (not only powers of two) before and after recovery passes, streams longer than one word',
 'The only test compares the size of the stream of one program with a bound and never decodes it.',
 [SB,BITS],[('stream builder',SB+':ForwardConstraintSolutionBuilder'),('bit queue',BITS+':BitQueue')],[('solution','bit queue of candidate indexes',SB)],['solution','solution_size'])
prop('C19','Constraint pruning never loses the original program',
 'Pruning candidates with the transmitted metadata counts never removes the original instruction of any address, never empties or grows a candidate list, and stays correct for every order in which addresses become decided. The constraint problem built from a damaged program always has the original program among its solutions, and every solution it offers uses each condition, opcode and storage exactly as often as the metadata says.',
 ['programs','fault_sequences','histories'],
 'every program, loss pattern and elimination history before pruning',
 'Tests check that the number of solutions does not exceed the number of combinations; the original is never looked up.',
 [SB,MC],[('forward constraints',SB+':AbstractForwardConstraintSolutionBuilder'),('exact sums',SB+':ExactFieldSumConstraint')],(),['program after build()','Problem.getSolutions()'])
prop('C20','The ambiguity reported for a damaged program is the true one',
 'The number of solutions reported is the product of the candidate counts, its size is the base-two logarithm of that product, and the table counts the addresses per candidate count; all three agree whatever order or how often they are asked for, shrink monotonically as recovery removes candidates, and asking never changes which candidates are listed. The reported depth is the worst relative position of an original among its ranked candidates, between 0 and 1.',
 ['programs','fault_sequences','histories'],
 'every damaged program, recovery history and order of queries',
 'Tests only compare two sizes of one program with each other.',
 [SQ],[('metrics',SQ+':SolutionQuality')],(),['solution_count, solution_size, solution_count_bins, highest_depth'])

prop('C29','The command-line programs deliver complete results or fail visibly',
 'Storing a program for transmission (store_packets) works for every readable listing with at least one instruction: it ends normally and leaves two files of exactly the program\'s length, one holding exactly its words in order, the other differing from it only by bits cleared in the bytes that the predicted lost packets would hit. Running recover_program on a listing ends normally and leaves text reports that each name every instruction once and solution files that read back, name the original program unchanged and list only candidates the loss allows. A missing source or one without any instruction, wrong arguments, or a disk error that makes a read or write fail end either program with an error exit or exception, never as a success with incomplete or different files; nothing but the named outputs is written.',
 ['fault_sequences','programs','histories'],
 'every listing (any number of instructions and functions, uneven last packet included), every disk fault at any operation, output files left by an earlier run',
 'No test runs either program; they are scripts around the library.',
 ['store_packets.py','recover_program.py',S+'compressor/shiftcompressor.py'],[('store','store_packets.py:__main__'),('recover','recover_program.py:run_recovery')],
 [('output files','what is on disk when the process ends','store_packets.py')],['exit code','output files'])

prop('C30','Trouble around a recovery run never changes its result',
 'Whatever happens around a recovery run - the console breaks, fills up, is closed, writes slowly, cannot show block characters or does not exist, a file operation fails, the user interrupts or the memory runs out at any line, the process is killed - it ends either with exactly the files of an undisturbed run or with a visible error; a console that only cannot show a character, or does not exist, is no error. After an error the caller\'s program is unchanged, and unless the run was cut off inside a computation the standard output is the one from before and the damaged program in memory has all its addresses and originals and no invented candidates and its recovery can be continued. Running once more with the same program and corruptor - or after a restart with new ones - gives exactly the undisturbed files and console text. Progress bars never run backwards, never exceed 100 percent, keep their width, and reach 100 percent exactly once when all steps are done and not long before.',
 ['fault_sequences','crash_points','histories'],
 'every program, damage and corruptor, every console error, every interruption at any console write or executed line, every disk fault, and every history of progress steps',
 'No test runs the driver, looks at the console or injects a failure.',
 [RUN,S+'report/print_progress.py',REC,CORS],[('driver',RUN+':run_recovery'),('progress bar',S+'report/print_progress.py:TextProgressBar')],
 [('candidate lists in memory','what a failed run leaves for the next',RUN)],['files, console text, program dictionary after a failure'])
prop('C31','Sender and receiver stay in step and the side information completes the program',
 'When a program is sent as packets and some are lost, the candidate lists that the receiver grows from the words it got are the same, address by address and in the same order, as those the sender predicts from the loss report, and they and all scores stay the same on both sides after every recovery pass - in whatever order packets arrived, whether they were duplicated, delayed or sent again, in whatever order the loss was reported, and when the receiver restarts from its saved state between passes. Therefore the side information that the sender builds from its own lists lets the receiver complete its damaged program to one that reads exactly like the original, with the stated number of bits.',
 ['schedules','fault_sequences','crash_points','histories'],
 'every program, packet configuration, loss, arrival order, retransmission and receiver restart',
 'No test runs both ends; the transfer, the damage, the recovery and the side information are tested apart, each on one example.',
 [IL,CORS,COR,REC,SB],[('transfer',IL+':deinterleave'),('damage on both sides',CORS+':PacketCorruptor'),('recovery on both sides',REC+':ProbabilisticRecuperator'),('side information',SB+':ForwardConstraintSolutionBuilder')],
 [('candidate lists of both nodes','must be equal after every step',CORS)],['candidate lists and scores of both nodes','reconstructed program'])

prop('C32','Recovery removes exactly the candidates that the metadata rules out',
 'Every pass of the recovery removes from an ambiguous address exactly the candidates that are impossible, and next to a certain candidate also those that are not certain - no others, and all of them, until nothing is left to remove. Impossible is a candidate that is no instruction or ignored, whose condition or opcode no instruction of the original has, or - unless it is a branch, push or pop - one of whose storages no instruction of the original uses, or that lacks a storage which its address needs because only as many addresses could use it as instructions of the original do. Certain is a possible candidate whose condition or opcode only as many addresses could have as instructions of the original do. The score is 0 for impossible and 1 for certain candidates only, otherwise the product of its parts: the condition, opcode and register parts are the count in the original divided by the number of addresses that could have it (for registers the smallest of these), and a branch into its own function or to the start of another one gets a better part than one that goes elsewhere. Repeating or interrupting a pass before its removals, or another order of the addresses, changes none of this.',
 ['fault_sequences','histories'],
 'every program, loss, set of ignored candidates, interruption or repetition of a pass and address order',
 'The tests recover one or two programs and only look at whether it ends or at a few scores.',
 [REC,RUN,MC],[('scores',REC+':ProbabilisticRecuperator'),('verdict',REC+':probabilistic_rules_remove_step'),('removal',RUN+':remove_bad_candidates_at_addr'),('counts',MC+':CorruptedProgramMetadataCollector')],
 [('program dictionary','candidate lists after every pass',RUN)],['candidates left after every pass','scores and their parts'])

# --- not applicable to this family (pure functions of their input, or not executable here) ---
prop('C21','The control flow graph has exactly the edges the branches imply',
 'The control flow graph built for a function has an edge for every fall-through and branch of its instructions and no other, and every instruction belongs to exactly one block.',
 ['programs'],'every function','Tests compare a few small graphs.',
 [S+'static_analysis/cfg.py'],[('builder',S+'static_analysis/cfg.py')])
prop('C22','Immediate dominators are correct for every flow graph',
 'For every rooted flow graph the computed dominator tree gives each node its immediate dominator.',
 ['inputs'],'every flow graph','One graph is tested.',[S+'static_analysis/dominators.py'],[('dominators',S+'static_analysis/dominators.py')])
prop('C23','Static single assignment gives each definition a unique version',
 'In the single-assignment form every read refers to the unique definition that reaches it, with merge nodes where several do.',
 ['programs'],'every function','Three functions are tested.',[S+'static_analysis/ssa.py'],[('renaming',S+'static_analysis/ssa.py')])
prop('C24','Instruction attributes agree with the ARM encoding',
 'Condition, opcode, registers read and written, memory access, branch kind and branch target reported for an instruction agree with the ARM architecture for every 32-bit word.',
 ['inputs'],'every 32-bit word','A few dozen encodings are tested.',[CAP,S+'architecture/instruction.py'],[('decoder',CAP)])
prop('C25','Register distances in the metadata are the true write-read distances',
 'For every program the minimum, maximum and mean write-to-read distances of each storage in the metadata equal those of the instruction sequence.',
 ['programs'],'every program','One program is tested.',[MC],[('distances',MC+':MetadataCollector.collect')])
prop('C26','Instruction rewriting for compression keeps the program decodable',
 'The instruction modifiers and Huffman coder change a program only in a way that can be undone.',
 ['programs'],'every program','The tests for it cannot be imported here.',[S+'architecture/instruction_modifier.py',S+'compressor/huffman.py'],[('coder',S+'compressor/huffman.py')])
prop('C27','Packet removal before storage keeps all other bits in order',
 'The shift and swap compressors leave exactly the bits that are not predicted to be lost, in order.',
 ['inputs'],'every word list and error list','No test covers them.',[S+'compressor/shiftcompressor.py','store_packets.py'],[('compressors',S+'compressor/shiftcompressor.py')])
prop('C28','The union of independent events is computed exactly',
 'For every non-empty list of probabilities the union of the independent events equals one minus the product of the complements.',
 ['inputs'],'every list of probabilities','One list is tested.',[S+'probability/probabilities.py'],[('inclusion-exclusion',S+'probability/probabilities.py')])

with open(os.path.join(ROOT,'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
