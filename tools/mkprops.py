import json
H='include/lexertl/'
def P(id,title,st,over,text,why,files,mech,state=None,observe=None):
    a={"files":[H+f if not f.startswith('include') else f for f in files],"mechanism":[{"name":n,"where":H+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":H+w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    return {"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
L=[]
L.append(P("P01","Tokens are exactly the longest-match, first-rule tokens, despite interruptions",
"For every accepted rule set of one lexer state and every input, lexing yields exactly the sequence of ids, user ids and matched ranges that the regexes' documented meaning gives: longest match, earliest rule on a tie, '^'/'$' and flags honoured, the mirror image of the rules after reverse(), skip rules left out, one-character npos tokens where nothing matches, then end of input. "
"This stays so whatever interrupts the work: a failed allocation in a rule call or in the build followed by a retry, or a read error or failed allocation in the middle of a lookup, which leaves the results at a token boundary so that simply looking up again yields the same remaining tokens. "
"It holds for every character type, id width and iterator kind, and lookup never reads outside the input.",
["inputs","programs","fault_sequences"],"every rule set, input, character type and id type; every position of an allocation failure or read error",
"The tests check the tokeniser's error paths and a handful of abstemious regexes; no test interrupts a build or a lookup, and regexes and inputs form an unbounded space.",
["lookup.hpp","generator.hpp","parser/parser.hpp","parser/tokeniser/re_tokeniser.hpp","parser/tokeniser/re_tokeniser_helper.hpp","partition/equivset.hpp","string_token.hpp","rules.hpp","iterator.hpp","match_results.hpp"],
[("scan loop keeps the last accepting position and commits it after the loop","lookup.hpp detail::next"),("DFA construction from followpos sets over disjoint byte or character classes","generator.hpp build_dfa"),("end state chosen by rule order","generator.hpp closure_ex")],
[("results.second/bol/state","the resume position between lookups","match_results.hpp")],["lexertl::lookup results","lexertl::iterator"]))
L.append(P("P02","Lexer states, push/pop stack, skip and again rules run as a pushdown machine",
"For every rule set over several lexer states the token sequence, the state after each token and the stack of saved states are those of the reference pushdown machine: next-state, push and pop take effect with the token that carries them, rules apply only in the states they name, 'skip' tokens vanish, 'again' tokens extend the current one, and popping an empty stack reports an error. "
"An interrupted lookup (read error, failed allocation) neither loses nor repeats a state change, push or pop: looking up again continues the same sequence. "
"Copies of a results object or of an iterator continue independently, and a reset one starts over.",
["inputs","programs","histories","fault_sequences"],"every multi-state rule set, input, history of copies, swaps and resets, and position of a read error or allocation failure",
"The examples use a few fixed multi-state grammars and the unit tests none with faults; copying in mid-run and interrupted pushes are never exercised.",
["lookup.hpp","match_results.hpp","iterator.hpp","rules.hpp","generator.hpp"],
[("push and pop on the results' stack before the state is committed","lookup.hpp lookup_state::pop"),("per-state machines with next, push and pop columns","generator.hpp")],
[("results.stack","saved states","match_results.hpp recursive_match_results")],["recursive_match_results.state, stack, id"]))
L.append(P("P03","Threads sharing one state machine see what each would see alone",
"Any number of threads may look up with their own results or iterators on one shared state machine, and read, dump, save or copy it, while others build machines of their own: under every interleaving each thread observes exactly what it would observe running alone, and the shared machine is bit for bit unchanged. ",
["schedules","inputs","programs"],"every interleaving of the threads' memory accesses, every rule set and input",
"The tests are single-threaded.",
["lookup.hpp","state_machine.hpp","generator.hpp","parser/parser.hpp","parser/tokeniser/re_tokeniser.hpp","serialise.hpp"],
[("lookup keeps all mutable state in locals and in the caller's results","lookup.hpp"),("machine data is const during lookup","state_machine.hpp data()")],
[("internals","the DFA tables shared by readers","internals.hpp")],["results of each thread","machine tables before and after"]))
L.append(P("P04","Lexing a stream gives the tokens of the same text in memory",
"Lexing a stream through a stream iterator yields the same tokens, with the same text, as lexing the same characters in memory, for every initial buffer size, increment, way the stream delivers its data in pieces, and position of end of file, including the empty stream. ",
["inputs","configurations","schedules"],"every rule set, text, buffer size, increment and chunking of the stream",
"No test or example in the suite lexes from a stream iterator with a buffer smaller than the text.",
["stream_shared_iterator.hpp","lookup.hpp","match_results.hpp","iterator.hpp"],
[("buffer grows while the lowest live iterator is at its start, otherwise slides down","stream_shared_iterator.hpp reload_buffer"),("live iterators register themselves so that no character still needed is dropped","stream_shared_iterator.hpp _clients")],
[("buffer","window of the stream still reachable by a live iterator","stream_shared_iterator.hpp shared::_buffer")],["tokens and their text through lookup and iterator"]))
L.append(P("P05","Stream iterators stay multi-pass through any history of copies and assignments",
"Under any history of creating, copying, assigning, comparing, advancing and destroying stream iterators, every iterator dereferences to the character of the stream at its own position, equality means the same position of the same stream (an exhausted iterator being equal to a default one), and an iterator that was never advanced starts at the oldest position still held. "
"An operation that throws leaves every iterator where it was, and when the last one is gone everything they used has been released, exactly once.",
["histories","configurations"],"every history of iterator operations over one or more streams, every buffer size and increment",
"Iterator bookkeeping (reference counts, client lists, buffer sliding) depends on the order of operations; the suite has no test of it.",
["stream_shared_iterator.hpp"],
[("reference count and client list maintained by copy, assignment, exhaustion and destruction","stream_shared_iterator.hpp"),("indices rebased when the buffer slides","stream_shared_iterator.hpp subtract")],
[("shared","buffer and registry common to the iterators of a stream","stream_shared_iterator.hpp")],["operator *, ==, heap after the last destructor"]))
L.append(P("P06","A failing stream never corrupts or invents tokens",
"When a stream being lexed fails or throws, or an allocation fails in a stream iterator, the tokens delivered up to then are those of the text read so far, every character delivered is a character of the stream in order, and the failure shows as an early end of input or as the exception. "
"After an exception a lookup can be repeated on the same results, going on with whatever still arrives, or everything destroyed; nothing is leaked or released twice.",
["fault_sequences","inputs","histories"],"every position and kind of stream failure, every position of an allocation failure",
"No test reads from a stream that fails.",
["stream_shared_iterator.hpp","lookup.hpp"],
[("short reads are taken at gcount()","stream_shared_iterator.hpp reload_buffer")],None,["characters and tokens before the failure, heap after destruction"]))
L.append(P("P07","A memory file shows the file's content or nothing and gives back what it took",
"After opening a path a memory file shows exactly the file's content (in whole characters) if every system call succeeded and otherwise is empty with a null pointer, never a stale view of an earlier file. "
"Over any history of opens, re-opens, closes and failed opens it never holds more than the one file and mapping of its current content, never closes or unmaps anything it does not own, and holds nothing after close or destruction.",
["histories","fault_sequences"],"every history of open and close over files of any size, every system call failing at any point",
"The suite never opens a missing file, an empty file, or one whose mapping fails, and cannot see descriptors leak.",
["memory_file.hpp"],
[("open, fstat, mmap with failure branches; close unmaps and closes","memory_file.hpp")],
[("descriptor and mapping","owned operating system resources","memory_file.hpp")],["data(), size(), the process's descriptors and mappings"]))
L.append(P("P08","A saved state machine loads back as the same machine",
"Saving any built state machine to a stream and loading it back, into any machine object, yields a machine equal to the original in all its tables and so in every token, for every character type and id type, whatever pieces the stream delivers the data in, whatever format and locale the two streams have (which stay as they were), and with several machines and other data following each other in one stream. ",
["inputs","programs","schedules","histories"],"every machine, id and character type, chunking of the stream and sequence of saves and loads",
"The suite has no round-trip test; corner cases are value patterns (whitespace-valued ids, npos) and short reads.",
["serialise.hpp","stream_num.hpp","state_machine.hpp"],
[("numbers are written and read as separated text in a fixed order","serialise.hpp")],None,["tables of the loaded machine, position of the stream after load"]))
L.append(P("P09","Damaged or failing storage never silently yields a wrong machine",
"Loading from a stream that ends early, fails, or holds something other than the numbers of a saved machine of the same types reports an error by exception, and does so in work and memory bounded by the data actually present; loading never returns normally with a machine other than the one saved when the stream was cut short or failed. "
"A failed load, for whatever reason including a failed allocation, leaves the target machine as it was, and it can be lexed with, loaded again and destroyed. "
"Saving to a stream that fails, or under failing allocations, leaves that failure visible to the caller. ",
["crash_points","fault_sequences","inputs"],"every cut of a saved machine, every failing read or write, every position of an allocation failure",
"No test loads a truncated file or uses a failing stream.",
["serialise.hpp","stream_num.hpp","state_machine.hpp"],
[("every number read is checked before it is used as a count","serialise.hpp")],None,["exception or stream state; tables after a load that returned"]))
L.append(P("P10","A build succeeds completely or leaves everything as it was",
"Building a state machine from any rule set, including ones with errors and however '^', '$' and line ends are combined, either completes or throws; if it throws (rejected rules, failed allocation) the rule set and the target machine are as before, a retry with memory available gives the machine an undisturbed build gives, and nothing is leaked. "
"A successful build never changes the rules, replaces whatever the machine held before, and touches no memory outside its own.",
["fault_sequences","programs","histories"],"every rule set, every allocation failing alone or from then on, every history of builds on the same objects",
"Tests build fixed rules with memory always available.",
["generator.hpp","state_machine.hpp","parser/parser.hpp","partition/equivset.hpp","observer_ptr.hpp"],
[("the machine is filled in a local object and swapped in at the end","generator.hpp build"),("tree nodes owned by a vector of unique_ptr","parser/parser.hpp")],None,["machine tables and rules before and after; heap"]))
L.append(P("P11","A rejected rule, macro or state leaves the rule set unchanged",
"Every call that adds a rule, macro or lexer state, reverses the rules or assigns one rule set to another either takes full effect or throws and leaves the rule set as if it had never been made, whether it failed because its arguments were wrong or because an allocation failed, at any point of any history of such calls. "
"After a failure the same call with valid arguments and memory available succeeds, and the machine finally built is the one that the successful calls alone give.",
["histories","fault_sequences","programs"],"every history of valid and invalid calls, every position of an allocation failure",
"The tests check that bad regexes throw, not what the rules object holds afterwards.",
["rules.hpp","parser/tokeniser/re_tokeniser.hpp"],
[("arguments are validated and tokenised before the vectors are extended","rules.hpp push, insert_macro, push_state")],
[("parallel vectors of regexes, ids, user ids, next and pushed states per lexer state","the rule set","rules.hpp")],["observers of the rules object, tokens of the machine built from it"]))
L.append(P("P12","The machine built depends on the rules alone",
"Building the same rules gives the same machine, table for table, whatever the addresses the allocator returns, whatever other threads build or tokenise meanwhile, and whatever failed or succeeded before in the process. ",
["schedules","configurations","fault_sequences"],"every allocator behaviour, interleaving of concurrent builds and preceding history",
"A test run sees one allocator behaviour and one schedule; an ordering that depends on addresses or uninitialised memory shows on another run or platform only.",
["generator.hpp","parser/parser.hpp","partition/equivset.hpp","rules.hpp"],
[("node sets are ordered by order of insertion, not by address","generator.hpp closure"),("no static mutable state","parser/tokeniser/re_tokeniser.hpp")],None,["tables of the machines"]))
L.append(P("P13","UTF iterators follow the encoding and stay in range, even on damaged text",
"Iterating well-formed UTF-8 or UTF-16 through the library's decoding iterators yields exactly its code points, and the encoding iterators yield exactly the encoded units of the code points given, at every position and through copies. "
"On text that was cut, overwritten or fails to be read at any point the decoding iterators never read outside the given range, report every sequence that is not well formed (a cut one, a stray or missing continuation unit, an overlong form, an encoded surrogate, a value past U+10FFFF) by exception instead of passing on an invented code point, and still yield every well-formed part before the damage; an iterator that fails to advance stays where it was, so that lexing damaged text gives tokens of the sound part only and then reports the error.",
["inputs","fault_sequences","crash_points"],"every text, every damage and cut, every position of a read error",
"The UTF tests cover one or two code points of each length and no malformed input.",
["utf_iterators.hpp"],
[("length of a sequence decided from its first unit; trailing units checked","utf_iterators.hpp")],None,["code points and underlying positions"]))
L.append(P("P14","Lexing resumes exactly after a crash from a checkpoint and a saved machine",
"If a lexing run is stopped at any token, its position, start-of-line flag, lexer state and stack are kept, and it is continued after a restart with the machine loaded from storage or rebuilt from the rules, then the tokens before and after the stop together are exactly those of an uninterrupted run. ",
["crash_points","histories","inputs","programs"],"every stopping point, number of restarts, rule set and input",
"Tests run each input once from start to end.",
["match_results.hpp","lookup.hpp","serialise.hpp","iterator.hpp","state_machine.hpp"],
[("everything a lookup depends on besides the machine is in the results object","match_results.hpp"),("no hidden state in the machine","state_machine.hpp")],None,["tokens, states and stack across restarts"]))
L.append(P("P15","Replace rewrites exactly the matched text and tells where output stopped",
"Replacing the matches of a machine in a text writes, in order and once each, every character that is not part of a match unchanged and one replacement for every match (a character that no rule matches counts as a match, as documented, so a map without an entry for it leaves it as it is; a token the end of input cuts short does not), for every input form and output form offered, and returns the end of what it wrote. "
"When the output or an allocation fails in the middle, what was written is a prefix of the right output and the failure reaches the caller by exception or through the returned output iterator.",
["inputs","programs","fault_sequences"],"every machine, input and replacement; every position at which the output fails",
"The replace examples use one regex and outputs that never fail.",
["replace.hpp"],
[("copies the gap before each match, then the replacement, then the tail","replace.hpp")],None,["characters in the output and the returned iterator"]))
L.append(P("P16","Dumps are complete or visibly failed and never disturb what they show",
"Writing rules or a machine as text or as a graph is a function of the rules or machine alone: it leaves them and the stream's formatting unchanged, and writes the same characters whatever pieces the output takes them in. "
"If the output or an allocation fails, what was written is a prefix of the full dump and the failure shows in the stream's state or as an exception. "
"The text dump of a machine shows every state with its ids, push, pop and line start and end, and every transition with exactly its characters; the dump of rules shows every macro and rule with its action, each as a regex that reads back as the one it stands for; the graph shows every state and every edge with its characters.",
["fault_sequences","programs","schedules"],"every machine, every position at which the output or an allocation fails",
"Dumps are not tested.",
["debug.hpp","dot.hpp","state_machine.hpp"],
[("dumps work on a private copy in character form","debug.hpp, sm_to_csm.hpp")],None,["text written, stream state, tables before and after"]))
L.append(P("P17","Copying, moving, minimising and converting a machine never changes its tokens",
"Under any history of copying, assigning, swapping, clearing, rebuilding and minimising machines, and of converting them between the table form and the character form, every machine object gives exactly the tokens of the rules it stands for, and objects never influence each other. "
"If such an operation throws because an allocation failed, the source is unchanged, a machine in table form is still whole (what it was or what it was to become), and every object can still be assigned, cleared or destroyed.",
["histories","programs","fault_sequences"],"every history of operations over several machine objects, every position of an allocation failure",
"Minimise and conversions are exercised by no test; histories over several objects by none.",
["state_machine.hpp","sm_to_csm.hpp","internals.hpp","generator.hpp"],
[("minimise merges rows equal in every column","state_machine.hpp minimise"),("value semantics of the table vectors","internals.hpp")],None,["tokens and tables of each object"]))
L.append(P("P18","Generated C++ lexers behave as the machine they were generated from",
"The C++ source generated for a machine (tables or pointer tables) compiles, and the lexer it holds gives for every input, start state and history of interrupted calls the same ids, user ids, ranges, lexer states, stack operations and (for machines with ^ rules) line starts as looking up with the machine itself, and may be called by many threads at once. Generation leaves the machine and the output's formatting unchanged and writes the same source whatever format, locale or pieces the output has; when the output or an allocation fails, what was written is a prefix of the source and the failure is visible.",
["programs","inputs","schedules","fault_sequences"],"every machine and input, interleaving of callers and failing output",
"The suite never compiles generated code.",
["generate_cpp.hpp","lookup.hpp"],
[("one table or switch per lexer state generated from the machine's rows","generate_cpp.hpp")],None,["tokens of the compiled function"]))
L.append(P("P19","Errors in regexes are reported with the documented message",
"Every malformed regex is rejected with an error that names the regex, the rule and the position, and every well-formed one is accepted. ",
["inputs"],"every regex","The fail tests list some forty malformed regexes.",
["parser/tokeniser/re_tokeniser.hpp","parser/tokeniser/re_tokeniser_helper.hpp","parser/parser.hpp"],
[("tokeniser and parser throw runtime_error","parser/tokeniser/re_tokeniser.hpp")]))
L.append(P("P20","Unicode classes, scripts and blocks hold exactly the characters of the standard",
"Each \\\\p class, script and block matches exactly the characters the Unicode database assigns to it, and case folding pairs are those of its case mapping. ",
["inputs"],"every character and class name","The tests try none of the tables.",
["parser/tokeniser/unicode.hpp","parser/tokeniser/scripts.hpp","parser/tokeniser/blocks.hpp","parser/tokeniser/fold2.inc"],
[("tables generated from the Unicode database","parser/tokeniser/unicode.hpp")]))
L.append(P("P21","Abstemious operators take the shortest text",
"A rule made of text, an abstemious repeat (*?, +? or {n,}?) of a set of characters and the text that ends it matches the shortest text it can, however often what ends it comes again; an abstemious operator at the end of a rule, or of one of its alternatives, takes its minimum. "
"Ordinary rules of the same rule set go on taking the longest text, also those that begin as an abstemious rule does and end before it can, and so does a greedy repeat behind an abstemious rule's end that holds none of its characters. "
"It stays so in every alternative and lexer state, under the case flag, whatever allocation or read fails on the way and is repeated, and after copying, minimising, saving and loading the machine.",
["inputs","programs","fault_sequences","histories"],"every such rule set and input, every position at which an allocation or read fails, every way the machine was come by","The abstemious test tries some twenty regexes, one at a time, on one input each.",
["abstemious.hpp","parser/parser.hpp","rules.hpp","partition/equivset.hpp","generator.hpp","parser/tree/leaf_node.hpp","parser/tree/iteration_node.hpp"],
[("operators at the end are cut down to their minimum before parsing","abstemious.hpp prune"),("transitions of non greedy leaves out of non greedy end states are dropped","generator.hpp, partition/equivset.hpp process_greedy")],None,["ids and ranges of tokens"]))
with open('/verif/properties.jsonl','w') as f:
    for p in L:
        p['statement']=p['statement'].strip()
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
