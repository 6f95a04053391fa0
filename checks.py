#!/usr/bin/env python3
"""Writes checks.json: what is said of each check in the manifest and the evidence."""
import json, os
T = "contract-based deductive verification of the real code over compiler MIR (pydv + z3), with a bounded exploration of the real code for what is not proved"
EXPL = ("Obligations: generated from the MIR of /repo's working tree on this run and discharged by z3 for all inputs and iterations, function by function. "
        "What of the property no contract reaches is decided by the bounded part: executions of the real code, within the bounds told by `rule`; it counts nothing as proved. ")
C = {}


def check(p, note, rule, what, level="other", **kw):
    C[p] = dict(level=level, level_note=note, technique=T, rule=rule, explanation=EXPL + what, **kw)


WALKS = "own stories (threads, tunnels, functions, lists, flows, externals, errors) and the whole conformance corpus; all choice walks up to a bound plus seeded random host histories; "
check("C02", 'contracts on both ends of a save (load, fresh state, globals, patches); the round trip itself is bounded', WALKS + "non-trivial: a distinct (story, history, save point)",
      'Under contract: load_state, StoryState::{load_json (effects), new_for_loading}, VariablesState::{snapshot_default_globals, new_for_loading, apply_patch, set_global}, ValueType::is_same_value, CallStack.')
check("C03", 'proved: no source of nondeterminism is reachable and the list operations do not depend on map order; the rest of the orders is bounded', WALKS + "each run 4 times in different hash seeds and build profiles; distinct transcripts counted",
      'Under contract: sources of nondeterminism (whole program), ListDefinition::get_item_with_value, InkList under arbitrary map order.')
check("C04", 'no_panic proved for every runtime function listed; the functions left open are bounded', "every operator, function and statement form on operands of every kind; random ink programs with faults, under random host calls; in debug and release builds; distinct transcripts counted",
      'Under contract: every function of the runtime that is within reach, for no_panic (named in functions_under_contract; what is open is in undecided_obligations).')
check("C07", 'every operator, coercion and list operation proved for all operands; parsing, precedence and number text are bounded', "random well-typed and ill-typed expressions compiled and played, against an independent evaluator of Ink's rules; distinct expressions counted",
      'Under contract: NativeFunctionCall (each operator by operand types, dispatch, coercion), Value::cast, truthiness, InkList, list increments.')
check("C08", "the continue's protocol, the refusals while unfinished and the patches are proved; equality of sliced and unsliced play is bounded", WALKS + "each continue sliced after random step counts, compared with the unsliced run",
      'Under contract: continue_internal, 15 state-changing host calls while unfinished, snapshots and patches.')
check("C09", 'for each host call: exactly when it is refused, and that a refusal changes nothing, proved for all states; the bounded part repeats it on real histories', WALKS + "every kind of bad host call before every operation; whole state compared",
      'Under contract: continue, choose, set/observe, remove observer, bind, unbind, switch/remove flow, evaluate, jump, load, reset.')
check("C10", "the flows' invariant and each switch are proved; independence over whole histories is bounded", "random interleavings of flows on disjoint knots against each flow alone; switching away and back everywhere",
      "Under contract: StoryState's invariant on flows, switch/remove/default, CallStack, output and choices (framed to the current flow); lemma: away and back.")
check("C11", 'recording, order, one notification each and silence while unfinished are proved; agreement over whole histories is bounded', WALKS + "observers' log compared with the variable values before and after each continue",
      "Under contract: notify_variable_changed, VariablesState's recording, continue_internal, set_variable, restore_state_snapshot, observe/remove.")
check("C12", 'one call, of what is bound, with the arguments in order, never before the line is settled: proved; counts over whole histories are bounded', "random stories of lines and calls with known order, bound as safe, as unsafe, left to fallbacks, unbound, whole or sliced; distinct call logs counted",
      'Under contract: call_external_function, bind, unbind, coercions of what the host reads, reach of host functions (effects); lemmas: bound and unbound, bound twice.')
check("C13", 'what a continue returns and leaves behind, with and without handler, proved for all states; raised against delivered over histories is bounded', WALKS + "stories with errors and warnings, with and without handler",
      'Under contract: continue_internal, add_error, reset_errors, mark_warnings_reported, can_continue.')
check("C14", "what the tokenizer takes of the text is proved; equality of the two readers over it, both recursive, is bounded", "every story of the corpus, random ones and random JSON of every kind of token, in random layouts, escapes and number forms, by both loaders and in both builds; distinct trees counted",
      "Under contract: the tokenizer's read_utf8_char, read, peek, expect, enter, next_is_separator, next_element, read_until_separator, read_string (the text to the first quote no backslash precedes), read_value.")
check("C15", 'a refused load changes nothing and no_panic of the leaf readers are proved; the recursive readers are bounded', "story and save JSON truncated, mutated, garbled, nested; by both loaders; distinct outcomes counted",
      'Under contract: load_state; the tokenizer; no_panic of it, the loaders and the save readers where within reach.')
check("C16", 'both ends of an evaluation are proved; what the evaluated function does in between is bounded', WALKS + "host evaluation of every function at every point, twice",
      'Under contract: evaluate_function, start_/complete_function_evaluation_from_game, try_exit_function_evaluation_from_game, arguments; lemma: evaluation refused.')
check("C17", 'new and reset are proved to start from the same state; playing on from it is bounded', WALKS + "reset after every history, compared with a fresh story",
      'Under contract: Story::new, reset_state, StoryState::new, Flow::new, VariablesState::new, CallStack::new, go_to_start, reset_callstack.')
check("C18", 'no cycle of counted references can exist (proved over the types), one case open; heap bytes are bounded', WALKS + "live heap bytes (counting allocator) before and after each life of a story",
      "Obligations are one for each cell of the runtime's types, and one for the absence of deliberate leaks.")
check("C19", 'paths, components, lookup and relative paths are proved; text of paths and whole trees are bounded', "every object and position of the corpus, of our compiler's output, of random trees; random path texts",
      "Under contract: Path, Component, Container::{content_at_path, content_with_path_component}, Object::{get_path, convert_path_to_relative}, Divert's; lemma: there and back.")
check("C20", "no_panic of the tool's functions; the protocol is bounded", "random stories and inputs played by the tool in both modes and by the library; sources good and bad compiled by both; distinct outputs counted",
      "The deductive part has the tool's functions for no_panic.")
json.dump(C, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks.json"), "w"), indent=1, sort_keys=True)
