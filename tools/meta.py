#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (run by hand after editing; both files are committed)"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PR = []


def prop(id, title, statement, over, text, why, files, mech, note, level='proof', technique='contract-based deductive verification (hvc on the real C++ source, SMT), with a bounded replay harness'):
    assert len(title) <= 80, title
    PR.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, level=level, technique=technique))


prop('E01', 'A condition evaluates to the value its text denotes',
     'A well-formed expression over decimal and hexadecimal numbers and signal names, with the unary operators + - ! ~, the binary operators * / % + - < > <= >= == != & ^ | && || in C precedence and left associativity, and parentheses, evaluates to its 64-bit two\'s-complement value, where dividing (or taking a remainder) by zero gives zero and nothing ever traps. Any other text is rejected as incorrect and evaluates to zero.',
     ['inputs'], 'every expression text and every assignment of 64-bit values to the names in it',
     'The tests evaluate about ten fixed expressions; operator semantics on all 64-bit operands, precedence between all pairs of operators and rejection of all malformed texts are quantified over unbounded inputs.',
     ['src/eval.cc', 'src/eval.hh'], [('evaluation of a parse tree', 'src/eval.cc hgdb::expr::Expr::eval'), ('operator precedence and associativity', 'src/eval.cc hgdb::expr::ParserState / ParserStack'), ('grammar', 'src/eval.cc hgdb::expr grammar and actions')],
     'Every operator is proved for all 64-bit operands (bit-vector mode) and the operand stack / precedence machinery by contract; the PEGTL grammar templates that turn text into operator pushes are outside the verifier and rest on the bounded harness.')
prop('E02', 'A condition uses exactly the values supplied for its own names',
     'After any history of supplying constant values, live values and bound signals, an expression reports as still required exactly the names that occur in it and have no constant value, keeps a signal bound only to names that occur in it, and evaluates with the most recently supplied value of each name. Values supplied for names that do not occur in the expression have no effect.',
     ['histories', 'inputs'], 'every expression and every sequence of supplies, bindings, clears and evaluations',
     'The tests supply values for the names of a few expressions once, in one order, and never supply foreign names, rebind or clear.',
     ['src/eval.cc', 'src/eval.hh'], [('constant and live values', 'src/eval.cc hgdb::DebugExpression::set_static_values, set_value, set_values, eval'), ('required names', 'src/eval.cc hgdb::DebugExpression::get_required_symbols'), ('binding', 'src/eval.cc hgdb::DebugExpression::set_resolved_symbol_handle, clear')],
     'Representation invariant and functional contracts of every member that binds or reads names, proved for all expressions and all values.')
prop('S01', 'Continuing presents every inserted breakpoint once, in execution order',
     'While the user keeps continuing within one clock cycle, each call presents the next inserted breakpoints in execution order that have not been presented in this cycle, and every breakpoint inserted at the start of the cycle is presented exactly once. Several are presented together only when they share file, line, column and enable condition, belong to instances other than that of the first one, and are neither data breakpoints nor already presented; in single-thread mode they come one at a time. Breakpoints inserted or removed meanwhile never make another one be repeated or dropped, and those inserted before the current position wait for the next cycle.',
     ['histories', 'inputs', 'configurations'], 'every breakpoint list, symbol table, namespace configuration, thread mode and history of insertions, removals and continues',
     'The scheduler tests need a compiled symbol database and are not even built here; they look at one design with three breakpoints and no interleaved insertions.',
     ['src/scheduler.cc', 'src/scheduler.hh'], [('forward selection', 'src/scheduler.cc hgdb::Scheduler::next_normal_breakpoints'), ('batching of instances', 'src/scheduler.cc hgdb::Scheduler::scan_breakpoints'), ('start of a cycle', 'src/scheduler.cc hgdb::Scheduler::start_breakpoint_evaluation')],
     'Selection, batching and the per-cycle bookkeeping are proved over an abstract breakpoint list; the harness replays random histories against a reference scheduler.')
prop('S02', 'Stepping and reverse execution visit neighbours in execution order',
     'Stepping over goes to the next statement in execution order after the current one (the first one when there is none, nothing after the last), stepping back goes to the one before, and reverse-continue goes to the nearest earlier inserted breakpoint, or the last one when there is no current position. Only at the first one is simulation time reversed, once, to the previous clock edge: on success the last one of the order is presented, otherwise the first one again. A step presents one breakpoint for every namespace, carrying the statement\'s own location, instance and enable condition ("true" when it has none).',
     ['histories', 'inputs', 'configurations'], 'every execution order, breakpoint list, mixture of stepping directions, and simulators that can and cannot reverse time',
     'The tests step through one three-statement design; they never mix directions with insertions, nor with a simulator that refuses to reverse.',
     ['src/scheduler.cc'], [('step over', 'src/scheduler.cc hgdb::Scheduler::next_step_over_breakpoints'), ('step back', 'src/scheduler.cc hgdb::Scheduler::next_step_back_breakpoints'), ('reverse continue', 'src/scheduler.cc hgdb::Scheduler::next_reverse_breakpoints'), ('temporary breakpoints', 'src/scheduler.cc hgdb::Scheduler::create_next_breakpoints')],
     'The position arithmetic of stepping and reversing is proved by contract; the harness replays random histories against a reference scheduler.')
prop('S03', 'The inserted breakpoints are exactly those requested and not removed',
     'After any history of requests the scheduler holds exactly the breakpoints that were inserted with a valid condition and not removed since, one per namespace of the instance, each with the location, instance, kind, watched signal and condition that was asked for, and sorting puts them in execution order. Inserting one again updates its condition, removing one affects only entries with that id and kind, clearing data breakpoints keeps the others, and assertion breakpoints disappear after the cycle in which they were presented. A breakpoint can hit only when its enable condition and the user\'s condition are both true.',
     ['histories', 'inputs'], 'every sequence of insert, update, remove, clear, sort and cycle-start requests over every symbol table',
     'The tests insert and remove a handful of breakpoints in one order; they never share ids between kinds, use several namespaces, or give invalid conditions.',
     ['src/scheduler.cc', 'src/scheduler.hh'], [('insertion and update', 'src/scheduler.cc hgdb::Scheduler::add_breakpoint, add_data_breakpoint, add_assert_breakpoint'), ('removal', 'src/scheduler.cc hgdb::Scheduler::remove_breakpoint, remove_data_breakpoint, clear_data_breakpoints, remove_assert_breakpoints'), ('ordering', 'src/scheduler.cc hgdb::Scheduler::reorder_breakpoints')],
     'Removal, clearing, sorting and look-up are proved by contract; insertion, which calls the symbol table and the simulator, rests on assumed contracts of those and on the bounded harness.')
prop('M01', 'Watched signals are reported when due, with the right value and stable ids',
     'At each event the monitor reports every watch of that kind and nothing else, each at most once: breakpoint and clock-edge watches always, with the current value of their signal; change and data watches exactly when the signal has a known value that differs from the one reported last (the first known value counts as a change); a delayed watch reports the value its signal had exactly D cycles earlier (D at least 1; no value until that many samples exist). Watching the same signal with the same kind again returns the existing id, ids are never reused, and adding or removing a watch changes nothing about the others.',
     ['histories', 'inputs'], 'every history of watches, removals, reports and signal values',
     'The tests follow one signal through a handful of cycles; no test mixes kinds, removes watches, uses delays of several depths or signals that become unreadable.',
     ['src/monitor.cc', 'src/monitor.hh'], [('report of one event', 'src/monitor.cc hgdb::Monitor::get_watched_values'), ('change detection', 'src/monitor.cc hgdb::Monitor::var_changed'), ('delay', 'src/monitor.cc hgdb::Monitor::WatchVariableBuffer::get_value, set_value'), ('ids', 'src/monitor.cc hgdb::Monitor::add_watch_var, is_monitored, remove_monitor_variable')],
     'Every function of the monitor that adds, removes, samples or reports a watch is proved for every set of watches; the simulator is an assumed pure query (one value per handle during one report).')

prop('R01', 'Signals and slices read, print and write exactly their bits',
     'The integer of a signal is the simulator\'s integer, sign-extended (none for Verilator beyond 64 bits), its text the simulator\'s hexadecimal text with 0x in front exactly when it is wider than one bit, and setting it sets that value on that signal only. A slice name[hi:lo], bounds in either order, stands for exactly those bits of the named signal or array element: it is a signal of width hi-lo+1 whose integer has those bits and no others (bits beyond the signal and unknown bits are 0) and whose text shows them with x and z digits kept. Anything but two numeric bounds on something with bits does not resolve, setting a slice fails and changes nothing, and the simulator is never handed a slice.',
     ['inputs', 'histories'], 'every signal width and value (including unknown bits), every pair of slice bounds, every order of reads and writes',
     'The tests read a few 32-bit values and two slices of one signal; no test covers wide, reversed, out-of-range or unknown bits, or what the simulator is asked.',
     ['src/rtl.cc', 'src/rtl.hh'], [('integer reads', 'src/rtl.cc hgdb::RTLSimulatorClient::get_value, get_slice'), ('text reads', 'src/rtl.cc hgdb::RTLSimulatorClient::get_str_value, get_slice'), ('slice handles', 'src/rtl.cc extract_slice, hgdb::RTLSimulatorClient::add_mock_slice_vpi'), ('writes', 'src/rtl.cc hgdb::RTLSimulatorClient::set_value')],
     'Integer reads are proved bit-exact for every width and slice (bit-vector mode), text reads up to the hexadecimal rendering of a binary text, which is bounded; simulator calls are assumed queries.')
prop('R02', 'Names resolve to the right objects of the right instance',
     'A name that starts with the top definition of a namespace resolves to the object of the same path under the instance of that namespace, a name starting with $root. is absolute, and any other name is taken as it is. Array elements are reached by [i] and by .i in any mix, $parent leaves one scope, a name that is not in the design resolves to nothing, and repeated look-ups give the same object. There is exactly one namespace per instance of a top definition of the symbol table, and look-ups by instance name or by full name give exactly the namespaces of that definition or instance.',
     ['inputs', 'configurations'], 'every design hierarchy, symbol-table top, name and array shape',
     'The tests resolve a dozen names in one fixed hierarchy with one top instance.',
     ['src/rtl.cc', 'src/namespace.cc', 'src/util.cc'], [('name translation', 'src/rtl.cc hgdb::RTLSimulatorClient::get_full_name, get_path'), ('resolution', 'src/rtl.cc hgdb::RTLSimulatorClient::get_handle, access_arrays'), ('instances of the top', 'src/rtl.cc hgdb::RTLSimulatorClient::compute_hierarchy_name_prefix'), ('namespaces', 'src/namespace.cc hgdb::DebuggerNamespaceManager'), ('scopes', 'src/rtl.cc resolve_rtl_path, hgdb::RTLSimulatorClient::resolve_rtl_variable')],
     'Name translation, handle resolution with its caches, element access and the namespace look-ups are proved; splitting of names into pieces, the walk over the hierarchy and the expansion of composite variables are bounded.')
prop('R03', 'Simulator callbacks: one per name, removed on request, all or nothing',
     'Registering a callback under a name that already has one returns the existing one and registers nothing; otherwise the simulator registers exactly that callback, or, if it refuses, no callback is recorded. Removing by name or by handle unregisters exactly that callback. A request to monitor signals either gives every one of the signals a value-change callback or, if any of them does not exist or is refused, fails and leaves every callback as it was before.',
     ['histories', 'fault_sequences', 'inputs'], 'every history of registrations, removals and monitor requests, with the simulator refusing any of them',
     'The tests register two callbacks and never let the simulator refuse one or repeat a name.',
     ['src/rtl.cc', 'src/rtl.hh'], [('registration', 'src/rtl.cc hgdb::RTLSimulatorClient::add_call_back'), ('removal', 'src/rtl.cc hgdb::RTLSimulatorClient::remove_call_back'), ('groups', 'src/rtl.cc hgdb::RTLSimulatorClient::monitor_signals'), ('listing', 'src/rtl.cc hgdb::RTLSimulatorClient::callback_names')],
     'All functions that touch the table of callbacks are proved against a ghost set of callbacks registered in the simulator.')

prop('P01', 'Any bytes from a client are read as the request they spell, or as an error',
     'A message that is a JSON object with request true, a known type and a payload becomes a request of that type, whose fields are the payload members of the documented names, with optional members unset when absent. Any other message, and any payload with a required member missing, of another JSON type, not representable in its field or with an unknown enumeration text, becomes an error and never a crash or a different request. The client\'s token is kept in every case, and replies of a symbol table server are read the same way.',
     ['inputs'], 'every sequence of bytes and every JSON document',
     'The tests parse one well-formed message per type and two malformed ones; member absence, type confusion, number ranges, duplicate members and arbitrary bytes are unbounded.',
     ['src/proto.cc', 'src/proto.hh'], [('dispatch', 'src/proto.cc hgdb::Request::parse_request'), ('typed members', 'src/proto.cc hgdb::get_member, check_member'), ('payloads', 'src/proto.cc hgdb::*Request::parse_payload'), ('symbol replies', 'src/proto.cc hgdb::SymbolResponse::parse')],
     'Request parsing is proved for every parsed document over an assumed model of rapidjson (type tests, getters, member look-up); replies of symbol servers and the JSON reader itself are bounded.')
prop('P02', 'Responses are JSON that carries exactly what they were made from',
     'The text of every response is one JSON object with request false, the type, the status, the token exactly when one was set, and a payload holding exactly the values the response was made from under the documented names, each once, compact or pretty-printed alike. Generic responses name the type of the request they answer and give a reason exactly when they are errors. Local variables are listed in index order under a consistent ordering of names, so that two different variables never replace each other.',
     ['inputs'], 'every response class, every value of its fields, every set of variable names',
     'The tests print one response per class and compare two orderings of array elements.',
     ['src/proto.cc', 'src/proto.hh'], [('printing', 'src/proto.cc hgdb::*Response::str'), ('members', 'src/proto.cc hgdb::set_member, set_response_header, set_status'), ('order of local variables', 'src/proto.cc hgdb::BreakPointResponse::LocalVarNameCompare'), ('names of types', 'src/proto.cc hgdb::to_string')],
     'Every str function is proved to build exactly the documented document from the fields, for all values and list lengths, over an assumed model of rapidjson (AddMember, PushBack, printing is inverse to parsing, texts without NUL); the comparison of variable names and symbol requests are bounded.')

prop('D01', 'Breakpoint ids follow execution order, one per statement and instance',
     'After a symbol table is loaded, every statement with a line of every instance of the design has exactly one breakpoint id, statements without a line none, and the ids are 0, 1, ... up to their number, in the order in which the instances are visited (each before the instances in it) and the statements of an instance run. Unless the table asks to keep its own order, the statements of a block are ordered by line, then column, then kind, and neighbouring declarations or assignments of one place and condition count as one. The execution order is exactly the sequence of these ids, and the instances have distinct ids.',
     ['inputs', 'programs'], 'every symbol table: hierarchy of modules, nesting of blocks, placement and kind of statements, with and without reordering',
     'The tests load a handful of small tables, one of them with two instances; ordering, merging and numbering over arbitrary nesting and multiple tops are unbounded.',
     ['src/db.cc'], [('numbering', 'src/db.cc hgdb::db::json::ScopeEntryVisitor, build_bp_ids'), ('instances', 'src/db.cc hgdb::db::json::build_instance_tree'), ('ordering and merging', 'src/db.cc hgdb::db::json::BlockReorderingVisitor'), ('execution order', 'src/db.cc hgdb::JSONSymbolTableProvider::execution_bp_orders')],
     'The instance tree, the numbering over all instances and statements and the execution order are proved for every table by induction on its nesting; the reordering and merging inside a block rests on the bounded harness.')
prop('D02', 'Look-ups in the symbol table find exactly the matching places',
     'Asking for breakpoints by file (by full name, or base name where the table has relative ones), line and column (0 for any) gives exactly the statements of every instance whose nearest enclosing file is that file and whose line and column match, each once; asking by id gives exactly that one. Every breakpoint carries its own location, instance and the conjunction of its own and all enclosing conditions. Instance ids and full hierarchical names map to each other, every breakpoint to its instance, and file names, instance names and annotation values are listed completely.',
     ['inputs', 'programs'], 'every symbol table and every query',
     'The tests ask a few questions of small tables; nesting of files and conditions, several instances of one module, and queries that almost match are unbounded.',
     ['src/db.cc', 'src/symbol.cc'], [('search', 'src/db.cc hgdb::BreakPointVisitor'), ('conditions', 'src/db.cc hgdb::db::json::merge_condition, ScopeEntry::get_condition'), ('files', 'src/db.cc hgdb::db::json::ScopeEntry::get_filename, BreakPointVisitor::filename_match'), ('instances', 'src/db.cc hgdb::InstanceFromInstIDVisitor, InstanceByBpIDVisitor, JSONSymbolTableProvider::get_instance_id')],
     'The look-ups by location, by id, by instance and by name are proved for every table, by induction on its nesting, with conditions and files for every chain of enclosing entries; the lists of file names and instance names rest on the bounded harness.')
prop('D03', 'Variables in scope are those declared or assigned before the breakpoint',
     'The variables shown at a breakpoint are exactly those declared or assigned by earlier statements of its own and its enclosing blocks, in that order, with the value text, kind and depth of the table, where an indexed assignment stands for the element its index selects now. A name resolves at a breakpoint to the newest such variable with that name (written with . or []) or that text, at an instance to the first of the module\'s variables, as an RTL name below the instance unless it is a constant or already such a name. The constants in scope are the newest variables of their name that are plain decimal numbers.',
     ['inputs', 'programs'], 'every symbol table, breakpoint, name and value of index variables',
     'The tests look at the variables of a few breakpoints; shadowing, nesting, delayed and indexed variables in combination are unbounded.',
     ['src/db.cc', 'src/symbol.cc'], [('variables in scope', 'src/db.cc hgdb::JSONSymbolTableProvider::get_context_variables, walk_up_nodes'), ('delayed variables', 'src/db.cc hgdb::JSONSymbolTableProvider::get_context_delayed_variables'), ('names', 'src/symbol.cc hgdb::SymbolTableProvider::resolve_scoped_name_breakpoint, resolve_scoped_name_instance'), ('constants', 'src/symbol.cc hgdb::SymbolTableProvider::get_context_static_values')],
     'Name resolution and constants are proved for every list of variables in scope, as are the variables in scope themselves, delayed ones and those of the modules, for every table, breakpoint and answer of the simulator; the harness adds concrete runs of whole tables.')
prop('D04', 'A data breakpoint covers every assignment to the variable',
     'Asking for the breakpoints that assign a variable gives exactly the assignments to it (elements written with . or [] alike) in the module of the reference breakpoint, each with the id it has in the instance of the reference, the RTL text that is assigned and its full enable condition. For an assignment to an element selected by an index, every constant index in its range matches, and the condition also demands that the index selects that element.',
     ['inputs', 'programs'], 'every symbol table, breakpoint and variable name',
     'The tests look at two variables of one table; nesting, several instances, spellings of elements and index ranges are unbounded.',
     ['src/db.cc'], [('search', 'src/db.cc hgdb::AssignmentVisitor'), ('query', 'src/db.cc hgdb::JSONSymbolTableProvider::get_assigned_breakpoints')],
     'The search for assignments, what each one assigns, conditions and ids are proved for every table and name, by induction on the nesting of the table; the splitting of names into pieces rests on the bounded harness.')
prop('D05', 'A symbol table is taken as a whole or refused, and paths map both ways',
     'Any text that is not a table of the documented schema, refers to an unknown module or variable, or instantiates a module inside itself is refused and leaves an empty table, without a crash; any other is taken with all its modules, variables and attributes, the same from a file or from memory, and handing a table over keeps all of it. A file name below a mapped client directory becomes the same path below its table directory and back again; any other name is unchanged.',
     ['inputs'], 'every text given as a symbol table, every mapping of directories and file name',
     'The tests load valid tables and one invalid one; arbitrary, truncated and mistyped texts and arbitrary mappings are unbounded.',
     ['src/db.cc', 'src/symbol.cc', 'include/schema.json'], [('validation', 'src/db.cc hgdb::JSONSymbolTableProvider::valid_json'), ('reading', 'src/db.cc hgdb::db::json::parse and parse_*'), ('references', 'src/db.cc hgdb::resolve_module_instances'), ('mapping of paths', 'src/symbol.cc hgdb::SymbolTableProvider::resolve_filename_to_db, resolve_filename_to_client, resolve')],
     'The choice of the mapping is proved; reading and validating the table (rapidjson, valijson) and the path arithmetic of std::filesystem rest on the bounded harness.')

prop('G01', 'The debugger stops exactly at the breakpoints whose conditions hold',
     'At each clock edge the debugger stops at exactly those inserted breakpoints whose enable condition and user condition hold with the values the simulator has at that moment, and whose trigger signals (if any) changed since they were last looked at; a data breakpoint also needs its watched variable to have a value other than the one seen when it last stopped. When stepping it stops at every statement whose own enable condition holds. Every stop is reported once before the simulation is paused, and neither the number of breakpoints judged together, threads, value caching nor requests handled during a pause change which stops are made, except that a value set by the client counts from then on.',
     ['histories', 'inputs'], 'every set of inserted breakpoints, every sequence of requests and every evolution of the signal values',
     'The tests stop at a handful of breakpoints of two fixed designs; combinations of conditions, triggers, watches, batches of instances, the value cache and edits during a pause are not sampled.',
     ['src/debug.cc', 'src/debug.hh'], [('decision per breakpoint', 'src/debug.cc hgdb::Debugger::eval_breakpoint, should_trigger, set_expr_values, get_signal_value'), ('all breakpoints of a batch', 'src/debug.cc hgdb::Debugger::eval_breakpoints'), ('stops of a clock edge', 'src/debug.cc hgdb::Debugger::eval')],
     'The decision per breakpoint (condition, signals, triggers, watch), the verdicts of a batch and the loop over the batches of a clock edge are proved, with the two worker threads taken to run one after the other; that Expr::eval, the monitor and the scheduler do their part is proved under E01, E02, M01, S01-S03. Signal values are assumed constant during one evaluation; the loop over batches is not proved to end.')
prop('G02', 'Every request is answered exactly once, to its sender, with its token',
     'In every state of the session (before, during or after a symbol table is loaded, successfully or not), each message from a client, valid or not, gives exactly one answer: a JSON object sent to that client only, carrying the token of the request if it had one, with status success or error. No message crashes the debugger.',
     ['histories', 'inputs'], 'every sequence of messages on any connections, in any state of the session',
     'The tests send well-formed requests in the expected order after a successful connection; missing tables, failed connections, unknown ids and malformed messages in other states are unbounded.',
     ['src/debug.cc'], [('dispatch', 'src/debug.cc hgdb::Debugger::on_message'), ('handlers', 'src/debug.cc hgdb::Debugger::handle_*'), ('missing symbol table', 'src/debug.cc hgdb::Debugger::check_send_db_error, initialize_db')],
     'Dispatch and every handler are proved to send exactly one message, to the sender, with its token and the right status, in every state of the session, and never to dereference a missing table, scheduler or optional; assumed: the namespace list survives the mapping of instances, and the text of a response carries token and status (proved under P02). Bytes to requests is P01.')
prop('G03', 'Every value shown is the value the simulator has for that variable',
     'The report of a stop gives the simulation time, and for every breakpoint that hit its place, instance and namespace and exactly the context and generator variables the symbol table lists, each with the value of its own signal (a delayed variable with the value that many clock edges earlier, a constant with its text), in decimal or, when asked for, as hexadecimal bits of the signal padded to its width. Monitored signals are reported with their current value at every stop, every clock edge or every clock edge at which they changed, as asked, in the namespace asked for, until removed. An expression evaluated, or a value set, during a pause reads or sets exactly the signals its names stand for in the instance, breakpoint or namespace given.',
     ['histories', 'inputs'], 'every design, every symbol table for it, every sequence of requests and every evolution of the signal values',
     'The tests look at a few values of two fixed designs; clashes of names, two instances of the design, negative and wide values and delays are not sampled.',
     ['src/debug.cc'], [('report of a stop', 'src/debug.cc hgdb::Debugger::send_breakpoint_hit, get_value_str, value_to_str'), ('delayed variables', 'src/debug.cc hgdb::Debugger::process_delayed_breakpoint, update_delayed_values'), ('monitors', 'src/debug.cc hgdb::Debugger::send_monitor_values, handle_monitor'), ('evaluation and set-value', 'src/debug.cc hgdb::Debugger::handle_evaluation, handle_set_value, get_namespace, resolve_var_name')],
     'The values come from functions proved under R01, R02, D03 and M01. Proved here: how a stop report is put together (send_breakpoint_hit), how a signal and its text are found (get_rtl_name, get_value_str, value_to_str), monitors (send_monitor_values), delayed values (update_delayed_values) and the sending of messages. process_delayed_breakpoint and parts of resolve_var_name remain on the bounded harness, which compares every report with a reference.')

prop('X01', 'Commands and simulation never race',
     'Under every interleaving of the network thread, the simulator thread and the evaluation worker threads, commands take effect atomically, the simulation resumes exactly when a client asks for it, and no wake-up is lost.',
     ['schedules'], 'every interleaving of the threads of a debug session',
     'Thread schedules are not controlled by any test.',
     ['src/thread.cc', 'src/debug.cc', 'src/server.cc'], [('hand-over between threads', 'src/thread.cc hgdb::RuntimeLock')], None)
NA = [
    ('X01', 'The runtime lock, the condition variables between the simulator thread and the network thread, and the websocket server are about thread schedules; the verifier treats verified functions as single-threaded.'),
]


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PR:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
    m = {'version': 1, 'setup_cmd': './check.py --setup',
         'checks': [{'property': p['id'], 'quick_cmd': './check.py %s --tier quick' % p['id'], 'thorough_cmd': './check.py %s --tier thorough' % p['id'],
                     'technique': p['technique'], 'level': p['level'], 'level_note': p['note']} for p in PR if p['note']],
         'not_applicable': [{'property': a, 'reason': b} for a, b in NA]}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
