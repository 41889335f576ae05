"""which contracts and which harness decide each property"""
TRUSTED = [
    'hvc, the verifier in /verif/hvc (symbolic execution of clang-18 JSON ASTs into SMT obligations)',
    'clang-18 front end (AST of the current source) and its -fsyntax-only semantics',
    'z3 5.3 / cvc5 1.1.2 / z3 4.8.12 (unsat answers)',
    'models of the C++ standard library containers, strings and algorithms in hvc/stl.py',
    'no other thread touches the verified objects during a verified function',
    'memory allocation does not fail',
]
EVAL = ['src/eval.cc', 'src/log.cc']
DB = ['src/db.cc', 'src/symbol.cc', 'src/eval.cc', 'src/util.cc', 'src/log.cc', 'src/proto.cc', 'src/thread.cc']
NOSRV = ['src/server.cc', 'src/thread.cc']     # replaced by the harness: no network, one thread
PROPS = {
    'E01': dict(modules=[('eval_bv', None), ('eval_int', ['push', 'add_expression', 'add_symbol'])], harness='e01.cc', only=EVAL,
                bounded=['the PEGTL grammar and its semantic actions (text to operator sequence)'],
                bound='expression trees up to depth 6, texts up to about 200 characters'),
    'E02': dict(modules=[('eval_int', None)], harness='e02.cc', only=EVAL, bounded=[],
                bound='histories of up to 14 operations over 10 names'),
    'S01': dict(modules=[('scheduler', ['next_normal', 'scan_', 'next_breakpoints', 'start_breakpoint', 'remove_assert', 'clear_breakpoints', 'set_evaluation', 'reorder'])], harness='s01.cc',
                bounded=[], bound='designs of up to 14 breakpoints, up to 2 namespaces, histories of up to 30 calls'),
    'S02': dict(modules=[('scheduler', ['next_', 'scan_', 'set_evaluation', 'clear_breakpoints', 'start_breakpoint'])], harness='s02.cc', bounded=['Scheduler::create_next_breakpoints (temporary breakpoints per namespace)'],
                bound='designs of up to 12 breakpoints, up to 2 namespaces, histories of up to 30 calls'),
    'S03': dict(modules=[('scheduler', ['remove', 'clear', 'reorder', 'get_', 'start_breakpoint', 'set_evaluation', 'breakpoint_only'])], harness='s03.cc',
                bounded=['Scheduler::add_breakpoint and its callees in the symbol table and simulator'], bound='designs of up to 9 breakpoints, up to 2 namespaces, histories of up to 30 calls'),
    'M01': dict(modules=[('monitor', None)], harness='m01.cc', bounded=[], bound='4 signals, histories of up to 40 calls, delays up to 4'),
    'R01': dict(modules=[('rtl_bv', None), ('rtl', ['extract_slice', 'add_mock', 'get_signal_width', 'get_vpi', 'set_value', 'get_str_value', 'is_valid'])], harness='r01.cc',
                bounded=['the hexadecimal text of a slice (get_slice on text)', 'splitting of names into pieces (util::get_tokens)'], bound='signals of up to 200 bits, 4 signals, histories of up to 12 reads and writes'),
    'R02': dict(modules=[('rtl', ['get_handle', 'get_path', 'get_full_name', 'is_absolute', 'set_mapping', 'access_arrays', 'is_valid']), ('namespace', None)], harness='r02.cc',
                bounded=['util::get_tokens and util::join', 'compute_hierarchy_name_prefix (walk over the design)', 'resolve_rtl_path and resolve_rtl_variable (expansion of composite variables)'],
                bound='designs of up to 5 instances, 2 levels of scopes, arrays of up to 2 dimensions'),
    'R03': dict(modules=[('rtl', ['call_back', 'callback_names', 'monitor_signals'])], harness='r03.cc', bounded=[], bound='histories of up to 25 calls over 4 names and 5 signals'),
    'P01': dict(modules=[('proto', ['get_member', 'parse_'])], harness='p01.cc', only=['src/proto.cc', 'src/util.cc'],
                bounded=['SymbolResponse::parse and SymbolRequest::parse_payload (symbol table over the network)'], bound='messages nested up to 3 deep with up to 9 members'),
    'P02': dict(modules=[('proto', ['to_string', 'get_command_str', '::type', 'set_member', '::str', 'Response::'])], harness='p02.cc', only=['src/proto.cc', 'src/util.cc'],
                bounded=['LocalVarNameCompare (order of names)', 'util::stol and the digit test of option texts', 'SymbolRequest::str'], bound='responses with up to 4 instances of up to 9 variables'),
    'D01': dict(modules=[('symtab', ['ScopeEntryVisitor::handle_', 'execution_bp_orders', 'get_bp_id']),
                           ('walk', ['ScopeEntryVisitor', 'InstanceBPVisitor', 'build_'])], harness='d01.cc', only=DB,
                bounded=['sorting and merging of statements (BlockReorderingVisitor)'],
                bound='tables of up to 4 modules, 3 levels of blocks, about 20 statements each'),
    'D02': dict(modules=[('symtab', ['merge_condition', 'get_condition', 'get_filename', 'BreakPointVisitor', 'InstanceFromInstIDVisitor', 'InstanceByBpIDVisitor', 'get_annotation_values']),
                           ('walk', ['InstanceFromInstIDVisitor', 'InstanceByBpIDVisitor', 'BreakPointVisitor', 'get_instance', 'get_breakpoint'])], harness='d02.cc', only=DB,
                bounded=['lists of instance names and files (get_instance_names, get_filenames)'], bound='tables of up to 4 modules, 3 levels of blocks, about 20 statements each'),
    'D03': dict(modules=[('symbol', ['in_instance', 'rtl_equivalent', 'resolve_scoped', 'get_context_static_values', 'get_instance_name_from_bp']),
                           ('walk', ['convert_to_db', 'get_generator_variable', 'get_previous', 'get_context_'])], harness='d03.cc', only=DB,
                bounded=[], bound='tables of up to 4 modules, 3 levels of blocks, about 20 statements each'),
    'D04': dict(modules=[('symtab', ['merge_condition', 'get_condition', 'get_bp_id']),
                           ('walk', ['AssignmentVisitor', 'get_assigned_breakpoints'])], harness='d04.cc', only=DB,
                bounded=['splitting of names into pieces (util::get_tokens)'], bound='tables of up to 4 modules, 3 levels of blocks, about 20 statements each'),
    'D05': dict(modules=[('symbol', ['in_directory', 'resolve_filename'])], harness='d05.cc', only=DB,
                bounded=['reading of the table (schema validation, hgdb::db::json::parse, resolve_module_instances)', 'path arithmetic of std::filesystem'], bound='tables of up to 4 modules, mutated texts of up to a few kB'),
    'G01': dict(modules=[('debug', None)], harness='g01.cc', exclude=NOSRV, bounded=[], bound='designs of up to 9 breakpoints (90 instances of one line), up to 2 namespaces, histories of up to 24 requests and clock edges'),
    'G02': dict(modules=[('session', None)], harness='g02.cc', exclude=NOSRV, bounded=[], bound='histories of up to 12 messages'),
    'G03': dict(modules=[('report_bv', None), ('report', None)], harness='g03.cc', exclude=NOSRV, bounded=[], bound='designs of up to 7 breakpoints, up to 2 namespaces, histories of up to 20 requests and clock edges'),
}
