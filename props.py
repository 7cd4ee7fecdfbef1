"""The properties, what decides each (functions under contract per extraction unit), and the documentation."""
_LSPF = ["crates/analyzer-core/src/lsp_file.rs"]
_PAR = ["crates/analyzer-core/src/parser.rs"]
_PEG_A = ["partial correctness: a grammar with left recursion or a repetition of something empty does not return from matching", "the token type's == is a deterministic function of the two tokens, and cloned tokens are the tokens given", "buffer length < isize::MAX - 1 (allocation limit)", "usize is 64 bits wide",
          "the RwLock around the buffer is owned by the parser: nobody else changes the buffer during a match"]
PROPS = {
    "C01": dict(level="proof", units={"lsp_file": ["LspFile::lazy_add", "LspFile::parse_string", "LspFile::new", "LspFile::lsp_to_lsp", "LspFile::lsp_to_byte",
                "LspFile::byte_to_lsp", "LspFile::line_end", "LspFile::get_file_content", "LspFile::get_ranges"]},
                assumptions=["the edit's range is not reversed (the code panics on reversed ranges by design)", "text length + replacement length fit in isize (allocation limit)", "usize is 64 bits wide"],
                note="Unbounded proof that an edit yields exactly the spliced text and exactly the line index of that text, for every text, range and replacement; trusts the listed std contracts (String::replace_range, Vec::splice, iterators) and the extraction rules."),
    "C02": dict(level="proof", units={"lsp_file": ["LspFile::lsp_to_byte", "LspFile::byte_to_lsp", "LspFile::line_end", "LspFile::lsp_to_lsp", "LspFile::lsp_range_to_byte_range",
                "LspFile::byte_range_to_lsp_range", "LspFile::new", "LspFile::parse_string"]}, theorems=["lsp_file: lem_pos", "lsp_file: lem_p2b", "lsp_file: lem_b2p_mono"],
                note="Unbounded proof for every text and every position/offset, including clamping, boundaries, round trip and monotonicity; trusts the listed std contracts and the extraction rules."),
    "C03": dict(level="proof", units={"lsp_file": ["LspFile::parse_string", "LspFile::new", "LspFile::line_char", "LspFile::get_ranges", "LspFile::get_file_content"]}, theorems=["lsp_file: lem_idx"],
                note="Unbounded proof for every text; trusts the listed std contracts and the extraction rules."),
    "C04": dict(level="proof", units={"parser": ["Matcher::consume", "Matcher::use_memoized_result", "Matcher::memoize_result", "Matcher::memoized_eval_rule", "Matcher::eval_rule", "Parser::_match", "<Column as Default>::default"]},
                theorems=["parser: lem_unique", "parser: lem_parses_unique"], assumptions=_PEG_A,
                note="Unbounded proof for every token type, grammar and text that matching returns exactly what the parsing-expression meaning of the grammar gives (partial correctness: nothing is claimed when matching does not return); trusts the listed std contracts, derived Clone of the trees and the extraction rules."),
    "C05": dict(level="proof", units={"parser": ["Parser::apply_edit", "Parser::apply_edit::invalidate_entries_in_column", "Matcher::consume", "Matcher::use_memoized_result", "Matcher::memoize_result", "Matcher::memoized_eval_rule", "Matcher::eval_rule", "Parser::_match", "<Column as Default>::default"]},
                theorems=["parser: lem_edit_cols", "parser: lem_col_keep", "parser: lem_stable_move", "parser: lem_parses_unique"], assumptions=_PEG_A + ["edit ranges lie within the buffer and are not reversed"],
                note="Unbounded proof that the memo-table invariant (every remembered result is the grammar's result on the current text, and stays so while the tokens it examined stay the same) is kept by every edit and every match, so every match after any history equals a match on a fresh parser; same trusted base as C04."),
    "C06": dict(level="proof", units={"parser": ["Parser::from_rules"]}, theorems=["parser: lem_incomplete"],
                note="Unbounded proof for every rule set; the conversion of the caller's rules into a map is an uninterpreted function; trusts the listed HashMap and iterator contracts and the extraction rules."),
}
_FCS = ["crates/analyzer-abstractions/src/futures_extensions.rs"]
_FCS_A = ["a lock is not poisoned (no function panics while it holds the lock)", "one flag, one event and one cell belong to a source for its life, and only the functions under contract use them (the fields are private)",
          "the atomic flag and the lock are linearizable: a load that follows a store sees it (event-listener's fences and the lock give this for Relaxed too)"]
_FCS_F = ["FutureCompletionSource::new", "FutureCompletionSource::new_with_value", "FutureCompletionSource::state", "FutureCompletionSource::set_inner_value", "FutureCompletionSource::set_value", "FutureCompletionSource::set_err", "FutureCompletionSource::future"]
PROPS["C07"] = dict(level="proof", par=2, units={"futures_once": _FCS_F}, assumptions=_FCS_A,
    note="Unbounded proof over contracts of the lock, the flag and the event that speak about a ghost clock and facts that stay true (rely-guarantee): holds for any number of threads and any interleaving of the operations; trusts the contracts of RwLock, AtomicBool and Event.")
PROPS["C08"] = dict(level="proof", par=2, units={"futures_wake": _FCS_F}, assumptions=_FCS_A + ["a listener registered before a notification of all listeners is woken by it (event-listener)", "the executor polls a woken future again"],
    note="Unbounded proof that a waiter only goes to sleep after it has seen, with its listener registered, that the source is not complete, and that every completion is followed by a notification of all listeners; with the event's own guarantee no wake-up is lost. Same contracts as C07.")
_RPC = ["crates/analyzer-host/src/json_rpc.rs", "crates/analyzer-host/src/json_rpc/message.rs"]
_RPC_A = ["serde_json: parsing a text and serializing a message are deterministic functions; that what is serialized parses back to the same message is only searched natively", "std's BufRead::read_line, read_exact, Read::take/read_to_end and Write::write_all/flush do what they document",
          "usize is 64 bits wide"]
PROPS["C09"] = dict(level="proof", units={"json_rpc": ["read_msg_text", "Message::buffered_read", "Message::read"]}, theorems=["json_rpc: thm_read_back", "json_rpc: thm_cut"], assumptions=_RPC_A,
    note="Unbounded proof for every byte stream: reading returns exactly the text the framing grammar assigns to the stream's bytes, takes exactly those bytes, and reports an error otherwise; no panic and no allocation of what the header merely announces. The JSON layer is an uninterpreted function.")
PROPS["C10"] = dict(level="proof", units={"json_rpc": ["write_msg_text", "Message::buffered_write", "Message::write", "read_msg_text", "Message::buffered_read", "Message::read"]}, theorems=["json_rpc: thm_frame", "json_rpc: thm_stream", "json_rpc: thm_read_back"], assumptions=_RPC_A,
    note="Unbounded proof that every message is written as one frame with the number of bytes of its text, all flushed, and (theorems over the two contracts) that any sequence of frames reads back as the same texts; that JSON texts parse back to the same message is checked natively within a bound.")
PROPS["C11"] = dict(level="proof", units={"json_rpc": ["Request::new", "Response::new", "Response::new_error", "Notification::new", "<RequestId as From<i32>>::from", "<RequestId as From<String>>::from", "Message::buffered_write", "Message::write"]}, assumptions=_RPC_A + ["the value given can be serialized (a constructor panics otherwise, by design)"],
    note="Unbounded proof of what the constructors build and of the version member being given to the serializer; the member names on the wire come from serde's derive macros and are only searched natively.")
_POOL = ["crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs"]
PROPS["C12"] = dict(level="proof", par=4, units={"pool": ["AsyncWork::new", "<AsyncWork as ArcWake>::wake_by_ref", "AsyncPool::start", "AsyncPool::stop", "AsyncPool::spawn_work"]},
    assumptions=["one loop runs per thread (the queue is thread-local), so only that loop takes a future out of its slot", "no piece of work panics while it is polled", "the executor that runs the loop polls it again when the queue wakes it", "async-channel delivers what was sent before it was closed, in any order"],
    note="Unbounded proof over ghost history (slots, waiting, completed, owed) for any number of pieces of work, wake-ups and threads; trusts the contracts of async-channel, Mutex, the cancellation token and the waker built by waker_ref; partial correctness (the loop may wait for ever).")
_PP = ["crates/analyzer-core/src/preprocessor.rs"]
PROPS["C13"] = dict(level="proof", native="full", units={"ppexpr": ["PreprocessorState::interpret_expansion", "PreprocessorState::interpret_pp_expr", "PreprocessorState::interpret_condition"]}, theorems=["ppexpr: lem_division", "ppexpr: lem_fits", "ppexpr: lem_more"],
    assumptions=["reading an expression from a text (the nom grammar in preprocessor.rs, outside the verifier's reach) is a function of the text; that it follows C's precedences is only searched natively (bounded), against an independent evaluator", "expressions are not nested so deep that the parser or the evaluator exhaust the stack"],
    note="Unbounded proof for every expression tree and every set of macro definitions, self-referential ones included: exact value, no panic, termination. The grammar that reads the tree from the text is a bounded check (independent evaluator), not proved.")
PROPS["C14"] = dict(level="proof", native="full", units={"pp": ["PreprocessorState::preprocess", "PreprocessorState::skip_conditional_directive", "PreprocessorState::check_empty_cond_stack", "PreprocessorState::error"], "ppexpr": ["PreprocessorState::interpret_condition"], "ppglue": ["vx_to_id", "vx_lexemes", "preprocess"]},
    theorems=["pp: lem_unfold", "pp: lem_step_measure"],
    assumptions=["the callbacks that resolve a path and lex a file give the same answers throughout one run, and finitely many files exist", "a cloned token equals the original (derived Clone)", "no allocation is larger than isize::MAX bytes"],
    note="Unbounded proof, for every stream of tokens, every file set and every nesting, that what is kept, what is reported, and the definitions are exactly those of an abstract machine that looks at every token under the conditionals around it; includes termination with files that include each other, and freedom from panics. The query around it (`preprocess` in lib.rs and its two callbacks) gives it the file's tokens and the database's files, and hands on all its errors and every file it looked for.")
_REQ = ["crates/analyzer-host/src/lsp/request.rs"]
PROPS["C15"] = dict(level="proof", native="full", par=2, units={"request": ["RequestManager::new", "<RequestManager as Clone>::clone", "RequestManager::send_request", "RequestManager::send_and_receive", "RequestManager::send", "RequestManager::send_notification",
                "RequestManager::create_active_request", "RequestManager::take_awaiting_request", "RequestManager::start"]},
    assumptions=["fewer than 2^32 requests are made (ids wrap around)", "the response channel carries responses only (the host's receive loop routes nothing else into it; see its property)", "a call's future is polled to its end (not dropped while it waits)",
                 "async-channel hands every message over unchanged, AsyncRwLock excludes, AtomicI32::fetch_add gives every caller a different number", "a completion source resolves its future with the value it was completed with (C07, C08)"],
    note="Unbounded proof over ghost history, for any number of copies, requests and interleavings: every request registered under a number nobody else has, sent once with that number, and completed only with a response that bears it; trusts the contracts of the channel, the lock, the atomic counter and the completion source (proved under C07/C08).")
_LIFE = ["crates/analyzer-host/src/fsm.rs", "crates/analyzer-host/src/lsp/dispatch.rs", "crates/analyzer-host/src/lsp/dispatch_target.rs", "crates/analyzer-host/src/lsp.rs", "crates/analyzer-host/src/lsp_impl/active_initialized.rs"]
PROPS["C16"] = dict(level="proof", native="full", par=2, units={"dispatch": ["RequestDispatchTarget::new", "RequestDispatchTarget::next_state", "<RequestDispatchTarget as DispatchTarget<TState>>::process_message", "<RequestDispatchTarget as DispatchTarget<TState>>::set_transition_target", "NotificationDispatchTarget::new", "NotificationDispatchTarget::next_state", "<NotificationDispatchTarget as DispatchTarget<TState>>::process_message", "<NotificationDispatchTarget as DispatchTarget<TState>>::set_transition_target", "DefaultDispatch::new", "DefaultDispatch::get_handler", "<DefaultDispatch as Dispatch<TState>>::dispatch", "TransitionBuilder::new", "TransitionBuilder::transition_to", "DispatchBuilder::new", "DispatchBuilder::for_request", "DispatchBuilder::for_request_with_options", "DispatchBuilder::for_notification", "DispatchBuilder::for_notification_with_options", "DispatchBuilder::for_unhandled_requests", "DispatchBuilder::build", "active_uninitialized__on_exit", "active_uninitialized__create_dispatcher", "initializing__on_exit", "initializing__create_dispatcher", "active_initialized__on_exit", "on_shutdown", "active_initialized__create_dispatcher", "shutting_down__on_exit", "shutting_down__create_dispatcher", "stopped__create_dispatcher", "LspProtocolMachine::create_dispatchers", "LspProtocolMachine::new", "LspProtocolMachine::is_active", "LspProtocolMachine::get_dispatcher", "LspProtocolMachine::process_message"]},
    theorems=["dispatch: thm_answered", "dispatch: thm_silent", "dispatch: thm_exit", "dispatch: thm_stopped", "dispatch: thm_guarded", "dispatch: b_lived", "dispatch: b_complete"],
    assumptions=["the names, parameter and result types lsp_types gives the twelve messages (the names are compared natively)", "a trait object behaves as the value it was made from (Box::new, &mut target, fn items as handlers)", "RwLock excludes, HashMap maps, an array of pairs becomes the map of its pairs", "handlers register nothing, and what they return can be serialized", "a future is polled to its end"],
    note="Unbounded proof, for every state, message and outcome of the handlers, that what the machine built from the registrations in the five create_dispatcher functions does is the protocol's table; handlers other than exit's and shutdown's are arbitrary.")
_DOCF = ["File::new", "File::is_open_in_ide", "File::get_parsed_unit", "File::open_or_update", "File::close", "File::set_parsed_unit", "File::set_index_error"]
_DOCW = ["Workspace::get_file", "Workspace::index", "Workspace::index::write_files", "WorkspaceManager::get_file", "WorkspaceManager::get_file::is_descendant_path", "WorkspaceManager::index", "State::workspaces", "State::set_workspaces",
         "State::process_background_analyze_requests::analyze_source_text", "vx_load", "created_file", "deleted_file", "on_watched_file_change"]
_DOC_A = ["one analyzer, one state, and handlers run one at a time (the machine awaits each); between two awaits of a task nothing else of the server runs (pool and host share one thread)", "HashMap maps, and a clone of one is iterated in the same order; locks exclude; a completion source keeps its result (C07)", "a file put into a workspace's table stays there (nothing else writes to the table)",
          "the analyzer's edits are C01's; Url::make_relative and Url::join are functions; two urls with the same text are the same", "salsa returns what the tracked function computes for the inputs set last"]
PROPS["C17"] = dict(level="proof", native="full", par=2, units={"docs": _DOCF + _DOCW + ["on_text_document_did_open", "on_text_document_did_change", "on_text_document_did_close", "on_text_document_did_save"],
    "analyzer": ["Buffer::from_string", "Analyzer::filesystem", "Analyzer::file_change_event", "Analyzer::update", "Analyzer::input", "Analyzer::buffer", "Analyzer::delete", "Analyzer::file_id", "Analyzer::get_file"]},
    assumptions=_DOC_A + ["the ranges of a change lie in the document as the client has it, columns count characters (C02)"],
    note="Unbounded proof (rely-guarantee over a ghost world of files, their locks, their loads and the analyzer's texts) that every handler and every load that runs in the background keeps, for any set of open documents, the invariant: the server has exactly those open, with the client's texts. The computation of tokens and diagnostics from the text is not part of it (C14).")
PROPS["C18"] = dict(level="proof", native="full", par=2, units={"docs": ["File::new", "File::get_parsed_unit", "File::set_parsed_unit", "File::set_index_error"] + _DOCW + ["State::has_workspaces", "State::process_background_analyze_requests", "State::set_progress", "Workspace::new",
        "WorkspaceManager::new", "WorkspaceManager::new::to_workspace", "WorkspaceManager::has_workspaces", "initialize_client_dependant_state", "on_initialize"],
    "analyzer": ["Analyzer::new", "Analyzer::filesystem", "Analyzer::update", "Analyzer::input", "Analyzer::delete", "Analyzer::file_id", "Analyzer::path", "Analyzer::lexed", "Analyzer::include_dependencies", "Analyzer::preprocessed", "<Database as Db>::resolve_path"]},
    assumptions=_DOC_A + ["what is sent to the channel of loads is received (async-channel), and the pool runs what is spawned (C12)", "which files a text includes is what the preprocessor reports (C14)"],
    note="Unbounded proof of the steps: every url has one file, new files and every unresolved include are handed to the loader, the loader starts a load for each, a load ends with exactly what the disk said (or the document is the editor's by then), events of the client end with what the disk says. That the steps add up to every file of a folder being loaded, through channel and pool, is searched natively.")
PROPS["C19"] = dict(level="proof", native="full", par=2, units={"host": ["AnalyzerHost::new", "AnalyzerHost::start", "AnalyzerHost::receive_messages", "AnalyzerHost::run_protocol_machine"]},
    assumptions=["join4 polls all four parts and returns when all of them have ended; each part ends when its channel is closed, the pool when it is stopped (C12, C15 and the contracts of the other two)", "async-channel delivers what was sent, once and in order, and fails exactly when the channel is closed", "processing a message gives a reply to every request and to nothing else, and does not wait for ever (C16)",
                 "the executor polls the future of the host when it is woken, to its end", "a message that is being processed when the host is cancelled may stay unanswered"],
    note="Unbounded proof over ghost history, for all messages, orders, and moments at which the client leaves or the host is cancelled: every message is passed on once, to whom it is for, every reply sent before the next message is taken, and every way out of the loops closes what the other parts wait for. That the four parts together then end rests on the contracts of the channels and of join4, and is searched natively.", )
PROPS["C20"] = dict(level="proof", native="full", units={"lexer": ["parse_width", "parse_base", "Lexer::read_int", "Lexer::read_comment", "Lexer::read_line_with_newline_escapes", "Lexer::read_directive", "Lexer::parse_include", "Lexer::parse_define", "Lexer::report"], "lextend": ["vx_scan", "<SpannedIter as Lextensions<'a,'db>>::process_error_tokens", "<Lextender as Iterator>::next", "lex"]},
    assumptions=["logos reads the longest token the rules of Token describe, hands its text to the rule's function and skips nothing (the table of rules is compared natively only: bounded); scan, chain, with_position, filter_map and collect do what their documentation says", "the three regular expressions of the file match what lexer.vrs states (compared natively)",
                 "what the expression grammar reads from a condition is C13's; i64::from_str_radix, str::parse, str::trim and the methods of Chars do what their documentation says"],
    note="Unbounded proof, for every text, of the functions that read what is more than a fixed pattern: block comments, integer literals, logical lines and directives - what they return, how much of the text they take, what they report, and that they neither panic nor run past the end; and of the reports for stretches of error tokens. The table of fixed tokens is searched natively against an independent reading (bounded).")
NOT_APPLICABLE = {}
_DOCS = ["crates/analyzer-host/src/lsp/workspace.rs", "crates/analyzer-host/src/lsp_impl/state.rs", "crates/analyzer-host/src/lsp_impl/active_initialized.rs", "crates/analyzer-host/src/lsp_impl/active_uninitialized.rs", "crates/analyzer-core/src/lib.rs"]
DOC = {
    "C01": dict(title="Incremental document edits equal replacing the text",
        statement="Applying any sequence of edits to an open document (each a range plus replacement text, or a full replacement) leaves exactly the text obtained by replacing the addressed range in the text, and the document's line index is then exactly that of a document freshly opened with the resulting text. No edit whose range is not reversed panics.",
        over=["inputs", "histories"], quant="all document texts (any UTF-8 content, with or without a final line break), all ranges with start not after end (positions may lie past line ends or past the end of the text), all replacement texts, all sequences of such edits",
        tests="the unit tests apply a handful of edits to a few ASCII texts; the interplay of the last line, empty lines, multi-byte characters and the shifted index is only sampled",
        files=_LSPF, mech=[("lazy_add: splice of text and line index", "LspFile::lazy_add"), ("line index of the inserted text", "LspFile::parse_string")], observe=["LspFile::get_file_content", "LspFile::get_ranges"]),
    "C02": dict(title="Positions and byte offsets convert exactly, clamped and reversibly",
        statement="A (line, column) position converts to the byte offset of that character: columns count characters, a column past the end of a line clamps to the line's end before its line break, a line past the end converts to the length of the text, and the result is always a character boundary. A byte offset converts to the position of the character that contains it, and converting a boundary offset to a position and back gives the same offset.",
        over=["inputs"], quant="all texts, all positions, all byte offsets",
        tests="the unit tests check listed positions of a few texts; none with a multi-byte character on a last line without line break",
        files=_LSPF, mech=[("column walk with clamping", "LspFile::lsp_to_byte"), ("line search and column walk", "LspFile::byte_to_lsp")], observe=["LspFile::lsp_to_byte", "LspFile::byte_to_lsp", "LspFile::lsp_range_to_byte_range", "LspFile::byte_range_to_lsp_range"]),
    "C03": dict(title="The line index and line lengths describe the text exactly",
        statement="Opening a document keeps its text unchanged and records exactly one entry per line - the byte position of the line's last byte, its line break included - where a line ends at a line feed or at the end of the text and an empty text has no lines. The length reported for a line is its number of characters including its line break, and 0 for a line past the end.",
        over=["inputs"], quant="all texts and all line numbers",
        tests="the unit tests compare the index of a few literal strings",
        files=_LSPF, mech=[("scan for line feeds", "LspFile::parse_string"), ("line length", "LspFile::line_char")], observe=["LspFile::get_ranges", "LspFile::line_char", "LspFile::get_file_content"]),
    "C04": dict(title="Matching a text gives exactly what the grammar means",
        statement="Matching a buffer against a set of rules returns a tree exactly when the rule 'start', read as a parsing expression (ordered choice, sequence, greedy repetition, negative lookahead, literal token runs), matches the whole buffer, and the tree is exactly the one that reading gives; remembering intermediate results never changes the outcome, and matching again gives the same result.",
        over=["inputs", "histories"], quant="all token types, all complete rule sets on which matching terminates, all buffers, any number of matches",
        tests="the unit tests match a few literal strings with one small grammar and compare single trees",
        files=_PAR, mech=[("evaluation of one rule", "Matcher::eval_rule"), ("memoization of results with the examined length", "Matcher::memoized_eval_rule, Matcher::memoize_result, Matcher::use_memoized_result")], observe=["Parser::_match"]),
    "C05": dict(title="Incremental re-parsing equals parsing from scratch",
        statement="After any history of edits (each replacing a range of tokens within the buffer by other tokens) and matches, in any order and also before the first match, matching returns exactly what a newly built parser with the same rules returns on the edited buffer; the buffer is the spliced one and no such edit panics.",
        over=["inputs", "histories"], quant="all rule sets on which matching terminates, all initial buffers, all sequences of edits within the buffer interleaved with matches",
        tests="one unit test performs one fixed series of edits with one grammar; which remembered results survive depends on lookahead, position and length of every edit",
        files=_PAR, mech=[("replacement of the affected columns", "Parser::apply_edit"), ("invalidation of overlapping entries", "Parser::apply_edit::invalidate_entries_in_column"), ("examined length of every remembered result", "Matcher::consume, Matcher::memoize_result")], observe=["Parser::apply_edit", "Parser::_match"]),
    "C06": dict(title="Exactly the complete rule sets are accepted",
        statement="Building a parser succeeds exactly when the rule 'start' exists and every rule named in a choice, sequence, repetition or lookahead is defined; otherwise it returns an error and does not panic. A built parser keeps exactly the given rules and the given buffer and remembers nothing, so matching never meets an undefined rule.",
        over=["inputs"], quant="all rule sets",
        tests="the unit tests only build complete grammars",
        files=_PAR, mech=[("check of every reference", "Parser::from_rules")], observe=["Parser::from_rules"]),
    "C07": dict(title="A completion source is completed at most once and everyone sees that result",
        statement="Of all attempts to complete a FutureCompletionSource (with a value or an error, from any clones and threads) exactly the first succeeds; every other returns the error Invalid and changes nothing. Its state is pending until then and ready ever after, and every state and future observed is the result of the attempt that succeeded. A source built with a value is complete with that value from the start.",
        over=["schedules", "histories", "inputs"], quant="all result types and values, all numbers of producers and observers, all interleavings",
        tests="the unit tests complete a source twice from one thread; two producers between check and store are never scheduled",
        files=_FCS, mech=[("check and store under the lock", "FutureCompletionSource::set_inner_value"), ("reading flag and value", "FutureCompletionSource::state")], observe=["FutureCompletionSource::state", "FutureCompletionSource::future", "FutureCompletionSource::set_value", "FutureCompletionSource::set_err"]),
    "C08": dict(title="Completing a source wakes every waiter, whenever it started to wait",
        statement="Every future of a FutureCompletionSource that is being awaited when the source is completed, or starts to be awaited at the same time or later, resolves with the result: it never goes to sleep for a completion that has already been notified, every completion notifies all waiters (not some), and a woken waiter finds the result there.",
        over=["schedules", "histories"], quant="all numbers of waiters, all interleavings of waiting and completing",
        tests="the unit tests let waiters start and complete the source afterwards from the same thread; a completion between looking at the state and starting to listen is never scheduled",
        files=_FCS, mech=[("listen, look again, sleep", "FutureCompletionSource::future"), ("store, raise the flag, notify all", "FutureCompletionSource::set_inner_value")], observe=["FutureCompletionSource::future"]),
    "C09": dict(title="Any byte stream is read as exactly the messages it frames, and malformed input is an error",
        statement="Reading a message from any byte stream takes exactly one frame - header lines ended by CRLF, of which the last Content-Length counts and unknown ones are skipped, an empty line, and that many bytes - and returns the message its text holds; the next read continues right behind it. The end of the stream before or within the header gives no message. Everything else - a line without CRLF or without ': ', a length that is missing or no number, fewer bytes than announced, text that is not UTF-8 or not a message, a failing reader - is reported as an error; reading never panics and never reserves memory for data that has not been received.",
        over=["inputs", "faults"], quant="all byte streams, however the reader divides them, and all failures of the reader",
        tests="no unit test reads a message",
        files=_RPC, mech=[("header lines and body", "read_msg_text"), ("text to message", "Message::buffered_read")], observe=["Message::read"]),
    "C10": dict(title="Written messages are framed exactly, flushed, and read back as the same messages",
        statement="Writing a message sends exactly a header 'Content-Length: N' with N the number of bytes (not characters) of the JSON text, an empty line and the text, all of it flushed before success is reported; a failing writer is reported as an error. Any sequence of messages written to a stream, also with further headers in the frames, reads back as the same messages in the same order (a null result reads back as an absent one), with nothing left over.",
        over=["inputs", "histories", "faults"], quant="all messages and sequences of messages, all failures of the writer",
        tests="no unit test writes a message",
        files=_RPC, mech=[("length in bytes, whole text, flush", "write_msg_text"), ("version member", "Message::buffered_write")], observe=["Message::write", "Message::read"]),
    "C11": dict(title="Every message carries its identity and exactly the members JSON-RPC 2.0 asks for",
        statement="A request or response carries exactly the id it was built with (a number stays a number, a string a string); a response built from a result has that result - null included - and no error, one built from an error has that code and message and no result; a request or notification has the given method and parameters. On the wire every message has \"jsonrpc\": \"2.0\", and members that are absent are left out.",
        over=["inputs"], quant="all ids, methods, parameters, results, codes and messages",
        tests="no unit test builds a message",
        files=_RPC, mech=[("constructors", "Request::new, Response::new, Response::new_error, Notification::new"), ("version member", "Message::buffered_write")], observe=["Message::write"]),
    "C12": dict(title="Spawned work runs to completion: every wake-up is followed by a poll, and nothing is polled once complete",
        statement="Every piece of work given to the AsyncPool, and every wake-up of it - by itself, by other work, from other threads, during its own poll - puts it into the queue, and whatever is taken from the queue is polled unless it is complete; a poll that is pending keeps the work, one that is ready ends it for ever. The pool ends with success only when it has been stopped and its queue is used up, and with OperationCanceled exactly when it was cancelled, without polling anything after it has seen that. Spawning, waking and stopping never panic, also when the pool has been stopped, and waking never drops the work itself (it may be woken under locks that dropping it takes).",
        over=["schedules", "histories"], quant="all numbers of pieces of work, all behaviours of their polls, all interleavings of wake-ups from any threads, all moments of stopping and cancelling",
        tests="no unit test uses the pool",
        files=_POOL, mech=[("take, poll, put back under the lock", "AsyncPool::start"), ("re-queue on wake-up", "AsyncWork::wake_by_ref")], observe=["AsyncPool::start", "AsyncPool::spawn_work", "AsyncPool::stop"]),
    "C13": dict(title="The condition of #if and #elif has exactly the value of its expression, whatever the macros say",
        statement="The condition of a #if or #elif has the value its expression has in 64-bit two's-complement arithmetic with C's operators and precedences: a number is itself, defined(X) is 1 or 0, a macro has the value of the expression it is defined as, comparisons and logical operators give 1 or 0, division rounds towards zero, shifts move the left operand. An expression without a value - an overflow, a division by zero, a shift by less than 0 or more than 63 bits, an undefined macro, a macro inside its own expansion, a definition that is no expression - makes the condition false. Evaluating any condition under any definitions ends and never panics.",
        over=["inputs"], quant="all expressions and all sets of macro definitions, including macros that refer to each other in circles",
        tests="the unit tests evaluate two arithmetic expressions without macros",
        files=_PP, mech=[("evaluation", "PreprocessorState::interpret_expansion"), ("macros being expanded", "PreprocessorState::interpret_expansion"), ("grammar", "preprocessor::parser")], observe=["PreprocessorState::interpret_condition"]),
    "C14": dict(title="Preprocessing keeps exactly the active tokens, in order, and reports every broken directive",
        statement="Of a stream of tokens, preprocessing keeps exactly those for which every enclosing #if/#elif/#else branch is the active one - the first branch of its conditional whose condition holds, else the #else branch - in their order, each include replaced by the tokens of its file, white space that follows white space of the same file merged into one. Directives in inactive branches have no effect, #define and #undef take effect for what follows, no file is included a second time (nor the file itself), #pragma is ignored. Exactly the dangling #elif/#else/#endif, a second #else, includes that are recursive or not found, unknown directives and missing #endifs are reported, at their place. Preprocessing always ends, also when files include each other, and never panics.",
        over=["inputs"], quant="all token streams, all sets of files and ways they include each other, all nestings of conditionals",
        tests="the unit tests preprocess nine fixed texts with at most one level of conditionals and no include",
        files=_PP, mech=[("the main loop", "PreprocessorState::preprocess"), ("skipping an inactive branch", "PreprocessorState::skip_conditional_directive"), ("missing #endif", "PreprocessorState::check_empty_cond_stack")], observe=["PreprocessorState::preprocess"]),
    "C15": dict(title="Every request to the client gets its own response, whatever order the answers come in",
        statement="Every request a RequestManager or any of its copies sends to the client carries a number no other of their requests carries, and the method and parameters given; it is on record as waiting before it is sent. A response completes exactly the request whose id it bears, once; a response nobody waits for is dropped and disturbs nothing. The caller gets the result its response holds, and an error when the response is an error, holds no result (where one is expected) or one of another type, or when the request could not be sent - which leaves nothing waiting. A notification is sent with its method and parameters. The loop that hands responses out ends only on cancellation or when its channel is closed, reports cancellation exactly then, and never panics on a response; once it has ended, every request still waiting has failed and every later one fails instead of waiting for a response that cannot come.",
        over=["inputs", "histories", "schedules"], quant="all numbers of copies and outstanding requests, all orders of answers, strays and repeated answers included, all interleavings",
        tests="no unit test uses the request manager (the test build does not even compile it)",
        files=_REQ, mech=[("numbering, registering, sending", "RequestManager::send_request"), ("matching responses", "RequestManager::start"), ("shared between copies", "RequestManager::clone")], observe=["RequestManager::send_and_receive", "RequestManager::send", "RequestManager::start"]),
    "C16": dict(title="The server follows the LSP life cycle and answers every request exactly once",
        statement="Whatever messages a client sends in whatever order: every request gets exactly one response, under its own id, holding either a result or an error - also when it is unknown, comes in the wrong state, has parameters that cannot be read (InvalidParams) or its handler fails (InternalError). Notifications and stray responses are never answered. Before initialize has succeeded only initialize and exit have an effect and every other request gets ServerNotInitialized; until initialized arrives, the same holds with initialized; after shutdown every request gets InvalidRequest and only exit has an effect. A failing handler or unreadable parameters leave the state as it was. exit stops the server in every state, and a stopped server stays stopped. Each message of the protocol that is due in a state runs its handler once, with its parameters.",
        over=["inputs", "histories"], quant="all sequences of messages, all parameters, all outcomes of the handlers",
        tests="no unit test uses the protocol machine (the test build does not even compile it)",
        files=_LIFE, mech=[("the machine", "LspProtocolMachine::process_message"), ("tables of a state", "create_dispatcher"), ("choosing a handler", "DefaultDispatch::dispatch"), ("parameters, outcome, next state", "RequestDispatchTarget::process_message")], observe=["LspProtocolMachine::process_message", "LspProtocolMachine::is_active"]),
    "C17": dict(title="An open document belongs to the editor",
        statement="While a document is open in the editor, its text in the analyzer is exactly the text the editor has sent: that of didOpen with every didChange applied in order, or of a didSave that carries text - whatever is loaded from the disk, indexed, created, changed or deleted there meanwhile, and however the steps of loads in progress interleave with the editor's messages. The document is known to be open exactly from didOpen (or a save with text) to didClose, its parsed unit is available and is that document's, and after didClose the editor's text is gone. Messages about one document leave every other open document as it is. This holds for documents inside and outside the workspace folders and for untitled ones, and none of these messages stops the server.",
        over=["inputs", "histories", "schedules"], quant="all sequences of document and file messages over any documents and workspace folders, all interleavings with background loads, all outcomes of reading the disk",
        tests="no unit test uses workspaces, handlers or the background loader (the test build does not even compile them)",
        files=_DOCS, mech=[("handlers of the editor's messages", "on_text_document_did_open, on_text_document_did_change, on_text_document_did_save, on_text_document_did_close"), ("a load gives way to the editor", "State::process_background_analyze_requests"), ("state of a file", "File::open_or_update, File::set_parsed_unit, File::set_index_error"), ("events of the disk", "created_file, deleted_file")], observe=["Analyzer::input", "File::is_open_in_ide", "File::get_parsed_unit"]),
    "C18": dict(title="Files that are not open are loaded and follow the disk",
        statement="Every url is served by exactly one file object, that of a workspace folder it is below or, if it is below none, that of the folder for all others. Once the server is initialized with workspace folders and nothing is under way, every file its indexing found, every file the server was asked for, and every file included (directly or through others) by a loaded file has been loaded: the analyzer has the text the disk gave and the file's parsed unit is its own, or the file is marked as not found. Indexing keeps files that are known already. When the client reports that a file that is not open was created or changed, the analyzer then has what the disk has; when it was deleted, the text is gone. Includes that cannot be resolved, files that do not exist, and a client that refuses to show progress do not stop this. An initialize that is refused sets nothing up, so that a later one works.",
        over=["inputs", "histories", "schedules"], quant="all folders, files and includes among them, all orders in which reads of the disk end, all sequences of events",
        tests="no unit test uses workspaces, handlers or the background loader (the test build does not even compile them)",
        files=_DOCS, mech=[("finding the file of a url", "WorkspaceManager::get_file, Workspace::get_file"), ("indexing", "Workspace::index"), ("the loader", "State::process_background_analyze_requests"), ("includes are asked for", "Analyzer::preprocessed"), ("events of the disk", "on_watched_file_change"), ("setting up", "on_initialize")], observe=["WorkspaceManager::get_file", "File::get_parsed_unit", "Analyzer::input"]),
    "C19": dict(title="The server as a whole delivers every message, and ends when it should and only then",
        statement="A started AnalyzerHost hands every message it receives on exactly once: responses to whoever asked the client, all others to the protocol machine, in the order received. The reply to a request is sent to the client before the next message is processed. The protocol machine uses the file system the host was given and otherwise one that asks the client. After the exit notification, and when the client closes the channel it sends on, the host ends by itself - well, or with an error if it has been cancelled, in which case it processes nothing it receives from then on - leaving its channels closed and its background pool stopped, whatever it was doing and whatever it still waited for from the client; until then it keeps serving. Nothing a client does with the channels makes it panic, hang or spin.",
        over=["inputs", "histories", "schedules"], quant="all sequences of messages, all interleavings of client, protocol machine, request manager and pool, all moments of leaving, exiting and cancelling",
        tests="no unit test starts the host (the test build does not even compile it)",
        files=["crates/analyzer-host/src/lib.rs"], mech=[("routing", "AnalyzerHost::receive_messages"), ("processing and replying", "AnalyzerHost::run_protocol_machine"), ("connecting and setting up the parts", "AnalyzerHost::start")], observe=["AnalyzerHost::start", "the host's two channels"]),
    "C20": dict(title="A text is read as the tokens the language means, and everything else is reported",
        statement="Every text is read as tokens that stand one after the other and cover all of it; reading never fails. Each token is the longest that stands there, and keywords are no identifiers. A comment runs from // to the end of its line (or of the text), or from /* to the first */ after it. An integer literal has the width and sign written in front of it (8w, 8s), the base its prefix names (0b, 0o, 0d, 0x; decimal without one) and the value of its digits, underscores having no meaning. A directive (# and a word) takes all of its logical line - up to the first line end (line feed, or carriage return and line feed) without a backslash in front of it, backslashes standing for the character after them - also when it is malformed: #include has its quotation style and the path between the quotes, #define the macro's name and everything after it as the macro's text, #undef exactly one name, #if and #elif their expression, #pragma and unknown directives their argument. Everything else is an error token: stray characters, a comment that is not closed, a literal without digits, with digits foreign to its base, with a width of more than 32 bits or a value of more than 63, and a directive whose argument is none. Each stretch of error tokens is reported once as an error, at its place; malformed literals, includes and macro names are also reported by themselves.",
        over=["inputs"], quant="all texts (any UTF-8 content)",
        tests="the unit tests lex a dozen fixed texts on the way to the preprocessor, one macro and no include, literal of another base or unclosed comment among them",
        files=["crates/analyzer-core/src/lexer.rs", "crates/analyzer-core/src/lib.rs"], mech=[("table of tokens", "Token"), ("integer literals", "Lexer::read_int, parse_width, parse_base"), ("logical lines and directives", "Lexer::read_line_with_newline_escapes, Lexer::read_directive"), ("comments", "Lexer::read_comment"), ("reports for error tokens", "Lextensions::process_error_tokens")], observe=["lex", "Analyzer::lexed", "Analyzer::diagnostics"]),
}
