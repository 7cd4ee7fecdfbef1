//! Native search and replay against all of analyzer-core and analyzer-host (see ../mkfull.sh); same interface as vnative.
#[path = "../../src/run.rs"]
mod run;
mod docs;
mod host;
mod lexer;
mod lifecycle;
mod pp;
mod rpcman;
pub use run::*;

fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C13" => Prop { cases: pp::expr_cases, check: pp::expr_check, durable: true,
            rule: "conditions (all with up to 2 operators over few operands, then random ones) with macro definitions, self-referential ones included, compared with an independent evaluator; non-trivial: two operators or more" },
        "C14" => Prop { cases: pp::pre_cases, check: pp::pre_check, durable: true,
            rule: "token streams: every sequence of up to 6 conditional directives, then random ones over up to 4 files with definitions, includes and white space, compared with an independent reading (kept tokens, reported errors, definitions); non-trivial: something is kept and something skipped" },
        "C15" => Prop { cases: rpcman::cases, check: rpcman::check, durable: false,
            rule: "operations on a request manager and its copies: all sequences of up to 4 of 8 operations, then random ones (requests of two kinds, notifications, answers in any order with results, errors, wrong types and nulls, answers given twice, strays, a closed channel); non-trivial: two answered requests over copies" },
        "C16" => Prop { cases: lifecycle::cases, check: lifecycle::check, durable: false,
            rule: "every message (good, failing and malformed parameters, unknown names, stray responses) in every state, then random sequences of up to 26, against the protocol's table: the answer's id, its kind, the state that follows; non-trivial: two changes of state" },
        "C20" => Prop { cases: lexer::cases, check: lexer::check, durable: true,
            rule: "texts: literals made of every width, base and digits of small sets, comments with every short content, every directive with every short argument, then random texts; the tokens, their places and the reports are compared with an independent reading; non-trivial: two tokens that are no symbols" },
        "C19" => Prop { cases: host::cases, check: host::check, durable: false,
            rule: "a client and a started AnalyzerHost: initialize and all sequences of up to 4 of 10 steps (messages, polls, a message or the end of input at the moment the server sends something, end of input, a client that no longer listens, cancellation), then random sequences of up to 22 messages; the answers' order, ids and kinds, who is asked for files, and whether and how the server ends are compared with the protocol's table; non-trivial: two answers" },
        "C18" => Prop { cases: docs::cases18, check: docs::check18, durable: false,
            rule: "workspace folders (none, one, several, nested) with files including each other, files that do not exist and names that cannot be resolved, initialized (after a refusal, with a refused progress) and indexed with the reads of the disk ending in varying order; then files change, appear and vanish on the disk, are completed in or opened; whenever nothing is under way the analyzer's text and the outcome of the load of every file of the folders and every file included, and the one file of every url, are compared with the disk; non-trivial: a file of the disk was loaded" },
        "C17" => Prop { cases: docs::cases, check: docs::check, durable: false,
            rule: "a document opened, changed, saved, closed, watched and loaded in the background in every order of 4 steps; then random sequences of up to 24 steps over up to 4 documents (inside, outside, untitled, including each other) and several workspace folders, with reads of the disk ending at any time; the analyzer's text and the file's parsed unit are compared with the editor's after each step; non-trivial: a load ends or an event arrives for an open document" },
        _ => return None,
    })
}
fn main() { run::run(prop) }
