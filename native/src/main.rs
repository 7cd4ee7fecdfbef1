//! Native search and replay against the real code of /repo. It never decides that a property holds: it looks for a
//! failing input when an obligation failed (or could not be generated), and cross-checks the trusted std contracts.
//!   vnative search PROP SEED SECONDS OUT.json     exit 0 nothing found / 1 failing case in OUT.json
//!   vnative replay PROP CASE.json                 exit 0 holds / 1 fails
mod fcs;
mod lsp;
mod par;
mod pool;
mod rpc;
mod run;
pub use run::*;

fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => Prop { cases: lsp::edit_cases, check: lsp::edit_check, durable: false,
            rule: "texts over {a, LF, 2-byte char, CR, 4-byte char} with sequences of range edits, all small ones first, then random; non-trivial: at least one incremental edit was applied to a non-empty text" },
        "C02" => Prop { cases: lsp::pos_cases, check: lsp::pos_check, durable: false,
            rule: "texts with all positions (line, column) up to two past the end and all byte offsets up to two past the end; non-trivial: text has a line break or a multi-byte character" },
        "C03" => Prop { cases: lsp::pos_cases, check: lsp::idx_check, durable: false,
            rule: "texts; line index and line lengths compared with a direct computation; non-trivial: text has a line break or a multi-byte character" },
        "C04" => Prop { cases: par::match_cases, check: par::match_check, durable: true,
            rule: "well-formed grammars (no left recursion, no repetition of a nullable rule) of up to 6 rules over {x, y} with texts up to 8 tokens, compared with a memo-free interpreter; non-trivial: the text matches and has 2 tokens or more" },
        "C05" => Prop { cases: par::edit_cases, check: par::edit_check, durable: true,
            rule: "the same grammars with histories of edits and matches, compared with a memo-free interpreter on the current text; non-trivial: a match after an edit succeeds" },
        "C06" => Prop { cases: par::rules_cases, check: par::rules_check, durable: true,
            rule: "grammars with missing start or undefined references; non-trivial: two rules or more" },
        "C07" => Prop { cases: fcs::once_cases, check: fcs::once_check, durable: false,
            rule: "rounds of real threads that race to complete one source while others watch its state; non-trivial: two setters or more" },
        "C08" => Prop { cases: fcs::wake_cases, check: fcs::wake_check, durable: false,
            rule: "rounds of real threads that start to wait on a source while it is completed, next to futures already waiting and futures dropped; non-trivial: a waiter races with the completion" },
        "C09" => Prop { cases: rpc::read_cases, check: rpc::read_check, durable: true,
            rule: "byte streams of header lines, bodies, messages, junk and truncations (every piece in every place of a frame, every byte in a text, every cut, all triples of 40 pieces first, then random), through readers that give few bytes at a time or fail; non-trivial: a message was read" },
        "C10" => Prop { cases: rpc::write_cases, check: rpc::write_check, durable: false,
            rule: "sequences of messages written through writers that take few bytes at a time, are interrupted or fail, and read back; non-trivial: all" },
        "C11" => Prop { cases: rpc::shape_cases, check: rpc::shape_check, durable: false,
            rule: "messages built with the constructors; the JSON on the wire is compared member by member; non-trivial: all" },
        "C12" => Prop { cases: pool::cases, check: pool::check, durable: false,
            rule: "pools of a fresh thread with scripted pieces of work that are woken by themselves, by other threads, during their own poll, twice or late, that spawn, stop and cancel; non-trivial: two steps or more" },
        _ => return None,
    })
}
fn main() { run::run(prop) }
