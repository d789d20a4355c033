//! Bounded exhaustive exploration of hun_law's semantic parser and program, which need the stand-in of ../peginator.
#[path = "../../harness/src/choose.rs"]
#[allow(dead_code)]
mod choose;
#[path = "../../harness/src/core.rs"]
#[allow(dead_code)]
mod core;
#[path = "../../harness/src/pdfgen.rs"]
#[allow(dead_code)]
mod pdfgen;
#[path = "../../harness/src/scratch.rs"]
#[allow(dead_code)]
mod scratch;
#[path = "../../harness/src/typeset.rs"]
#[allow(dead_code)]
mod typeset;
mod abbreviations;
mod cli;
mod grown;
mod lists;
mod own;
mod phrases;
mod pipeline;
mod robust;
mod sentences;
mod spell;

use crate::core::{Tier, Unit};

fn units(id: &str, tier: Tier) -> Option<Vec<Unit<'static>>> {
    Some(match id {
        "own" => { let _ = tier; own::examples(&["data_semantic_parser/ref_only", "data_semantic_parser/repeal", "data_semantic_parser/block_amendment", "data_semantic_parser/structural_block_amendment", "data_semantic_parser/text_amendment", "data_semantic_parser/article_title_amendment", "data_semantic_parser/enforcement_date", "data_add_semantic_info", "data_convert_block_amendments"]) },
        "C26" => sentences::units(tier),
        "C28" => phrases::block_amendments(tier),
        "C29" => phrases::texts_and_repeals(tier),
        "C30" => phrases::enforcement_dates(tier),
        "C27" => abbreviations::units(tier),
        "C31" => lists::units(tier),
        "C32" => robust::units(tier),
        "C34" => cli::units(tier),
        "C37" => pipeline::units(tier),
        _ => return None,
    })
}

fn main() {
    // Errors must not collect stack traces: it serialises all threads.
    std::env::remove_var("RUST_BACKTRACE");
    std::env::remove_var("RUST_LIB_BACKTRACE");
    let args: Vec<String> = std::env::args().collect();
    core::drive(&args, units, scratch::cleanup);
}
