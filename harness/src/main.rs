//! Bounded exhaustive exploration of hun_law: one sub-command per property.
#[cfg(feature = "amend")]
mod amend;
#[cfg(feature = "choose")]
mod choose;
mod core;
#[cfg(feature = "doc")]
mod doc;
#[cfg(feature = "editing")]
mod editing;
#[cfg(feature = "empties")]
mod empties;
#[cfg(feature = "errors")]
mod errors;
#[cfg(feature = "fixes")]
mod fixes;
#[cfg(feature = "gazette")]
mod gazette;
#[cfg(feature = "issues")]
mod issues;
#[cfg(feature = "ids")]
mod ids;
#[cfg(feature = "layout")]
mod layout;
#[cfg(feature = "lines")]
mod lines;
#[cfg(feature = "numerals")]
mod numerals;
#[cfg(feature = "outputs")]
mod outputs;
#[cfg(feature = "pdfgen")]
mod pdfgen;
#[cfg(feature = "pdfs")]
mod pdfs;
#[cfg(feature = "pdfbad")]
mod pdfbad;
#[cfg(feature = "persist")]
mod persist;
#[cfg(feature = "quotes")]
mod quotes;
#[cfg(feature = "refs")]
mod refs;
mod scratch;
#[cfg(feature = "stored")]
mod stored;
#[cfg(feature = "texts")]
mod texts;
#[cfg(feature = "issues")]
mod typeset;
#[cfg(feature = "persist")]
mod tracer;
#[cfg(feature = "values")]
mod values;

use crate::core::{Tier, Unit};

fn units(id: &str, tier: Tier) -> Option<Vec<Unit<'static>>> {
    Some(match id {
        #[cfg(feature = "ids")]
        "C01" => ids::c01(tier),
        #[cfg(feature = "ids")]
        "C02" => ids::c02(tier),
        #[cfg(feature = "refs")]
        "C03" => refs::c03(tier),
        #[cfg(feature = "refs")]
        "C04" => refs::c04(tier),
        #[cfg(feature = "refs")]
        "C05" => refs::c05(tier),
        #[cfg(feature = "refs")]
        "C06" => refs::c06(tier),
        #[cfg(feature = "lines")]
        "C07" => lines::c07(tier),
        #[cfg(feature = "layout")]
        "C08" => layout::c08(tier),
        #[cfg(feature = "texts")]
        "C09" => texts::c09(tier),
        #[cfg(feature = "texts")]
        "C10" => texts::c10(tier),
        #[cfg(feature = "texts")]
        "C11" => texts::c11(tier),
        #[cfg(feature = "quotes")]
        "C12" => quotes::c12(tier),
        #[cfg(feature = "amend")]
        "C13" => amend::c13(tier),
        #[cfg(feature = "gazette")]
        "C14" => gazette::c14(tier),
        #[cfg(feature = "numerals")]
        "C15" => numerals::c15(tier),
        #[cfg(feature = "pdfs")]
        "C16" => pdfs::c16(tier),
        #[cfg(feature = "pdfs")]
        "C17" => pdfs::c17(tier),
        #[cfg(feature = "pdfs")]
        "C18" => pdfs::c18(tier),
        #[cfg(feature = "fixes")]
        "C19" => fixes::c19(tier),
        #[cfg(feature = "editing")]
        "C20" => editing::c20(tier),
        #[cfg(feature = "persist")]
        "C21" => persist::c21(tier),
        #[cfg(feature = "persist")]
        "C22" => persist::c22(tier),
        #[cfg(feature = "outputs")]
        "C23" => outputs::c23(tier),
        #[cfg(feature = "outputs")]
        "C24" => outputs::c24(tier),
        #[cfg(feature = "outputs")]
        "C25" => outputs::c25(tier),
        #[cfg(feature = "issues")]
        "C33" => issues::c33(tier),
        #[cfg(feature = "pdfbad")]
        "C35" => pdfbad::c35(tier),
        #[cfg(feature = "stored")]
        "C36" => stored::c36(tier),
        #[cfg(feature = "empties")]
        "C38" => empties::c38(tier),
        #[cfg(feature = "errors")]
        "C39" => errors::c39(tier),
        _ => return None,
    })
}

/// mc ID quick|thorough REPORT.json [UNIT CASE_NO]
fn main() {
    // Errors must not collect stack traces: it serialises all threads.
    std::env::remove_var("RUST_BACKTRACE");
    std::env::remove_var("RUST_LIB_BACKTRACE");
    let args: Vec<String> = std::env::args().collect();
    #[cfg(feature = "editing")]
    if let Some(status) = editing::editor_mode(&args) {
        std::process::exit(status);
    }
    #[cfg(feature = "persist")]
    if let Some(status) = persist::child_mode(&args) {
        std::process::exit(status);
    }
    core::drive(&args, units, scratch::cleanup);
}
