//! The repository's own examples of the semantic parser.  They cannot run in its test suite here (peginator is missing);
//! in these checks they also show that the stand-in of ../peginator means what the real one does.
use std::{collections::BTreeMap, path::Path};

use hun_law::{
    identifier::ActIdentifier,
    parser::{
        mk_act_section::ActRawText,
        semantic_info::{abbreviation::AbbreviationCache, sae::SemanticInfoAdder},
        structure::parse_act_structure,
    },
    reference::Reference,
    semantic_info::{SemanticInfo, SpecialPhrase},
    structure::{Act, ParagraphChildren, SAEBody},
    util::{indentedline::IndentedLine, singleton_yaml},
};
use serde::Deserialize;

use crate::{check, core::Unit};

const DATA: &str = "/repo/tests/datatests";

#[derive(Deserialize)]
struct Sentence {
    text: String,
    positions: String,
    #[serde(default)]
    abbreviations: BTreeMap<String, ActIdentifier>,
    #[serde(default)]
    expected_new_abbreviations: BTreeMap<String, ActIdentifier>,
    #[serde(default)]
    expected_references: Vec<Reference>,
    #[serde(default)]
    expected_special_phrase: Option<SpecialPhrase>,
}

/// The semantic information of one sentence.
pub fn extract(abbreviations: &BTreeMap<String, ActIdentifier>, text: &str) -> anyhow::Result<SemanticInfo> {
    let mut cache = AbbreviationCache::from(abbreviations.clone());
    SemanticInfoAdder::new(&mut cache).extract_semantic_info(text)
}

fn sentence(path: &Path) -> Result<(), String> {
    let case: Sentence = singleton_yaml::from_slice(&std::fs::read(path).unwrap()).map_err(|e| e.to_string())?;
    let info = extract(&case.abbreviations, &case.text).map_err(|e| format!("{e:#}"))?;
    let refs: Vec<&Reference> = info.outgoing_references.iter().map(|r| &r.reference).collect();
    check!(refs == case.expected_references.iter().collect::<Vec<_>>(), "wrong references: {refs:?}");
    check!(info.new_abbreviations == case.expected_new_abbreviations, "wrong abbreviations: {:?}", info.new_abbreviations);
    check!(info.special_phrase == case.expected_special_phrase, "wrong special phrase: {:?}", info.special_phrase);
    let mut marks = vec![' '; case.text.chars().count()];
    for r in &info.outgoing_references {
        let at = |b: usize| case.text[..b].chars().count();
        marks[at(r.start)] = '<';
        marks[at(r.end) - 1] = '>';
    }
    let marks: String = marks.into_iter().collect();
    check!(marks == case.positions, "wrong positions: {marks:?}");
    Ok(())
}

fn act(path: &Path, convert: bool) -> Result<(), String> {
    let text = std::fs::read_to_string(path).unwrap();
    let raw = ActRawText {
        identifier: ActIdentifier { year: 2345, number: 0xd },
        subject: "A tesztelésről".to_string(),
        publication_date: chrono::NaiveDate::from_ymd_opt(2345, 6, 7).unwrap(),
        body: text.split('\n').map(IndentedLine::from_test_str).collect(),
    };
    let mut act = parse_act_structure(&raw).map_err(|e| e.to_string())?;
    act.add_semantic_info().map_err(|e| format!("{e:#}"))?;
    if convert {
        act.convert_block_amendments().map_err(|e| format!("{e:#}"))?;
    }
    for article in act.articles_mut() {
        for paragraph in &mut article.children {
            if let SAEBody::Children { children: ParagraphChildren::QuotedBlock(qbs), .. } = &mut paragraph.body {
                for qb in qbs {
                    qb.lines = Vec::new();
                }
            }
        }
    }
    let want: Act = singleton_yaml::from_slice(&std::fs::read(path.with_extension("yml")).unwrap()).map_err(|e| e.to_string())?;
    check!(
        act == want,
        "wrong act: {} instead of {}",
        singleton_yaml::to_string(&act).unwrap(),
        singleton_yaml::to_string(&want).unwrap()
    );
    Ok(())
}

/// Units for the examples in these folders
pub fn examples(folders: &[&'static str]) -> Vec<Unit<'static>> {
    let mut out = vec![];
    for &folder in folders {
        let is_sentence = folder.starts_with("data_semantic_parser");
        let convert = folder == "data_convert_block_amendments";
        out.push(Unit {
            label: format!("examples in {folder}"),
            run: Box::new(move |c| {
                let Ok(dir) = std::fs::read_dir(format!("{DATA}/{folder}")) else { return };
                let mut files: Vec<_> = dir.map(|f| f.unwrap().path()).collect();
                files.sort();
                for f in files {
                    if f.extension().map_or(true, |e| e != if is_sentence { "yml" } else { "txt" }) {
                        continue;
                    }
                    c.case(|| format!("example {folder}/{}", f.file_name().unwrap().to_string_lossy()), || {
                        c.steps(1);
                        c.validated();
                        c.outcome("example of the repository");
                        if is_sentence {
                            sentence(&f)
                        } else {
                            act(&f, convert)
                        }
                    });
                }
            }),
        });
    }
    out
}
