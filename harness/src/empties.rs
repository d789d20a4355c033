//! C38: an element is called empty exactly when there is nothing left in it.
//!
//! All elements with texts that are or are not empty, in lists of every length up to the bound, at every level.
use crate::{
    check,
    core::{Ctx, Tier, Unit},
};
use hun_law::{
    identifier::{ActIdentifier, IdentifierCommon},
    reference::Reference,
    semantic_info::{OutgoingReference, SemanticInfo},
    structure::*,
    util::indentedline::{IndentedLine, EMPTY_LINE},
};

const IDS: [&str; 4] = ["a", "b", "c", "d"];
const NUMBERS: [&str; 4] = ["1", "2", "3", "4"];

/// An element and whether any text is left in it.
type Judged<T> = (T, bool);

fn sae<I: IdentifierCommon + std::str::FromStr, C: ChildrenCommon>(id: &str, body: SAEBody<C>) -> SubArticleElement<I, C> {
    let identifier = id.parse().unwrap_or_else(|_| panic!("{id}"));
    SubArticleElement { identifier, body, semantic_info: Default::default(), last_change: None }
}

/// Every list of up to `n` of the elements, with whether anything is left in any of them.
fn lists<T: Clone>(n: usize, elements: impl Fn(usize) -> Vec<Judged<T>>) -> Vec<Judged<Vec<T>>> {
    let mut last: Vec<Judged<Vec<T>>> = vec![(vec![], false)];
    let mut all = last.clone();
    for i in 0..n {
        let e = elements(i);
        last = last
            .iter()
            .flat_map(|(v, some)| e.iter().map(move |(x, s)| ([v.clone(), vec![x.clone()]].concat(), *some || *s)))
            .collect();
        all.extend(last.clone());
    }
    all
}

/// The element as a text, and with each of the lists of children, with and without text around them.
fn bodies<C: ChildrenCommon>(children: Vec<Judged<C>>) -> Vec<Judged<SAEBody<C>>> {
    let mut v: Vec<Judged<SAEBody<C>>> = vec![(SAEBody::Text("".into()), false), (SAEBody::Text("szöveg".into()), true)];
    for (children, some) in children {
        // What stands around the children is not text of its own.
        for (intro, wrap_up) in [("", None), ("szöveg", None), ("", Some("szöveg")), ("szöveg", Some("")), ("szöveg", Some("szöveg"))] {
            v.push((SAEBody::Children { intro: intro.into(), children: children.clone(), wrap_up: wrap_up.map(String::from) }, some));
        }
    }
    v
}

fn into<T, U: From<T>>(v: Vec<Judged<T>>) -> Vec<Judged<U>> {
    v.into_iter().map(|(x, s)| (x.into(), s)).collect()
}

fn subpoints(i: usize) -> Vec<Judged<AlphabeticSubpoint>> {
    bodies(vec![]).into_iter().map(|(b, s)| (sae(IDS[i], b), s)).collect()
}
fn numeric_subpoints(i: usize) -> Vec<Judged<NumericSubpoint>> {
    bodies(vec![]).into_iter().map(|(b, s)| (sae(NUMBERS[i], b), s)).collect()
}
fn points(i: usize, n: usize) -> Vec<Judged<AlphabeticPoint>> {
    let mut c: Vec<Judged<AlphabeticPointChildren>> = into(lists(n, subpoints));
    c.extend(into::<_, AlphabeticPointChildren>(lists(n, numeric_subpoints)));
    bodies(c).into_iter().map(|(b, s)| (sae(IDS[i], b), s)).collect()
}
fn numeric_points(i: usize, n: usize) -> Vec<Judged<NumericPoint>> {
    bodies(into(lists(n, subpoints))).into_iter().map(|(b, s)| (sae(NUMBERS[i], b), s)).collect()
}

fn quoted_blocks() -> Vec<Judged<Vec<QuotedBlock>>> {
    let line = IndentedLine::from_test_str("idézet");
    let block = |lines: Vec<IndentedLine>| QuotedBlock { intro: None, lines, wrap_up: None };
    // Every quoted block is a child, whatever is in it.
    lists(2, |_| [vec![], vec![EMPTY_LINE], vec![line.clone()]].map(|l| (block(l), true)).to_vec())
}

fn judge<I, C>(c: &Ctx, (e, some): &Judged<SubArticleElement<I, C>>)
where
    I: IdentifierCommon,
    C: ChildrenCommon + std::fmt::Debug,
{
    c.case(
        || format!("{e:?}"),
        || {
            c.steps(1);
            c.validated();
            check!(e.is_empty() != *some, "called {}, though {}", if e.is_empty() { "empty" } else { "not empty" }, if *some { "text is left in it" } else { "nothing is left in it" });
            Ok(())
        },
    );
}

fn amendments(n: usize) -> Vec<Judged<BlockAmendmentChildren>> {
    let plain = |i: usize| -> Vec<Judged<Paragraph>> { bodies(into(lists(n, |i| points(i, 1)))).into_iter().map(|(b, s)| (sae(NUMBERS[i], b), s)).collect() };
    let mut v: Vec<Judged<BlockAmendmentChildren>> = into(lists(1, plain));
    v.extend(into::<_, BlockAmendmentChildren>(lists(2, |i| plain(i).into_iter().take(40).collect())));
    v.extend(into::<_, BlockAmendmentChildren>(lists(n, |i| points(i, 2))));
    v.extend(into::<_, BlockAmendmentChildren>(lists(n, |i| numeric_points(i, 2))));
    v.extend(into::<_, BlockAmendmentChildren>(lists(4, subpoints)));
    v.extend(into::<_, BlockAmendmentChildren>(lists(4, numeric_subpoints)));
    v
}

pub fn c38(tier: Tier) -> Vec<Unit<'static>> {
    let n = if tier == Tier::Quick { 2 } else { 3 };
    let mut u: Vec<Unit> = vec![];
    u.push(Unit {
        label: "points".into(),
        run: Box::new(|c| {
            for i in 0..2 {
                subpoints(i).iter().for_each(|e| judge(c, e));
                numeric_subpoints(i).iter().for_each(|e| judge(c, e));
                points(i, 4).iter().for_each(|e| judge(c, e));
                numeric_points(i, 4).iter().for_each(|e| judge(c, e));
            }
        }),
    });
    for first in 0..7 {
        u.push(Unit {
            label: format!("paragraphs-{first}"),
            run: Box::new(move |c| {
                let all = |v: Vec<Judged<ParagraphChildren>>| {
                    for id in ["", "2a"] {
                        for (b, s) in bodies(v.clone()) {
                            judge(c, &(sae(id, b), s) as &Judged<Paragraph>);
                        }
                    }
                };
                match first {
                    0 => all(into(lists(2, |i| points(i, n)))),
                    1 => all(into(lists(n, |i| points(i, 1)))),
                    2 => all(into(lists(2, |i| numeric_points(i, n)))),
                    3 => all(into(lists(n + 1, |i| numeric_points(i, 1)))),
                    4 => all(into(quoted_blocks())),
                    5 => {
                        for (children, some) in amendments(2) {
                            for (intro, wrap_up) in [(None, None), (Some("szöveg"), None), (None, Some("szöveg"))] {
                                let b = BlockAmendment { intro: intro.map(String::from), children: children.clone(), wrap_up: wrap_up.map(String::from) };
                                c.case(
                                    || format!("{b:?}"),
                                    || {
                                        c.steps(1);
                                        check!(b.is_empty() != some, "called empty: {}", b.is_empty());
                                        Ok(())
                                    },
                                );
                                all(vec![(b.into(), some)]);
                            }
                        }
                    }
                    _ => {
                        let subtitle: ActChild = Subtitle { identifier: None, title: "Alcím".into(), last_change: None }.into();
                        let article: ActChild = Article {
                            identifier: 2.into(),
                            title: None,
                            children: vec![sae("", SAEBody::Text("szöveg".into()))],
                            last_change: None,
                        }
                        .into();
                        for (children, some) in lists(4, |_| vec![(subtitle.clone(), true), (article.clone(), true)]) {
                            for (intro, wrap_up) in [(None, None), (Some("szöveg"), None), (None, Some("szöveg"))] {
                                let b = StructuralBlockAmendment { intro: intro.map(String::from), children: children.clone(), wrap_up: wrap_up.map(String::from) };
                                check_structural(c, &b, some);
                                all(vec![(b.into(), some)]);
                            }
                        }
                    }
                }
            }),
        });
    }
    u.push(Unit {
        label: "semantic information".into(),
        run: Box::new(|c| {
            let reference = OutgoingReference { start: 0, end: 1, reference: Reference::default() };
            for refs in [vec![], vec![reference.clone()], vec![reference.clone(), reference.clone()]] {
                for abbreviations in [&[][..], &["Btk."], &["", "Ptk."]] {
                    for phrase in [false, true] {
                        let s = SemanticInfo {
                            outgoing_references: refs.clone(),
                            new_abbreviations: abbreviations.iter().map(|a| (a.to_string(), ActIdentifier { year: 2012, number: 1 })).collect(),
                            special_phrase: phrase.then(|| vec![].into_iter().collect::<Vec<hun_law::semantic_info::RepealReference>>().into()),
                        };
                        c.case(
                            || format!("{s:?}"),
                            || {
                                c.steps(1);
                                c.validated();
                                let nothing = refs.is_empty() && abbreviations.is_empty() && !phrase;
                                check!(s.is_empty() == nothing, "called empty: {}", s.is_empty());
                                Ok(())
                            },
                        );
                    }
                }
            }
        }),
    });
    u
}

fn check_structural(c: &Ctx, b: &StructuralBlockAmendment, some: bool) {
    c.case(
        || format!("{b:?}"),
        || {
            c.steps(1);
            check!(b.is_empty() != some, "called empty: {}", b.is_empty());
            Ok(())
        },
    );
}
