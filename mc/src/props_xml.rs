//! C01-C07: schema-driven exploration of documents.
use crate::engine::*;
use crate::grammar::*;
use crate::refread::*;
use crate::xt::{self, N, X};
use japanese_law_xml_schema as jl;
use std::collections::{BTreeMap, VecDeque};

/// Shortest containment chain Law -> .. -> name.
pub fn chain(name: &str) -> Vec<&'static str> {
    let mut prev: BTreeMap<&str, &'static str> = BTreeMap::new();
    let mut q = VecDeque::from(["Law"]);
    while let Some(n) = q.pop_front() {
        if n == name {
            break;
        }
        for c in child_names(el(n).unwrap()) {
            if c != "Law" && !prev.contains_key(c) {
                prev.insert(c, el(n).unwrap().name);
                q.push_back(c);
            }
        }
    }
    let mut v = vec![];
    let mut cur = el(name).unwrap().name;
    v.push(cur);
    while cur != "Law" {
        cur = prev.get(cur).unwrap_or_else(|| panic!("unreachable {name}"));
        v.push(cur);
    }
    v.reverse();
    v
}

/// Make sure the node at `path` has a child `name` (inserting a minimal one if needed); path of that child.
pub fn ensure_child(doc: &mut X, path: &[usize], name: &str) -> Vec<usize> {
    let find = |x: &X| x.kids.iter().rposition(|k| matches!(k, N::E(e) if e.name == name));
    if find(doc.at(path)).is_none() {
        let mut out = vec![];
        edits_at(doc, path, &[], &mut out);
        *doc = out.into_iter().find(|d| find(d.at(path)).is_some()).unwrap_or_else(|| panic!("cannot insert {name}"));
    }
    let mut p = path.to_vec();
    p.push(find(doc.at(path)).unwrap());
    p
}

pub fn base_for(ch: &[&str]) -> (X, Vec<usize>) {
    let mut n = 0;
    let mut doc = min("Law", &mut n);
    let mut path = vec![];
    for c in &ch[1..] {
        path = ensure_child(&mut doc, &path, c);
    }
    (doc, path)
}

/// One document per grammar element (shortest chain) - the corpus for whole-document properties.
pub fn corpus() -> Vec<(String, X)> {
    let mut v = vec![];
    for n in g().els.keys() {
        v.push((n.to_string(), base_for(&chain(n)).0));
    }
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// single edits with the core values
    Edit,
    /// wide value lists, long texts, many repetitions
    Sweep,
    /// the only content is one element, itself with nothing, one text or one other element in it
    Pieces,
    /// core edits, removals, duplications and swaps on a saturated document
    Trim,
}

#[derive(Clone)]
pub struct S {
    pub doc: X,
    pub focus: Vec<usize>,
    pub mode: Mode,
    /// compact key of a document built when it is checked
    pub huge: Option<String>,
}

const HUGE: [(&[usize], &[usize]); 2] = [(&[3000], &[110_000, 400_000]), (&[3000, 12_000, 40_000], &[110_000, 400_000, 1_500_000])];
/// Compact keys of the huge documents around an element.
pub fn huge_keys(focus: &str, tier: Tier) -> Vec<String> {
    let t = (tier == Tier::Thorough) as usize;
    let (doc, at) = base_for(&chain(focus));
    let (n, _) = huge_at(&doc, &at, HUGE[t].0, HUGE[t].1, None);
    (0..n).map(|i| format!("\u{4}{focus}\u{4}{t}\u{4}{i}")).collect()
}
/// The document a key stands for.
pub fn doc_text(key: &str) -> std::borrow::Cow<'_, str> {
    let Some(r) = key.strip_prefix('\u{4}') else { return key.into() };
    let p: Vec<&str> = r.split('\u{4}').collect();
    let (doc, at) = base_for(&chain(p[0]));
    let t: usize = p[1].parse().unwrap();
    huge_at(&doc, &at, HUGE[t].0, HUGE[t].1, Some(p[2].parse().unwrap())).1.expect("huge document").to_xml().into()
}

/// The element of the document at `path` replaced by a saturated instance of depth `d`.
pub fn saturated(doc: &X, path: &[usize], d: usize, rev: bool, dress: bool) -> X {
    let mut r = doc.clone();
    let mut n = r.count() + 200;
    let m = max(&r.at(path).name.clone(), &mut n, d, rev);
    *r.at_mut(path) = m;
    if dress {
        dress_ancestors(&mut r, path);
    }
    r
}

/// The document with the element at `path` nested in itself `k` times along its shortest cycle.
pub fn nested(doc: &X, path: &[usize], k: usize) -> Option<(X, Vec<usize>)> {
    let cyc = cycle(el(&doc.at(path).name)?.name)?;
    let mut d = doc.clone();
    let mut p = path.to_vec();
    for _ in 0..k {
        for c in &cyc {
            p = ensure_child(&mut d, &p, c);
        }
    }
    Some((d, p))
}

pub struct XmlModel {
    pub foci: Vec<&'static str>,
    /// elements of `foci` explored one transition less deep
    pub light: Vec<&'static str>,
    /// transitions from the canonical context in quick / thorough tier
    pub depth: (usize, usize),
    pub rel: usize,
}

pub const NUM_TEXTS: usize = 6;

pub fn roundtrip_check(key: &str) -> Check {
    let key = &*doc_text(key);
    let doc = xt::read(key).map_err(|e| Fail { msg: format!("harness: {e}") })?;
    let mut want = refread(&doc).map_err(|e| Fail { msg: format!("harness: model refuses its own document: {e}") })?;
    merge_runs(&mut want);
    let law = jl::parse_xml(key.as_bytes()).map_err(|e| Fail { msg: format!("schema-valid document refused: {e}") })?;
    let mut got = serde_json::to_value(&law).unwrap();
    merge_runs(&mut got);
    if let Some(d) = diff(&got, &want) {
        return fail(format!("read law differs from the document at {d} (got vs expected)"));
    }
    let out = jl::to_xml(&law).map_err(|e| Fail { msg: format!("law cannot be written: {e}") })?;
    let x2 = xt::read(&out).map_err(|e| Fail { msg: format!("written XML is not well formed: {e}") })?;
    if let Some(e) = crowded(&x2) {
        return fail(format!("written XML repeats the content of <{e}>"));
    }
    let mut j2 = refread(&x2).map_err(|e| Fail { msg: format!("written XML breaks the schema: {e}") })?;
    merge_runs(&mut j2);
    if let Some(d) = diff(&j2, &want) {
        return fail(format!("written XML differs from the law at {d} (written vs expected)"));
    }
    let law2 = jl::parse_xml(out.as_bytes()).map_err(|e| Fail { msg: format!("written XML refused on re-reading: {e}") })?;
    if law2 != law {
        let a = serde_json::to_value(&law2).unwrap();
        let b = serde_json::to_value(&law).unwrap();
        return fail(format!("re-read law differs at {} (re-read vs original)", diff(&a, &b).unwrap_or_default()));
    }
    if let Some(e) = crowded(&doc) {
        return fail(format!("{e}: sentences after the first are dropped"));
    }
    ok(3)
}

impl Model for XmlModel {
    type S = S;
    fn roots(&self, tier: Tier) -> Vec<(S, usize)> {
        let mut v = vec![];
        let d = if tier == Tier::Quick { self.depth.0 } else { self.depth.1 };
        let quick = tier == Tier::Quick;
        for f in &self.foci {
            let (doc, focus) = base_for(&chain(f));
            let d = if self.light.contains(f) { d - 1 } else { d };
            v.push((S { doc: doc.clone(), focus: focus.clone(), mode: Mode::Edit, huge: None }, d));
            v.push((S { doc: doc.clone(), focus: focus.clone(), mode: Mode::Sweep, huge: None }, 1));
            let light = self.light.contains(f);
            for depth in 1..=3 {
                for rev in [false, true] {
                    let m = saturated(&doc, &focus, depth, rev, depth > 1);
                    let size = m.count();
                    if size > 4000 {
                        continue;
                    }
                    let steps = match (quick, depth) {
                        (true, 3) => 0,
                        (true, 2) if light || size > 400 => 0,
                        (true, _) => 1,
                        (false, _) if size <= 60 => 2,
                        (false, _) => 1,
                    };
                    v.push((S { doc: m.clone(), focus: focus.clone(), mode: Mode::Trim, huge: None }, steps));
                    if depth < 3 && size < 1000 {
                        v.extend(agreeing(&m).into_iter().map(|x| (S { doc: x, focus: focus.clone(), mode: Mode::Trim, huge: None }, 0)));
                    }
                    if depth == 1 && !(quick && light) {
                        v.push((S { doc: m, focus: focus.clone(), mode: Mode::Sweep, huge: None }, 1));
                    }
                }
            }
            for (i, x) in agreeing(&doc).into_iter().enumerate() {
                v.push((S { doc: x, focus: focus.clone(), mode: Mode::Edit, huge: None }, if i >= SAME.len() && i < SAME.len() + 2 && !(quick && light) { 1 } else { 0 }));
            }
            v.extend(subsets(&doc, &focus, if quick { 9 } else { 13 }).into_iter().map(|x| (S { doc: x, focus: focus.clone(), mode: Mode::Pieces, huge: None }, 0)));
            // each value of each attribute together with every other edit of the element itself
            for at in &el(f).unwrap().attrs {
                let vals = attr_values(at);
                for a in if quick { &vals[..vals.len().min(if light { 2 } else { 5 })] } else { &vals[..] } {
                    let mut x = doc.clone();
                    x.at_mut(&focus).set_attr(at.xml, a);
                    v.push((S { doc: x.clone(), focus: focus.clone(), mode: Mode::Pieces, huge: None }, 1));
                    v.push((S { doc: x, focus: focus.clone(), mode: Mode::Edit, huge: None }, if quick && light { 0 } else { 1 }));
                }
            }
            v.push((S { doc: doc.clone(), focus: focus.clone(), mode: Mode::Pieces, huge: None }, 1));
            // rows of equal children
            for c in child_names(el(f).unwrap()) {
                let mut ch = chain(f);
                ch.push(c);
                let (cd, cf) = base_for(&ch);
                v.extend(patterned(&cd, &cf).into_iter().map(|x| (S { doc: x, focus: cf.clone(), mode: Mode::Trim, huge: None }, 0)));
                for k in 2..=4 {
                    for m in series(&cd, &cf, k) {
                        v.extend(agreeing(&m).into_iter().map(|x| (S { doc: x, focus: cf.clone(), mode: Mode::Trim, huge: None }, 0)));
                        v.push((S { doc: m, focus: cf.clone(), mode: Mode::Trim, huge: None }, 0));
                    }
                }
            }
            let tiny = X::new("Huge");
            v.extend(huge_keys(f, tier).into_iter().map(|k| (S { doc: tiny.clone(), focus: vec![], mode: Mode::Edit, huge: Some(k) }, 0)));
            for k in [1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 24, 32] {
                if let Some((nd, np)) = nested(&doc, &focus, k) {
                    let one = if k <= 4 { 1 } else { 0 };
                    v.push((S { doc: nd, focus: np, mode: Mode::Edit, huge: None }, one));
                }
            }
        }
        // every parent context of every focus element
        for (p, e) in &g().els {
            if *p == "Law" {
                continue;
            }
            for c in child_names(e) {
                if self.foci.contains(&c) {
                    let mut ch = chain(p);
                    ch.push(c);
                    let (doc, focus) = base_for(&ch);
                    v.push((S { doc: doc.clone(), focus: focus.clone(), mode: Mode::Edit, huge: None }, if quick { 1 } else { 2 }));
                    v.extend(agreeing(&doc).into_iter().map(|x| (S { doc: x, focus: focus.clone(), mode: Mode::Edit, huge: None }, 0)));
                    for k in if quick { 2..=4 } else { 2..=12 } {
                        for m in series(&doc, &focus, k) {
                            v.extend(agreeing(&m).into_iter().map(|x| (S { doc: x, focus: focus.clone(), mode: Mode::Trim, huge: None }, 0)));
                            v.push((S { doc: m, focus: focus.clone(), mode: Mode::Trim, huge: None }, 0));
                        }
                    }
                    let (dd, df) = dressed(&doc, &focus);
                    v.push((S { doc: dd.clone(), focus: df.clone(), mode: Mode::Trim, huge: None }, if quick { 0 } else { 1 }));
                    v.extend(agreeing(&dd).into_iter().map(|x| (S { doc: x, focus: df.clone(), mode: Mode::Trim, huge: None }, 0)));
                    for rev in [false, true] {
                        let m = saturated(&doc, &focus, 1, rev, true);
                        v.extend(agreeing(&m).into_iter().map(|x| (S { doc: x, focus: focus.clone(), mode: Mode::Trim, huge: None }, 0)));
                        v.push((S { doc: m, focus: focus.clone(), mode: Mode::Trim, huge: None }, if quick { 0 } else { 1 }));
                    }
                    if !quick {
                        v.push((S { doc, focus, mode: Mode::Sweep, huge: None }, 1));
                    }
                }
            }
        }
        v
    }
    fn succ(&self, s: &S, out: &mut Vec<S>) {
        let mut docs = vec![];
        let sub = s.doc.at(&s.focus);
        for p in sub.all_paths() {
            let big = s.mode == Mode::Trim;
            if p.len() > (if big { 2 } else { self.rel }) {
                continue;
            }
            let mut full = s.focus.clone();
            full.extend(&p);
            match s.mode {
                Mode::Sweep => {
                    if p.len() <= 1 {
                        sweep_at(&s.doc, &full, if !p.is_empty() { 0 } else if s.doc.at(&s.focus).count() > 12 || self.light.contains(&s.doc.at(&s.focus).name.as_str()) { 1 } else { 2 }, &mut docs)
                    }
                    continue;
                }
                Mode::Pieces => {
                    if p.is_empty() {
                        pieces_at(&s.doc, &full, &mut docs);
                    }
                    continue;
                }
                Mode::Trim => trims_at(&s.doc, &full, &mut docs),
                Mode::Edit => {}
            }
            let nt = if p.len() <= 1 { NUM_TEXTS } else { 1 };
            edits_at(&s.doc, &full, &TEXTS[..nt], &mut docs);
            let n = s.doc.at(&full);
            if self.foci.contains(&"AmendProvisionSentence") && n.name == "AmendProvisionSentence" && n.kids.len() == 1 {
                let mut k = s.doc.count() + 100;
                let mut d = s.doc.clone();
                d.at_mut(&full).kids.push(N::E(min("Sentence", &mut k)));
                docs.push(d);
            }
        }
        out.extend(docs.into_iter().map(|doc| S { doc, focus: s.focus.clone(), mode: s.mode, huge: None }));
    }
    fn key(&self, s: &S) -> String {
        if let Some(k) = &s.huge {
            return k.clone();
        }
        s.doc.to_xml()
    }
    fn salt(&self, s: &S) -> u64 {
        s.focus.iter().fold(7u64 + s.mode as u64, |a, i| a.wrapping_mul(131).wrapping_add(*i as u64 + 1))
    }
    fn check(&self, key: &str) -> Check {
        roundtrip_check(key)
    }
    fn bounds(&self, tier: Tier) -> String {
        let d = if tier == Tier::Quick { self.depth.0 } else { self.depth.1 };
        format!(
            "all documents within {d} edits (attribute values, child insertion at every permitted place, text variants) of the minimal document around each of {:?}, edits within {} levels below it; plus {} edit(s) in every other parent context; every text of the sweep and every value of each attribute at each of these elements, mixed contents of every two pieces, and of one piece with each value of each attribute; every subset of the attributes and of the optional children of these elements (of more than 9, thorough 13, those of up to 3 and with up to 2 missing), every combination of attribute values (of as many attributes in a row as make 1500); these elements with everything at once (nested 1 to 3 deep, both orders) with every single edit and removal; 1 to 40, 100 and 300 copies of each child, nesting up to 32, documents of several megabytes; documents whose texts and numbers agree with one another, also with every attribute and label but no branches on the way to the element, with rows of equal elements in every parent, and rows of three and four of which some are the very same or stand around another element",
            self.foci, self.rel, if tier == Tier::Quick { 1 } else { 2 }
        )
    }
}

pub fn model(id: &str) -> XmlModel {
    let foci: Vec<&'static str> = match id {
        "C01" => vec!["Law", "LawBody", "LawTitle", "EnactStatement", "LawNum", "Preamble", "MainProvision"],
        "C02" => {
            let mut v = vec![
                "MainProvision", "Part", "Chapter", "Section", "Subsection", "Division", "Article", "ArticleCaption", "Paragraph",
                "ParagraphCaption", "ParagraphSentence", "Class", "ClassSentence", "Item", "ItemSentence",
            ];
            v.extend(SUBITEMS);
            v
        }
        "C03" => {
            let mut v = vec!["Sentence", "Column", "Ruby", "Line", "Sup", "Sub", "QuoteStruct", "ArithFormula"];
            for (n, e) in &g().els {
                if matches!(&e.kind, Kind::Mixed { tag: "Text", .. }) || matches!(e.kind, Kind::TextField) {
                    v.push(n)
                }
            }
            v
        }
        "C04" => vec![
            "TOC", "TOCPart", "TOCChapter", "TOCSection", "TOCSubsection", "TOCDivision", "TOCArticle", "TOCSupplProvision", "TOCLabel",
            "TOCPreambleLabel", "TOCAppdxTableLabel", "ArticleRange",
        ],
        "C05" => vec![
            "SupplProvision", "SupplProvisionLabel", "SupplProvisionAppdxTable", "SupplProvisionAppdxStyle", "SupplProvisionAppdx",
            "AppdxTable", "AppdxNote", "AppdxStyle", "Appdx", "AppdxFig", "AppdxFormat", "RelatedArticleNum", "ArithFormulaNum",
        ],
        "C06" => vec![
            "Table", "TableHeaderRow", "TableRow", "TableColumn", "TableStruct", "FigStruct", "StyleStruct", "NoteStruct", "FormatStruct",
            "Style", "Note", "Format", "Fig", "List", "Sublist1", "Sublist2", "Sublist3", "ListSentence", "Sublist1Sentence",
            "Sublist2Sentence", "Sublist3Sentence", "Remarks", "RemarksLabel",
        ],
        "C07" => vec!["AmendProvision", "NewProvision", "AmendProvisionSentence"],
        _ => unreachable!(),
    };
    let light: Vec<&'static str> = match id {
        "C03" => foci.iter().copied().filter(|f| !["Sentence", "Column", "Ruby", "Line", "Sup", "Sub"].contains(f)).collect(),
        "C06" => vec!["TableColumn", "Style", "Note", "Format"],
        _ => vec![],
    };
    let (depth, rel) = match id {
        "C01" => ((2, 3), 3),
        "C02" => ((2, 3), 3),
        "C03" => ((2, 3), 2),
        "C04" => ((2, 3), 3),
        "C05" => ((2, 3), 3),
        "C06" => ((2, 3), 2),
        _ => ((2, 2), 3),
    };
    XmlModel { foci, light, depth, rel }
}
