//! C21-C24: article listings, contents listings, text extraction and plain-text rendering, compared with
//! what a plain walk over the data of the law (its JSON view) gives.
use crate::engine::*;
use crate::grammar::*;
use crate::masks;
use crate::props_xml::*;
use crate::xt::{N, X};
use japanese_law_xml_schema as jl;
use jl::law::{Law, MainProvisionContents};
use jl::paragraph::Paragraph;
use serde_json::{json, Value};

pub fn jv<T: serde::Serialize>(t: &T) -> Value {
    serde_json::to_value(t).unwrap()
}
pub fn read_law(key: &str) -> Result<Law, Fail> {
    jl::parse_xml(key.as_bytes()).map_err(|e| Fail { msg: format!("valid document refused: {e}") })
}
fn arr(v: &Value) -> &[Value] {
    v.as_array().map(|a| a.as_slice()).unwrap_or(&[])
}
fn one(v: &Value) -> (&str, &Value) {
    let (k, v) = v.as_object().unwrap().iter().next().unwrap();
    (k, v)
}

/// Calls `f` on every JSON object below (and including) `v`.
fn objects(v: &Value, f: &mut impl FnMut(&serde_json::Map<String, Value>) -> Result<(), Fail>) -> Result<(), Fail> {
    match v {
        Value::Array(a) => a.iter().try_for_each(|x| objects(x, f)),
        Value::Object(o) => {
            f(o)?;
            o.values().try_for_each(|x| objects(x, f))
        }
        _ => Ok(()),
    }
}
fn from<T: serde::de::DeserializeOwned>(v: &Value) -> Option<T> {
    serde_json::from_value(v.clone()).ok()
}
/// The main and supplementary provisions of the law and of every law, body or provision quoted in it.
fn all_provisions(law: &Law) -> Result<(Vec<jl::law::MainProvision>, Vec<jl::suppl_provision::SupplProvision>), Fail> {
    let (mut m, mut s) = (vec![], vec![]);
    let b = &law.law_body;
    m.push(b.main_provision.clone());
    s.extend(b.suppl_provision.iter().cloned());
    let v = jv(law);
    let mut first = true;
    objects(&v, &mut |o| {
        if let Some(x) = o.get("main_provision").or(o.get("MainProvision")) {
            // the law's own provisions are taken as read, not through JSON
            if o.contains_key("main_provision") && std::mem::take(&mut first) {
                return Ok(());
            }
            m.extend(from::<jl::law::MainProvision>(x));
        }
        match o.get("suppl_provision").or(o.get("SupplProvision")) {
            Some(Value::Array(l)) => s.extend(l.iter().filter_map(from::<jl::suppl_provision::SupplProvision>)),
            Some(x) => s.extend(from::<jl::suppl_provision::SupplProvision>(x)),
            None => {}
        }
        Ok(())
    })?;
    Ok((m, s))
}

/// A model with the states of a document gallery (see `XmlModel`) added to its own, under its own check.
pub struct With<A: Model> {
    own: A,
    gal: XmlModel,
    more: fn() -> Vec<String>,
    what: &'static str,
}
#[derive(Clone)]
pub enum WS<T: Clone> {
    Own(T),
    Gal(S),
    Doc(String),
}
impl<A: Model> Model for With<A> {
    type S = WS<A::S>;
    fn roots(&self, tier: Tier) -> Vec<(WS<A::S>, usize)> {
        let mut v: Vec<_> = self.own.roots(tier).into_iter().map(|(s, d)| (WS::Own(s), d)).collect();
        v.extend(self.gal.roots(tier).into_iter().map(|(s, d)| (WS::Gal(s), d)));
        v.extend((self.more)().into_iter().map(|d| (WS::Doc(d), 0)));
        v
    }
    fn succ(&self, s: &WS<A::S>, out: &mut Vec<WS<A::S>>) {
        match s {
            WS::Own(s) => {
                let mut v = vec![];
                self.own.succ(s, &mut v);
                out.extend(v.into_iter().map(WS::Own))
            }
            WS::Gal(s) => {
                let mut v = vec![];
                self.gal.succ(s, &mut v);
                out.extend(v.into_iter().map(WS::Gal))
            }
            WS::Doc(_) => {}
        }
    }
    fn key(&self, s: &WS<A::S>) -> String {
        match s {
            WS::Own(s) => self.own.key(s),
            WS::Gal(s) => self.gal.key(s),
            WS::Doc(d) => d.clone(),
        }
    }
    fn salt(&self, s: &WS<A::S>) -> u64 {
        match s {
            WS::Own(s) => self.own.salt(s),
            WS::Gal(s) => self.gal.salt(s) ^ 0x5555_0000,
            WS::Doc(_) => 0x7777_0000,
        }
    }
    fn check(&self, key: &str) -> Check {
        self.own.check(&crate::props_xml::doc_text(key))
    }
    fn bounds(&self, tier: Tier) -> String {
        format!("{}; {}; and {}", self.own.bounds(tier), self.what, self.gal.bounds(tier))
    }
}
fn gallery(foci: &[&'static str], light: &[&'static str], depth: (usize, usize)) -> XmlModel {
    let mut all = foci.to_vec();
    all.extend(light);
    XmlModel { foci: all, light: light.to_vec(), depth, rel: 2 }
}
pub fn c21() -> With<Tree> {
    With { own: Tree { toc: false }, gal: gallery(&["MainProvision", "SupplProvision", "Part", "Chapter", "Section", "Subsection", "Division", "Article"], &[], (1, 2)), more: masks::skeletons, what: "two of every container in each of the containers above it, for every sequence of kinds of container the schema allows, each kind of container and the articles with or without a title, with a ruby title, deleted, hidden, a range, empty or without caption, in every combination" }
}
pub fn c22() -> With<Tree> {
    let t = ["PartTitle", "ChapterTitle", "SectionTitle", "SubsectionTitle", "DivisionTitle", "ArticleTitle"];
    let mut f = vec!["MainProvision", "SupplProvision", "Part", "Chapter", "Section", "Subsection", "Division", "Article"];
    f.extend(t);
    With { own: Tree { toc: true }, gal: gallery(&f, &[], (1, 2)), more: masks::skeletons, what: "two of every container in each of the containers above it, for every sequence of kinds of container the schema allows, each kind of container and the articles with or without a title, with a ruby title, deleted, hidden, a range, empty or without caption, in every combination" }
}
pub fn c23() -> With<Extract> {
    let mut f = vec!["Article", "Paragraph", "ParagraphSentence", "Item", "ItemSentence", "Column", "Sentence", "Table", "NewProvision"];
    for k in 0..SUBITEMS.len() {
        f.push(SUBITEMS[k]);
        f.push(el(&format!("Subitem{}Sentence", k + 1)).unwrap().name);
    }
    With { own: Extract, gal: gallery(&f, &[], (1, 2)), more: masks::chains, what: "chains of an item and ten levels of subitems where each level is unnumbered, empty, in columns, a table, untitled, doubled or has a list, for every subset of the 11 levels; two items of two subitems with every combination of three numbers; up to 6 sentences and 14 shapes of columns at 6 levels where each text is one of three, in every combination; up to 4 items with the same or other numbers, titles and texts" }
}
pub fn c24() -> With<Render> {
    With {
        own: Render,
        gal: gallery(
            &["Sentence", "Ruby", "Rt", "Sup", "Sub", "Line", "QuoteStruct", "ArithFormula", "Table", "TableHeaderRow", "TableHeaderColumn", "TableRow", "TableColumn", "Column", "ParagraphNum", "ArticleTitle", "LawTitle", "ItemTitle"],
            &[],
            (1, 2),
        ),
        more: masks::cells,
        what: "every sequence of up to 4 of 5 kinds of sentence in a cell, a column of a cell, an item and a paragraph; every table of up to 2x3 and 3x2 with headers where each cell is empty, an empty sentence or text",
    }
}

// ------------------------------------------------------------------------------------ reference walks
const LEVELS: [&str; 5] = ["Part", "Chapter", "Section", "Subsection", "Division"];
fn title_of(kind: &str, v: &Value) -> String {
    let f = match kind {
        "Part" => "part_title",
        "Chapter" => "chapter_title",
        "Section" => "section_title",
        "Subsection" => "subsection_title",
        "Division" => "division_title",
        _ => "title",
    };
    ref_text(&v[f])
}
/// text of a Text value
pub fn ref_text(v: &Value) -> String {
    let mut s = String::new();
    for c in arr(&v["contents"]) {
        let (k, c) = one(c);
        match k {
            "Text" => s += c.as_str().unwrap(),
            "Ruby" => s += &ref_text(&c["text"]),
            "Sup" | "Sub" => s += c["text"].as_str().unwrap(),
            "Line" => {}
            k => panic!("text element {k}"),
        }
    }
    s
}
fn inline(c: &Value, s: &mut String) -> bool {
    let (k, c) = one(c);
    match k {
        "String" => *s += c.as_str().unwrap(),
        "Ruby" => *s += &ref_text(&c["text"]),
        "Sup" => *s += &format!("^{{{}}}", c["text"].as_str().unwrap()),
        "Sub" => *s += &format!("_{{{}}}", c["text"].as_str().unwrap()),
        "Line" => {}
        _ => return false,
    }
    true
}
/// text of a list of sentence elements; None where the property leaves the result open
fn ref_elements(v: &Value) -> Option<String> {
    let mut s = String::new();
    for c in arr(v) {
        if inline(c, &mut s) {
            continue;
        }
        let (k, c) = one(c);
        assert!(matches!(k, "QuoteStruct" | "ArithFormula"), "sentence element {k}");
        for c in arr(&c["contentes"]["contents"]) {
            if !inline(c, &mut s) {
                return None;
            }
        }
    }
    Some(s)
}
fn ref_sentences(v: &Value, sep: &str) -> Option<String> {
    let l: Option<Vec<String>> = arr(v).iter().map(|s| ref_elements(&s["contents"])).collect();
    Some(l?.join(sep))
}
fn ref_table(v: &Value) -> Option<String> {
    let head: Vec<String> =
        arr(&v["table_header_row"]).iter().map(|r| arr(&r["columns"]).iter().map(ref_text).collect::<Vec<_>>().join(" ")).collect();
    let mut rows = vec![];
    for r in arr(&v["table_row"]) {
        let mut cells = vec![];
        for c in arr(&r["columns"]) {
            let mut s = String::new();
            for x in arr(&c["contents"]) {
                let (k, x) = one(x);
                match k {
                    "String" => s += x.as_str().unwrap(),
                    "Sentence" => s += &ref_elements(&x["contents"])?,
                    "Column" => s += &ref_sentences(&x["sentence"], "")?,
                    _ => return None,
                }
            }
            cells.push(s);
        }
        rows.push(cells.join(" "));
    }
    Some(format!("{}\n{}", head.join("\n"), rows.join("\n")))
}
fn ref_sct(v: &Value) -> Option<String> {
    let (k, v) = one(v);
    match k {
        "Sentence" => ref_sentences(v, ""),
        "Column" => {
            let mut l = vec![];
            for c in arr(v) {
                for s in arr(&c["sentence"]) {
                    l.push(ref_elements(&s["contents"])?)
                }
            }
            Some(l.join(" "))
        }
        "Table" => ref_table(v),
        k => panic!("sentence kind {k}"),
    }
}

// ------------------------------------------------------------------------------------------- C21, C22
#[derive(Clone, Default)]
struct Walk {
    /// (numbers of the containers, article)
    arts: Vec<([Value; 5], Value)>,
    /// (numbers of containers, article number, title)
    toc: Vec<([Value; 5], Value, String)>,
    runs: Vec<Vec<Value>>,
}
fn nulls() -> [Value; 5] {
    [Value::Null, Value::Null, Value::Null, Value::Null, Value::Null]
}
fn walk(kind: &str, v: &Value, at: &[Value; 5], w: &mut Walk) {
    if kind == "Article" {
        w.arts.push((at.clone(), v.clone()));
        w.toc.push((at.clone(), v["num"].clone(), title_of(kind, v)));
        return;
    }
    let i = LEVELS.iter().position(|l| *l == kind).unwrap_or_else(|| panic!("container {kind}"));
    let mut at = at.clone();
    at[i] = v["num"].clone();
    w.toc.push((at.clone(), Value::Null, title_of(kind, v)));
    for c in arr(&v["children"]) {
        if kind == "Division" {
            walk("Article", c, &at, w)
        } else {
            let (k, c) = one(c);
            walk(k, c, &at, w)
        }
    }
}
fn provisions(children: &Value) -> Walk {
    let mut w = Walk { runs: vec![vec![]], ..Default::default() };
    for c in arr(children) {
        let (k, c) = one(c);
        match k {
            "Paragraph" => w.runs.last_mut().unwrap().push(c.clone()),
            "Article" | "Part" | "Chapter" | "Section" => {
                w.runs.push(vec![]);
                walk(k, c, &nulls(), &mut w)
            }
            k if k.starts_with("SupplProvisionAppdx") => {}
            k => panic!("provision {k}"),
        }
    }
    w
}

fn cmp_arts(
    what: &str,
    w: &Walk,
    got: (Vec<jl::utils::WithNumberArticle>, Vec<Vec<Paragraph>>),
    plain: (Vec<jl::article::Article>, Vec<Vec<Paragraph>>),
) -> Result<(), Fail> {
    let (a, p) = got;
    if a.len() != w.arts.len() {
        return fail(format!("{what}: {} articles listed, {} in the provision", a.len(), w.arts.len()));
    }
    for (i, (x, (at, art))) in a.iter().zip(&w.arts).enumerate() {
        if jv(&x.get_article()) != *art {
            return fail(format!("{what}: article {i} of the list is not article {i} of the provision"));
        }
        let g = [x.get_part(), x.get_chapter(), x.get_section(), x.get_subsection(), x.get_division()];
        for (l, (g, want)) in LEVELS.iter().zip(g.iter().zip(at)) {
            if jv(g) != *want {
                return fail(format!("{what}: article {i} listed with {l} {} instead of {want}", jv(g)));
            }
        }
    }
    if jv(&plain.0) != Value::Array(w.arts.iter().map(|a| a.1.clone()).collect()) {
        return fail(format!("{what}: the plain article list differs from the provision's articles"));
    }
    for (n, p) in [("numbered", &p), ("plain", &plain.1)] {
        if jv(p) != jv(&w.runs) {
            return fail(format!(
                "{what}: {n} list groups the paragraphs as {:?} instead of {:?}",
                p.iter().map(|r| r.len()).collect::<Vec<_>>(),
                w.runs.iter().map(|r| r.len()).collect::<Vec<_>>()
            ));
        }
    }
    Ok(())
}
fn check_articles(key: &str) -> Check {
    let (m, s) = all_provisions(&read_law(key)?)?;
    for m in &m {
        cmp_arts(
            "main provision",
            &provisions(&jv(&m.children)),
            jl::utils::with_number_article_list_from_main_provision(m),
            jl::utils::article_list_from_main_provision(m),
        )?;
    }
    for s in &s {
        cmp_arts(
            "supplementary provision",
            &provisions(&jv(&s.children)),
            jl::utils::with_number_article_list_from_suppl_provision(s),
            jl::utils::article_list_from_suppl_provision(s),
        )?;
    }
    ok((m.len() + s.len()) as u64)
}
/// Every listing, extraction and rendering function on everything in the document; what they give is not
/// looked at here.
pub fn exercise(key: &str) {
    let key = &*crate::props_xml::doc_text(key);
    for f in [check_articles, check_toc, check_extract, check_render] {
        let _ = guard(|| f(key).is_ok());
    }
}
fn cmp_toc(what: &str, w: &Walk, got: Vec<jl::utils::Toc>) -> Result<(), Fail> {
    for (i, (g, (at, art, title))) in got.iter().zip(&w.toc).enumerate() {
        let gl = [g.get_part(), g.get_chapter(), g.get_section(), g.get_subsection(), g.get_division(), g.get_article()];
        let mut names = LEVELS.to_vec();
        names.push("Article");
        for (l, (g, want)) in names.iter().zip(gl.iter().zip(at.iter().chain(std::iter::once(art)))) {
            if jv(g) != *want {
                return fail(format!("{what}: entry {i} has {l} {} instead of {want}", jv(g)));
            }
        }
        if g.get_title().as_deref() != Some(title) {
            return fail(format!("{what}: entry {i} has title {:?} instead of {title:?}", g.get_title()));
        }
    }
    if got.len() != w.toc.len() {
        return fail(format!("{what}: {} entries for {} provisions", got.len(), w.toc.len()));
    }
    Ok(())
}
fn check_toc(key: &str) -> Check {
    let (m, s) = all_provisions(&read_law(key)?)?;
    for m in &m {
        cmp_toc("main provision", &provisions(&jv(&m.children)), jl::utils::toc_list_from_main_provision(m))?;
    }
    for s in &s {
        cmp_toc("supplementary provision", &provisions(&jv(&s.children)), jl::utils::toc_list_from_suppl_provision(s))?;
    }
    ok((m.len() + s.len()) as u64)
}

/// Trees of provisions: every node can get another child of every permitted kind at its end (or a copy of
/// its last child), another number, and a title with inline elements.
pub struct Tree {
    pub toc: bool,
}
#[derive(Clone)]
pub struct TrS {
    doc: X,
    focus: Vec<usize>,
    numbers: bool,
    scheme: u8,
}
/// The same tree with other numbers and titles: 1 all the same, 2 counted anew in every provision, 3 two of a
/// kind in a row the same, 4 the same titles, 5 the same numbers.
fn renumber(x: &mut X, scheme: u8, counts: &mut std::collections::HashMap<String, usize>) {
    let mut here = std::collections::HashMap::new();
    for k in x.kids.iter_mut() {
        let N::E(e) = k else { continue };
        if !(e.name == "Article" || e.name == "Paragraph" || CONTAINERS.contains(&e.name.as_str())) {
            continue;
        }
        let all = counts.entry(e.name.clone()).or_insert(0);
        *all += 1;
        let own: &mut usize = here.entry(e.name.clone()).or_insert(0);
        *own += 1;
        let (num, title) = match scheme {
            1 => ("1".into(), Some("同".into())),
            2 => (own.to_string(), Some(format!("{}{own}", e.name))),
            3 => (all.div_ceil(2).to_string(), Some(format!("題{all}"))),
            4 => (all.to_string(), Some("同".into())),
            _ => ("3_2".into(), Some(format!("題{}", all))),
        };
        let num: String = num;
        let title: Option<String> = title;
        e.set_attr("Num", &num);
        for t in e.kids.iter_mut() {
            if let (N::E(t), Some(title)) = (t, &title) {
                if t.name.ends_with("Title") {
                    t.kids = vec![N::T(title.clone())];
                }
            }
        }
        renumber(e, scheme, counts);
    }
}
const CONTAINERS: &[&str] = &["MainProvision", "SupplProvision", "Part", "Chapter", "Section", "Subsection", "Division"];
fn tree_kids(name: &str) -> &'static [&'static str] {
    match name {
        "MainProvision" => &["Part", "Chapter", "Section", "Article", "Paragraph"],
        "SupplProvision" => &["Chapter", "Article", "Paragraph", "SupplProvisionAppdxTable", "SupplProvisionAppdxStyle", "SupplProvisionAppdx"],
        "Part" => &["Article", "Chapter"],
        "Chapter" => &["Article", "Section"],
        "Section" => &["Article", "Subsection", "Division"],
        "Subsection" => &["Article", "Division"],
        "Division" => &["Article"],
        _ => &[],
    }
}
impl Model for Tree {
    type S = TrS;
    fn roots(&self, tier: Tier) -> Vec<(TrS, usize)> {
        let mut v = vec![];
        let (d, dn) = if tier == Tier::Quick { (5, 3) } else { (6, 4) };
        for f in ["MainProvision", "SupplProvision"] {
            let (mut doc, focus) = base_for(&chain(f));
            // an empty MainProvision is not valid XML by the schema, but its first child may be anything
            let x = doc.at_mut(&focus);
            x.kids.retain(|k| !matches!(k, N::E(e) if tree_kids(f).contains(&e.name.as_str())));
            for (numbers, d) in [(false, d), (true, dn)] {
                v.push((TrS { doc: doc.clone(), focus: focus.clone(), numbers, scheme: 0 }, d));
            }
            for scheme in 1..=5 {
                v.push((TrS { doc: doc.clone(), focus: focus.clone(), numbers: false, scheme }, d.min(5)));
            }
        }
        // deep chains, then edits around every level
        for ch in [
            vec!["Law", "LawBody", "MainProvision", "Part", "Chapter", "Section", "Subsection", "Division", "Article"],
            vec!["Law", "LawBody", "SupplProvision", "Chapter", "Section", "Subsection", "Division", "Article"],
            vec!["Law", "LawBody", "MainProvision", "Section", "Division", "Article"],
        ] {
            let (doc, _) = base_for(&ch);
            let focus = base_for(&ch[..3]).1;
            for (numbers, d) in [(false, d - 1), (true, dn - 1)] {
                v.push((TrS { doc: doc.clone(), focus: focus.clone(), numbers, scheme: 0 }, d));
            }
            for scheme in 1..=5 {
                v.push((TrS { doc: doc.clone(), focus: focus.clone(), numbers: false, scheme }, d.min(5) - 2));
            }
        }
        v
    }
    fn succ(&self, s: &TrS, out: &mut Vec<TrS>) {
        let mut put = |doc: X| out.push(TrS { doc, focus: s.focus.clone(), numbers: s.numbers, scheme: s.scheme });
        for p in s.doc.at(&s.focus).all_paths() {
            let mut full = s.focus.clone();
            full.extend(&p);
            let node = s.doc.at(&full);
            // only the provision skeleton
            if (0..p.len()).any(|i| {
                let mut q = s.focus.clone();
                q.extend(&p[..i]);
                !CONTAINERS.contains(&s.doc.at(&q).name.as_str())
            }) {
                continue;
            }
            if CONTAINERS.contains(&node.name.as_str()) {
                let mut n = s.doc.count() + 100;
                for k in tree_kids(&node.name) {
                    let mut d = s.doc.clone();
                    d.at_mut(&full).kids.push(N::E(min(k, &mut n)));
                    put(d);
                }
                if let Some(N::E(e)) = node.kids.last() {
                    if s.numbers && tree_kids(&node.name).contains(&e.name.as_str()) {
                        let mut d = s.doc.clone();
                        d.at_mut(&full).kids.push(N::E(e.clone()));
                        put(d);
                    }
                }
            }
            let is = |n: &str| node.name == n;
            if s.numbers && !p.is_empty() && (is("Article") || is("Paragraph") || CONTAINERS.contains(&node.name.as_str())) {
                for v in ["1", "3_2", "4:6"] {
                    if node.attr("Num") != Some(v) {
                        let mut d = s.doc.clone();
                        d.at_mut(&full).set_attr("Num", v);
                        put(d);
                    }
                }
                for v in ["Delete", "Hide"] {
                    if node.attr(v).is_none() && !is("Paragraph") {
                        let mut d = s.doc.clone();
                        d.at_mut(&full).set_attr(v, "true");
                        put(d);
                    }
                }
                for (i, k) in node.kids.iter().enumerate() {
                    if let N::E(e) = k {
                        if e.name.ends_with("Title") {
                            let mut n = 7;
                            let mix = |names: &[&str], n: &mut usize| names.iter().map(|x| if *x == "T" { N::T("題\u{3000}".into()) } else { N::E(min(x, n)) }).collect::<Vec<_>>();
                            for t in [mix(&["Sup", "T", "Ruby"], &mut n), mix(&["T", "Line", "Sub"], &mut n), vec![]] {
                                let mut d = s.doc.clone();
                                d.at_mut(&full).kids[i] = N::E(X { name: e.name.clone(), attrs: vec![], kids: t });
                                put(d);
                            }
                        }
                        if is("Article") && e.name == "Paragraph" && node.kids.len() < 4 {
                            let mut d = s.doc.clone();
                            d.at_mut(&full).kids.push(N::E(e.clone()));
                            put(d);
                        }
                    }
                }
            }
        }
    }
    fn key(&self, s: &TrS) -> String {
        if s.scheme == 0 {
            return s.doc.to_xml();
        }
        let mut doc = s.doc.clone();
        renumber(doc.at_mut(&s.focus), s.scheme, &mut Default::default());
        doc.to_xml()
    }
    fn salt(&self, s: &TrS) -> u64 {
        s.numbers as u64 + 2 * s.scheme as u64
    }
    fn check(&self, key: &str) -> Check {
        if self.toc {
            check_toc(key)
        } else {
            check_articles(key)
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        let (d, dn) = if tier == Tier::Quick { (5, 3) } else { (6, 4) };
        format!("all trees of provisions with up to {d} appended provisions under an empty main or supplementary provision ({} around chains through every level); up to {dn} steps that append, copy, renumber (plain, branch, range), retitle with inline elements, delete-mark or hide; the same trees (up to 5 provisions, 3 around chains) with all numbers and titles the same, counted anew in every provision, the same twice in a row, only the titles or only the numbers the same", d - 1)
    }
}

// ------------------------------------------------------------------------------------------------ C23
type Entry = (Value, Vec<Value>, Option<String>);
fn ref_items(para: &Value, at: &[Value], list: &Value, out: &mut Vec<Entry>) {
    for i in arr(list) {
        let mut a = at.to_vec();
        a.push(i["num"].clone());
        out.push((para.clone(), a.clone(), ref_sct(&i["sentence"])));
        ref_items(para, &a, &i["children"], out);
    }
}
fn ref_paras(list: &[Value]) -> Vec<Entry> {
    let mut out = vec![];
    for p in list {
        out.push((p["num"].clone(), vec![], ref_sentences(&p["sentence"], "")));
        ref_items(&p["num"], &[], &p["children"], &mut out);
    }
    out
}
fn cmp_entries(what: &str, list: &[Paragraph], joined: &str) -> Result<(), Fail> {
    let want = ref_paras(arr(&jv(&list)));
    let got = jl::utils::text_info_list_from_paragraph(list);
    for (i, ((ix, s), (p, items, t))) in got.iter().zip(&want).enumerate() {
        if jv(&ix.paragraph) != *p || jv(&ix.items) != jv(items) {
            return fail(format!("{what}: entry {i} is addressed {} instead of {}", jv(ix), json!({"paragraph": p, "items": items})));
        }
        if let Some(t) = t {
            if s != t {
                return fail(format!("{what}: entry {i} has text {s:?} instead of {t:?}"));
            }
        }
    }
    if got.len() != want.len() {
        return fail(format!("{what}: {} entries for {} paragraphs, items and subitems", got.len(), want.len()));
    }
    let all: Option<Vec<String>> = want.into_iter().map(|e| e.2).collect();
    if let Some(all) = all {
        if joined != all.join("\n") {
            return fail(format!("{what}: joined text is {joined:?} instead of {:?}", all.join("\n")));
        }
    }
    Ok(())
}
fn check_extract(key: &str) -> Check {
    let law = read_law(key)?;
    let m = &law.law_body.main_provision.children;
    let mut top = vec![];
    let mut n = 0;
    for c in m {
        match c {
            MainProvisionContents::Article(a) => {
                n += 1;
                cmp_entries("article", &a.paragraph, &jl::utils::text_from_article(a))?
            }
            MainProvisionContents::Paragraph(p) => top.push(p.clone()),
            _ => {}
        }
    }
    if !top.is_empty() {
        n += 1;
        cmp_entries("paragraph list", &top, &jl::utils::text_from_paragraph_list(&top))?;
    }
    // and everywhere else
    objects(&jv(&law), &mut |o| {
        if let Some(ps) = o.get("paragraph").filter(|p| p.is_array()) {
            if let Some(a) = from::<jl::article::Article>(&Value::Object(o.clone())) {
                n += 1;
                cmp_entries("article", &a.paragraph, &jl::utils::text_from_article(&a))?
            } else if let Some(ps) = from::<Vec<Paragraph>>(ps) {
                n += 1;
                cmp_entries("paragraph list", &ps, &jl::utils::text_from_paragraph_list(&ps))?
            }
        }
        if o.contains_key("paragraph_num") {
            if let Some(p) = from::<Paragraph>(&Value::Object(o.clone())) {
                n += 1;
                let l = [p];
                cmp_entries("paragraph", &l, &jl::utils::text_from_paragraph_list(&l))?
            }
        }
        Ok(())
    })?;
    ok(n)
}

#[derive(Clone)]
pub struct ExS {
    doc: X,
    focus: Vec<usize>,
    mode: u8,
    same: u8,
}
/// Everything that a minimal element says becomes the same; with 2 all numbers below it as well.
fn alike(x: &mut X, same: u8) {
    for k in x.kids.iter_mut() {
        match k {
            N::T(t) if t.starts_with('〔') => *t = "文".into(),
            N::T(_) => {}
            N::E(e) => {
                if same == 2 && e.attr("Num").is_some_and(|n| !n.is_empty()) {
                    e.set_attr("Num", "1");
                }
                alike(e, same)
            }
            _ => {}
        }
    }
}
pub struct Extract;
fn item_chain(k: usize) -> Vec<&'static str> {
    let mut c = vec!["Law", "LawBody", "MainProvision", "Article", "Paragraph", "Item"];
    c.extend(&SUBITEMS[..k]);
    c
}
impl Model for Extract {
    type S = ExS;
    fn roots(&self, tier: Tier) -> Vec<(ExS, usize)> {
        let q = tier == Tier::Quick;
        let mut v = vec![];
        // mode 0: shape of the tree, from one paragraph
        let (doc, _) = base_for(&item_chain(0)[..5]);
        let focus = base_for(&item_chain(0)[..4]).1;
        v.push((ExS { doc, focus: focus.clone(), mode: 0, same: 0 }, if q { 5 } else { 6 }));
        // mode 0 around a chain down to the deepest level
        let (doc, _) = base_for(&item_chain(10));
        v.push((ExS { doc, focus, mode: 0, same: 0 }, if q { 2 } else { 3 }));
        // mode 1: contents of one level
        for k in 0..=10 {
            let (doc, focus) = base_for(&item_chain(k));
            v.push((ExS { doc, focus, mode: 1, same: 0 }, if q { 2 } else { 3 }));
        }
        let c = ["Law", "LawBody", "MainProvision", "Paragraph", "ParagraphSentence"];
        let (doc, _) = base_for(&c);
        let focus = base_for(&c[..4]).1;
        v.push((ExS { doc: doc.clone(), focus, mode: 1, same: 0 }, if q { 2 } else { 3 }));
        let focus = base_for(&c[..3]).1;
        v.push((ExS { doc, focus, mode: 0, same: 0 }, if q { 4 } else { 5 }));
        for i in 0..v.len() {
            if v[i].0.mode == 0 {
                for same in 1..=2 {
                    v.push((ExS { same, ..v[i].0.clone() }, v[i].1.min(5)));
                }
            }
        }
        v
    }
    fn succ(&self, s: &ExS, out: &mut Vec<ExS>) {
        let mut put = |doc: X| out.push(ExS { doc, focus: s.focus.clone(), mode: s.mode, same: s.same });
        for p in s.doc.at(&s.focus).all_paths() {
            let mut full = s.focus.clone();
            full.extend(&p);
            let node = s.doc.at(&full);
            if s.mode == 1 {
                if p.len() <= 4 {
                    let mut docs = vec![];
                    edits_at(&s.doc, &full, &TEXTS[..1], &mut docs);
                    docs.into_iter().for_each(&mut put);
                }
                continue;
            }
            let mut n = s.doc.count() + 100;
            let kid = match node.name.as_str() {
                "Article" | "MainProvision" => "Paragraph",
                "Paragraph" => "Item",
                "Item" => "Subitem1",
                x => match SUBITEMS.iter().position(|y| *y == x) {
                    Some(i) if i + 1 < SUBITEMS.len() => SUBITEMS[i + 1],
                    Some(_) => "",
                    None => continue,
                },
            };
            if !kid.is_empty() {
                let mut d = s.doc.clone();
                d.at_mut(&full).kids.push(N::E(min(kid, &mut n)));
                put(d);
            }
            if node.attr("Num").is_some() && !["Article", "MainProvision"].contains(&node.name.as_str()) {
                for v in if node.name == "Paragraph" { &["1", "2_3"][..] } else { &["", "1", "2_3"][..] } {
                    if node.attr("Num") != Some(*v) {
                        let mut d = s.doc.clone();
                        d.at_mut(&full).set_attr("Num", v);
                        put(d);
                    }
                }
            }
            let ix = node.kids.iter().position(|k| matches!(k, N::E(e) if e.name.ends_with("Sentence") && e.name.len() > 8));
            if let (Some(i), true) = (ix, node.name.contains("tem")) {
                let N::E(e) = &node.kids[i] else { unreachable!() };
                let mut forms = vec![];
                let mut two = |k: &str| {
                    let mut x = X::new(&e.name);
                    x.kids.push(N::E(min(k, &mut n)));
                    if k != "Table" {
                        x.kids.push(N::E(min(k, &mut n)));
                    }
                    forms.push(x)
                };
                two("Sentence");
                two("Column");
                two("Table");
                for f in forms {
                    let mut d = s.doc.clone();
                    d.at_mut(&full).kids[i] = N::E(f);
                    put(d);
                }
            }
        }
    }
    fn key(&self, s: &ExS) -> String {
        if s.same > 0 {
            let mut doc = s.doc.clone();
            alike(doc.at_mut(&s.focus), s.same);
            return doc.to_xml();
        }
        s.doc.to_xml()
    }
    fn salt(&self, s: &ExS) -> u64 {
        s.same as u64 + s.focus.iter().fold(s.mode as u64, |a, i| a.wrapping_mul(131).wrapping_add(*i as u64 + 1))
    }
    fn check(&self, key: &str) -> Check {
        check_extract(key)
    }
    fn bounds(&self, tier: Tier) -> String {
        let q = tier == Tier::Quick;
        format!("all paragraph trees within {} steps (append a paragraph, item or next-level subitem, renumber or unnumber, change to several sentences, columns or a table) of one paragraph and {} of a chain down to Subitem10; {} schema edits inside each of the 11 levels and the paragraph; the trees also with the same texts, and the same texts and numbers, throughout", if q { 5 } else { 6 }, if q { 2 } else { 3 }, if q { 2 } else { 3 })
    }
}

// ------------------------------------------------------------------------------------------------ C24
fn check_render(key: &str) -> Check {
    let law = read_law(key)?;
    let mut n = 0;
    for c in &law.law_body.main_provision.children {
        let MainProvisionContents::Paragraph(p) = c else { continue };
        n += 1;
        let want = ref_text(&jv(&p.paragraph_num));
        if p.paragraph_num.to_string() != want {
            return fail(format!("text {:?} rendered as {:?} instead of {want:?}", jv(&p.paragraph_num).to_string(), p.paragraph_num.to_string()));
        }
        for s in &p.sentence {
            let got = jl::utils::sentence_element_to_str(&s.contents);
            if let Some(want) = ref_elements(&jv(&s.contents)) {
                n += 1;
                if got != want {
                    return fail(format!("sentence rendered as {got:?} instead of {want:?}"));
                }
            }
        }
        for i in &p.children {
            if let jl::class::SentenceOrColumnOrTable::Table(t) = &i.sentence {
                let got = jl::utils::table_to_str(t);
                if let Some(want) = ref_table(&jv(t)) {
                    n += 1;
                    if got != want {
                        return fail(format!("table rendered as {got:?} instead of {want:?}"));
                    }
                }
            }
        }
    }
    // and everywhere else
    objects(&jv(&law), &mut |o| {
        let v = || Value::Object(o.clone());
        if o.contains_key("table_header_row") {
            if let Some(t) = from::<jl::table::Table>(&v()) {
                n += 1;
                let got = jl::utils::table_to_str(&t);
                if let Some(want) = ref_table(&v()).filter(|w| *w != got) {
                    return fail(format!("table rendered as {got:?} instead of {want:?}"));
                }
            }
        }
        if o.contains_key("contents") && o.contains_key("writing_mode") {
            if let Some(s) = from::<jl::sentence::Sentence>(&v()) {
                n += 1;
                let got = jl::utils::sentence_element_to_str(&s.contents);
                if let Some(want) = ref_elements(&o["contents"]).filter(|w| *w != got) {
                    return fail(format!("sentence rendered as {got:?} instead of {want:?}"));
                }
            } else if let Some(t) = from::<jl::text::TextWithWritingMode>(&v()) {
                n += 1;
                let (got, want) = (t.to_string(), ref_text(&v()));
                if got != want {
                    return fail(format!("text rendered as {got:?} instead of {want:?}"));
                }
            }
        }
        if o.contains_key("contents") && o.len() == 1 {
            if let Some(t) = from::<jl::text::Text>(&v()) {
                n += 1;
                let (got, want) = (t.to_string(), ref_text(&v()));
                if got != want {
                    return fail(format!("text rendered as {got:?} instead of {want:?}"));
                }
            }
        }
        Ok(())
    })?;
    ok(n)
}
#[derive(Clone)]
pub struct ReS {
    doc: X,
    focus: Vec<usize>,
    same: bool,
}
pub struct Render;
const RTEXTS: &[&str] = &["文", " ^{a}_{b}\n"];
impl Model for Render {
    type S = ReS;
    fn roots(&self, tier: Tier) -> Vec<(ReS, usize)> {
        let q = tier == Tier::Quick;
        let mut v = vec![];
        for (ch, d, clear) in [
            (&["ParagraphNum"][..], if q { 5 } else { 6 }, true),
            (&["ParagraphSentence", "Sentence"][..], if q { 4 } else { 5 }, true),
            (&["Item", "ItemSentence", "Table"][..], if q { 4 } else { 6 }, false),
        ] {
            let mut c = vec!["Law", "LawBody", "MainProvision", "Paragraph"];
            c.extend(ch);
            let (mut doc, focus) = base_for(&c);
            if clear {
                doc.at_mut(&focus).kids.clear();
            }
            v.push((ReS { doc: doc.clone(), focus: focus.clone(), same: true }, d.min(5)));
            v.push((ReS { doc, focus, same: false }, d));
        }
        v
    }
    fn succ(&self, s: &ReS, out: &mut Vec<ReS>) {
        let mut put = |doc: X| out.push(ReS { doc, focus: s.focus.clone(), same: s.same });
        for p in s.doc.at(&s.focus).all_paths() {
            let mut full = s.focus.clone();
            full.extend(&p);
            let node = s.doc.at(&full);
            let mut n = s.doc.count() + 100;
            let kids: &[&str] = match node.name.as_str() {
                "ParagraphNum" | "TableHeaderColumn" => INL,
                "Sentence" => SEN,
                "QuoteStruct" | "ArithFormula" => &["Ruby", "Sup", "Sub", "Line"],
                "Line" => &["Sup", "Ruby"],
                "Table" => &["TableHeaderRow", "TableRow"],
                "TableHeaderRow" => &["TableHeaderColumn"],
                "TableRow" => &["TableColumn"],
                "TableColumn" => &["Sentence", "Column"],
                "Column" => &["Sentence"],
                "Ruby" if node.kids.len() == 1 => &["Rt"],
                "Ruby" | "Sup" | "Sub" => &[],
                _ => continue,
            };
            for k in kids {
                let mut d = s.doc.clone();
                let x = d.at_mut(&full);
                let c = N::E(min(k, &mut n));
                if *k == "TableHeaderRow" {
                    x.kids.insert(0, c)
                } else {
                    x.kids.push(c)
                }
                put(d);
            }
            if matches!(node.name.as_str(), "ParagraphNum" | "TableHeaderColumn" | "Sentence" | "QuoteStruct" | "ArithFormula" | "TableColumn" | "Line") {
                for t in RTEXTS {
                    let mut d = s.doc.clone();
                    d.at_mut(&full).kids.push(N::T(t.to_string()));
                    put(d);
                }
            }
            if matches!(node.name.as_str(), "Ruby" | "Sup" | "Sub" | "TableHeaderColumn") && !node.kids.is_empty() {
                let mut d = s.doc.clone();
                let x = d.at_mut(&full);
                if node.name == "Ruby" {
                    if x.kids.len() == 2 {
                        x.kids.pop();
                    }
                } else {
                    x.kids.clear();
                }
                put(d);
            }
        }
    }
    fn key(&self, s: &ReS) -> String {
        if s.same {
            let mut doc = s.doc.clone();
            alike(doc.at_mut(&s.focus), 1);
            return doc.to_xml();
        }
        s.doc.to_xml()
    }
    fn salt(&self, s: &ReS) -> u64 {
        s.same as u64 + s.focus.iter().fold(3u64, |a, i| a.wrapping_mul(131).wrapping_add(*i as u64 + 1))
    }
    fn check(&self, key: &str) -> Check {
        check_render(key)
    }
    fn bounds(&self, tier: Tier) -> String {
        let q = tier == Tier::Quick;
        format!("all inline texts of up to {}, sentences of up to {} and tables of up to {} appended parts (texts, rubies with and without readings, super- and subscripts, lines, quotations and formulas with inline content, rows, cells, sentences and columns in cells), and the same with all parts saying the same", if q { 5 } else { 6 }, if q { 4 } else { 5 }, if q { 4 } else { 6 })
    }
}
