//! C08 (equivalent spellings), C09 (schema-breaking documents), C10 (damaged bytes), C11 (sinks and files).
use crate::engine::*;
use crate::grammar::*;
use crate::props_xml::{base_for, chain, corpus, saturated};
use crate::refread::*;
use crate::xt::{self, N, X};
use japanese_law_xml_schema as jl;
use std::io::Write;

/// Every (element, permitted child) pair as a document; the focus is the element.
pub fn pairs() -> Vec<(X, Vec<usize>)> {
    let mut v = vec![];
    for (p, e) in &g().els {
        for c in child_names(e) {
            let mut ch = chain(p);
            ch.push(c);
            let (doc, mut focus) = base_for(&ch);
            focus.pop();
            v.push((doc, focus));
        }
    }
    v
}

/// One saturated document (all attributes, every kind of child) per schema element.
pub fn sat_docs(depth: usize) -> Vec<(X, Vec<usize>)> {
    let mut v = vec![];
    for n in g().els.keys() {
        let (doc, focus) = base_for(&chain(n));
        for rev in [false, true] {
            v.push((saturated(&doc, &focus, depth, rev, true), focus.clone()));
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------- C08
#[derive(Clone)]
pub struct Sp {
    pub doc: X,
    pub focus: Vec<usize>,
    pub rel: usize,
    pub prolog: usize,
}
const PROLOG: &[(&str, &str)] = &[
    ("", ""),
    ("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "\n"),
    ("<?xml version='1.0' encoding='utf-8' standalone='yes'?><!-- a --><?p q?>\n", "<!-- z -->\n<?p q?>\n"),
    ("\u{feff}<?xml version=\"1.0\"?>", ""),
    ("<!-- Law -->", "<!-- /Law -->"),
    ("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\r\n<!DOCTYPE Law>\r\n", "\r\n"),
    ("<!DOCTYPE Law SYSTEM \"law.dtd\">", ""),
    ("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n\u{5}", "\n"),
    ("", "\u{5}"),
    ("\u{6}", "\u{6}"),
    ("<?xml version='1.0'\n\tencoding = 'UTF-8' ?>\n\n\n\t ", " \t\n\n"),
];
/// A comment longer than any buffer stands for the mark in a prolog or epilog.
fn with_comment(key: &str) -> std::borrow::Cow<'_, str> {
    if key.contains(['\u{5}', '\u{6}']) {
        key.replace('\u{5}', &format!("<!--{}-->", "注 <Law> & ".repeat(20_000))).replace('\u{6}', &format!("<!--{}-->", "a".repeat(200_000))).into()
    } else {
        key.into()
    }
}
pub struct Spell;

fn charrefs(t: &str) -> String {
    t.chars().enumerate().map(|(i, c)| if i % 2 == 0 { format!("&#{};", c as u32) } else { format!("&#x{:X};", c as u32) }).collect()
}
fn cdata(t: &str) -> String {
    format!("<![CDATA[{}]]>", t.replace("]]>", "]]]]><![CDATA[>"))
}

fn respell_at(root: &X, path: &[usize], out: &mut Vec<X>) {
    let node = root.at(path);
    let Some(e) = el(&node.name) else { return };
    let mut push = |f: &mut dyn FnMut(&mut X)| {
        let mut r = root.clone();
        f(r.at_mut(path));
        out.push(r);
    };
    let mut raws = vec!["<!-- a<b>c</b>&amp; -->", "<?target data <x/>?>"];
    if matches!(e.kind, Kind::Struct(_) | Kind::List(..) | Kind::Single(_) | Kind::Sct | Kind::Empty) {
        raws.extend(["\n  ", "<!---->\t", "\r\n\t"]);
    }
    for pos in 0..=node.kids.len() {
        for r in &raws {
            push(&mut |x| x.kids.insert(pos, N::Raw(r.to_string())));
        }
    }
    if node.kids.is_empty() {
        push(&mut |x| x.kids.push(N::Raw(String::new())));
    }
    for (i, k) in node.kids.iter().enumerate() {
        if let N::T(t) = k {
            let cs: Vec<char> = t.chars().collect();
            let h = cs.len() / 2;
            let (a, b): (String, String) = (cs[..h].iter().collect(), cs[h..].iter().collect());
            push(&mut |x| x.kids[i] = N::Raw(cdata(t)));
            push(&mut |x| x.kids[i] = N::Raw(charrefs(t)));
            if i == 0 && node.kids.len() == 1 {
                // blanks and line ends, which only references and CDATA sections can spell reliably
                push(&mut |x| x.kids[i] = N::Raw("甲&#13;&#10;&quot;乙&apos;&#xD;&#x3000;&#9;丙&#32;&#x20;&#160;丁".into()));
                push(&mut |x| x.kids[i] = N::Raw("&#x3000;&#32;甲&#10;&#10;<![CDATA[&#13; \t]]>&#10;&#13;&#32;".into()));
            }
            if !a.trim().is_empty() && !b.trim().is_empty() {
                for mid in ["<!-- c -->", "<?p q?>", "<![CDATA[]]>"] {
                    push(&mut |x| {
                        x.kids.splice(i..=i, [N::T(a.clone()), N::Raw(mid.into()), N::T(b.clone())]);
                    });
                }
                push(&mut |x| {
                    x.kids.splice(i..=i, [N::T(a.clone()), N::Raw(cdata(&b))]);
                });
                push(&mut |x| {
                    x.kids.splice(i..=i, [N::Raw(cdata(&a)), N::T(b.clone())]);
                });
            }
        }
    }
    if node.attrs.len() > 1 {
        push(&mut |x| x.attrs.reverse());
        push(&mut |x| x.attrs.rotate_left(1));
    }
    for i in 0..node.attrs.len() {
        if !node.attrs[i].0.starts_with('!') {
            push(&mut |x| {
                let (k, v) = x.attrs[i].clone();
                x.attrs[i] = (format!("!{k}"), charrefs(&v));
            });
        }
    }
}

impl Model for Spell {
    type S = Sp;
    fn roots(&self, tier: Tier) -> Vec<(Sp, usize)> {
        let mut v = vec![];
        for p in 0..PROLOG.len() {
            let (doc, focus) = base_for(&chain("LawTitle"));
            v.push((Sp { doc, focus, rel: 0, prolog: p }, 1));
        }
        for n in g().els.keys() {
            let (doc, focus) = base_for(&chain(n));
            v.push((Sp { doc, focus, rel: if tier == Tier::Quick { 1 } else { 2 }, prolog: 0 }, 2));
        }
        for (doc, focus) in pairs() {
            v.push((Sp { doc, focus, rel: 1, prolog: 0 }, if tier == Tier::Quick { 1 } else { 2 }));
        }
        for (doc, focus) in sat_docs(1) {
            v.push((Sp { doc, focus, rel: 1, prolog: 2 }, 1));
        }
        for (doc, focus) in sat_docs(2) {
            if tier == Tier::Thorough || doc.count() < 150 {
                v.push((Sp { doc, focus, rel: 2, prolog: 1 }, 1));
            }
        }
        v
    }
    fn succ(&self, s: &Sp, out: &mut Vec<Sp>) {
        let mut docs = vec![];
        for p in s.doc.at(&s.focus).all_paths() {
            if p.len() <= s.rel {
                let mut full = s.focus.clone();
                full.extend(&p);
                respell_at(&s.doc, &full, &mut docs);
            }
        }
        out.extend(docs.into_iter().map(|doc| Sp { doc, ..s.clone() }));
    }
    fn key(&self, s: &Sp) -> String {
        format!("{}{}{}", PROLOG[s.prolog].0, s.doc.to_xml(), PROLOG[s.prolog].1)
    }
    fn salt(&self, s: &Sp) -> u64 {
        s.focus.iter().fold(s.rel as u64 + 7, |a, i| a.wrapping_mul(131).wrapping_add(*i as u64 + 1))
    }
    fn check(&self, key: &str) -> Check {
        let key = &*with_comment(key);
        let doc = xt::read(key.trim_start_matches('\u{feff}')).map_err(|e| Fail { msg: format!("harness: {e}") })?;
        let mut want = refread(&doc).map_err(|e| Fail { msg: format!("harness: model refuses its own document: {e}") })?;
        merge_runs(&mut want);
        let law = jl::parse_xml(key.as_bytes()).map_err(|e| Fail { msg: format!("respelled document refused: {e}") })?;
        if read_path(key.as_bytes()).ok().as_ref() != Some(&law) {
            return fail("the respelled document read from a file is another law than read from memory");
        }
        let plain = jl::parse_xml(doc.to_xml().as_bytes()).map_err(|e| Fail { msg: format!("plain document refused: {e}") })?;
        if law != plain {
            return fail("the respelled document is not equal to the plain one");
        }
        let mut got = serde_json::to_value(&law).unwrap();
        let mut gp = serde_json::to_value(&plain).unwrap();
        merge_runs(&mut got);
        merge_runs(&mut gp);
        if let Some(d) = diff(&got, &gp) {
            return fail(format!("respelled document reads differently from the plain one at {d} (got vs plain)"));
        }
        if let Some(d) = diff(&got, &want) {
            return fail(format!("law differs from the document at {d} (got vs expected)"));
        }
        ok(2)
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "every element with each permitted child; {} respellings (comment, PI, whitespace, CDATA, split text, references, attribute order/quotes, empty-element form) at every position in it and its children; 10 prologs/epilogs (declarations, byte order mark, document types, comments of 200 KB)",
            if tier == Tier::Quick { "single (pairs of two for the minimal document of each element)" } else { "up to two" }
        )
    }
}

// ---------------------------------------------------------------------------------------------- C09
#[derive(Clone)]
pub struct Bad {
    pub doc: X,
    pub focus: Vec<usize>,
    pub what: String,
}
pub struct Broken;

fn bad_values(at: &At) -> Vec<&'static str> {
    match at.ty {
        AT::Num => vec!["", "x", "一", "１", "1_", "_1", "1_x", "1__2", "1:", ":1", "1:x", "1:2_", "1:2:3", "-1", "1.5", "1 2", "18446744073709551616"],
        AT::NumE => vec!["x", "一", "1_", "1_x", "1:", "1:x", "1:2:3", "-1", "18446744073709551616"],
        AT::Usize => vec!["", "x", "-1", "1.5", "１", "18446744073709551616"],
        AT::UsizeOpt => vec!["", "x", "-1", "1.5", "18446744073709551616"],
        AT::UsizeE => vec!["x", "-1", "1.5", "18446744073709551616"],
        AT::BoolF | AT::BoolOpt => vec!["", "yes", "TRUE", "2"],
        AT::Enum(..) => vec!["", "zzz", "unknown"],
        AT::StrReq | AT::StrOpt => vec![],
    }
}

fn break_at(s: &Bad, rel: &[usize], out: &mut Vec<Bad>) {
    let mut path = s.focus.clone();
    path.extend(rel);
    let node = s.doc.at(&path);
    let Some(e) = el(&node.name) else { return };
    let mut n = s.doc.count() + 100;
    let mut push = |what: String, f: &mut dyn FnMut(&mut X)| {
        let mut r = s.doc.clone();
        f(r.at_mut(&path));
        out.push(Bad { doc: r, focus: s.focus.clone(), what });
    };
    for at in &e.attrs {
        if attr_required(at) {
            push(format!("{} without {}", e.name, at.xml), &mut |x| x.del_attr(at.xml));
        }
        for v in bad_values(at) {
            push(format!("{} with {}={v:?}", e.name, at.xml), &mut |x| x.set_attr(at.xml, v));
        }
        if let AT::Enum(p, _) = at.ty {
            for (v, _) in p {
                let sw: String = v.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
                push(format!("{} with {}={sw:?}", e.name, at.xml), &mut |x| x.set_attr(at.xml, &sw));
            }
        }
    }
    let ok = child_names(e);
    match &e.kind {
        Kind::Struct(slots) => {
            if let Ok(a) = assign(node, slots) {
                for (j, sl) in slots.iter().enumerate() {
                    if matches!(sl.card, Card::One | Card::Plus) && !a[j].is_empty() {
                        let ix: Vec<usize> = a[j].iter().map(|x| x.0).collect();
                        push(format!("{} without {}", e.name, sl.names.join("|")), &mut |x| {
                            for i in ix.iter().rev() {
                                x.kids.remove(*i);
                            }
                        });
                    }
                }
            }
        }
        Kind::List(..) | Kind::Single(_) | Kind::Sct => push(format!("{} without content", e.name), &mut |x| x.kids.clear()),
        _ => {}
    }
    // repeated although only one is permitted: a second one right after the first, and at the end
    match &e.kind {
        Kind::Struct(slots) => {
            if let Ok(a) = assign(node, slots) {
                for (j, sl) in slots.iter().enumerate() {
                    if matches!(sl.card, Card::One | Card::Opt) && !a[j].is_empty() {
                        let (at, nm) = (a[j][0].0, sl.names[0]);
                        let c = min(nm, &mut n);
                        push(format!("{} with two {nm}", e.name), &mut |x| x.kids.insert(at + 1, N::E(c.clone())));
                        push(format!("{} with two {nm}", e.name), &mut |x| x.kids.push(N::E(c.clone())));
                    }
                }
            }
        }
        Kind::Single(nm) => {
            let c = min(nm, &mut n);
            push(format!("{} with two {nm}", e.name), &mut |x| x.kids.push(N::E(c.clone())));
        }
        Kind::Sct => {
            for nm in ["Sentence", "Column", "Table"] {
                let c = min(nm, &mut n);
                push(format!("{} with another kind of content, {nm}", e.name), &mut |x| x.kids.push(N::E(c.clone())));
                push(format!("{} with another kind of content, {nm}", e.name), &mut |x| x.kids.insert(0, N::E(c.clone())));
            }
        }
        _ => {}
    }
    let mut names: Vec<&str> = g().els.keys().copied().filter(|k| !ok.contains(k)).collect();
    names.push("Unknown");
    let end = node.kids.len();
    for nm in names {
        let c = if nm == "Unknown" { X::new("Unknown") } else { min(nm, &mut n) };
        push(format!("{} with a misplaced {nm}", e.name), &mut |x| x.kids.insert(0, N::E(c.clone())));
        if end > 0 {
            push(format!("{} with a misplaced {nm}", e.name), &mut |x| x.kids.insert(end, N::E(c.clone())));
        }
    }
}

/// An absent label or an absent list of parts reads as an empty one (see the statement of C09).
const EMPTY_WHEN_ABSENT: &[(&str, &str)] = &[
    ("Appdx", "ArithFormula"),
    ("Table", "TableRow"),
    ("Article", "Paragraph"),
    ("Article", "ArticleTitle"),
    ("Column", "Sentence"),
    ("Paragraph", "ParagraphSentence"),
    ("Paragraph", "ParagraphNum"),
    ("TableRow", "TableColumn"),
    ("TableHeaderRow", "TableHeaderColumn"),
    ("Preamble", "Paragraph"),
    ("MainProvision", "Part|Chapter|Section|Article|Paragraph"),
    ("TOCPart", "PartTitle"),
    ("TOCChapter", "ChapterTitle"),
    ("TOCSection", "SectionTitle"),
    ("TOCSubsection", "SubsectionTitle"),
    ("TOCDivision", "DivisionTitle"),
    ("TOCArticle", "ArticleTitle"),
];
fn tolerated(what: &str) -> bool {
    EMPTY_WHEN_ABSENT.iter().any(|(e, c)| what == format!("{e} without {c}"))
}

impl Model for Broken {
    type S = Bad;
    fn roots(&self, tier: Tier) -> Vec<(Bad, usize)> {
        let mut v = vec![];
        for n in g().els.keys() {
            let (doc, focus) = base_for(&chain(n));
            v.push((Bad { doc, focus, what: String::new() }, 1));
        }
        for (doc, focus) in pairs() {
            v.push((Bad { doc, focus, what: String::new() }, 1));
        }
        for (doc, focus) in sat_docs(1) {
            v.push((Bad { doc, focus, what: String::new() }, 1));
        }
        // every child of a saturated element, first to last
        for (doc, focus) in sat_docs(if tier == Tier::Quick { 1 } else { 2 }) {
            for (i, k) in doc.at(&focus).kids.iter().enumerate() {
                if let N::E(_) = k {
                    let mut f = focus.clone();
                    f.push(i);
                    v.push((Bad { doc: doc.clone(), focus: f, what: String::new() }, 1));
                }
            }
        }
        v
    }
    fn succ(&self, s: &Bad, out: &mut Vec<Bad>) {
        break_at(s, &[], out);
    }
    fn key(&self, s: &Bad) -> String {
        format!("{}\u{1}{}", s.what, s.doc.to_xml())
    }
    fn salt(&self, s: &Bad) -> u64 {
        s.focus.iter().fold(7u64, |a, i| a.wrapping_mul(131).wrapping_add(*i as u64 + 1))
    }
    fn check(&self, key: &str) -> Check {
        let (what, doc) = key.split_once('\u{1}').unwrap();
        let r = jl::parse_xml(doc.as_bytes());
        if what.is_empty() {
            return match r {
                Ok(_) => ok(1),
                Err(e) => fail(format!("valid document refused: {e}")),
            };
        }
        if xt::read(doc).ok().map(|x| refread(&x).is_ok()).unwrap_or(false) {
            return ok(0); // still allowed by the schema model
        }
        if r.is_ok() && !tolerated(what) {
            return fail(format!("accepted although the schema forbids it: {what}"));
        }
        ok(1)
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "every element of the schema in its minimal document, with each permitted child, with every attribute and every permitted child at once, and every child of the latter{}: every required attribute removed, every attribute set to each of 3-17 ill-typed values, every required child removed, every element name the schema does not permit there (and an unknown one) inserted first and last",
            if tier == Tier::Thorough { " (children saturated too)" } else { "" }
        )
    }
}

// ---------------------------------------------------------------------------------------------- C10
#[derive(Clone)]
pub enum Dmg {
    Doc(usize),
    Op(usize, String),
}
/// documents and the byte range whose single-byte faults are enumerated (plain spelling; None: all of the
/// plain and of the written spelling)
pub struct Damage {
    pub docs: Vec<(String, Option<(usize, usize)>)>,
}
impl Damage {
    pub fn new() -> Damage {
        let mut docs = vec![];
        for (_, x) in corpus() {
            docs.push((x.to_xml(), None));
        }
        for (x, f) in sat_docs(1) {
            let whole = x.to_xml();
            let part = x.at(&f).to_xml();
            if let (Some(i), true) = (whole.find(&part), f.len() > 0) {
                // in pieces, so that one state stays small
                let mut a = i;
                while a < i + part.len() {
                    let b = (a + 500).min(i + part.len());
                    docs.push((whole.clone(), Some((a, b))));
                    a = b;
                }
            } else {
                docs.push((whole, None));
            }
        }
        Damage { docs }
    }
}
/// Values put in place of every attribute value, text and name.
const TOKENS: &[&str] = &[
    "", "0", "00", "-0", "-1", "+1", "1.", "1e3", "255", "256", "65535", "65536", "2147483648", "4294967296", "9223372036854775808",
    "18446744073709551615", "18446744073709551616", "99999999999999999999999999999999999999", "1_", "_1", "_", "__", "1__2", ":", "::", "1:", ":1", "1:2:3",
    "1_18446744073709551616", "1:18446744073709551616", "1_-1", "_:_", "1_2_3_4_5_6_7_8_9_10_11_12_13", " 1", "1 ", "１", "一", "〇", "二十一", "一千", "千", "十百", "第", "第一条", "第条", "の",
    "true", "TRUE", "yes", "é", "\u{0}", "\u{fffd}", "𠮷", "\u{e0100}", "あ", "ア", "イ", "（", "）", "（）", "（一）", "ｉ", "ⅰ", "削除", "（削除）", "第一章から第三章まで", "から", "まで",
    "平成", "令和九千九百九十九年", "法律第号", "附則", "&amp;", "&#0;", "&#x110000;", "&#99999999999;", "&nosuch;", "&", "&;", "&#;", "]]>", "<![CDATA[", "<!--", "<!DOCTYPE x>", "xmlns", "a:b",
    "Sentence", "Num", "Subitem11", "Law",
];
/// Every variant of the document with one token replaced (escaping left to the token).
fn token_damage(x: &X, path: &mut Vec<usize>, root: &X, f: &mut dyn FnMut(&str, &str) -> Result<(), Fail>) -> Result<(), Fail> {
    let mut put = |g: &mut dyn FnMut(&mut X), what: &str| -> Result<(), Fail> {
        let mut r = root.clone();
        g(r.at_mut(path));
        f(&r.to_xml(), what)
    };
    for i in 0..x.attrs.len() {
        for t in TOKENS {
            put(&mut |n| n.attrs[i] = (format!("!{}", n.attrs[i].0), t.replace('\'', "")), "attribute value")?;
            put(&mut |n| n.attrs[i].1 = t.to_string(), "attribute value")?;
        }
        put(&mut |n| n.attrs[i].0 = "Unknown".into(), "attribute name")?;
        put(&mut |n| n.attrs[i].0 = "!Num".into(), "attribute name")?;
        put(&mut |n| n.attrs[i].0 = format!("x:{}", n.attrs[i].0), "attribute name")?;
        put(
            &mut |n| {
                let a = n.attrs[i].clone();
                n.attrs.push(a)
            },
            "doubled attribute",
        )?;
        put(
            &mut |n| {
                n.attrs.remove(i);
            },
            "lost attribute",
        )?;
    }
    for i in 0..=x.kids.len() {
        for t in TOKENS {
            put(&mut |n| n.kids.insert(i, N::T(t.to_string())), "stray text")?;
            put(&mut |n| n.kids.insert(i, N::Raw(t.to_string())), "stray markup")?;
            if i < x.kids.len() {
                put(&mut |n| n.kids[i] = N::T(t.to_string()), "replaced content")?;
            }
        }
        if i < x.kids.len() {
            put(
                &mut |n| {
                    n.kids.remove(i);
                },
                "lost content",
            )?;
            put(
                &mut |n| {
                    let k = n.kids[i].clone();
                    n.kids.insert(i, k)
                },
                "doubled content",
            )?;
            put(&mut |n| n.kids.truncate(i), "lost tail")?;
            if i > 0 {
                put(&mut |n| n.kids.swap(i - 1, i), "swapped content")?;
            }
            if let N::E(c) = &x.kids[i] {
                // one level of tags lost
                put(
                    &mut |n| {
                        n.kids.splice(i..=i, c.kids.iter().cloned());
                    },
                    "lost tags",
                )?;
                for nm in ["Unknown", "Sentence", "x:Sentence", "Paragraph", "Law", "条"] {
                    put(
                        &mut |n| {
                            if let N::E(c) = &mut n.kids[i] {
                                c.name = nm.into()
                            }
                        },
                        "renamed element",
                    )?;
                }
            }
        }
    }
    for i in 0..x.kids.len() {
        if let N::E(c) = &x.kids[i] {
            path.push(i);
            token_damage(c, path, root, f)?;
            path.pop();
        }
    }
    Ok(())
}
const SUBST: &[u8] = b"<>&\"'/ !?]-;#=x0\x00\x01\x7f\x80\xbf\xc0\xe3\xff\n";

fn written(doc: &str) -> Result<Vec<u8>, Fail> {
    let law = jl::parse_xml(doc.as_bytes()).map_err(|e| Fail { msg: format!("valid document refused: {e}") })?;
    Ok(jl::to_xml(&law).map_err(|e| Fail { msg: format!("law cannot be written: {e}") })?.into_bytes())
}

/// Reads the bytes from a file (one in memory per thread).
pub fn read_path(v: &[u8]) -> Result<jl::law::Law, jl::result::Error> {
    use std::os::fd::{AsRawFd, FromRawFd};
    use std::os::unix::fs::FileExt;
    thread_local! {
        static FILE: std::fs::File = {
            let fd = unsafe { libc::memfd_create(c"law".as_ptr(), 0) };
            assert!(fd >= 0);
            unsafe { std::fs::File::from_raw_fd(fd) }
        };
    }
    FILE.with(|f| {
        f.set_len(v.len() as u64).unwrap();
        f.write_all_at(v, 0).unwrap();
        jl::parse_xml_file(&format!("/proc/self/fd/{}", f.as_raw_fd()))
    })
}
impl Model for Damage {
    type S = Dmg;
    fn roots(&self, t: Tier) -> Vec<(Dmg, usize)> {
        let most = if t == Tier::Quick { 2000 } else { 20000 };
        (0..self.docs.len()).filter(|i| self.docs[*i].0.len() <= most).map(|i| (Dmg::Doc(i), 1)).collect()
    }
    fn succ(&self, s: &Dmg, out: &mut Vec<Dmg>) {
        if let Dmg::Doc(i) = s {
            let first = *i == 0 || self.docs[*i - 1].0 != self.docs[*i].0;
            for op in ["cut", "zero", "hole", "set", "flip", "del", "dup", "swap", "token"] {
                // these go through the whole document anyway
                if first || !["cut", "zero", "token"].contains(&op) {
                    out.push(Dmg::Op(*i, op.into()));
                }
            }
        }
    }
    fn key(&self, s: &Dmg) -> String {
        match s {
            Dmg::Doc(i) | Dmg::Op(i, _) => {
                let op = if let Dmg::Op(_, op) = s { op } else { "whole" };
                match self.docs[*i].1 {
                    Some((a, b)) => format!("{op} {a} {b}\u{1}{}", self.docs[*i].0),
                    None => format!("{op}\u{1}{}", self.docs[*i].0),
                }
            }
        }
    }
    fn check(&self, key: &str) -> Check {
        let (op, doc) = key.split_once('\u{1}').unwrap();
        let mut ops = op.split(' ');
        let op = ops.next().unwrap();
        let range: Vec<usize> = ops.map(|v| v.parse().unwrap()).collect();
        let w = written(doc)?;
        let plain = doc.as_bytes().to_vec();
        let mut n = 0u64;
        if op == "token" {
            let x = xt::read(doc).map_err(|e| Fail { msg: format!("harness: {e}") })?;
            token_damage(&x, &mut vec![], &x, &mut |d, what| {
                n += 1;
                guard(|| jl::parse_xml(d.as_bytes()).is_ok()).map_err(|p| Fail { msg: format!("reading panics ({what}): {p}; document {d}") })?;
                Ok(())
            })?;
            return ok(n);
        }
        let bufs = if range.is_empty() { vec![&w, &plain] } else { vec![&plain] };
        for b in bufs {
            let (lo, hi) = if range.is_empty() { (0, b.len()) } else { (range[0], range[1]) };
            let end = b.windows(6).rposition(|x| x == b"</Law>").unwrap_or(0) + 6;
            let run = |v: &[u8], what: &str| -> Result<bool, Fail> {
                let read = guard(|| jl::parse_xml(v).is_ok()).map_err(|p| Fail { msg: format!("reading panics ({what}): {p}") })?;
                // bytes that are no UTF-8 text cannot be part of the law that was written
                let broken = matches!(std::str::from_utf8(v), Err(e) if e.valid_up_to() < end);
                if broken && read {
                    return fail(format!("bytes that are no UTF-8 are read as a law ({what})"));
                }
                if broken || matches!(op, "whole" | "cut" | "zero") {
                    let file = guard(|| read_path(v).is_ok()).map_err(|p| Fail { msg: format!("reading the file panics ({what}): {p}") })?;
                    if file != read {
                        return fail(format!("as a file {} ({what}), from memory {}", ["refused", "read as a law"][file as usize], ["refused", "read as a law"][read as usize]));
                    }
                }
                Ok(read)
            };
            match op {
                "whole" => {
                    n += 1;
                    if !run(b, "undamaged")? {
                        return fail("undamaged document refused");
                    }
                }
                "cut" => {
                    for k in 0..end {
                        n += 1;
                        if run(&b[..k], &format!("cut to {k} of {} bytes", b.len()))? {
                            return fail(format!("document cut to {k} of {} bytes is read as a law", b.len()));
                        }
                    }
                }
                "zero" => {
                    for k in 0..end {
                        let mut v = b[..k].to_vec();
                        v.resize(b.len(), 0);
                        n += 1;
                        if run(&v, &format!("zeros from byte {k}"))? {
                            return fail(format!("document with zero bytes from {k} is read as a law"));
                        }
                    }
                }
                "set" | "flip" => {
                    let mut v = b.clone();
                    for k in lo..hi {
                        let opts: Vec<u8> = if op == "set" { SUBST.to_vec() } else { (0..8).map(|i| b[k] ^ (1 << i)).collect() };
                        for c in opts {
                            v[k] = c;
                            n += 1;
                            run(&v, &format!("byte {k} set to {c:#x}"))?;
                        }
                        v[k] = b[k];
                    }
                }
                "hole" => {
                    // a lost sector: a block of zeros or of another part of the document, the rest intact
                    for m in [4usize, 16, 64, 512] {
                        for k in (lo..hi).step_by(m.min(4)) {
                            let e = (k + m).min(b.len());
                            let mut v = b.clone();
                            v[k..e].fill(0);
                            n += 1;
                            run(&v, &format!("{m} zero bytes from {k}"))?;
                            v[k..e].copy_from_slice(&b[..e - k]);
                            run(&v, &format!("{m} bytes of the beginning at {k}"))?;
                            let mut v = b.clone();
                            v.drain(k..e);
                            run(&v, &format!("{m} bytes lost at {k}"))?;
                        }
                    }
                }
                _ => {
                    for k in lo..hi {
                        let mut v = b.clone();
                        match op {
                            "del" => {
                                v.remove(k);
                            }
                            "dup" => v.insert(k, b[k]),
                            _ => {
                                if k + 1 < v.len() {
                                    v.swap(k, k + 1)
                                }
                            }
                        }
                        n += 1;
                        run(&v, &format!("{op} at byte {k}"))?;
                    }
                }
            }
        }
        ok(n)
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn bounds(&self, _t: Tier) -> String {
        format!(
            "{} documents (one minimal per schema element, as given and as written by the library, and two per element with every attribute and child, there within the element): every attribute value, text, name, element replaced, lost, doubled, swapped or renamed (85 tokens); blocks of 4-512 bytes zeroed, overwritten and lost; every cut point, every cut point followed by zero bytes, every byte replaced by each of {} values and by its 8 bit flips, every byte deleted, doubled, swapped with the next",
            self.docs.len(),
            SUBST.len()
        )
    }
}

// ---------------------------------------------------------------------------------------------- C11
/// Errors a sink can report, by the digit that stands for them (`Interrupted` asks for a retry and is apart).
const KINDS: &[std::io::ErrorKind] = &[
    std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::TimedOut, std::io::ErrorKind::Other, std::io::ErrorKind::UnexpectedEof, std::io::ErrorKind::ConnectionReset,
    std::io::ErrorKind::PermissionDenied, std::io::ErrorKind::InvalidData, std::io::ErrorKind::WriteZero, std::io::ErrorKind::NotConnected, std::io::ErrorKind::OutOfMemory,
    std::io::ErrorKind::InvalidInput, std::io::ErrorKind::ConnectionAborted, std::io::ErrorKind::AlreadyExists, std::io::ErrorKind::NotFound, std::io::ErrorKind::Unsupported,
    std::io::ErrorKind::FileTooLarge, std::io::ErrorKind::QuotaExceeded, std::io::ErrorKind::ResourceBusy, std::io::ErrorKind::Deadlock, std::io::ErrorKind::StaleNetworkFileHandle,
];
/// Behaviour of the sink per call: F full, 1 one byte, h half, i interrupted, e error, z Ok(0), w would-block,
/// a.. an error of each kind, A.. the same once only.
/// The script is `prefix(rest)`: the calls of the prefix, then `rest` for ever. `@n:c` = everything accepted up to
/// byte n, then c for ever.
struct Sink {
    script: Vec<u8>,
    rest: u8,
    at: Option<usize>,
    calls: usize,
    got: Vec<u8>,
    failed: bool,
    intr: bool,
    /// an error that does not last was reported
    once: bool,
    flush_fails: bool,
}
/// Letters of the error kinds, lasting and not.
fn kind_letters() -> (Vec<char>, Vec<char>) {
    // the letters with a meaning of their own are left out
    let low: Vec<char> = ('a'..='z').filter(|c| !"hiezwf".contains(*c)).take(KINDS.len()).collect();
    let up = low.iter().map(|c| c.to_ascii_uppercase()).collect();
    (low, up)
}
impl Sink {
    fn parse(s: &str) -> Sink {
        let mut k = Sink { script: vec![], rest: b'F', at: None, calls: 0, got: vec![], failed: false, intr: false, once: false, flush_fails: false };
        let s = match s.strip_prefix('!') {
            Some(r) => {
                k.flush_fails = true;
                r
            }
            None => s,
        };
        if let Some(r) = s.strip_prefix('@') {
            let (n, c) = r.split_once(':').unwrap();
            k.at = Some(n.parse().unwrap());
            k.rest = c.as_bytes()[0];
        } else if let Some(r) = s.strip_prefix('#') {
            // #n:c = call number n behaves as c, all others full
            let (n, c) = r.split_once(':').unwrap();
            k.script = vec![b'F'; n.parse().unwrap()];
            k.script.extend(c.bytes());
        } else {
            let (p, r) = s.split_once('(').unwrap();
            k.script = p.bytes().collect();
            k.rest = r.as_bytes()[0];
        }
        k
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.failed {
            // a sink that has failed stays failed
            return Err(std::io::ErrorKind::Other.into());
        }
        let mut c = self.script.get(self.calls).copied().unwrap_or(if self.at.is_some() { b'F' } else { self.rest });
        self.calls += 1;
        let mut room = b.len();
        if let Some(n) = self.at {
            if self.got.len() >= n {
                c = self.rest
            } else {
                room = room.min(n - self.got.len());
            }
        }
        let k = match c {
            b'F' => room,
            b'1' => 1,
            b'h' => b.len().div_ceil(2),
            b'i' => {
                // an interruption is always followed by progress
                if self.intr {
                    self.intr = false;
                    1
                } else {
                    self.intr = true;
                    return Err(std::io::ErrorKind::Interrupted.into());
                }
            }
            b'z' => {
                self.failed = true;
                return Ok(0);
            }
            b'w' => {
                self.failed = true;
                return Err(std::io::ErrorKind::WouldBlock.into());
            }
            b'e' => {
                self.failed = true;
                return Err(std::io::ErrorKind::StorageFull.into());
            }
            c => {
                let (low, _) = kind_letters();
                let i = low.iter().position(|l| *l == c.to_ascii_lowercase() as char).expect("behaviour of a sink");
                if c.is_ascii_lowercase() {
                    self.failed = true
                } else if std::mem::replace(&mut self.once, true) {
                    // the error has passed
                    self.got.extend(&b[..room]);
                    return Ok(room);
                }
                return Err(KINDS[i].into());
            }
        };
        let k = k.min(room);
        self.got.extend(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.flush_fails {
            self.failed = true;
            return Err(std::io::ErrorKind::StorageFull.into());
        }
        Ok(())
    }
}

#[derive(Clone)]
pub enum Wr {
    Doc(usize),
    Op(usize, String),
}
pub struct Sinks {
    pub docs: Vec<String>,
    pub scratch: std::path::PathBuf,
}
impl Sinks {
    pub fn new() -> Sinks {
        let mut docs: Vec<String> = corpus().into_iter().map(|(_, x)| x.to_xml()).collect();
        // one document larger than any internal buffer
        let (mut x, p) = base_for(&chain("Sentence"));
        x.at_mut(&p).kids = vec![N::T("あ&<>\"'".repeat(650))];
        docs.push(x.to_xml());
        x.at_mut(&p).kids = vec![N::T("条項&<>\"'".repeat(12_000))];
        docs.push(x.to_xml());
        Sinks { docs, scratch: std::env::temp_dir() }
    }
}
impl Model for Sinks {
    type S = Wr;
    fn roots(&self, _t: Tier) -> Vec<(Wr, usize)> {
        (0..self.docs.len()).map(|i| (Wr::Doc(i), 1)).collect()
    }
    fn succ(&self, s: &Wr, out: &mut Vec<Wr>) {
        let Wr::Doc(i) = s else { return };
        for c in ["e", "z", "w"] {
            out.push(Wr::Op(*i, format!("bytes {c}")));
            out.push(Wr::Op(*i, format!("calls {c}")));
            out.push(Wr::Op(*i, format!("calls i{c}")));
        }
        let (low, up) = kind_letters();
        for c in low.iter().chain(&up) {
            out.push(Wr::Op(*i, format!("calls {c}")));
        }
        out.push(Wr::Op(*i, "calls i".into()));
        out.push(Wr::Op(*i, "calls 1".into()));
        out.push(Wr::Op(*i, "calls h".into()));
        for a in "F1hiezw".chars() {
            out.push(Wr::Op(*i, format!("prefix {a}")));
        }
        out.push(Wr::Op(*i, "file".into()));
    }
    fn key(&self, s: &Wr) -> String {
        match s {
            Wr::Doc(i) => format!("whole\u{1}{}", self.docs[*i]),
            Wr::Op(i, o) => format!("{o}\u{1}{}", self.docs[*i]),
        }
    }
    fn check(&self, key: &str) -> Check {
        let (op, doc) = key.split_once('\u{1}').unwrap();
        let law = jl::parse_xml(doc.as_bytes()).map_err(|e| Fail { msg: format!("valid document refused: {e}") })?;
        let text = jl::to_xml(&law).map_err(|e| Fail { msg: format!("law cannot be written: {e}") })?;
        let full = text.as_bytes();
        let mut n = 0;
        let mut run = |script: &str| -> Result<(), Fail> {
            let mut s = Sink::parse(script);
            let r = guard(|| jl::write_file(&law, &mut s)).map_err(|p| Fail { msg: format!("writing panics on sink {script}: {p}") })?;
            n += 1;
            if r.is_ok() && s.failed {
                return fail(format!("success reported although the sink failed (sink {script}, {} of {} bytes)", s.got.len(), full.len()));
            }
            if r.is_err() && !s.failed && !s.once {
                return fail(format!("error reported although the sink took everything (sink {script})"));
            }
            if r.is_ok() && s.got != full {
                let l = jl::parse_xml(&s.got);
                if l.as_ref().ok() != Some(&law) {
                    return fail(format!("delivered document differs from the law (sink {script})"));
                }
            }
            Ok(())
        };
        if op == "whole" {
            run("(F")?;
            run("!(F")?;
            run("!(1")?;
        } else if let Some(c) = op.strip_prefix("bytes ") {
            for k in 0..full.len() {
                if full.len() > 100_000 {
                    // around the ends of pages and at the end
                    if !matches!(k % 4096, 0 | 1 | 4095) && k + 64 < full.len() {
                        continue;
                    }
                } else if full.len() > 8000 && k % 97 != 0 {
                    continue;
                }
                run(&format!("@{k}:{c}"))?;
            }
            run(&format!("@{}:F", full.len()))?;
        } else if let Some(c) = op.strip_prefix("calls ") {
            run("(F")?;
            let mut s = Sink::parse("(F");
            jl::write_file(&law, &mut s).ok();
            for k in 0..s.calls {
                if full.len() > 100_000 && k > 64 && k + 64 < s.calls && !(k + 1).is_power_of_two() && !k.is_power_of_two() {
                    continue;
                }
                run(&format!("#{k}:{c}"))?;
            }
        } else if let Some(a) = op.strip_prefix("prefix ") {
            for b in "F1hiezw".chars() {
                for c in "F1hiezw".chars() {
                    for rest in "F1hi".chars() {
                        if full.len() > 8000 && rest != 'F' {
                            continue;
                        }
                        run(&format!("{a}{b}{c}({rest}"))?;
                    }
                }
            }
        } else if op == "file" {
            let dir = self.scratch.join(format!("mc-c11-{}-{:?}", std::process::id(), std::thread::current().id()));
            std::fs::create_dir_all(&dir).unwrap();
            let p = dir.join("law.xml");
            let ps = p.to_str().unwrap();
            let res = (|| {
                for (i, bytes) in [doc.as_bytes().to_vec(), full.to_vec(), full[..full.len() / 2].to_vec(), vec![], b"\xff\xfe<".to_vec()].iter().enumerate() {
                    std::fs::write(&p, bytes).unwrap();
                    let a = jl::parse_xml_file(ps);
                    let b = jl::parse_xml(bytes);
                    n += 1;
                    if a.ok() != b.ok() {
                        return fail(format!("reading the file differs from reading its bytes (case {i})"));
                    }
                }
                // through a real file
                let mut f = std::fs::File::create(&p).unwrap();
                if jl::write_file(&law, &mut f).is_err() {
                    return fail("writing to a file fails");
                }
                drop(f);
                if std::fs::read(&p).unwrap() != full && jl::parse_xml_file(ps).ok().as_ref() != Some(&law) {
                    return fail("file written differs from the law");
                }
                if jl::parse_xml_file(dir.join("missing").to_str().unwrap()).is_ok() {
                    return fail("reading a missing file succeeds");
                }
                if jl::parse_xml_file(dir.to_str().unwrap()).is_ok() {
                    return fail("reading a directory succeeds");
                }
                Ok(())
            })();
            let _ = std::fs::remove_dir_all(&dir);
            res?;
        } else {
            unreachable!()
        }
        ok(n)
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn bounds(&self, _t: Tier) -> String {
        format!(
            "{} documents; sink failing (error, zero-length write, would-block) after every byte and at every write call; 20 kinds of error, lasting and passing, at every write call; a failing flush; interruption, one-byte and half writes at every call; all 7^3 behaviours of the first three calls times 4 behaviours afterwards; files: intact, torn, empty, garbage, missing, directory",
            self.docs.len()
        )
    }
}

// ---------------------------------------------------------------------------------------------- C31
fn attr_of(e: &str, a: &str) -> Option<AT> {
    el(e)?.attrs.iter().find(|x| x.xml == a).map(|x| x.ty)
}
/// The documents of C09; the error has to say where the document is wrong.
pub struct Named;
impl Model for Named {
    type S = Bad;
    fn roots(&self, tier: Tier) -> Vec<(Bad, usize)> {
        Broken.roots(tier)
    }
    fn succ(&self, s: &Bad, out: &mut Vec<Bad>) {
        break_at(s, &[], out);
    }
    fn key(&self, s: &Bad) -> String {
        Broken.key(s)
    }
    fn salt(&self, s: &Bad) -> u64 {
        Broken.salt(s)
    }
    fn check(&self, key: &str) -> Check {
        let (what, doc) = key.split_once('\u{1}').unwrap();
        if what.is_empty() {
            // cut short anywhere, the document is not XML
            let mut n = 0;
            for i in (0..doc.len()).step_by((doc.len() / 40).max(1)) {
                match jl::parse_xml(&doc.as_bytes()[..i]) {
                    Err(jl::result::Error::XMLParsing) => n += 1,
                    Err(e) => return fail(format!("the error for a document cut after {i} bytes does not say that it is not XML: {e}")),
                    Ok(_) => return fail(format!("a document cut after {i} bytes is accepted")),
                }
            }
            return match jl::parse_xml_file("/nonexistent/law.xml") {
                Err(jl::result::Error::Io) => ok(n + 1),
                r => fail(format!("a missing file is reported as {:?}", r.err().map(|e| e.to_string()))),
            };
        }
        let Err(e) = jl::parse_xml(doc.as_bytes()) else { return ok(0) };
        let said = e.to_string();
        let has = |n: &str| said.split(|c: char| !c.is_ascii_alphanumeric()).any(|w| w == n);
        let (el, rest) = what.split_once(' ').unwrap_or((what, ""));
        let good = if let Some(n) = rest.strip_prefix("with a misplaced ").or(rest.strip_prefix("with two ")) {
            has(n)
        } else if rest.starts_with("with another kind of content, ") {
            // which of the two kinds is the wrong one is open
            ["Sentence", "Column", "Table"].iter().any(|n| has(n))
        } else if let Some((a, _)) = rest.strip_prefix("with ").and_then(|r| r.split_once('=')) {
            // an ill-formed number may be reported as such
            has(el) && has(a) || (said.contains("parsing error") && !matches!(attr_of(el, a), Some(AT::Enum(..))))
        } else if let Some(a) = rest.strip_prefix("without ") {
            // what is said when an element is missing is left open
            attr_of(el, a).is_none() || has(el) && has(a)
        } else {
            true
        };
        if !good {
            return fail(format!("the error for {what} does not say so: {said:?}"));
        }
        ok(1)
    }
    fn bounds(&self, tier: Tier) -> String {
        format!("the faulty documents of C09: {}", Broken.bounds(tier))
    }
}
