//! C28 (texts built piece by piece), C29 (addresses and numbers of provisions), C30 (equality of laws).
use crate::engine::*;
use crate::grammar::*;
use crate::props_doc::{pairs, sat_docs};
use crate::props_util::{self, jv};
use crate::props_xml::{base_for, chain, Mode};
use crate::refread::{diff, merge_runs};
use crate::xt::X;
use japanese_law_xml_schema as jl;
use jl::article_number::{parse_article_number, ArticleNumber, ItemNumber, ItemPattern};
use jl::line::{Line, LineContents, LineStyle};
use jl::text::{Ruby, Sub, Sup, Text, TextElement, WritingMode};
use jl::utils::{Toc, WithNumberArticle};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

// ------------------------------------------------------------------------------------------------ C28
pub struct Pieces;
#[derive(Clone)]
pub struct PiS(Vec<(&'static str, usize)>);

/// the operations a text is built with; `new` may only come first
const OPS: [&str; 24] = [
    "str:あ", "str:", "str: ", "str:第二\u{3000}条", "ruby:漢", "ruby2:", "line:甲", "line:", "sup:2", "sup:", "sub:ｎ", "sub:", "text:", "text:あ+ruby",
    "text:+line+sup", "text:い+う+sub", "line:乙", "ruby:字", "sup:上", "sub:下", "text:line+line", "text:ruby+ruby", "text:sup+sup+sub+sub",
    "text:い+い+",
];
const SMALL: [&str; 7] = ["str:あ", "str:い", "ruby:漢", "line:甲", "sup:2", "sub:ｎ", "text:い+う+sub"];
const NEW: [&str; 5] = ["value:", "value:法律", "value#12", "value: ", "children"];

fn ruby(s: &str) -> Ruby {
    Ruby { text: Text { contents: vec![TextElement::Text(s.into())] }, ruby: format!("{s}ルビ") }
}
fn ruby2() -> Ruby {
    Ruby {
        text: Text { contents: vec![TextElement::Text("甲".into()), TextElement::Text("乙丙".into())] },
        ruby: "かん".into(),
    }
}
fn line(s: &str) -> Line {
    let mut contents = vec![];
    if !s.is_empty() {
        contents.push(LineContents::String(s.into()));
        contents.push(LineContents::Sub(Sub { text: "四".into() }));
    }
    Line { contents, style: if s.is_empty() { LineStyle::Double } else { LineStyle::Dotted } }
}
fn part(p: &str) -> TextElement {
    match p {
        "ruby" => TextElement::Ruby(ruby("字")),
        "line" => TextElement::Line(line("乙")),
        "sup" => TextElement::Sup(Sup { text: "上".into() }),
        "sub" => TextElement::Sub(Sub { text: "下".into() }),
        s => TextElement::Text(s.into()),
    }
}
/// one operation on the real text and on the list of pieces that models it
fn apply(op: &str, t: &mut Text, m: &mut Vec<TextElement>) -> Result<(), Fail> {
    let (k, a) = op.split_once([':', '#']).unwrap_or((op, ""));
    match k {
        "value" => {
            *t = if op.contains('#') { Text::from_value(12usize) } else { Text::from_value(a) };
            *m = vec![TextElement::Text(a.to_string())];
        }
        "children" => {
            let all = Text { contents: vec![part("a"), part("ruby"), part("line"), part("sup"), part("sub"), part("b")] };
            *t = Text::from_children(&all.to_children());
            *m = all.contents;
        }
        "str" => {
            t.add_string(a);
            m.push(TextElement::Text(a.into()));
        }
        "ruby" => {
            t.add_ruby(ruby(a));
            m.push(TextElement::Ruby(ruby(a)));
        }
        "ruby2" => {
            t.add_ruby(ruby2());
            m.push(TextElement::Ruby(ruby2()));
        }
        "line" => {
            t.add_line(line(a));
            m.push(TextElement::Line(line(a)));
        }
        "sup" => {
            t.add_sup(Sup { text: a.into() });
            m.push(TextElement::Sup(Sup { text: a.into() }));
        }
        "sub" => {
            t.add_sub(Sub { text: a.into() });
            m.push(TextElement::Sub(Sub { text: a.into() }));
        }
        "text" => {
            let c: Vec<TextElement> = if a.is_empty() { vec![] } else { a.split('+').map(part).collect() };
            t.add_text(Text { contents: c.clone() });
            m.extend(c);
        }
        _ => return fail(format!("harness: operation {op}")),
    }
    Ok(())
}
fn runs(c: &[TextElement]) -> Value {
    let mut v = jv(&c);
    merge_runs(&mut v);
    v
}
fn shown(c: &[TextElement]) -> String {
    c.iter()
        .map(|e| match e {
            TextElement::Ruby(r) => shown(&r.text.contents),
            TextElement::Line(_) => String::new(),
            TextElement::Sup(s) => s.text.clone(),
            TextElement::Sub(s) => s.text.clone(),
            TextElement::Text(s) => s.clone(),
        })
        .collect()
}
fn check_pieces(key: &str) -> Check {
    let mut t = Text::from_value("");
    let mut m = vec![];
    let mut n = 0;
    if !t.contents.is_empty() && !shown(&t.contents).is_empty() {
        return fail("a text made of nothing is not empty");
    }
    for op in key.split('\n').filter(|o| !o.is_empty()) {
        let (op, times) = match op.rsplit_once('*') {
            Some((o, k)) if k.parse::<usize>().is_ok() => (o, k.parse().unwrap()),
            _ => (op, 1),
        };
        for _ in 0..times {
            apply(op, &mut t, &mut m)?;
        }
        n += 1;
    }
    let want = runs(&m);
    let got = runs(&t.contents);
    if let Some(d) = diff(&got, &want) {
        return fail(format!("the text does not hold the pieces added: {d} (got vs expected)"));
    }
    if t.to_string() != shown(&m) {
        return fail(format!("the text reads {:?}, its pieces {:?}", t.to_string(), shown(&m)));
    }
    let back = Text::from_children(&t.to_children());
    if let Some(d) = diff(&runs(&back.contents), &want) {
        return fail(format!("the text differs after being turned into nodes and back: {d} (got vs expected)"));
    }
    for w in [WritingMode::Vertical, WritingMode::Horizontal] {
        let x = t.with_writing_mode(w.clone());
        if x.writing_mode != w {
            return fail("the writing mode is not the one given");
        }
        if let Some(d) = diff(&runs(&x.contents), &want) {
            return fail(format!("the text differs once it has a writing mode: {d} (got vs expected)"));
        }
        if x.to_string() != shown(&m) {
            return fail(format!("with a writing mode the text reads {:?}, its pieces {:?}", x.to_string(), shown(&m)));
        }
    }
    // as the title and a heading of a law that is written and read
    let mut law = props_util::read_law(DOC)?;
    let title = law.law_body.law_title.as_mut().ok_or(Fail { msg: "harness: no title".into() })?;
    title.text = t.clone();
    let xml = jl::to_xml(&law).map_err(|e| Fail { msg: format!("a law with the text as title cannot be written: {e}") })?;
    let law2 = jl::parse_xml(xml.as_bytes()).map_err(|e| Fail { msg: format!("a law with the text as title is refused when read: {e}") })?;
    let c = law2.law_body.law_title.map(|l| l.text.contents).unwrap_or_default();
    if let Some(d) = diff(&runs(&c), &want) {
        return fail(format!("as the title of a law the text changes when written and read: {d} (got vs expected)"));
    }
    ok(n + 6)
}
const DOC: &str = "<?xml version=\"1.0\" encoding=\"UTF-8\"?><Law Era=\"Reiwa\" Year=\"1\" Num=\"1\" LawType=\"Act\" Lang=\"ja\"><LawNum>n</LawNum><LawBody><LawTitle>t</LawTitle><MainProvision><Paragraph Num=\"1\"><ParagraphNum/><ParagraphSentence><Sentence>s</Sentence></ParagraphSentence></Paragraph></MainProvision></LawBody></Law>";

impl Model for Pieces {
    type S = PiS;
    fn roots(&self, tier: Tier) -> Vec<(PiS, usize)> {
        let d = if tier == Tier::Quick { 3 } else { 4 };
        let mut v = vec![(PiS(vec![]), d)];
        for n in NEW {
            v.push((PiS(vec![(n, 1)]), d - 1));
        }
        // deeper over fewer operations
        let k = if tier == Tier::Quick { 5 } else { 6 };
        let mut seqs: Vec<Vec<(&'static str, usize)>> = vec![vec![]];
        for _ in 0..k {
            seqs = seqs.into_iter().flat_map(|s| SMALL.iter().map(move |o| { let mut s = s.clone(); s.push((*o, 1)); s })).collect();
        }
        v.extend(seqs.into_iter().map(|s| (PiS(s), 0)));
        // many pieces
        for o in OPS {
            for n in [2, 3, 4, 5, 8, 9, 10, 16, 17, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 500, 1000, 2000] {
                v.push((PiS(vec![(o, n)]), 1));
            }
        }
        v
    }
    fn succ(&self, s: &PiS, out: &mut Vec<PiS>) {
        for o in OPS {
            let mut x = s.0.clone();
            x.push((o, 1));
            out.push(PiS(x));
        }
    }
    fn key(&self, s: &PiS) -> String {
        s.0.iter().map(|(o, n)| if *n == 1 { format!("{o}\n") } else { format!("{o}*{n}\n") }).collect()
    }
    fn check(&self, key: &str) -> Check {
        check_pieces(key)
    }
    fn bounds(&self, tier: Tier) -> String {
        let (a, b) = if tier == Tier::Quick { (3, 5) } else { (4, 6) };
        format!("all sequences of up to {a} of {} building operations, from each of {} first values; all sequences of {b} of {} operations; each operation up to 2000 times and followed by each other one; the real text is compared with the list of pieces after each sequence, directly, as a string, through nodes, with a writing mode and as the title of a law that is written and read", OPS.len(), NEW.len() + 1, SMALL.len())
    }
}

// ------------------------------------------------------------------------------------------------ C29
pub struct Address;
#[derive(Clone)]
pub enum AdS {
    /// writes to the fields of an address: (field, value)
    Sets(&'static str, Vec<(usize, usize)>),
    /// one number, shown by each kind of provision
    Num(usize, Vec<usize>, Vec<usize>),
    Att(&'static str, String),
}
fn value(i: usize) -> Option<ArticleNumber> {
    match i {
        0 => None,
        1 => Some(ArticleNumber { base_number: 1, eda_numbers: vec![], range_end_numbers: vec![] }),
        2 => Some(ArticleNumber { base_number: 3, eda_numbers: vec![2, 4], range_end_numbers: vec![] }),
        3 => Some(ArticleNumber { base_number: 5, eda_numbers: vec![], range_end_numbers: vec![7, 2] }),
        _ => Some(ArticleNumber { base_number: 0, eda_numbers: vec![], range_end_numbers: vec![] }),
    }
}
const VALUES: usize = 5;
const TITLES: [Option<&str>; VALUES] = [None, Some("第一章\u{3000}総則"), Some("附則"), Some(""), Some("目次")];
fn articles() -> &'static [jl::article::Article] {
    static A: std::sync::OnceLock<Vec<jl::article::Article>> = std::sync::OnceLock::new();
    A.get_or_init(|| {
        (0..VALUES)
            .map(|i| {
                let (doc, at) = base_for(&["Law", "LawBody", "MainProvision", "Article"]);
                let mut d = doc.clone();
                if i > 0 {
                    let mut n = 50 * i;
                    *d.at_mut(&at) = max("Article", &mut n, i.min(2), i % 2 == 0);
                }
                if let Some(a) = d.at_mut(&at).attrs.iter_mut().find(|a| a.0 == "Num") {
                    a.1 = ["1", "2_3", "4:6", "10", "9999"][i].into();
                }
                let law = jl::parse_xml(d.to_xml().as_bytes()).unwrap_or_else(|e| panic!("{e}"));
                law.law_body
                    .main_provision
                    .children
                    .into_iter()
                    .find_map(|c| if let jl::law::MainProvisionContents::Article(a) = c { Some(a) } else { None })
                    .expect("harness: no article")
            })
            .collect()
    })
}
fn check_with_number(ops: &[(usize, usize)]) -> Check {
    let arts = articles();
    let mut x = WithNumberArticle::new(arts[0].clone());
    let mut m: [usize; 5] = [0; 5];
    let mut art = 0;
    let look = |x: &WithNumberArticle, m: &[usize; 5], art: usize, at: usize| -> Result<(), Fail> {
        let got = [x.get_part(), x.get_chapter(), x.get_section(), x.get_subsection(), x.get_division()];
        for f in 0..5 {
            if got[f] != value(m[f]) {
                return fail(format!("after {at} settings the {} is {:?}, set was {:?}", NAMES[f], got[f], value(m[f])));
            }
        }
        if jv(&x.get_article()) != jv(&arts[art]) {
            return fail(format!("after {at} settings the article is not the one set"));
        }
        Ok(())
    };
    look(&x, &m, art, 0)?;
    for (i, &(f, v)) in ops.iter().enumerate() {
        match f {
            0 => x.set_part(value(v)),
            1 => x.set_chapter(value(v)),
            2 => x.set_section(value(v)),
            3 => x.set_subsection(value(v)),
            4 => x.set_division(value(v)),
            _ => x.set_articl(arts[v].clone()),
        }
        if f < 5 {
            m[f] = v
        } else {
            art = v
        }
        look(&x, &m, art, i + 1)?;
    }
    // an address with the same fields is the same address, another one is not
    let mut y = WithNumberArticle::new(arts[art].clone());
    y.set_division(value(m[4]));
    y.set_subsection(value(m[3]));
    y.set_section(value(m[2]));
    y.set_chapter(value(m[1]));
    y.set_part(value(m[0]));
    same(&x, &y, true)?;
    same(&x, &x.clone(), true)?;
    for f in 0..5 {
        let mut z = y.clone();
        let other = value((m[f] + 1) % VALUES);
        match f {
            0 => z.set_part(other),
            1 => z.set_chapter(other),
            2 => z.set_section(other),
            3 => z.set_subsection(other),
            _ => z.set_division(other),
        }
        same(&x, &z, false)?;
    }
    let mut z = y.clone();
    z.set_articl(arts[(art + 1) % VALUES].clone());
    same(&x, &z, false)?;
    ok(ops.len() as u64 + 9)
}
const NAMES: [&str; 7] = ["part", "chapter", "section", "subsection", "division", "article", "title"];
fn check_toc(ops: &[(usize, usize)]) -> Check {
    let mut x = Toc::default();
    let mut m: [usize; 7] = [0; 7];
    let set = |x: &mut Toc, f: usize, v: usize| match f {
        0 => x.set_part(value(v)),
        1 => x.set_chapter(value(v)),
        2 => x.set_section(value(v)),
        3 => x.set_subsection(value(v)),
        4 => x.set_division(value(v)),
        5 => x.set_article(value(v)),
        _ => x.set_title(TITLES[v].map(str::to_string)),
    };
    let look = |x: &Toc, m: &[usize; 7], at: usize| -> Result<(), Fail> {
        let got = [x.get_part(), x.get_chapter(), x.get_section(), x.get_subsection(), x.get_division(), x.get_article()];
        for f in 0..6 {
            if got[f] != value(m[f]) {
                return fail(format!("after {at} settings the {} of the entry is {:?}, set was {:?}", NAMES[f], got[f], value(m[f])));
            }
        }
        if x.get_title().as_deref() != TITLES[m[6]] {
            return fail(format!("after {at} settings the title of the entry is {:?}, set was {:?}", x.get_title(), TITLES[m[6]]));
        }
        Ok(())
    };
    look(&x, &m, 0)?;
    for (i, &(f, v)) in ops.iter().enumerate() {
        set(&mut x, f, v);
        m[f] = v;
        look(&x, &m, i + 1)?;
    }
    let mut y = Toc::default();
    for f in (0..7).rev() {
        set(&mut y, f, m[f]);
    }
    same(&x, &y, true)?;
    same(&x, &x.clone(), true)?;
    for f in 0..7 {
        let mut z = y.clone();
        set(&mut z, f, (m[f] + 1) % VALUES);
        same(&x, &z, false)?;
    }
    ok(ops.len() as u64 + 9)
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn same<T: Eq + Hash>(a: &T, b: &T, want: bool) -> Result<(), Fail> {
    if (a == b) != want || (b == a) != want || (a != b) == want {
        return fail(if want { "equal values compare as different" } else { "different values compare as equal" });
    }
    if want && hash(a) != hash(b) {
        return fail("equal values have different hashes");
    }
    Ok(())
}
fn check_shown(n: &ArticleNumber) -> Check {
    let (Some(head), true) = (heads().first(), heads().len() == 6) else { return fail("harness: headings") };
    let _ = head;
    let want: [(&str, String); 6] = [
        ("Part", n.part_text()),
        ("Chapter", n.chapter_text()),
        ("Section", n.section_text()),
        ("Subsection", n.subsection_text()),
        ("Division", n.division_text()),
        ("Article", n.article_text()),
    ];
    let [Head::Part(p), Head::Chapter(c), Head::Section(s), Head::Subsection(u), Head::Division(d), Head::Article(a)] = &heads()[..] else {
        return fail("harness: headings");
    };
    let mut p = p.clone();
    p.num = n.clone();
    let mut c = c.clone();
    c.num = n.clone();
    let mut s = s.clone();
    s.num = n.clone();
    let mut u = u.clone();
    u.num = n.clone();
    let mut d = d.clone();
    d.num = n.clone();
    let mut a = a.clone();
    a.num = n.clone();
    let got = [p.number_text(), c.number_text(), s.number_text(), u.number_text(), d.number_text(), a.number_text()];
    for (i, g) in got.iter().enumerate() {
        let (name, w) = &want[i];
        let unit = ["編", "章", "節", "款", "目", "条"][i];
        if g != w {
            return fail(format!("{name} shows its number as {g:?}, the number's text is {w:?}"));
        }
        if !g.starts_with('第') || !g.contains(unit) || ["編", "章", "節", "款", "目", "条"].iter().any(|x| *x != unit && g.contains(x)) {
            return fail(format!("{name} shows its number as {g:?}"));
        }
        if n.base_number > 0 && parse_article_number(g).as_ref() != Some(n) {
            return fail(format!("{name} shows its number as {g:?}, which reads as {:?}", parse_article_number(g)));
        }
    }
    let i = ItemNumber {
        str: "（甲）".into(),
        base_number: n.base_number,
        eda_numbers: n.eda_numbers.clone(),
        range_end_numbers: n.range_end_numbers.clone(),
        pattern: ItemPattern::ParenKansuji,
    };
    if &ArticleNumber::from_item_number(&i) != n {
        return fail(format!("the number of an item becomes {:?}", ArticleNumber::from_item_number(&i)));
    }
    let text = n.num_str();
    match text.parse::<ArticleNumber>() {
        Ok(x) if &x == n => {}
        r => return fail(format!("{text:?} parses as {r:?}")),
    }
    if n.is_zero() != (n.base_number == 0) {
        return fail(format!("{n:?} is_zero: {}", n.is_zero()));
    }
    let z = ArticleNumber::zero();
    if !z.is_zero() || z.base_number != 0 || !z.eda_numbers.is_empty() || !z.range_end_numbers.is_empty() {
        return fail(format!("zero is {z:?}"));
    }
    ok(10)
}
enum Head {
    Part(jl::article::Part),
    Chapter(jl::article::Chapter),
    Section(jl::article::Section),
    Subsection(jl::article::Subsection),
    Division(jl::article::Division),
    Article(jl::article::Article),
}
fn heads() -> &'static [Head] {
    static H: std::sync::OnceLock<Vec<Head>> = std::sync::OnceLock::new();
    H.get_or_init(|| {
        let names = ["Part", "Chapter", "Section", "Subsection", "Division"];
        let mut out = vec![];
        let mut ch = vec!["Law", "LawBody", "MainProvision"];
        ch.extend(names);
        let (d, _) = base_for(&ch);
        let law = jl::parse_xml(d.to_xml().as_bytes()).unwrap_or_else(|e| panic!("{e}"));
        let p = law
            .law_body
            .main_provision
            .children
            .iter()
            .find_map(|c| if let jl::law::MainProvisionContents::Part(p) = c { Some(p) } else { None })
            .expect("harness: part");
        let v = jv(p);
        fn find(v: &Value, k: &str) -> Option<Value> {
            match v {
                Value::Object(o) => o.iter().find_map(|(n, x)| if n == k { Some(x.clone()) } else { find(x, k) }),
                Value::Array(a) => a.iter().find_map(|x| find(x, k)),
                _ => None,
            }
        }
        let get = |k: &str| find(&json!([v]), k).unwrap_or_else(|| panic!("harness: {k}"));
        out.push(Head::Part(p.clone()));
        out.push(Head::Chapter(serde_json::from_value(get("Chapter")).unwrap()));
        out.push(Head::Section(serde_json::from_value(get("Section")).unwrap()));
        out.push(Head::Subsection(serde_json::from_value(get("Subsection")).unwrap()));
        out.push(Head::Division(serde_json::from_value(get("Division")).unwrap()));
        out.push(Head::Article(articles()[0].clone()));
        out
    })
}
/// the attribute values of line styles, alignments and positions
const ATTS: [(&str, &[&str]); 3] =
    [("line", &["dotted", "double", "solid", "none"]), ("align", &["left", "center", "right", "justify"]), ("position", &["top", "middle", "bottom"])];
fn check_att(kind: &str, val: &str) -> Check {
    use jl::class::Align;
    use jl::table::Position;
    let s = val.to_string();
    let got: Option<(String, Value)> = match kind {
        "line" => LineStyle::from_attribute(Some(&s)).map(|x| (x.to_attribute(), jv(&x))),
        "align" => Align::from_attribute(Some(&s)).map(|x| (x.to_attribute(), jv(&x))),
        _ => Position::from_attribute(Some(&s)).map(|x| (x.to_attribute(), jv(&x))),
    };
    let none = match kind {
        "line" => LineStyle::from_attribute(None).is_none(),
        "align" => Align::from_attribute(None).is_none(),
        _ => Position::from_attribute(None).is_none(),
    };
    if !none {
        return fail(format!("{kind}: a missing attribute is read as a value"));
    }
    let (_, all) = ATTS.iter().find(|a| a.0 == kind).unwrap();
    match got {
        None if all.contains(&val) => fail(format!("{kind}: {val:?} is not read")),
        None => ok(2),
        Some(_) if !all.contains(&val) => fail(format!("{kind}: {val:?} is read as a value")),
        Some((b, _)) if b != val => fail(format!("{kind}: {val:?} is written as {b:?}")),
        Some((_, j)) => {
            let mut name = val.to_string();
            name[..1].make_ascii_uppercase();
            if j != json!(name) {
                return fail(format!("{kind}: {val:?} is read as {j}"));
            }
            ok(3)
        }
    }
}
impl Model for Address {
    type S = AdS;
    fn roots(&self, tier: Tier) -> Vec<(AdS, usize)> {
        let quick = tier == Tier::Quick;
        let mut v = vec![];
        for k in ["article", "toc"] {
            v.push((AdS::Sets(k, vec![]), if quick { 3 } else { 4 }));
            // every assignment of all the fields, in order and backwards
            let f = if k == "article" { 6 } else { 7 };
            for back in [false, true] {
                for code in 0..3usize.pow(f as u32) {
                    let mut c = code;
                    let mut s: Vec<(usize, usize)> = (0..f)
                        .map(|i| {
                            let x = (i, c % 3 + if i == 5 && k == "article" { 1 } else { 0 });
                            c /= 3;
                            x
                        })
                        .collect();
                    if back {
                        s.reverse();
                    }
                    v.push((AdS::Sets(k, s), 0));
                }
            }
        }
        let top = if quick { 1200 } else { 9999 };
        for n in (1..=top).chain([1999, 2000, 2001, 3000, 5005, 9000, 9010, 9090, 9099, 9100, 9900, 9990, 9999]) {
            v.push((AdS::Num(n, vec![], vec![]), 0));
            v.push((AdS::Num(3, vec![n], vec![]), 0));
            v.push((AdS::Num(1, vec![], vec![n]), 0));
        }
        let small: Vec<usize> = if quick { vec![1, 2, 10, 11, 20, 101, 110, 1000, 1010] } else { vec![1, 2, 3, 9, 10, 11, 12, 19, 20, 21, 99, 100, 101, 110, 111, 1000, 1001, 1010, 1100, 9999] };
        let mut lists: Vec<Vec<usize>> = vec![vec![]];
        for &a in &small {
            lists.push(vec![a]);
            for &b in &small {
                lists.push(vec![a, b]);
            }
        }
        for k in 3..9 {
            lists.push((1..=k).collect());
        }
        for &b in &small {
            for e in &lists {
                for r in &lists {
                    if r.len() + e.len() <= 2 || r.len() + e.len() > 6 || (e.len() <= 1 && r.len() <= 2) {
                        v.push((AdS::Num(b, e.clone(), r.clone()), 0));
                    }
                }
            }
        }
        let mut words: Vec<String> = ATTS.iter().flat_map(|a| a.1.iter().map(|s| s.to_string())).collect();
        let mut more = vec!["".to_string(), " ".into(), "true".into(), "vertical".into(), "horizontal".into(), "baseline".into()];
        for w in &words {
            let mut c = w.clone();
            c[..1].make_ascii_uppercase();
            more.extend([c, w.to_uppercase(), format!(" {w}"), format!("{w} "), w[..w.len() - 1].to_string(), format!("{w}{w}"), format!("x{w}")]);
        }
        words.extend(more);
        for (k, _) in ATTS {
            v.extend(words.iter().map(|w| (AdS::Att(k, w.clone()), 0)));
        }
        v
    }
    fn succ(&self, s: &AdS, out: &mut Vec<AdS>) {
        if let AdS::Sets(k, ops) = s {
            for f in 0..if *k == "toc" { 7 } else { 6 } {
                for v in 0..VALUES {
                    let mut o = ops.clone();
                    o.push((f, v));
                    out.push(AdS::Sets(k, o));
                }
            }
        }
    }
    fn key(&self, s: &AdS) -> String {
        match s {
            AdS::Sets(k, o) => format!("{k} {}", o.iter().map(|(f, v)| format!("{}={v}", NAMES[*f])).collect::<Vec<_>>().join(" ")),
            AdS::Num(b, e, r) => format!("number {}", json!([b, e, r])),
            AdS::Att(k, v) => format!("attribute {k} {v}"),
        }
    }
    fn check(&self, key: &str) -> Check {
        let (k, rest) = key.split_once(' ').unwrap_or((key, ""));
        let ops = || -> Vec<(usize, usize)> {
            rest.split(' ')
                .filter_map(|o| o.split_once('='))
                .map(|(f, v)| (NAMES.iter().position(|n| *n == f).unwrap(), v.parse().unwrap()))
                .collect()
        };
        match k {
            "article" => check_with_number(&ops()),
            "toc" => check_toc(&ops()),
            "number" => {
                let (base_number, eda_numbers, range_end_numbers): (usize, Vec<usize>, Vec<usize>) = serde_json::from_str(rest).unwrap();
                check_shown(&ArticleNumber { base_number, eda_numbers, range_end_numbers })
            }
            "attribute" => {
                let (kind, val) = rest.split_once(' ').unwrap();
                check_att(kind, val)
            }
            _ => fail("harness: key"),
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        let (d, top) = if tier == Tier::Quick { (3, 1200) } else { (4, 9999) };
        format!("all sequences of up to {d} settings of an article's address (6 fields) and of a contents entry (7 fields) over {VALUES} values, every getter compared with the last value set after every step, and every assignment of all fields over 3 values in both orders; numbers 1 to {top} as base, branch and end of a range and lists of branches and ends, shown by each of the 6 kinds of provision; all attribute values and their near misses")
    }
}

// ------------------------------------------------------------------------------------------------ C30
/// Pairs of documents one edit apart, or two edits of the same document.
pub struct Equal;
#[derive(Clone)]
pub struct EqS {
    doc: X,
    other: Option<Box<X>>,
    focus: Vec<usize>,
    mode: Mode,
}
fn check_equal(key: &str) -> Check {
    let (a, b) = key.split_once('\u{1e}').unwrap_or((key, key));
    let (x, y) = (props_util::read_law(a)?, props_util::read_law(b)?);
    let want = jv(&x) == jv(&y);
    if (x == y) != want || (y == x) != want || (x != y) == want {
        return fail(if want { "equal laws compare as different" } else { "different laws compare as equal" });
    }
    if want && hash(&x) != hash(&y) {
        return fail("equal laws have different hashes");
    }
    let c = x.clone();
    if c != x || jv(&c) != jv(&x) || hash(&c) != hash(&x) {
        return fail("a copy of a law differs from it");
    }
    let again = props_util::read_law(a)?;
    if again != x || hash(&again) != hash(&x) {
        return fail("the same document read twice gives laws that differ");
    }
    // what differs is told apart in the written form, too
    if !want && jl::to_xml(&x).ok() == jl::to_xml(&y).ok() {
        return fail("different laws are written as the same XML");
    }
    let lists = |l: &jl::law::Law| jl::utils::with_number_article_list_from_main_provision(&l.law_body.main_provision).0;
    let (p, q) = (lists(&x), lists(&y));
    for (i, u) in p.iter().enumerate().take(20) {
        for (j, v) in q.iter().enumerate().take(20) {
            let s = |w: &WithNumberArticle| json!([w.get_part(), w.get_chapter(), w.get_section(), w.get_subsection(), w.get_division(), w.get_article()]);
            if i.abs_diff(j) <= 1 {
                same(u, v, s(u) == s(v))?;
            }
        }
    }
    ok(5)
}
impl Model for Equal {
    type S = EqS;
    fn roots(&self, tier: Tier) -> Vec<(EqS, usize)> {
        let mut v: Vec<(EqS, usize)> = vec![];
        let mut more = vec![];
        let mut add = |doc: X, focus: Vec<usize>, mode, d| v.push((EqS { doc, other: None, focus, mode }, d));
        for (doc, focus) in pairs() {
            add(doc, focus, Mode::Edit, 1);
        }
        for n in g().els.keys() {
            let (doc, focus) = base_for(&chain(n));
            add(doc.clone(), focus.clone(), Mode::Edit, if tier == Tier::Quick { 1 } else { 2 });
            add(doc.clone(), focus.clone(), Mode::Sweep, 1);
            // without its contents or with blank ones, and with other attributes
            let mut docs = vec![];
            for t in [None, Some(" "), Some("\u{3000}")] {
                let mut e = doc.clone();
                e.at_mut(&focus).kids = t.map(|t| crate::xt::N::T(t.into())).into_iter().collect();
                docs.push(e);
            }
            docs.retain(|d| crate::refread::refread(d).is_ok());
            let mut near = vec![];
            edits_at(&doc, &focus, &TEXTS[..1], &mut near);
            docs.extend(near.into_iter().filter(|d| d.at(&focus).kids == doc.at(&focus).kids));
            for d in docs {
                add(d, focus.clone(), Mode::Edit, 1);
            }
            let mut rows = vec![];
            pieces_at(&doc, &focus, &mut rows);
            for k in 2..=3 {
                for m in series(&doc, &focus, k) {
                    rows.extend(agreeing(&m));
                    rows.push(m);
                }
            }
            for w in rows.windows(2) {
                more.push((w[0].clone(), w[1].clone(), focus.clone()));
            }
            let (dd, df) = dressed(&doc, &focus);
            add(dd.clone(), df.clone(), Mode::Trim, 1);
            for w in agreeing(&dd).windows(2) {
                more.push((w[0].clone(), w[1].clone(), df.clone()));
            }
            let same = agreeing(&doc);
            for w in same.windows(2) {
                more.push((w[0].clone(), w[1].clone(), focus.clone()));
            }
        }
        for (doc, focus) in sat_docs(1) {
            add(doc, focus, Mode::Trim, 1);
        }
        for (doc, focus) in sat_docs(2) {
            let d = if tier == Tier::Thorough && doc.count() < 300 { 1 } else { 0 };
            add(doc, focus, Mode::Trim, d);
        }
        v.extend(more.into_iter().map(|(doc, o, focus)| (EqS { doc, other: Some(Box::new(o)), focus, mode: Mode::Edit }, 0)));
        v
    }
    fn succ(&self, s: &EqS, out: &mut Vec<EqS>) {
        let mut docs = vec![];
        for p in s.doc.at(&s.focus).all_paths() {
            if p.len() > 1 {
                continue;
            }
            let mut full = s.focus.clone();
            full.extend(&p);
            match s.mode {
                Mode::Sweep => {
                    if p.is_empty() {
                        sweep_at(&s.doc, &full, 1, &mut docs)
                    }
                    continue;
                }
                Mode::Trim => trims_at(&s.doc, &full, &mut docs),
                Mode::Edit | Mode::Pieces => {}
            }
            edits_at(&s.doc, &full, &TEXTS[..if p.is_empty() { 3 } else { 1 }], &mut docs);
        }
        let base = Box::new(s.doc.clone());
        for i in 0..docs.len() {
            // (after the edit, before it) and (after the edit, after the edit that was generated just before)
            out.push(EqS { doc: docs[i].clone(), other: Some(base.clone()), focus: s.focus.clone(), mode: s.mode });
            if i > 0 {
                out.push(EqS { doc: docs[i].clone(), other: Some(Box::new(docs[i - 1].clone())), focus: s.focus.clone(), mode: s.mode });
            }
        }
    }
    fn key(&self, s: &EqS) -> String {
        match &s.other {
            None => s.doc.to_xml(),
            Some(o) => format!("{}\u{1e}{}", s.doc.to_xml(), o.to_xml()),
        }
    }
    fn salt(&self, s: &EqS) -> u64 {
        s.focus.iter().fold(11u64 + s.mode as u64, |a, i| a.wrapping_mul(131).wrapping_add(*i as u64 + 1))
    }
    fn check(&self, key: &str) -> Check {
        check_equal(key)
    }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} parent/child contexts and all elements of the schema (these also emptied, with blank contents and with each attribute changed): every document within {} edits paired with the document before the edit and with the one edited the other way just before; the sweeps' attribute values, texts and repetitions, and saturated documents with single edits and removals, paired alike", pairs().len(), if tier == Tier::Quick { "1" } else { "1 or 2" })
    }
}
