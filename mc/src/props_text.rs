//! C16-C20: laws read from plain text, against an independent line classifier and structurer.
use crate::engine::*;
use crate::props_num::*;
use japanese_law_xml_schema as jl;
use jl::article_number::{ArticleNumber, ItemPattern};
use jl::law::{Lang, Law, LawType};
use serde_json::{json, Value};

pub fn read_text(t: &str) -> Result<jl::result::Result<Law>, String> {
    guard(|| jl::parse_text(t, 2001, Some(2), Some(3), LawType::Act, Lang::Ja, None, "平成十三年法律第一号".to_string(), "題名"))
}

/// The same text under a title, a law number and a date taken from the text itself: the body of the law
/// must not depend on them.
fn same_body(t: &str, r: &jl::result::Result<Law>) -> Result<(), Fail> {
    let lines: Vec<&str> = t.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
    if lines.is_empty() || t.len() > 4000 {
        return Ok(());
    }
    let mut as_title: Vec<&str> = if lines.len() <= 3 { lines.clone() } else { vec![lines[0]] };
    as_title.dedup();
    for title in as_title {
        let num = lines[lines.len() - 1];
        let got = guard(|| jl::parse_text(t, 1947, None, None, LawType::Constitution, Lang::Ja, Some(ArticleNumber { base_number: 1, eda_numbers: vec![], range_end_numbers: vec![] }), num.to_string(), title)).map_err(|p| Fail { msg: format!("reading the text under the title {title:?} panics: {p}") })?;
        match (r, got) {
            (Err(_), Err(_)) => {}
            (Ok(a), Ok(b)) => {
                let same = a.law_body.preamble == b.law_body.preamble && a.law_body.main_provision == b.law_body.main_provision && a.law_body.suppl_provision == b.law_body.suppl_provision && a.law_body.enact_statement == b.law_body.enact_statement && a.law_body.toc == b.law_body.toc;
                if !same {
                    let d = crate::refread::diff(&serde_json::to_value(&a.law_body).unwrap(), &serde_json::to_value(&b.law_body).unwrap());
                    return Err(Fail { msg: format!("the body changes under the title {title:?} and the law number {num:?}: {}", d.unwrap_or_default()) });
                }
            }
            _ => return Err(Fail { msg: format!("whether the text is accepted changes under the title {title:?} and the law number {num:?}") }),
        }
    }
    Ok(())
}

// -- reference line classifier --------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub enum Line {
    Caption(String),
    /// 0..=4: part, chapter, section, subsection, division
    Head(usize, ArticleNumber, String),
    Article(ArticleNumber, String),
    Paragraph(ArticleNumber, String),
    Item(String, ArticleNumber, ItemPattern, String),
    Suppl(Option<String>, bool),
    Text(String),
    /// the statement leaves open how this line is classified
    Open,
}
const CONT: [(char, &str, &str); 5] = [
    ('編', "Part", "part_title"),
    ('章', "Chapter", "chapter_title"),
    ('節', "Section", "section_title"),
    ('款', "Subsection", "subsection_title"),
    ('目', "Division", "division_title"),
];
fn suppl_line(l: &str) -> Option<(Option<String>, bool)> {
    let w = |s: &'_ str| s.trim_start().len();
    let mut s = l.strip_prefix('附')?;
    s = &s[s.len() - w(s)..];
    s = s.strip_prefix('則')?;
    s = s.trim();
    let mut ext = false;
    if let Some(r) = s.strip_suffix('抄') {
        ext = true;
        s = r.trim_end();
    }
    if s.is_empty() {
        return Some((None, ext));
    }
    let n = s.strip_prefix('（')?.strip_suffix('）')?;
    if n.is_empty() {
        return None;
    }
    Some((Some(n.to_string()), ext))
}
pub fn classify(line: &str) -> Line {
    let l = line.trim();
    if let Some(i) = l.strip_prefix('（').and_then(|s| s.strip_suffix('）')) {
        if !i.is_empty() && !i.contains('）') {
            return Line::Caption(i.to_string());
        }
    }
    if let Some((n, e)) = suppl_line(l) {
        return Line::Suppl(n, e);
    }
    let Some(i) = l.find(char::is_whitespace) else { return Line::Text(l.into()) };
    let (s, t) = (&l[..i], l[i..].trim_start().to_string());
    match rec_article(s) {
        Rec::Must(n) => {
            if s.contains('項') || s.contains('号') {
                return Line::Open;
            }
            for (k, (c, _, _)) in CONT.iter().enumerate() {
                if s.contains(*c) {
                    return Line::Head(k, n, t);
                }
            }
            if s.contains('条') {
                Line::Article(n, t)
            } else {
                Line::Paragraph(n, t)
            }
        }
        Rec::May(_) => Line::Open,
        Rec::No => match rec_item(s) {
            Rec::Must((n, p)) => Line::Item(s.to_string(), n, p, t),
            Rec::May(_) => Line::Open,
            Rec::No => Line::Text(l.into()),
        },
    }
}

// -- reference structurer -------------------------------------------------------------------------
fn jn(n: &ArticleNumber) -> Value {
    json!({"base_number": n.base_number, "eda_numbers": n.eda_numbers, "range_end_numbers": n.range_end_numbers})
}
fn jt(s: &str) -> Value {
    if s.is_empty() {
        json!({"contents": []})
    } else {
        json!({"contents": [{"Text": s}]})
    }
}
fn deleted(s: &str) -> bool {
    s.trim() == "削除" || s.trim() == "（削除）"
}
struct It {
    num: ArticleNumber,
    s: Vec<String>,
    sub: Vec<It>,
}
struct Pa {
    cap: Option<String>,
    num: ArticleNumber,
    s: Vec<String>,
    items: Vec<It>,
    levels: Vec<ItemPattern>,
}
enum Ch {
    C(Co),
    A(Option<String>, ArticleNumber, Vec<Pa>),
    P(Pa),
}
struct Co {
    k: usize,
    num: ArticleNumber,
    title: String,
    ch: Vec<Ch>,
}
struct Su {
    law: Option<String>,
    ext: bool,
    ch: Vec<Ch>,
}
fn js(s: &[String]) -> Value {
    Value::Array(s.iter().enumerate().map(|(i, t)| json!({"contents": [{"String": t}], "num": i + 1, "function": null, "indent": null, "writing_mode": "Vertical"})).collect())
}
fn jcap(c: &Option<String>) -> Value {
    match c {
        None => Value::Null,
        Some(c) => json!({"text": jt(c), "common_caption": null}),
    }
}
fn jit(i: &It, depth: usize) -> Value {
    let mut v = json!({"sentence": {"Sentence": js(&i.s)}, "struct_list": [], "num": jn(&i.num), "delete": deleted(&i.s[0]), "hide": false});
    if depth < 10 {
        v["children"] = Value::Array(i.sub.iter().map(|x| jit(x, depth + 1)).collect());
    }
    v
}
fn jpa(p: &Pa) -> Value {
    json!({"caption": jcap(&p.cap), "paragraph_num": {"contents": []}, "amend_provision": [], "class": [], "sentence": js(&p.s), "struct_list": [],
        "children": p.items.iter().map(|i| jit(i, 0)).collect::<Vec<_>>(), "num": jn(&p.num), "old_style": false, "old_num": false, "hide": false})
}
fn jch(c: &Ch, in_division: bool) -> Value {
    match c {
        Ch::C(c) => {
            let (_, name, title) = CONT[c.k];
            let mut v = json!({"num": jn(&c.num), "delete": deleted(&c.title), "hide": false, "children": c.ch.iter().map(|x| jch(x, c.k == 4)).collect::<Vec<_>>()});
            v[title] = jt(&c.title);
            json!({name: v})
        }
        Ch::A(cap, n, p) => {
            let v = json!({"caption": jcap(cap), "paragraph": p.iter().map(jpa).collect::<Vec<_>>(), "suppl_note": null, "num": jn(n), "delete": deleted(&p[0].s[0]), "hide": false});
            if in_division {
                v
            } else {
                json!({"Article": v})
            }
        }
        Ch::P(p) => json!({"Paragraph": jpa(p)}),
    }
}
#[derive(Debug, PartialEq)]
pub enum Want {
    Law(Value),
    Refuse,
    Open,
}
struct B {
    preamble: Vec<String>,
    main: Vec<Ch>,
    suppl: Vec<Su>,
    stack: Vec<Co>,
    started: bool,
    open: bool,
}
impl B {
    fn root(&mut self) -> &mut Vec<Ch> {
        match self.suppl.last_mut() {
            Some(s) => &mut s.ch,
            None => &mut self.main,
        }
    }
    fn here(&mut self) -> &mut Vec<Ch> {
        if self.stack.is_empty() {
            self.root()
        } else {
            &mut self.stack.last_mut().unwrap().ch
        }
    }
    fn pop(&mut self) {
        let c = self.stack.pop().unwrap();
        self.here().push(Ch::C(c));
    }
    fn para(&mut self) -> &mut Pa {
        match self.here().last_mut().unwrap() {
            Ch::A(_, _, p) => p.last_mut().unwrap(),
            Ch::P(p) => p,
            _ => unreachable!(),
        }
    }
    fn line(&mut self, l: Line, cap: Option<String>) -> Option<()> {
        let pa = |cap, num: ArticleNumber, t: String| Pa { cap, num, s: vec![t], items: vec![], levels: vec![] };
        match l {
            Line::Open | Line::Caption(_) => unreachable!(),
            Line::Head(k, n, t) => {
                let holds = |p: usize, c: usize| matches!((p, c), (0, 1) | (1, 2) | (2, 3) | (2, 4) | (3, 4));
                while let Some(top) = self.stack.last() {
                    if holds(top.k, k) {
                        break;
                    }
                    self.pop();
                }
                if self.stack.is_empty() {
                    let allowed = if self.suppl.is_empty() { k <= 2 } else { k == 1 };
                    if !allowed {
                        return None;
                    }
                }
                self.stack.push(Co { k, num: n, title: t, ch: vec![] });
                self.open = false;
                self.started = true;
            }
            Line::Article(n, t) => {
                self.here().push(Ch::A(cap, n, vec![pa(None, an(1, &[], &[]), t)]));
                self.open = true;
                self.started = true;
            }
            Line::Paragraph(n, t) => {
                if self.open {
                    if let Some(Ch::A(_, _, v)) = self.here().last_mut() {
                        v.push(pa(cap, n, t));
                        return Some(());
                    }
                }
                if !self.stack.is_empty() {
                    return None;
                }
                let main = self.suppl.is_empty();
                match self.root().last() {
                    None | Some(Ch::P(_)) => {}
                    Some(Ch::A(..)) if !main => {}
                    _ => return None,
                }
                self.root().push(Ch::P(pa(cap, n, t)));
                self.open = true;
                self.started = true;
            }
            Line::Text(t) => {
                if self.open {
                    let p = self.para();
                    if p.items.is_empty() {
                        p.s.push(t);
                    } else {
                        let d = p.levels.len();
                        let mut i = p.items.last_mut().unwrap();
                        for _ in 1..d {
                            i = i.sub.last_mut().unwrap();
                        }
                        i.s.push(t);
                    }
                } else if !self.started {
                    self.preamble.push(t);
                } else if !self.suppl.is_empty() && self.stack.is_empty() && self.root().is_empty() {
                    self.root().push(Ch::P(pa(None, an(1, &[], &[]), t)));
                    self.open = true;
                } else {
                    return None;
                }
            }
            Line::Item(l, n, p, t) => {
                if self.open {
                    let pa = self.para();
                    match pa.levels.iter().position(|x| *x == p) {
                        Some(i) if i < 10 => pa.levels.truncate(i + 1),
                        _ => {
                            if pa.levels.len() < 11 {
                                pa.levels.push(p)
                            }
                        }
                    }
                    let d = pa.levels.len();
                    let mut v = &mut pa.items;
                    for _ in 1..d {
                        v = &mut v.last_mut().unwrap().sub;
                    }
                    v.push(It { num: n, s: vec![t], sub: vec![] });
                } else if !self.started {
                    self.preamble.push(format!("{l}　{t}"));
                } else {
                    return None;
                }
            }
            Line::Suppl(law, ext) => {
                while !self.stack.is_empty() {
                    self.pop();
                }
                self.suppl.push(Su { law, ext, ch: vec![] });
                self.open = false;
                self.started = true;
            }
        }
        Some(())
    }
}
pub fn structure(text: &str) -> Want {
    let raw: Vec<&str> = text.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
    let lines: Vec<Line> = raw.iter().map(|l| classify(l)).collect();
    if lines.contains(&Line::Open) {
        return Want::Open;
    }
    let mut b = B { preamble: vec![], main: vec![], suppl: vec![], stack: vec![], started: false, open: false };
    let mut cap = None;
    for (i, l) in lines.iter().enumerate() {
        let l = match l {
            Line::Caption(c) => {
                if matches!(lines.get(i + 1), Some(Line::Article(..) | Line::Paragraph(..))) {
                    cap = Some(c.clone());
                    continue;
                }
                Line::Text(raw[i].to_string())
            }
            l => l.clone(),
        };
        if b.line(l, cap.take()).is_none() {
            return Want::Refuse;
        }
    }
    while !b.stack.is_empty() {
        b.pop();
    }
    let pre = if b.preamble.is_empty() { Value::Null } else { json!(b.preamble) };
    let chs = |v: &[Ch]| Value::Array(v.iter().map(|c| jch(c, false)).collect());
    Want::Law(json!({
        "preamble": pre,
        "main": chs(&b.main),
        "suppl": b.suppl.iter().map(|s| json!({"label": jt("附則"), "children": chs(&s.ch), "suppl_provision_type": null, "amend_law_num": s.law, "extract": if s.ext { json!(true) } else { Value::Null }})).collect::<Vec<_>>(),
    }))
}
/// The same view of the law the library made; fields the properties leave open are removed.
fn view(law: &Law) -> Result<Value, Fail> {
    let mut v = serde_json::to_value(&law.law_body).map_err(|e| Fail { msg: e.to_string() })?;
    fn strip(v: &mut Value) {
        match v {
            Value::Object(m) => {
                if m.contains_key("paragraph") || m.contains_key("struct_list") && !m.contains_key("paragraph_num") {
                    m.remove("title");
                }
                for x in m.values_mut() {
                    strip(x)
                }
            }
            Value::Array(a) => a.iter_mut().for_each(strip),
            _ => {}
        }
    }
    strip(&mut v["main_provision"]["children"]);
    strip(&mut v["suppl_provision"]);
    let pre = match &v["preamble"] {
        Value::Null => Value::Null,
        p => {
            let mut out = vec![];
            for p in p["children"].as_array().unwrap() {
                let mut s = String::new();
                for x in p["sentence"].as_array().unwrap() {
                    for c in x["contents"].as_array().unwrap() {
                        s += c["String"].as_str().unwrap_or("?");
                    }
                }
                if p["children"] != json!([]) || p["caption"] != Value::Null {
                    return fail("preamble paragraph with items or caption");
                }
                out.push(s);
            }
            json!(out)
        }
    };
    for k in ["enact_statement", "appdx_table", "appdx_note", "appdx_style", "appdx", "appdx_fig", "appdx_format"] {
        if v[k] != json!([]) {
            return fail(format!("{k} is not empty"));
        }
    }
    if v["toc"] != Value::Null || v["subject"] != Value::Null || v["main_provision"]["extract"] != Value::Null {
        return fail("toc, subject or extract appeared");
    }
    Ok(json!({"preamble": pre, "main": v["main_provision"]["children"], "suppl": v["suppl_provision"]}))
}
pub fn check_structure(key: &str) -> Check {
    let r = read_text(key).map_err(|p| Fail { msg: format!("reading the text panics: {p}") })?;
    same_body(key, &r)?;
    match (structure(key), r) {
        (Want::Open, _) => ok(1),
        (Want::Refuse, Err(_)) => ok(1),
        (Want::Refuse, Ok(_)) => fail("a line that has no place in the law is accepted"),
        (Want::Law(_), Err(e)) => fail(format!("well-formed text refused: {e}")),
        (Want::Law(w), Ok(law)) => {
            let got = view(&law)?;
            match crate::refread::diff(&w, &got) {
                None => ok(1),
                Some(d) => fail(format!("structure differs (expected, got): {d}")),
            }
        }
    }
}

// -- sequences of lines ---------------------------------------------------------------------------
#[derive(Clone)]
pub struct TS {
    pub text: String,
    pub alpha: usize,
}
pub struct Lines {
    pub alphas: Vec<Vec<&'static str>>,
    /// (alphabet, prefix, quick depth, thorough depth)
    pub roots: Vec<(usize, String, usize, usize)>,
    pub what: &'static str,
    /// also the texts of `sweep_texts`
    pub extra: bool,
    pub f: fn(&str) -> Check,
}
/// Lines of every kind in many contexts, with many bodies, numbers and repetitions.
pub fn sweep_texts() -> Vec<String> {
    use crate::grammar::{long_texts, REPEATS, RICH};
    let mut v: Vec<String> = vec![];
    let before = [
        "", "序。", "第一条　甲。", "（見出し）", "第一条　甲。\n（見出し）", "附則", "附則\n第一条　甲。", "附則\n１　己。", "第一章　章\n（見出し）", "第一条　甲。\n一　乙",
        "第一条　甲。\n２　乙。\n一　乙\n二　丙", "第一条　甲。\n一　乙\nイ　丙\n（１）　丁", "第一編　編\n第一章　章\n第一節　節\n第一款　款\n第一目　目", "第一章　章\n第一条　甲。\n第二章　章", "第一節　削除",
    ];
    let after = ["", "第五条　後。", "（後）\n第六条　後。", "後。"];
    let labels = ["第一編", "第二章", "第三節", "第四款", "第五目", "第二条", "２", "一", "イ", "（１）", "（ｉ）", "ａ", "", "（見出し）\n第三条", "第二条から第四条まで", "第三章から第五章まで"];
    let join = |p: &[&str]| p.iter().filter(|x| !x.is_empty()).copied().collect::<Vec<_>>().join("\n");
    let marks = ["削除", "（削除）", " 削除", "削除　", "　（削除）　", "削　除", "（削　除）", "削除。", "（削除）x", "x（削除）", "「削除」", "(削除)", "【削除】", "（略）", "削除する。", "（削除", "削除）", "（（削除））"];
    // bodies after every label, in every context
    for b in before {
        for a in after {
            for l in labels {
                for m in marks.iter().chain(&["x", "x。y。", "x　y"]) {
                    let line = if l.is_empty() { m.to_string() } else { format!("{l}　{m}") };
                    v.push(join(&[b, &line, a]));
                }
            }
        }
    }
    // rich and long bodies, captions and names of amending laws, in some contexts
    let rich: Vec<String> = RICH.iter().filter(|r| !r.contains(['\n', '\r'])).map(|r| r.to_string()).collect();
    let long = long_texts();
    let mut bodies: Vec<String> = rich.clone();
    bodies.extend(rich.iter().map(|r| format!("文{r}")));
    bodies.extend(rich.iter().map(|r| format!("{r}文")));
    bodies.extend(rich.iter().map(|r| format!("文。{r}文。")));
    bodies.extend(long);
    for n in 1..=40 {
        bodies.push("あ".repeat(n));
        bodies.push("あ。".repeat(n));
        bodies.push("あ　".repeat(n) + "い");
    }
    for body in &bodies {
        for b in ["", "第一条　甲。", "第一条　甲。\n一　乙", "附則"] {
            for l in labels {
                for sp in ["　", " "] {
                    if sp == " " && body.len() > 1000 {
                        continue;
                    }
                    let line = if l.is_empty() { body.clone() } else { format!("{l}{sp}{body}") };
                    v.push(join(&[b, &line, "第九条　後。"]));
                }
            }
            v.push(join(&[b, &format!("（{body}）"), "第九条　後。"]));
            for e in ["", "抄", "　抄", " 抄 "] {
                v.push(join(&[b, &format!("附則（{body}）{e}"), "第九条　後。"]));
                v.push(join(&[b, &format!("附　則　（{body}）{e}"), "後。"]));
            }
        }
    }
    // numbers
    let mut nums: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    for n in (1..=60).chain([99, 100, 101, 110, 111, 120, 199, 200, 255, 256, 257, 300, 500, 641, 999, 1000, 1001, 1010, 1100, 1999, 2000, 5555, 9999]) {
        nums.push((vec![n], vec![]));
        nums.push((vec![n, 2], vec![]));
        nums.push((vec![3, n], vec![]));
        nums.push((vec![n], vec![n + 1]));
        nums.push((vec![2, 3], vec![2, n]));
    }
    for k in 3..=12 {
        nums.push(((1..=k).collect(), vec![]));
        nums.push((vec![7; k], vec![]));
        nums.push((vec![1, 2], (1..=k).collect()));
        nums.push(((1..=k).collect(), vec![9]));
        nums.push(((1..=k).collect(), (2..=k).collect()));
    }
    for (a, e) in &nums {
        for b in ["", "第一条　甲。", "附則", "第一編　総"] {
            for kind in [0, 1, 2, 3, 4, 5, 8] {
                for style in 0..3 {
                    if style == 1 && b.is_empty() || e.iter().chain(a).any(|n| *n > 9999) {
                        continue;
                    }
                    v.push(join(&[b, &format!("{}　x", prov_text(kind, style, "の", a, e)), "第九条　後。"]));
                }
            }
            if b.is_empty() {
                continue;
            }
            for st in STYLES {
                for paren in [false, true] {
                    for b in [b, "第一条　甲。\n一　乙", "第一条　甲。\n（１）　乙\nイ　丙"] {
                        if let Some(l) = label(st, paren, 0, a, e) {
                            v.push(join(&[b, &format!("{l}　x"), "後。"]));
                            v.push(join(&[b, &format!("{l}　削除"), &format!("{l}　y")]));
                        }
                    }
                }
            }
        }
    }
    // what is deleted, at every range of small numbers
    for kind in [0, 1, 2, 3, 4, 5, 8] {
        for from in 1..=9 {
            for to in 0..=9 {
                for (i, b) in ["", "第一条　甲。", "附則", "第一編　総\n第一章　総\n第一節　総\n第一款　総"].iter().enumerate() {
                    for (a, e) in [(vec![from], vec![to]), (vec![from, 2], vec![to]), (vec![from], vec![to, 2]), (vec![2, from], vec![2, to])] {
                        let e = if to == 0 { vec![] } else { e };
                        for m in ["削除", "（削除）", "　削除", "x"] {
                            v.push(join(&[b, &format!("{}　{m}", prov_text(kind, if kind == 8 { 1 } else { 0 }, "の", &a, &e)), if i % 2 == 0 { "第九条　後。" } else { "" }]));
                        }
                    }
                }
            }
        }
    }
    for st in STYLES {
        for paren in [false, true] {
            for from in 1..=6 {
                for to in 0..=6 {
                    let e = if to == 0 { vec![] } else { vec![to] };
                    for m in ["削除", "（削除）", "x"] {
                        if let Some(l) = label(st, paren, 0, &[from], &e) {
                            v.push(join(&["第一条　甲。", &format!("{l}　{m}"), "後。"]));
                        }
                    }
                }
            }
        }
    }
    // three headings whose numbers and titles are the same, begin alike or differ
    let numbers: [(Vec<usize>, Vec<usize>); 4] = [(vec![2], vec![]), (vec![2, 3], vec![]), (vec![2], vec![4]), (vec![3], vec![])];
    let kinds = [0, 1, 2, 3, 4, 5, 6];
    for k in 0..343 {
        let ks = [kinds[k / 49], kinds[k / 7 % 7], kinds[k % 7]];
        for n in 0..64 {
            let ns = [&numbers[n / 16], &numbers[n / 4 % 4], &numbers[n % 4]];
            for titles in [["題", "題", "題"], ["削除", "題", "削除"], ["甲", "削除", "乙"]] {
                let ls: Vec<String> = (0..3)
                    .map(|i| {
                        let l = if ks[i] == 6 { label(Style::Zen, false, 0, &ns[i].0, &ns[i].1) } else { Some(prov_text(ks[i], 0, "の", &ns[i].0, &ns[i].1)) };
                        format!("{}　{}", l.unwrap_or("２".into()), titles[i])
                    })
                    .collect();
                v.push(join(&[&ls[0], &ls[1], &ls[2], "第九条　後。"]));
            }
        }
    }
    // captions that repeat
    for a in ["第一条　甲。", "第一章　甲", "附則", "２　甲。", "第一目　甲"] {
        for b in ["第二条　乙。", "２　乙。", "第二章　乙", "乙"] {
            for (x, y, z) in [("（甲）", "（甲）", "（甲）"), ("（甲）", "", "（甲）"), ("（甲）", "（甲）", "（乙）"), ("", "（甲）", "（甲）"), ("（甲）\n（甲）", "（甲）\n（甲）", ""), ("（乙）", "（甲）\n（乙）", "（乙）")] {
                for c in ["第三条　丙。", "３　丙。"] {
                    v.push(join(&[x, a, y, b, z, c]));
                }
            }
        }
    }
    // further lines at every depth of items: as the item, as each other, different
    for first in [0, 4, 7, 11] {
        // a bare number would be a paragraph
        let styles: Vec<(Style, bool)> = [false, true].iter().flat_map(|p| STYLES.iter().map(|s| (*s, *p))).filter(|s| *s != (Style::Zen, false)).collect();
        for depth in 1..=15 {
            let item = |i: usize, n: usize, x: &str| {
                let (st, paren) = styles[(i + first) % 15];
                format!("{}　{x}", label(st, paren, 0, &[n], &[]).unwrap())
            };
            for same in [true, false] {
                let word = |i: usize| if same { "な".to_string() } else { format!("な{i}") };
                for lines in 0..=6 {
                    for pattern in 0..4 {
                        if lines == 0 && pattern > 0 {
                            continue;
                        }
                        let more = |w: &str| (0..lines).map(|k| match pattern { 0 => w.to_string(), 1 => "え".into(), 2 => format!("え{k}"), _ => format!("え{}", k % 2) }).collect::<Vec<_>>().join("\n");
                        for every in [true, false] {
                            let mut t = vec!["第一条　甲。".to_string()];
                            for i in 0..depth {
                                t.push(item(i, 1, &word(i)));
                                if (every || i + 1 == depth) && lines > 0 {
                                    t.push(more(&word(i)));
                                }
                            }
                            t.push(item(depth - 1, 2, &word(depth - 1)));
                            t.push("第九条　後。".into());
                            v.push(t.join("\n"));
                        }
                    }
                }
            }
        }
    }
    // repetitions: the same line, and lines numbered on
    for &n in REPEATS {
        for b in ["", "第一条　甲。", "第一条　甲。\n一　乙", "附則", "第一章　章"] {
            for l in labels.iter().chain(&["（見出し）", "附則", "附則（x）", "第一章　a\n第一条　b", "第一条　a\n（c）", "一　a\nイ　b", "一　a\nイ　b\n（１）　c\nｉ　d", "第一条　a\n２　b", "　", "第一編　a\n第一章　b\n第一節　c"]) {
                let line = if l.contains('　') || l.ends_with(['）', '則']) { l.to_string() } else { format!("{l}　x") };
                v.push(join(&[b, &vec![line; n].join("\n"), "第九条　後。"]));
            }
            for kind in [0, 1, 2, 3, 4, 5, 8] {
                let ls: Vec<String> = (1..=n).map(|k| format!("{}　x{k}", prov_text(kind, 0, "の", &[k], &[]))).collect();
                v.push(join(&[b, &ls.join("\n"), "第九条　後。"]));
                let ls: Vec<String> = (1..=n).map(|k| format!("（見出し{k}）\n{}　x{k}\n一　y\nつづき", prov_text(kind, 0, "の", &[k], &[]))).collect();
                v.push(join(&[b, &ls.join("\n")]));
            }
            for st in STYLES {
                for paren in [false, true] {
                    let ls: Vec<String> = (1..=n).filter_map(|k| label(st, paren, 0, &[k], &[])).map(|l| format!("{l}　x")).collect();
                    v.push(join(&[b, &ls.join("\n"), "第九条　後。"]));
                    let ls: Vec<String> = (1..=n.min(64)).filter_map(|k| label(st, paren, 0, &[k], &[])).map(|l| format!("{l}　x\n（イ）　y\n（ロ）　z\nつづき")).collect();
                    v.push(join(&[b, &ls.join("\n"), "第九条　後。"]));
                }
            }
            for i in 0..3 {
                let ls: Vec<String> = (1..=n).map(|k| format!("文{k}。")).collect();
                v.push(join(&[b, ["", "第九条　後。", "（後）"][i], &ls.join("\n")]));
            }
        }
    }
    v
}
/// Texts too large to be kept as they are: "before", the line or lines repeated (`#`: the number of the
/// repetition in kanji), the times (negative: repeated inside one line), "after".
fn huge_texts(tier: Tier) -> Vec<String> {
    let mut v = vec![];
    let (lines, chars): (&[usize], &[usize]) = if tier == Tier::Quick { (&[1100, 2500], &[70_000, 400_000]) } else { (&[1100, 2500, 5000], &[70_000, 400_000, 1_500_000]) };
    for (b, l, a) in [
        ("", "序。", "第一条　後。"), ("第一条　甲。", "文。", "第九条　後。"), ("", "第#条　甲。", "附則"), ("第一条　甲。", "#　乙。", "第九条　後。"), ("第一条　甲。", "２　乙。", "第九条　後。"),
        ("第一章　章", "（見出し）\n第#条　甲。", "第二章　後"), ("第一条　甲。\n一　乙", "イ　丙", "第九条　後。"), ("第一条　甲。\n一　乙", "イ　丙\n（１）　丁", "第九条　後。"), ("", "第#章　章\n第一条　乙。", ""),
        ("第一条　甲。", "附則（#）\n１　己。", ""), ("", "第一編　編\n第一章　章\n第一節　節\n第一款　款\n第一目　目\n第#条　甲。", "附則"), ("附則", "文。", ""),
    ] {
        for n in lines {
            v.push(format!("\u{4}{b}\u{4}{l}\u{4}{n}\u{4}{a}"));
        }
    }
    for b in ["第一条　", "第一章　章\n第一条　甲。\n", "第一章　", "第一条　甲。\n２　", "第一条　甲。\n一　", "第一条　甲。\n一　乙\nイ　", "附則\n", "", "（見", "附則（"] {
        let (end, a) = if b.starts_with('（') { ("）", "第一条　後。") } else if b.ends_with('（') { ("）", "") } else { ("", "第九条　後。") };
        for u in ["あ", "一", "。（「", "a b　c", "１"] {
            for n in chars {
                v.push(format!("\u{4}{b}\u{4}{u}\u{4}-{}\u{4}{end}\n{a}", n / u.len()));
            }
        }
    }
    v
}
fn expand_text(key: &str) -> std::borrow::Cow<'_, str> {
    let Some(rest) = key.strip_prefix('\u{4}') else { return key.into() };
    let p: Vec<&str> = rest.split('\u{4}').collect();
    let n: i64 = p[2].parse().unwrap();
    if n < 0 {
        return format!("{}{}{}", p[0], p[1].repeat(-n as usize), p[3]).into();
    }
    let mut t: Vec<String> = vec![p[0].to_string()];
    t.extend((1..=n as usize).map(|k| if p[1].contains('#') { p[1].replace('#', &numeral(Style::Kanji, k).unwrap()) } else { p[1].to_string() }));
    t.push(p[3].to_string());
    t.retain(|l| !l.is_empty());
    t.join("\n").into()
}
impl Lines {
    pub fn bare(self) -> Lines {
        Lines { extra: false, ..self }
    }
}
impl Model for Lines {
    type S = TS;
    fn roots(&self, tier: Tier) -> Vec<(TS, usize)> {
        let mut v: Vec<(TS, usize)> = self.roots.iter().map(|(a, p, q, t)| (TS { text: p.clone(), alpha: *a }, if tier == Tier::Quick { *q } else { *t })).collect();
        if self.extra {
            v.extend(sweep_texts().into_iter().chain(huge_texts(tier)).map(|text| (TS { text, alpha: usize::MAX }, 0)));
        }
        v
    }
    fn succ(&self, s: &TS, out: &mut Vec<TS>) {
        for l in &self.alphas[s.alpha] {
            let text = if s.text.is_empty() { l.to_string() } else { format!("{}\n{l}", s.text) };
            out.push(TS { text, alpha: s.alpha });
        }
    }
    fn key(&self, s: &TS) -> String {
        s.text.clone()
    }
    fn salt(&self, s: &TS) -> u64 {
        s.alpha as u64
    }
    fn check(&self, key: &str) -> Check {
        (self.f)(&expand_text(key))
    }
    fn bounds(&self, tier: Tier) -> String {
        let r: Vec<String> = self.roots.iter().map(|(a, p, q, t)| format!("all sequences of <={} of {} lines after a prefix of {} lines", if tier == Tier::Quick { q } else { t }, self.alphas[*a].len(), if p.is_empty() { 0 } else { p.lines().count() })).collect();
        let mut c: Vec<(String, usize)> = vec![];
        for x in r {
            match c.iter_mut().find(|y| y.0 == x) {
                Some(y) => y.1 += 1,
                None => c.push((x, 1)),
            }
        }
        format!("{}: {}texts with a line of every kind in many contexts, bodies (rich and up to 131072 characters), numbers and repetitions up to 300, each text also under titles and law numbers taken from it; {}", self.what, if self.extra { "sweeps of " } else { "no " }, c.iter().map(|(x, n)| if *n == 1 { x.clone() } else { format!("{x} ({n} prefixes)") }).collect::<Vec<_>>().join("; "))
    }
}

pub const FULL: &[&str] = &[
    "第一編　総則", "第二編　削除", "第一章　通則", "第二章の二　雑則", "第一節　あ", "第三節から第五節まで　（削除）", "第一款　い", "第２款　いい", "第一目　う", "第二目の二　うう",
    "第一条　え。", "第二条の三　お。", "第三条から第五条まで　削除", "２　か。", "３の２　き。", "一　く", "二　（削除）", "イ　け", "（見出し）", "　（その二）", "こ。さ。", "（さ）し", "附則", "附　則（平成十年法律第一号）　抄", "　　",
];
const STRUCT: &[&str] = &["第一編　A", "第一章　B", "第一節　C", "第一款　D", "第一目　E", "第一条　F", "２　G", "（H）", "附則", "I"];
const DEEP: &[&str] = &["第一編　A\n第一章　B\n第一節　C\n第一款　D\n第一目　E\n第一条　F", "第一章　B\n第一節　C\n第一目　E\n第一条　F", "附則\n第一章　B\n第一節　C\n第一条　F", "第一節　C\n第一款　D\n（H）\n第一条　F\n２　G\n一　J", "附則\n１　x\n附則　抄"];
/// Headings and texts whose words name other kinds of heading.
const WORDY: &[&str] = &[
    "第一編　章と節と款と目と条と項", "第一章　編と節と款と目と条と附則", "第一節　編の章", "第一節　款の目", "第一款　編", "第一款　章", "第一款　節", "第一款　目", "第一目　編章", "第一目　節款", "第一目　条項", "第一条　編章節款目。", "第一条　条項号附則。",
    "２　編。", "２　章と節。", "２　款と目。", "２　条の附則。", "（編の章）", "（節と款と目）", "（条の附則）", "編章節款目条。", "附則の章。", "　節。",
];
pub fn c16() -> Lines {
    let mut roots = vec![(0, String::new(), 4, 5), (1, String::new(), 6, 7), (2, String::new(), 3, 4)];
    for d in DEEP {
        roots.push((0, d.to_string(), 2, 3));
        roots.push((1, d.to_string(), 4, 5));
        roots.push((2, d.to_string(), 2, 3));
    }
    Lines { alphas: vec![FULL.to_vec(), STRUCT.to_vec(), WORDY.to_vec()], roots, what: "every text compared line by line with the reference structure", extra: true, f: check_structure }
}
pub const ITEMS: &[&str] = &["一　a", "二　b", "イ　c", "ロ　d", "（１）　e", "（２）　f", "（ｉ）　g", "ａ　h", "（イ）　i", "txt", "２　p"];
pub fn c17() -> Lines {
    let mut roots = vec![(0, "第一条　x".to_string(), 5, 6), (2, "第一条　x".to_string(), 6, 8), (0, "附則\n１　x".to_string(), 4, 5)];
    // chains through ever more numbering styles
    let mut all: Vec<&'static str> = vec![];
    let mut chain = "第一条　x".to_string();
    for (i, st) in STYLES.iter().cycle().take(16).enumerate() {
        let paren = i >= 8;
        let one = |n: usize| {
            let mut n = n;
            let s = loop {
                if let Some(s) = numeral(*st, n) {
                    break s;
                }
                n += 1;
            };
            if paren {
                format!("（{s}）")
            } else {
                s
            }
        };
        all.push(Box::leak(format!("{}　q{i}", one(1)).into_boxed_str()));
        all.push(Box::leak(format!("{}　r{i}", one(2)).into_boxed_str()));
        chain = format!("{chain}\n{}　s{i}", one(1));
        roots.push((1, chain.clone(), 2, 3));
    }
    all.push("txt");
    all.push("第二条　y");
    Lines { alphas: vec![ITEMS.to_vec(), all, vec!["一　a", "二　b", "イ　c", "（１）　e", "（２）　f", "（ｉ）　g"]], roots, what: "items below a paragraph", extra: true, f: check_structure }
}

// -- C18 -------------------------------------------------------------------------------------------
#[derive(Debug)]
enum U {
    Text(String),
    Cap(String),
    /// suffix of the label (None: bare number or item label), number, text
    Head(Option<char>, ArticleNumber, String),
    Item(ArticleNumber, String),
    Suppl(Option<String>, bool),
}
fn num_of(v: &Value) -> Result<ArticleNumber, Fail> {
    serde_json::from_value(v.clone()).map_err(|_| Fail { msg: format!("no number: {v}") })
}
fn text_of(v: &Value) -> String {
    let mut s = String::new();
    if let Some(a) = v["contents"].as_array() {
        for c in a {
            s += c["Text"].as_str().or(c["String"].as_str()).unwrap_or("?");
        }
    }
    s
}
fn u_item(v: &Value, out: &mut Vec<U>) -> Result<(), Fail> {
    let s = v["sentence"]["Sentence"].as_array().ok_or(Fail { msg: "item without sentences".into() })?;
    for (i, x) in s.iter().enumerate() {
        out.push(if i == 0 { U::Item(num_of(&v["num"])?, text_of(x)) } else { U::Text(text_of(x)) });
    }
    if s.is_empty() {
        return fail("item without sentence");
    }
    for c in v["children"].as_array().unwrap_or(&vec![]) {
        u_item(c, out)?;
    }
    Ok(())
}
fn u_para(v: &Value, head: Option<(char, ArticleNumber)>, out: &mut Vec<U>) -> Result<(), Fail> {
    if !v["caption"].is_null() {
        out.push(U::Cap(text_of(&v["caption"]["text"])));
    }
    let s = v["sentence"].as_array().unwrap();
    if s.is_empty() {
        return fail("paragraph without sentence");
    }
    for (i, x) in s.iter().enumerate() {
        out.push(if i > 0 {
            U::Text(text_of(x))
        } else if let Some((c, n)) = &head {
            U::Head(Some(*c), n.clone(), text_of(x))
        } else {
            U::Head(None, num_of(&v["num"])?, text_of(x))
        });
    }
    for c in v["children"].as_array().unwrap() {
        u_item(c, out)?;
    }
    Ok(())
}
fn u_child(v: &Value, out: &mut Vec<U>) -> Result<(), Fail> {
    let v = match v.as_object().unwrap().iter().next() {
        Some((k, x)) if v.as_object().unwrap().len() == 1 => {
            if k == "Paragraph" {
                return u_para(x, None, out);
            }
            x
        }
        _ => v,
    };
    if let Some(ps) = v["paragraph"].as_array() {
        if !v["caption"].is_null() {
            out.push(U::Cap(text_of(&v["caption"]["text"])));
        }
        for (i, p) in ps.iter().enumerate() {
            let h = if i == 0 { Some(('条', num_of(&v["num"])?)) } else { None };
            u_para(p, h, out)?;
        }
        return Ok(());
    }
    for (c, _, t) in CONT {
        if !v[t].is_null() {
            out.push(U::Head(Some(c), num_of(&v["num"])?, text_of(&v[t])));
            for x in v["children"].as_array().unwrap() {
                u_child(x, out)?;
            }
            return Ok(());
        }
    }
    fail(format!("unexpected part of the law: {v}"))
}
fn unspace(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn fits(u: &U, line: &str, suppl_first: bool) -> bool {
    let l = unspace(line);
    match u {
        U::Text(t) => unspace(t) == l,
        U::Cap(t) => format!("（{}）", unspace(t)) == l,
        U::Suppl(n, e) => {
            let n = n.as_ref().map(|n| format!("（{}）", unspace(n))).unwrap_or_default();
            format!("附則{n}{}", if *e { "抄" } else { "" }) == l
        }
        U::Head(_, n, t) | U::Item(n, t) => {
            let t = unspace(t);
            if suppl_first && t == l {
                return true;
            }
            let Some(lab) = l.strip_suffix(t.as_str()) else { return false };
            if t.is_empty() || lab.is_empty() {
                return false;
            }
            match u {
                U::Head(c, _, _) => match rec_article(lab) {
                    Rec::Must(m) | Rec::May(m) => {
                        m == *n && c.map(|c| lab.contains(c)).unwrap_or(!lab.contains(['編', '章', '節', '款', '目', '条']))
                    }
                    Rec::No => false,
                },
                _ => match rec_item(lab) {
                    Rec::Must((m, _)) | Rec::May((m, _)) => m == *n,
                    Rec::No => false,
                },
            }
        }
    }
}
pub fn check_lossless(key: &str) -> Check {
    let r = read_text(key).map_err(|p| Fail { msg: format!("reading the text panics: {p}") })?;
    same_body(key, &r)?;
    let Ok(law) = r else { return ok(1) };
    let v = serde_json::to_value(&law.law_body).map_err(|e| Fail { msg: e.to_string() })?;
    let mut us = vec![];
    if let Some(p) = v["preamble"]["children"].as_array() {
        for p in p {
            for s in p["sentence"].as_array().unwrap() {
                us.push(U::Text(text_of(s)));
            }
        }
    }
    for c in v["main_provision"]["children"].as_array().unwrap() {
        u_child(c, &mut us)?;
    }
    for s in v["suppl_provision"].as_array().unwrap() {
        us.push(U::Suppl(s["amend_law_num"].as_str().map(|s| s.to_string()), s["extract"] == json!(true)));
        for c in s["children"].as_array().unwrap() {
            u_child(c, &mut us)?;
        }
    }
    let lines: Vec<&str> = key.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
    for i in 0..lines.len().max(us.len()) {
        let sf = i > 0 && matches!(us.get(i - 1), Some(U::Suppl(..)));
        match (us.get(i), lines.get(i)) {
            (Some(u), Some(l)) if fits(u, l, sf) => {}
            (Some(u), l) => return fail(format!("line {} {l:?} appears as {u:?}", i + 1)),
            (None, l) => return fail(format!("line {} {l:?} is not in the law", i + 1)),
        }
    }
    ok(1)
}
pub const ODD: &[&str] = &[
    "", "　", " \t", "（見出し）", "（）", "（あ）（い）", "（（あ）", "第一条", "第一条　", "第一条 x", "第０条　x", "第一条の　x", "99999999999999999999　x", "第九九条　x", "附則", "附　則", "附則（）", "附則　x", "附 則 抄 x", "附則（a）（b）　抄", "附則抄",
    "附則（平成元年）", "附則　第一条　x", "一　x", "の　x", "ん　x", "（ん）　x", "（９９９９９９９９９９９９９９９９９９９９９９９）　x", "ｚｚｚｚｚｚｚｚｚｚｚｚｚｚｚｚ　x", "第一項　x", "第一号　x", "第１条\tx", "　第一条　x　y　", "一条　x", "１　x", "２の３　x", "イからハまで　削除", "削除", "目次",
    "第一章", "第一編　x", "第一章　x", "第一節　x", "第一款　x", "第一目　y", "\u{feff}第一条　x", "x\u{2028}y z", "第一条から　x", "第三条から第一条まで　x", "（一）", "（一）　（二）　x", "一 二 三", "第一条　（x）", "ｉ　x",
];
const ODD2: &[&str] = &["（見出し）", "第一条　x", "２　x", "一　x", "イ　x", "附則", "附則（a）　抄", "第一章　x", "第一節　x", "x", "第一款　x", ""];
pub fn c18() -> Lines {
    let mut roots = vec![(0, String::new(), 3, 4), (1, String::new(), 5, 7)];
    for p in ["第一章　x\n第一条　x", "附則\n第一条　x", "附則", "第一条　x\n一　x\nイ　x", "第一条　x\n（見出し）", "x\n（y）"] {
        roots.push((0, p.to_string(), 2, 3));
    }
    for p in ["\u{feff}", "\r\n第一条　x\r\n一　x\r\n", "\n\n\n", "第一条　x\r", "第一編　x\n第一章　x\n第一節　x\n第一款　x\n第一目　x"] {
        roots.push((0, p.to_string(), 2, 2));
    }
    Lines { alphas: vec![ODD.to_vec(), ODD2.to_vec()], roots, what: "termination, no panic, and every line found in the law in order", extra: true, f: check_lossless }
}

// -- C20 -------------------------------------------------------------------------------------------
pub fn check_survives(key: &str) -> Check {
    if !key.starts_with('\u{1}') && key.len() < 4000 {
        let first = key.lines().map(|l| l.trim()).find(|l| !l.is_empty()).unwrap_or("");
        let last = key.lines().map(|l| l.trim()).rfind(|l| !l.is_empty()).unwrap_or("");
        survives_under(key, first, last)?;
        return survives_under(key, "題名", "平成十三年法律第一号");
    }
    let (text, title, law_num) = match key.strip_prefix("\u{1}") {
        None => (key, "題名", "平成十三年法律第一号"),
        Some(r) => {
            let mut p = r.split('\u{1}');
            (p.next().unwrap(), p.next().unwrap(), p.next().unwrap())
        }
    };
    survives_under(text, title, law_num)
}
fn survives_under(text: &str, title: &str, law_num: &str) -> Check {
    let r = guard(|| jl::parse_text(text, 2001, None, Some(3), LawType::Act, Lang::Ja, None, law_num.to_string(), title)).map_err(|p| Fail { msg: format!("reading the text panics: {p}") })?;
    let Ok(law) = r else { return ok(0) };
    let x = guard(|| jl::to_xml(&law)).map_err(|p| Fail { msg: format!("writing the law panics: {p}") })?.map_err(|e| Fail { msg: format!("the law cannot be written: {e}") })?;
    let l2 = jl::parse_xml(x.as_bytes()).map_err(|e| Fail { msg: format!("the written law is refused: {e}") })?;
    if l2 != law {
        let d = crate::refread::diff(&serde_json::to_value(&law).unwrap(), &serde_json::to_value(&l2).unwrap());
        return fail(format!("the law read back differs: {}", d.unwrap_or_default()));
    }
    ok(1)
}
const MARK: &[&str] = &[
    "第一編　A<B", "第一章　削除", "第一節　a&b", "第一款　\"q\"", "第一目　'q'", "第一条　x  y <z> ]]>", "第二条の三　&amp;", "第三条から第五条まで　削除", "（<見>）", "２　a\tb", "３　a\u{a0}b", "一　a\u{200b}", "イ　\u{feff}b", "（１）　x\ry", "（ｉ）　𠮷&#x20;", "<x>", "&#13;", "a\u{85}b", "a\u{2028}b", "附則", "附則（a&b）　抄", "　", "\u{fffd}\u{e000}", "<!-- c -->", "<?pi?>", "<![CDATA[x]]>",
];
pub fn c20() -> Lines {
    let mut roots = vec![(0, String::new(), 3, 4), (1, String::new(), 3, 4), (2, String::new(), 4, 6)];
    for d in DEEP {
        roots.push((0, d.to_string(), 2, 3));
    }
    let mut chain = "第一条　x".to_string();
    for st in ["一", "イ", "（１）", "（ｉ）", "ａ", "（イ）", "（一）", "Ａ", "（Ａ）", "Ⅰ", "い", "１の", "（い）", "ＩＩ"] {
        chain = format!("{chain}\n{st}　s");
        roots.push((0, chain.clone(), 1, 2));
    }
    for t in ["", "題", "a b", "a&b<c>", "a\u{3000}b", "\"'", "]]>", "法（抄）", "𠮷\u{200b}"] {
        for n in ["", "x", "a&<>\"'", "平成 元年"] {
            roots.push((3, format!("\u{1}第一条　x\u{1}{t}\u{1}{n}"), 0, 0));
        }
    }
    use crate::grammar::{long_texts, RICH};
    let long = long_texts();
    for t in RICH.iter().copied().chain(long.iter().map(|s| s.as_str())) {
        roots.push((3, format!("\u{1}第一条　x\u{1}{t}\u{1}番号"), 0, 0));
        roots.push((3, format!("\u{1}第一条　x\u{1}題{t}\u{1}{t}"), 0, 0));
        roots.push((3, format!("\u{1}第一条　x\u{1}{t}題\u{1}{t}番号"), 0, 0));
    }
    Lines { alphas: vec![MARK.to_vec(), FULL.to_vec(), ITEMS.to_vec(), vec![]], roots, what: "texts that are read, written as XML and read back (also with many titles and law numbers)", extra: true, f: check_survives }
}

// -- C19 -------------------------------------------------------------------------------------------
pub struct Dates;
#[derive(Clone)]
pub struct DS(usize, Option<usize>, Option<usize>, usize, Option<(String, String, String)>);
const TYPES: [(LawType, &str); 8] = [
    (LawType::Constitution, "Constitution"),
    (LawType::Act, "Act"),
    (LawType::CabinetOrder, "CabinetOrder"),
    (LawType::ImperialOrder, "ImperialOrder"),
    (LawType::MinisterialOrdinance, "MinisterialOrdinance"),
    (LawType::Rule, "Rule"),
    (LawType::Misc, "Misc"),
    (LawType::Act, "Act"),
];
/// "1_2:3" as a number
fn ref_num(s: &str) -> Option<ArticleNumber> {
    if s.is_empty() {
        return None;
    }
    let l = |s: &str| s.split('_').map(|x| x.parse().unwrap()).collect::<Vec<usize>>();
    let (a, e) = match s.split_once(':') {
        Some((a, e)) => (l(a), l(e)),
        None => (l(s), vec![]),
    };
    Some(an(a[0], &a[1..], &e))
}
fn ref_era(y: usize, m: usize, d: usize) -> Option<(&'static str, usize)> {
    let t = (y, m, d);
    for (n, s) in [("Reiwa", (2019, 5, 1)), ("Heisei", (1989, 1, 8)), ("Showa", (1926, 12, 25)), ("Taisho", (1912, 7, 30)), ("Meiji", (1868, 1, 25))] {
        if t >= s {
            return Some((n, y - s.0 + 1));
        }
    }
    None
}
impl Model for Dates {
    type S = DS;
    fn roots(&self, tier: Tier) -> Vec<(DS, usize)> {
        let mut v = vec![];
        let ys: Vec<usize> = if tier == Tier::Quick { (1866..=2040).collect() } else { (0..=3000).collect() };
        for y in ys {
            v.push((DS(y, None, None, 0, None), 2));
        }
        for y in [0, 1, 999, 1600, 1700, 2400, 9999, 10000, 32767, 65536, 262143, 262144, i32::MAX as usize, i32::MAX as usize + 1, u32::MAX as usize, u32::MAX as usize + 1, u32::MAX as usize + 2002, usize::MAX, 1 << 63, 4294967296 + 2001] {
            v.push((DS(y, None, None, 0, None), 2));
        }
        // titles, law numbers and numbers
        use crate::grammar::{long_texts, RICH};
        let mut texts: Vec<String> = RICH.iter().map(|r| r.to_string()).collect();
        texts.extend(RICH.iter().flat_map(|r| [format!("法{r}"), format!("{r}法"), format!("平成{r}年")]));
        texts.extend(long_texts());
        for h in 0..8 {
            for t in &texts {
                for (a, b) in [(t.as_str(), "平成元年法律第一号"), ("題名", t.as_str()), (t.as_str(), t.as_str())] {
                    v.push((DS(2001, Some(2), Some(3), h, Some((a.into(), b.into(), "7".into()))), 0));
                }
            }
            for n in (0..=1200usize).chain([9999, 10000, 65535, 65536, 4294967295, 4294967296, usize::MAX]) {
                for s in [format!("{n}"), format!("{n}_2"), format!("1_{n}"), format!("2:{n}")] {
                    v.push((DS(2001, None, Some(3), h, Some(("題名".into(), "号".into(), s))), 0));
                }
            }
        }
        for y in [1868, 1912, 2001, 2019] {
            for h in 1..64 {
                v.push((DS(y, None, None, h, None), 2));
            }
        }
        v
    }
    fn succ(&self, s: &DS, out: &mut Vec<DS>) {
        let big = [4294967295, 4294967296, 4294967297, 4294967298, usize::MAX];
        if s.1.is_none() {
            for m in (0..=14).chain(big) {
                if s.4.is_some() {
                    return;
                }
                out.push(DS(s.0, Some(m), s.2, s.3, None));
            }
        }
        if s.2.is_none() {
            for d in (0..=33).chain(big) {
                out.push(DS(s.0, s.1, Some(d), s.3, None));
            }
        }
    }
    fn key(&self, s: &DS) -> String {
        json!([s.0, s.1, s.2, s.3, s.4]).to_string()
    }
    fn check(&self, key: &str) -> Check {
        let (y, m, d, h, own): (usize, Option<usize>, Option<usize>, usize, Option<(String, String, String)>) = serde_json::from_str(key).unwrap();
        let (ty, tyn) = &TYPES[h % 8];
        let lang = if h & 8 != 0 { (Lang::En, "En") } else { (Lang::Ja, "Ja") };
        let num = match h >> 4 {
            0 => None,
            1 => Some(an(1, &[], &[])),
            2 => Some(an(89, &[2, 3], &[])),
            _ => Some(an(0, &[], &[4])),
        };
        let (title, law_num) = (["題名", "", "a b"][h % 3], ["平成元年法律第一号", "", "x y"][h / 3 % 3]);
        let text = ["第一条　x", "", "序"][h % 3];
        let (title, law_num, num) = match &own {
            None => (title, law_num, num),
            Some((t, l, n)) => (t.as_str(), l.as_str(), ref_num(n)),
        };
        let r = guard(|| jl::parse_text(text, y, m, d, ty.clone(), lang.0.clone(), num.clone(), law_num.to_string(), title)).map_err(|p| Fail { msg: format!("panics: {p}") })?;
        let (mm, dd) = (m.unwrap_or(1), d.unwrap_or(1));
        let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
        let days = match mm {
            1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
            4 | 6 | 9 | 11 => 30,
            2 => 28 + leap as usize,
            _ => 0,
        };
        let valid = (1..=12).contains(&mm) && (1..=days).contains(&dd);
        let want = if valid { ref_era(y, mm, dd) } else { None };
        match (want, r) {
            (None, Err(_)) => ok(1),
            (None, Ok(l)) => fail(format!("{y} {m:?} {d:?} is no date of an era but read as {:?} {}", l.era, l.year)),
            (Some(_), Err(_)) if y > 9999 => ok(1),
            (Some(_), Err(e)) => fail(format!("{y} {m:?} {d:?} refused: {e}")),
            (Some((e, ey)), Ok(l)) => {
                let v = serde_json::to_value(&l).map_err(|e| Fail { msg: e.to_string() })?;
                if v["era"] != json!(e) || l.year != ey {
                    return fail(format!("{y} {m:?} {d:?} recorded as {} {}, not {e} {ey}", v["era"], l.year));
                }
                if l.promulgate_month != m || l.promulgate_day != d || v["law_type"] != json!(tyn) || v["lang"] != json!(lang.1) || l.num != num || l.law_num != law_num {
                    return fail(format!("header {:?} {:?} {:?} {:?} {:?} {:?}", l.promulgate_month, l.promulgate_day, l.law_type, l.lang, l.num, l.law_num));
                }
                if text_of(&v["law_body"]["law_title"]["text"]) != title || !v["law_body"]["law_title"]["kana"].is_null() || !v["law_body"]["law_title"]["abbrev"].is_null() || !v["law_body"]["law_title"]["abbrev_kana"].is_null() {
                    return fail(format!("title recorded as {}", v["law_body"]["law_title"]));
                }
                ok(1)
            }
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        format!("years {} and 20 extreme values x months none,0..=14 and 5 overflowing values x days none,0..=33 and 5 overflowing values; 64 header combinations (kind, language, number, law number, title) in 4 years; titles and law numbers from the rich and long texts, numbers 0..=1200 with branches and ranges, for 8 kinds", if tier == Tier::Quick { "1866..=2040" } else { "0..=3000" })
    }
}
