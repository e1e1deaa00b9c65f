//! C25 (JSON round trip), C26 (silence), C27 (no dependence on earlier calls).
use crate::engine::*;
use crate::grammar::*;
use crate::props_doc::{self, pairs, sat_docs};
use crate::props_num;
use crate::props_text;
use crate::props_util::{self, jv};
use crate::props_xml::{self, base_for, chain, Mode};
use crate::xt::{self, N, X};
use japanese_law_xml_schema as jl;
use jl::article_number::{parse_article_number, parse_item_number, split_number, ArticleNumber, ItemPattern};
use jl::law::{Lang, LawType};
use serde_json::Value;
use std::collections::HashSet;
use std::os::fd::AsRawFd;

// ------------------------------------------------------------------------------------------------ C25
/// equal content, attributes in any order
fn canon(x: &mut X) {
    x.attrs.sort();
    for k in x.kids.iter_mut() {
        if let N::E(e) = k {
            canon(e)
        }
    }
}
pub fn canon_xml(s: &str) -> String {
    match xt::read(s) {
        Ok(mut x) => {
            canon(&mut x);
            x.to_xml()
        }
        Err(e) => format!("not well formed: {e}: {s}"),
    }
}
#[derive(Clone)]
pub struct JsS {
    doc: X,
    focus: Vec<usize>,
    mode: Mode,
    huge: Option<String>,
}
pub struct Json;
/// The same JSON, where an absent field stands for nothing.
fn same_json(a: &Value, b: &Value) -> bool {
    let none = |v: &Value| v.is_null() || *v == Value::Bool(false) || v.as_array().is_some_and(|a| a.is_empty());
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            x.iter().all(|(k, v)| y.get(k).map(|w| same_json(v, w)).unwrap_or_else(|| none(v))) && y.iter().all(|(k, v)| x.contains_key(k) || none(v))
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| same_json(v, w)),
        _ => a == b,
    }
}
/// Other values for a place of a law's JSON.
fn other_json(v: &Value) -> Vec<Value> {
    use serde_json::json;
    match v {
        Value::String(s) => vec![json!(""), json!(" "), json!("\u{3000}\n"), json!("x"), json!(format!("{s}{s}")), json!("&<\"\u{1}\u{10ffff}")],
        Value::Number(n) => vec![json!(0), json!(n.as_u64().unwrap_or(0).wrapping_add(1)), json!(u64::MAX)],
        Value::Bool(b) => vec![json!(!b)],
        Value::Null => vec![json!(""), json!(" "), json!(0), json!(true), json!([]), json!({"contents": []}), json!({"base_number": 0, "eda_numbers": [], "range_end_numbers": []})],
        Value::Array(a) => {
            let mut v = vec![json!([])];
            v.push(json!([{"Text": ""}]));
            v.push(json!([{"Text": "あ"}, {"Text": ""}, {"Text": "あ"}]));
            if let (Some(f), Some(l)) = (a.first(), a.last()) {
                let mut b = a.clone();
                b.push(f.clone());
                v.push(b.clone().into());
                b.push(l.clone());
                v.push(b.into());
                v.push(a[1..].to_vec().into());
                v.push(a.iter().rev().cloned().collect::<Vec<_>>().into());
            }
            v
        }
        Value::Object(_) => vec![],
    }
}
fn places(v: &Value, at: &mut String, out: &mut Vec<String>) {
    out.push(at.clone());
    let l = at.len();
    match v {
        Value::Object(m) => {
            for (k, v) in m {
                at.push('/');
                at.push_str(k);
                places(v, at, out);
                at.truncate(l);
            }
        }
        Value::Array(a) => {
            for (i, v) in a.iter().enumerate() {
                at.push_str(&format!("/{i}"));
                places(v, at, out);
                at.truncate(l);
            }
        }
        _ => {}
    }
}
/// Laws that are made in memory: every value of a law's JSON replaced by others.
fn check_made(doc: &str) -> Check {
    let law = props_util::read_law(doc)?;
    let v = jv(&law);
    let mut at = vec![];
    places(&v, &mut String::new(), &mut at);
    let mut n = 0;
    for p in at {
        let old = v.pointer(&p).unwrap().clone();
        for new in other_json(&old) {
            if new == old {
                continue;
            }
            let mut w = v.clone();
            *w.pointer_mut(&p).unwrap() = new.clone();
            let Ok(made) = serde_json::from_value::<jl::law::Law>(w.clone()) else { continue };
            n += 1;
            let e = |what: &str| Fail { msg: format!("the law with {} {new} instead of {old}: {what}", p.replace('/', ".")) };
            let s = serde_json::to_string(&made).map_err(|_| e("cannot be serialised"))?;
            if !same_json(&serde_json::from_str(&s).map_err(|_| e("its JSON is none"))?, &w) {
                return Err(e("is serialised as another law"));
            }
            let back: jl::law::Law = serde_json::from_str(&s).map_err(|x| e(&format!("refused when read back: {x}")))?;
            if back != made || !same_json(&jv(&back), &w) {
                return Err(e("is another law when read back"));
            }
            if made == law && !same_json(&w, &v) {
                return Err(e("is equal to the law before"));
            }
        }
    }
    ok(n)
}
fn check_json(key: &str) -> Check {
    if let Some(doc) = key.strip_prefix('\u{1c}') {
        return check_made(doc);
    }
    let key = &*props_xml::doc_text(key);
    let law = props_util::read_law(key)?;
    let e = |w: &str, e: serde_json::Error| Fail { msg: format!("{w}: {e}") };
    let s = serde_json::to_string(&law).map_err(|x| e("law cannot be serialised", x))?;
    let p = serde_json::to_vec_pretty(&law).map_err(|x| e("law cannot be serialised", x))?;
    let v = serde_json::to_value(&law).map_err(|x| e("law cannot be serialised", x))?;
    let ways: [(&str, Result<jl::law::Law, serde_json::Error>); 4] = [
        ("a JSON string", serde_json::from_str(&s)),
        ("indented JSON bytes", serde_json::from_slice(&p)),
        ("a JSON stream", serde_json::from_reader(s.as_bytes())),
        ("a JSON value", serde_json::from_value(v.clone())),
    ];
    let xml = canon_xml(&jl::to_xml(&law).map_err(|e| Fail { msg: format!("law cannot be written: {e}") })?);
    for (w, r) in ways {
        let l = r.map_err(|x| e(&format!("law refused when read back from {w}"), x))?;
        if l != law {
            return fail(format!("law read back from {w} is not the law serialised: {}", crate::refread::diff(&jv(&l), &v).unwrap_or_else(|| "same JSON".into())));
        }
        let x = canon_xml(&jl::to_xml(&l).map_err(|e| Fail { msg: format!("law from {w} cannot be written: {e}") })?);
        if x != xml {
            return fail(format!("law read back from {w} is written as other XML"));
        }
        if serde_json::to_string(&l).ok().as_deref() != Some(&s) {
            return fail(format!("law read back from {w} serialises differently"));
        }
    }
    // the addresses of extracted texts
    for c in &law.law_body.main_provision.children {
        if let jl::law::MainProvisionContents::Paragraph(p) = c {
            for (ix, _) in jl::utils::text_info_list_from_paragraph(std::slice::from_ref(p)) {
                let r: Result<jl::utils::TextIndex, _> = serde_json::from_str(&serde_json::to_string(&ix).unwrap());
                if r.ok().as_ref() != Some(&ix) {
                    return fail("address of a text does not survive JSON");
                }
            }
        }
    }
    ok(4)
}
impl Model for Json {
    type S = JsS;
    fn roots(&self, tier: Tier) -> Vec<(JsS, usize)> {
        let d = if tier == Tier::Quick { 1 } else { 2 };
        let mut v: Vec<(JsS, usize)> = pairs().into_iter().map(|(doc, focus)| (JsS { doc, focus, mode: Mode::Edit, huge: None }, d)).collect();
        let mut made: Vec<X> = pairs().into_iter().map(|(d, _)| d).collect();
        for n in g().els.keys() {
            let (doc, focus) = base_for(&chain(n));
            made.push(doc.clone());
            v.extend(agreeing(&doc).into_iter().map(|doc| (JsS { doc, focus: focus.clone(), mode: Mode::Edit, huge: None }, 0)));
            let mut rows = subsets(&doc, &focus, if tier == Tier::Quick { 7 } else { 11 });
            pieces_at(&doc, &focus, &mut rows);
            for k in 2..=3 {
                for m in series(&doc, &focus, k) {
                    rows.extend(agreeing(&m));
                    rows.push(m);
                }
            }
            v.extend(rows.into_iter().map(|doc| (JsS { doc, focus: focus.clone(), mode: Mode::Edit, huge: None }, 0)));
            let (dd, df) = dressed(&doc, &focus);
            v.extend(agreeing(&dd).into_iter().map(|doc| (JsS { doc, focus: df.clone(), mode: Mode::Edit, huge: None }, 0)));
            v.push((JsS { doc: dd, focus: df, mode: Mode::Trim, huge: None }, 1));
            v.push((JsS { doc, focus, mode: Mode::Sweep, huge: None }, 1));
            let tiny = X::new("Huge");
            v.extend(props_xml::huge_keys(n, tier).into_iter().map(|k| (JsS { doc: tiny.clone(), focus: vec![], mode: Mode::Sweep, huge: Some(k) }, 0)));
        }
        made.extend(sat_docs(1).into_iter().map(|(d, _)| d));
        v.extend(made.into_iter().map(|d| (JsS { doc: X::new("Made"), focus: vec![], mode: Mode::Sweep, huge: Some(format!("\u{1c}{}", d.to_xml())) }, 0)));
        v.extend(sat_docs(1).into_iter().map(|(doc, focus)| (JsS { doc, focus, mode: Mode::Trim, huge: None }, 1)));
        v.extend(sat_docs(2).into_iter().map(|(doc, focus)| {
            let d = if tier == Tier::Thorough && doc.count() < 300 { 1 } else { 0 };
            (JsS { doc, focus, mode: Mode::Trim, huge: None }, d)
        }));
        v
    }
    fn succ(&self, s: &JsS, out: &mut Vec<JsS>) {
        let mut docs = vec![];
        for p in s.doc.at(&s.focus).all_paths() {
            if p.len() > 1 {
                continue;
            }
            let mut full = s.focus.clone();
            full.extend(&p);
            match s.mode {
                Mode::Sweep => {
                    if p.is_empty() {
                        sweep_at(&s.doc, &full, 1, &mut docs)
                    }
                    continue;
                }
                Mode::Trim => trims_at(&s.doc, &full, &mut docs),
                Mode::Edit | Mode::Pieces => {}
            }
            edits_at(&s.doc, &full, &TEXTS[..if p.is_empty() { 3 } else { 1 }], &mut docs);
        }
        out.extend(docs.into_iter().map(|doc| JsS { doc, focus: s.focus.clone(), mode: s.mode, huge: None }));
    }
    fn key(&self, s: &JsS) -> String {
        if let Some(k) = &s.huge {
            return k.clone();
        }
        s.doc.to_xml()
    }
    fn salt(&self, s: &JsS) -> u64 {
        s.focus.iter().fold(5u64 + s.mode as u64, |a, i| a.wrapping_mul(131).wrapping_add(*i as u64 + 1))
    }
    fn check(&self, key: &str) -> Check {
        check_json(key)
    }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} parent/child contexts of the schema, all documents within {} edits (attributes, children, texts) at the parent and its children; every element with every attribute, text and repetition of the sweeps, saturated with single edits and removals, and with texts and numbers that agree; compact, indented, streamed and in-memory JSON; laws made in memory by putting up to 7 other values at every place of the JSON of one law per context and element and of the saturated ones", pairs().len(), if tier == Tier::Quick { 1 } else { 2 })
    }
}

// ------------------------------------------------------------------------------------------------ C26
/// All states of the other models up to `cap` transitions from their roots; each is executed with file
/// descriptors 1 and 2 redirected.
pub struct Silent {
    keys: std::sync::OnceLock<Vec<(&'static str, Vec<String>)>>,
}
#[derive(Clone)]
pub struct SiS(usize, usize);
fn keys_of<M: Model>(m: &M, cap: usize, max_len: usize) -> Vec<String> {
    let mut seen = HashSet::new();
    let mut keys = vec![];
    let mut kset = HashSet::new();
    let mut fr: Vec<(M::S, usize)> = m.roots(Tier::Quick).into_iter().map(|(s, d)| (s, d.min(cap))).collect();
    let mut next = vec![];
    while let Some((s, d)) = fr.pop() {
        let k = m.key(&s);
        if !seen.insert((k.clone(), m.salt(&s), d)) {
            continue;
        }
        if k.len() <= max_len && kset.insert(k.clone()) {
            keys.push(k);
        }
        if d > 0 {
            next.clear();
            m.succ(&s, &mut next);
            fr.extend(next.drain(..).map(|t| (t, d - 1)));
        }
    }
    keys
}
macro_rules! silent_models {
    ($f:ident, $id:expr, $($a:expr),*) => {
        match $id {
            "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" => $f(&props_xml::model($id), $($a),*),
            "C08" => $f(&props_doc::Spell, $($a),*),
            "C09" => $f(&props_doc::Broken, $($a),*),
            "C11" => $f(&props_doc::Sinks::new(), $($a),*),
            "C12" => $f(&props_num::Attr, $($a),*),
            "C13" => $f(&props_num::Prov, $($a),*),
            "C14" => $f(&props_num::Label, $($a),*),
            "C15" => $f(&props_num::Recog, $($a),*),
            "C16" => $f(&props_text::c16().bare(), $($a),*),
            "C17" => $f(&props_text::c17().bare(), $($a),*),
            "C18" => $f(&props_text::c18(), $($a),*),
            "C19" => $f(&props_text::Dates, $($a),*),
            "C20" => $f(&props_text::c20().bare(), $($a),*),
            "C21" => $f(&props_util::Tree { toc: false }, $($a),*),
            "C22" => $f(&props_util::Tree { toc: true }, $($a),*),
            "C23" => $f(&props_util::Extract, $($a),*),
            "C24" => $f(&props_util::Render, $($a),*),
            "C25" => $f(&Json, $($a),*),
            _ => unreachable!(),
        }
    };
}
/// model, most transitions from its initial states (quick, thorough)
const PARTS: &[(&str, usize, usize)] = &[
    ("C01", 1, 2), ("C02", 1, 2), ("C03", 1, 1), ("C04", 1, 2), ("C05", 1, 1), ("C06", 1, 1), ("C07", 1, 1), ("C08", 0, 1), ("C09", 1, 1),
    ("C11", 0, 0), ("C12", 1, 3), ("C13", 1, 2), ("C14", 1, 2), ("C15", 1, 2), ("C16", 2, 3), ("C17", 2, 3), ("C18", 2, 3), ("C19", 1, 2),
    ("C20", 2, 3), ("C21", 1, 2), ("C22", 1, 2), ("C23", 1, 2), ("C24", 2, 3), ("C25", 0, 1),
];
const CHUNK: usize = 64;
fn chunk(part: usize) -> usize {
    if part < PARTS.len() { CHUNK } else { 1 }
}
/// Documents of these models also go through every listing, extraction and rendering function.
fn exercised(id: &str) -> bool {
    matches!(id, "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C25")
}
fn run_check<M: Model>(m: &M, k: &str) -> bool {
    matches!(m.check(k), Ok(_))
}
/// Descriptors 1 and 2 of the exploring process, redirected to one memory file for its whole life.
struct Capture {
    file: std::fs::File,
    /// readers execute library code; the writer is alone and finds out which call printed
    lock: std::sync::RwLock<()>,
}
fn capture() -> &'static Capture {
    static C: std::sync::OnceLock<Capture> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let fd = unsafe { libc::memfd_create(c"silence".as_ptr(), 0) };
        assert!(fd >= 0);
        let file: std::fs::File = unsafe { std::os::fd::FromRawFd::from_raw_fd(fd) };
        unsafe {
            libc::fcntl(fd, libc::F_SETFL, libc::O_APPEND);
            ERR_FD.store(libc::dup(2), std::sync::atomic::Ordering::Relaxed);
            libc::dup2(file.as_raw_fd(), 1);
            libc::dup2(file.as_raw_fd(), 2);
        }
        Capture { file, lock: std::sync::RwLock::new(()) }
    })
}
impl Capture {
    fn printed(&self) -> bool {
        use std::io::Write;
        std::io::stdout().flush().ok();
        self.file.metadata().unwrap().len() > 0
    }
    fn take(&self) -> String {
        use std::os::unix::fs::FileExt;
        use std::io::Write;
        std::io::stdout().flush().ok();
        let mut b = vec![0; 200];
        let n = self.file.read_at(&mut b, 0).unwrap_or(0);
        self.file.set_len(0).unwrap();
        String::from_utf8_lossy(&b[..n]).to_string()
    }
}
impl Silent {
    pub fn new() -> Silent {
        Silent { keys: std::sync::OnceLock::new() }
    }
    /// The states per model; after them, one by one, the compact keys of the huge ones.
    fn all(&self, tier: Tier) -> &Vec<(&'static str, Vec<String>)> {
        self.keys.get_or_init(|| {
            let mut all: Vec<(&'static str, Vec<String>)> = std::thread::scope(|sc| {
                let hs: Vec<_> = PARTS
                    .iter()
                    .map(|(id, q, t)| {
                        let cap = if tier == Tier::Quick { *q } else { *t };
                        let h = sc.spawn(move || {
                            let k: Vec<String> = silent_models!(keys_of, *id, cap, if tier == Tier::Quick { 3_000 } else { 20_000 });
                            k
                        });
                        (*id, h)
                    })
                    .collect();
                hs.into_iter().map(|(id, h)| (id, h.join().expect("enumerating states"))).collect()
            });
            let mut huge = vec![];
            let mut seen = HashSet::new();
            for (id, k) in &mut all {
                let (h, small): (Vec<String>, Vec<String>) = std::mem::take(k).into_iter().partition(|k| k.starts_with('\u{4}'));
                *k = small;
                // the models of documents share theirs
                huge.push((*id, h.into_iter().filter(|k| seen.insert(k.clone())).collect()));
            }
            all.extend(huge);
            all
        })
    }
}
impl Model for Silent {
    type S = SiS;
    fn roots(&self, tier: Tier) -> Vec<(SiS, usize)> {
        let mut v = vec![];
        for (i, (_, k)) in self.all(tier).iter().enumerate() {
            v.extend((0..k.len().div_ceil(chunk(i))).map(|j| (SiS(i, j), 0)));
        }
        v
    }
    fn succ(&self, _s: &SiS, _out: &mut Vec<SiS>) {}
    fn key(&self, s: &SiS) -> String {
        let (id, k) = &self.keys.get().unwrap()[s.0];
        let c = chunk(s.0);
        let e = ((s.1 + 1) * c).min(k.len());
        format!("{id}\u{2}{}", k[s.1 * c..e].join("\u{3}"))
    }
    fn check(&self, key: &str) -> Check {
        let (id, ks) = key.split_once('\u{2}').unwrap();
        let ks: Vec<&str> = ks.split('\u{3}').collect();
        let c = capture();
        let dirty = {
            let _r = c.lock.read().unwrap();
            for k in &ks {
                let _ = guard(|| silent_models!(run_check, id, k));
                if exercised(id) || (*id == *"C01" && k.starts_with('\u{4}')) {
                    props_util::exercise(k)
                }
            }
            c.printed()
        };
        if dirty {
            let _w = c.lock.write().unwrap();
            c.take();
            for k in &ks {
                let _ = guard(|| silent_models!(run_check, id, k));
                if exercised(id) || (*id == *"C01" && k.starts_with('\u{4}')) {
                    props_util::exercise(k)
                }
                if c.printed() {
                    let out = c.take();
                    return fail(format!("the library printed {out:?} in state {}", k.chars().take(600).collect::<String>()));
                }
            }
        }
        ok(ks.len() as u64)
    }
    fn bounds(&self, tier: Tier) -> String {
        let t = tier == Tier::Quick;
        format!(
            "the states of the other models within these numbers of transitions of their initial states, executed (in batches of {CHUNK}) with stdout and stderr captured: {}",
            PARTS.iter().map(|(i, q, d)| format!("{i}<={}", if t { q } else { d })).collect::<Vec<_>>().join(" ")
        )
    }
}

// ------------------------------------------------------------------------------------------------ C27
type Op = (&'static str, Box<dyn Fn() -> String + Send + Sync>);
pub struct History {
    ops: Vec<Op>,
    want: Vec<String>,
    pools: Vec<Pool>,
    probes: Pool,
}
/// The written bytes, except for the order of the attributes of a tag.
pub fn loose(xml: &str) -> String {
    let mut out = Vec::with_capacity(xml.len());
    let mut tag = None;
    for b in xml.bytes() {
        out.push(b);
        match (b, tag) {
            (b'<', _) => tag = Some(out.len()),
            (b'>', Some(i)) => {
                out[i..].sort_unstable();
                tag = None
            }
            _ => {}
        }
    }
    String::from_utf8_lossy(&out).to_string()
}
pub fn law_str(r: jl::result::Result<jl::law::Law>) -> String {
    match r {
        Ok(l) => format!("{} {}", serde_json::to_string(&l).unwrap_or_else(|e| e.to_string()), jl::to_xml(&l).map(|x| loose(&x)).unwrap_or_else(|e| format!("Err {e}"))),
        Err(e) => format!("Err {e}"),
    }
}
pub fn listings(xml: &str) -> String {
    let Ok(l) = jl::parse_xml(xml.as_bytes()) else { return "refused".into() };
    let b = &l.law_body;
    let mut s = String::new();
    let (a, p) = jl::utils::with_number_article_list_from_main_provision(&b.main_provision);
    for w in &a {
        s += &format!("{} {:?} {:?};", jv(&w.get_article()), jv(&w.get_part()), jv(&w.get_chapter()));
    }
    s += &jv(&p).to_string();
    s += &jv(&jl::utils::article_list_from_main_provision(&b.main_provision)).to_string();
    for t in jl::utils::toc_list_from_main_provision(&b.main_provision) {
        s += &format!("{t:?}")
    }
    for q in &b.suppl_provision {
        s += &jv(&jl::utils::article_list_from_suppl_provision(q)).to_string();
        for t in jl::utils::toc_list_from_suppl_provision(q) {
            s += &format!("{t:?}")
        }
    }
    for w in &a {
        let a = w.get_article();
        s += &jl::utils::text_from_article(&a);
        s += &jv(&jl::utils::text_info_list_from_paragraph(&a.paragraph)).to_string();
    }
    s
}
fn num_str(s: &str) -> String {
    format!("{:?} {:?} {:?}", parse_article_number(s), parse_item_number(s), split_number(s))
}
struct FailAt(usize);
impl std::io::Write for FailAt {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::ErrorKind::StorageFull.into());
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Runs `f` in a forked child that has made no library call yet.
pub fn in_child(f: impl FnOnce() -> String) -> Result<String, String> {
    use std::io::{Read, Write};
    let mut p = [0i32; 2];
    assert_eq!(unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(p[0]);
        }
        let r = guard(f).unwrap_or_else(|p| format!("panic: {p}"));
        let mut o: std::fs::File = unsafe { std::os::fd::FromRawFd::from_raw_fd(p[1]) };
        let ok = o.write_all(r.as_bytes()).is_ok();
        drop(o);
        unsafe { libc::_exit(if ok { 0 } else { 1 }) }
    }
    unsafe { libc::close(p[1]) };
    let mut i: std::fs::File = unsafe { std::os::fd::FromRawFd::from_raw_fd(p[0]) };
    let mut v = vec![];
    i.read_to_end(&mut v).unwrap();
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    if st != 0 {
        return Err(format!("process ended with status {st:#x}"));
    }
    Ok(String::from_utf8_lossy(&v).to_string())
}


/// Groups of operations on similar inputs; every ordered pair of a group is executed.
pub struct Pool {
    name: String,
    inputs: Vec<String>,
    f: fn(&str) -> String,
    want: std::sync::OnceLock<Vec<String>>,
    /// executed after each operation, besides the group itself
    probes: bool,
}
fn op_num(s: &str) -> String {
    let w = match ArticleNumber::from_num_str(s) {
        Ok(n) => format!("{} {} {} {} {} {} {} {}", n.num_str(), n.part_text(), n.chapter_text(), n.section_text(), n.article_text(), n.paragraph_text(), n.item_text(ItemPattern::NoParenKansuji), n.item_text(ItemPattern::ParenZenkakuRomanLower)),
        Err(e) => e.to_string(),
    };
    format!("{} {w}", num_str(s))
}
fn op_xml(s: &str) -> String {
    law_str(jl::parse_xml(s.as_bytes()))
}
fn op_list(s: &str) -> String {
    listings(s)
}
fn op_text(s: &str) -> String {
    law_str(jl::parse_text(s, 2001, Some(2), Some(8), LawType::Act, Lang::Ja, None, "平成元年法律第一号".into(), "題"))
}
fn op_date(s: &str) -> String {
    let v: Vec<usize> = s.split(' ').map(|x| x.parse().unwrap()).collect();
    let o = |n: usize| if n == 99 { None } else { Some(n) };
    let ty = [LawType::Act, LawType::Misc][v[3] % 2].clone();
    let num = if v[3] > 1 { ArticleNumber::from_num_str("3_2").ok() } else { None };
    law_str(jl::parse_text("第一条　x", v[0], o(v[1]), o(v[2]), ty, Lang::Ja, num, format!("番号{}", v[3]), if v[3] % 3 == 0 { "題" } else { "名" }))
}
fn pools() -> Vec<Pool> {
    let mut v = vec![];
    let mut add = |name: String, inputs: Vec<String>, f: fn(&str) -> String, probes: bool| {
        let mut seen = HashSet::new();
        let inputs: Vec<String> = inputs.into_iter().filter(|i| seen.insert(i.clone())).collect();
        v.push(Pool { name, inputs, f, want: std::sync::OnceLock::new(), probes })
    };
    // numbers in every notation
    let mut n: Vec<String> = ["", "第条", "第", "条", "の", "から", "x", "１の", "第一条の", "第九九条", "（", "（）", "（１", "ｉｉｉｉ", "（ん）", "第一編第二章", "一　x", "（１）　x", "第一条　x", "1", "12_3", "4:6", "2_1:3_9", "1_x", "+1", "削除"].iter().map(|s| s.to_string()).collect();
    for k in (1..=12).chain([20, 21, 50, 99, 100, 101, 256, 1000]) {
        for u in ["編", "章", "節", "款", "目", "条", "項", "号"] {
            n.push(format!("第{}{u}", props_num::kanji(k)));
        }
        n.push(format!("第{}条", props_num::zen(k)));
        n.push(format!("第{k}条"));
        n.push(format!("{k}"));
        n.push(props_num::zen(k));
        n.push(props_num::kanji(k));
        n.push(format!("（{}）", props_num::zen(k)));
        n.push(format!("第{}条の二", props_num::kanji(k)));
        n.push(format!("第{}条の三の四", props_num::kanji(k)));
        n.push(format!("第一条の{}", props_num::kanji(k)));
        n.push(format!("第{}条から第{}条まで", props_num::kanji(k), props_num::kanji(k + 2)));
        for st in props_num::STYLES {
            if let Some(l) = props_num::numeral(st, k) {
                n.push(format!("（{l}）"));
                n.push(format!("{l}の二"));
                n.push(l);
            }
        }
    }
    add("N".into(), n, op_num, false);
    // every element: its shortest document, each attribute with good and bad values, each child, missing,
    // misplaced and unknown children
    for name in g().els.keys() {
        let (doc, focus) = base_for(&chain(name));
        let mut d = vec![doc.to_xml()];
        let mut docs = vec![];
        edits_at(&doc, &focus, &TEXTS[..1], &mut docs);
        if let Some(e) = el(name) {
            for at in &e.attrs {
                for bad in ["", "TRUE", "true", "1", "x", "-1", "1_x", "\u{3000}"] {
                    let mut b = doc.clone();
                    b.at_mut(&focus).set_attr(at.xml, bad);
                    docs.push(b);
                }
                let mut b = doc.clone();
                b.at_mut(&focus).attrs.retain(|a| a.0 != at.xml);
                docs.push(b);
            }
        }
        let kids = doc.at(&focus).kids.len();
        for i in 0..kids {
            let mut b = doc.clone();
            b.at_mut(&focus).kids.remove(i);
            docs.push(b);
        }
        let mut b = doc.clone();
        b.at_mut(&focus).kids.push(N::E(X::new("Unknown")));
        docs.push(b);
        d.extend(docs.iter().map(|d| d.to_xml()));
        d.push(d[0][..d[0].rfind("</").unwrap()].to_string());
        d.retain(|d| d.len() < 20_000);
        add(format!("D:{name}"), d, op_xml, true);
    }
    // listings of small trees of provisions
    let mut d = vec![];
    for p in ["MainProvision", "SupplProvision", "Part", "Chapter", "Section", "Subsection", "Division", "Article", "Paragraph", "Item", "Table"] {
        let (doc, focus) = base_for(&chain(p));
        d.push(doc.to_xml());
        let mut docs = vec![];
        edits_at(&doc, &focus, &TEXTS[..1], &mut docs);
        d.extend(docs.iter().map(|d| d.to_xml()));
    }
    add("L".into(), d, op_list, false);
    // plain texts
    let mut t: Vec<String> = vec![String::new()];
    for l in props_text::FULL.iter().chain(props_text::ODD).chain(props_text::ITEMS) {
        t.push(l.to_string());
        t.push(format!("第一条　甲。\n{l}\n第二条　乙。"));
    }
    add("T".into(), t, op_text, false);
    let mut t = vec![];
    for y in [1867, 1868, 1900, 1912, 1926, 1945, 1988, 1989, 2000, 2001, 2019, 2020, 3000] {
        for (m, d) in [(99, 99), (1, 1), (1, 7), (1, 8), (2, 29), (2, 30), (4, 30), (5, 1), (7, 30), (12, 25), (13, 1), (0, 0)] {
            t.push(format!("{y} {m} {d} {}", t.len() % 4));
        }
    }
    add("Y".into(), t, op_date, false);
    v
}
/// A few small documents that hold every element of the schema.
fn probe_docs() -> Vec<String> {
    fn names(x: &X, o: &mut HashSet<String>) {
        o.insert(x.name.clone());
        for k in &x.kids {
            if let N::E(e) = k {
                names(e, o)
            }
        }
    }
    let mut left: HashSet<String> = g().els.keys().map(|s| s.to_string()).collect();
    let docs: Vec<(X, HashSet<String>)> = sat_docs(1)
        .into_iter()
        .map(|(d, _)| {
            let mut o = HashSet::new();
            names(&d, &mut o);
            (d, o)
        })
        .collect();
    let mut out = vec![];
    while !left.is_empty() {
        let Some((d, o)) = docs.iter().max_by_key(|(d, o)| o.intersection(&left).count() * 1000 / (20 + d.count())).filter(|(_, o)| o.intersection(&left).count() > 0) else { break };
        left.retain(|x| !o.contains(x));
        out.push(d.to_xml());
    }
    out
}
impl Pool {
    fn want(&self) -> &Vec<String> {
        self.want.get_or_init(|| self.inputs.iter().map(|i| in_child(|| (self.f)(i)).unwrap_or_else(|e| format!("died: {e}"))).collect())
    }
}
fn differs(what: &str, g: &str, want: &str) -> String {
    let at = g.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
    let sh = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(20).min(s.len())..(at + 60).min(s.len())]).to_string();
    format!("{what} gives ..{}.. instead of ..{}.. as in a fresh process", sh(g), sh(want))
}
fn short(s: &str) -> String {
    let t: String = s.chars().rev().take(300).collect();
    t.chars().rev().collect()
}

const TEXT_A: &str = "前文。\n第一編　総則\n第一章　通則\n（目的）\n第一条　甲。\n２　乙。\n一　丙\nイ　丁\n（１）　戊\n附則\n１　己。";
const TEXT_B: &str = "前文。\n第二編　総則\n第三章　通則\n（目的）\n第四条　甲。\n３　乙。\n二　丙\nロ　丁\n（２）　戊\n附則\n２　己。";
const TEXT_BAD: &str = "第一条　甲。\n一　丙\n（ｉ）　辛\n第一編　総則\n第一目　迷子\n";
const TEXT_DEEP: &str = "第一条　x\n一　a\nイ　b\n（１）　c\n（ｉ）　d\nａ　e\n（イ）　f\n二　g\n（見出し）\n第二条　y\n２　z";
impl History {
    pub fn new() -> History {
        let mut docs = vec![];
        {
            let ch = ["Law", "LawBody", "MainProvision", "Part", "Chapter", "Article", "Paragraph", "Item", "Subitem1"];
            let (x, _) = base_for(&ch);
            let mut y = x.clone();
            // same header and shape, other numbers
            let p = base_for(&ch[..6]).1;
            y.at_mut(&p).set_attr("Num", "99_2");
            y.at_mut(&p[..p.len() - 1]).set_attr("Num", "7:9");
            docs.push(x.to_xml());
            docs.push(y.to_xml());
            let (z, _) = base_for(&chain("SupplProvisionAppdxTable"));
            docs.push(z.to_xml());
            let (z, _) = base_for(&chain("ArithFormulaNum"));
            docs.push(z.to_xml());
        }
        let cut = docs[0][..docs[0].len() * 2 / 3].to_string();
        let odd = docs[0].replace("<Item ", "<Itme ").replace("</Item>", "</Itme>");
        let badnum = docs[1].replace("99_2", "99_x");
        let mut ops: Vec<Op> = vec![];
        for (n, d) in [("read law 1", docs[0].clone()), ("read law 2 (same header)", docs[1].clone()), ("read law 3", docs[2].clone()), ("read law 4", docs[3].clone()), ("read torn law", cut), ("read law with unknown element", odd), ("read law with bad number", badnum)] {
            ops.push((n, Box::new(move || law_str(jl::parse_xml(d.as_bytes())))));
        }
        for (n, d) in [("list law 1", docs[0].clone()), ("list law 2", docs[1].clone()), ("list law 3", docs[2].clone())] {
            ops.push((n, Box::new(move || listings(&d))));
        }
        let d = docs[0].clone();
        ops.push((
            "write law 1 to a full disk",
            Box::new(move || {
                let l = jl::parse_xml(d.as_bytes()).unwrap();
                (0..12).map(|k| format!("{}", jl::write_file(&l, &mut FailAt(k * 61)).is_ok())).collect()
            }),
        ));
        let txt = |t: &'static str, y: usize, m: Option<usize>, title: &'static str| -> Box<dyn Fn() -> String + Send + Sync> {
            Box::new(move || law_str(jl::parse_text(t, y, m, Some(8), LawType::Act, Lang::Ja, None, "平成元年法律第一号".into(), title)))
        };
        ops.push(("text A", txt(TEXT_A, 2001, Some(2), "題")));
        ops.push(("text B", txt(TEXT_B, 2001, Some(2), "題")));
        ops.push(("text A in 1989", txt(TEXT_A, 1989, Some(1), "題")));
        ops.push(("text A on a bad date", txt(TEXT_A, 2001, Some(13), "題")));
        ops.push(("text with misplaced line", txt(TEXT_BAD, 2001, Some(2), "題")));
        ops.push(("text with deep items", txt(TEXT_DEEP, 2001, Some(2), "名")));
        ops.push(("empty text", txt("", 2001, None, "")));
        for n in ["第一条の二", "第二条の二", "第二条", "第条", "（ｉ）", "（ｊ）", "イ", "第三章から第五章まで", "（１）　イ"] {
            ops.push((n, Box::new(move || num_str(n))));
        }
        ops.push((
            "numbers written and read",
            Box::new(|| {
                let mut s = String::new();
                for t in ["1", "12_3", "4:6", "2_1:3_9", "x", ""] {
                    match ArticleNumber::from_num_str(t) {
                        Ok(n) => {
                            s += &format!("{} {} {} {} {} {};", n.num_str(), n.part_text(), n.chapter_text(), n.section_text(), n.article_text(), n.paragraph_text())
                        }
                        Err(e) => s += &format!("{e};"),
                    }
                }
                let n = ArticleNumber::from_num_str("3").unwrap();
                for p in [ItemPattern::NoParenKansuji, ItemPattern::NoParenIrohaKatakana, ItemPattern::ParenZenkakuRomanLower] {
                    s += &n.item_text(p);
                }
                s
            }),
        ));
        install_panic_hook();
        let want = ops.iter().map(|o| in_child(|| (o.1)()).unwrap_or_else(|e| format!("died: {e}"))).collect();
        let probes = Pool { name: "probes".into(), inputs: probe_docs(), f: op_xml, want: std::sync::OnceLock::new(), probes: false };
        History { ops, want, pools: pools(), probes }
    }
    fn check_pool(&self, key: &str) -> Check {
        let p: Vec<&str> = key.split('\u{1}').collect();
        let pool = self.pools.iter().find(|x| x.name == p[1]).ok_or(Fail { msg: "harness: no such group".into() })?;
        let n: usize = p[2].parse().unwrap();
        let want = pool.want();
        let probes = if pool.probes { Some(self.probes.want()) } else { None };
        let len = pool.inputs.len();
        let run = |pool: &Pool, want: &[String], j: usize, after: &str| -> Result<(), String> {
            let g = guard(|| (pool.f)(&pool.inputs[j])).unwrap_or_else(|p| format!("panic: {p}"));
            if g != want[j] {
                return Err(differs(&format!("input {:?} after {after}", short(&pool.inputs[j])), &g, &want[j]));
            }
            Ok(())
        };
        let mut steps = 0;
        let r = in_child(|| {
            let all = || -> Result<u64, String> {
                let mut k = 0;
                if p[0] == "stutter" {
                    // every input a number of times in a row
                    for j in 0..len {
                        for t in 0..n {
                            run(pool, want, j, &format!("{t} times the same"))?;
                            k += 1;
                        }
                    }
                    return Ok(k);
                }
                if p[0] == "laps" {
                    for lap in 0..n {
                        for j in 0..len {
                            let j = if lap % 2 == 0 { j } else { len - 1 - j };
                            run(pool, want, j, &format!("{k} operations on similar inputs"))?;
                            k += 1;
                        }
                    }
                    return Ok(k);
                }
                let after = format!("input {:?}", short(&pool.inputs[n]));
                for j in 0..len {
                    run(pool, want, n, "the others")?;
                    run(pool, want, j, &after)?;
                    k += 2;
                }
                if let Some(w) = probes {
                    for j in 0..w.len() {
                        run(pool, want, n, "the others")?;
                        run(&self.probes, w, j, &after)?;
                        k += 2;
                    }
                }
                Ok(k)
            };
            match all() {
                Ok(k) => format!("ok {k}"),
                Err(e) => e,
            }
        });
        match r {
            Ok(s) => match s.strip_prefix("ok ") {
                Some(k) => steps += k.parse::<u64>().unwrap(),
                None => return fail(s),
            },
            Err(e) => return fail(e),
        }
        ok(steps)
    }
    fn parse(key: &str) -> Vec<(usize, usize)> {
        key.split_whitespace()
            .map(|t| match t.split_once('x') {
                Some((a, b)) => (a.parse().unwrap(), b.parse().unwrap()),
                None => (t.parse().unwrap(), 1),
            })
            .collect()
    }
}
#[derive(Clone)]
pub enum HiS {
    Seq(Vec<(usize, usize)>),
    /// every operation of a pool after one of it
    Row(usize, usize),
    /// all operations of a pool, this many times in turn, forwards and backwards
    Laps(usize, usize),
    Stutter(usize, usize),
}
impl Model for History {
    type S = HiS;
    fn roots(&self, tier: Tier) -> Vec<(HiS, usize)> {
        let mut v = vec![(HiS::Seq(vec![]), if tier == Tier::Quick { 3 } else { 4 })];
        // long runs of one operation, then everything else
        for i in 0..self.ops.len() {
            v.push((HiS::Seq(vec![(i, 300)]), 1));
            v.push((HiS::Seq(vec![(i, 20)]), if tier == Tier::Quick { 1 } else { 2 }));
            v.push((HiS::Seq(vec![(i, if tier == Tier::Quick { 3000 } else { 70_000 })]), 0));
        }
        for (p, pool) in self.pools.iter().enumerate() {
            v.extend((0..pool.inputs.len()).map(|i| (HiS::Row(p, i), 0)));
            v.push((HiS::Laps(p, if tier == Tier::Quick { 5 } else { 100 }), 0));
            v.push((HiS::Stutter(p, if tier == Tier::Quick { 12 } else { 300 }), 0));
        }
        v
    }
    fn succ(&self, s: &HiS, out: &mut Vec<HiS>) {
        let HiS::Seq(s) = s else { return };
        for i in 0..self.ops.len() {
            let mut v = s.clone();
            v.push((i, 1));
            out.push(HiS::Seq(v));
        }
    }
    fn key(&self, s: &HiS) -> String {
        match s {
            HiS::Seq(s) => s.iter().map(|(i, n)| if *n == 1 { format!("{i}") } else { format!("{i}x{n}") }).collect::<Vec<_>>().join(" "),
            HiS::Row(p, i) => format!("row\u{1}{}\u{1}{i}", self.pools[*p].name),
            HiS::Stutter(p, n) => format!("stutter\u{1}{}\u{1}{n}", self.pools[*p].name),
            HiS::Laps(p, n) => format!("laps\u{1}{}\u{1}{n}", self.pools[*p].name),
        }
    }
    fn check(&self, key: &str) -> Check {
        if key.starts_with(['r', 'l', 's']) {
            return self.check_pool(key);
        }
        let seq = History::parse(key);
        let r = in_child(|| {
            for (k, (i, n)) in seq.iter().enumerate() {
                for _ in 0..*n {
                    let g = guard(|| (self.ops[*i].1)()).unwrap_or_else(|p| format!("panic: {p}"));
                    if g != self.want[*i] {
                        let before: Vec<&str> = seq[..k].iter().map(|(i, _)| self.ops[*i].0).collect();
                        return differs(&format!("{:?} after {before:?}", self.ops[*i].0), &g, &self.want[*i]);
                    }
                }
            }
            "ok".into()
        });
        match r.as_deref() {
            Ok("ok") => ok(seq.iter().map(|s| s.1 as u64).sum()),
            Ok(m) => fail(m),
            Err(e) => fail(e.clone()),
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        let d = if tier == Tier::Quick { 3 } else { 4 };
        format!(
            "all sequences of <={d} of {} operations (reading, refused reading, writing, failing writing, listing, structuring, numbers), each in its own process forked before any library call; runs of 20 and 300 of one operation followed by every other, runs of {}; every ordered pair, and {} laps forwards and backwards, and runs of {} of every input in a row, within {} groups of {} similar inputs in all (numbers in every notation; for each schema element its shortest document with every attribute good, bad and missing, every child, missing and unknown children; listings; texts; dates), and every such document before {} documents that hold all elements",
            self.ops.len(),
            if tier == Tier::Quick { 3000 } else { 70_000 },
            if tier == Tier::Quick { 5 } else { 100 },
            if tier == Tier::Quick { 12 } else { 300 },
            self.pools.len(),
            self.pools.iter().map(|p| p.inputs.len()).sum::<usize>(),
            self.probes.inputs.len()
        )
    }
}
