//! C12-C15: numbers in attributes, in legal text and in item labels.
//! The reference is written from the writing conventions of Japanese statutes, not from the library.
use crate::engine::*;
use crate::xt::{self, X};
use japanese_law_xml_schema as jl;
use jl::article_number::{parse_article_number, parse_item_number, split_number, ArticleNumber, ItemPattern};
use std::sync::OnceLock;

pub fn an(base: usize, eda: &[usize], end: &[usize]) -> ArticleNumber {
    ArticleNumber { base_number: base, eda_numbers: eda.to_vec(), range_end_numbers: end.to_vec() }
}
fn show(n: &ArticleNumber) -> String {
    format!("{}{:?}..{:?}", n.base_number, n.eda_numbers, n.range_end_numbers)
}

// -- reference numerals ---------------------------------------------------------------------------
pub fn kanji(n: usize) -> String {
    assert!((1..=9999).contains(&n));
    let d = ["", "一", "二", "三", "四", "五", "六", "七", "八", "九"];
    let mut s = String::new();
    for (v, u) in [(1000, "千"), (100, "百"), (10, "十"), (1, "")] {
        let k = n / v % 10;
        if k > 0 {
            if k > 1 || u.is_empty() {
                s += d[k];
            }
            s += u;
        }
    }
    s
}
pub fn zen(n: usize) -> String {
    n.to_string().chars().map(|c| char::from_u32('０' as u32 + c as u32 - '0' as u32).unwrap()).collect()
}
pub const IROHA: &str = "イロハニホヘトチリヌルヲワカヨタレソツネナラムウヰノオクヤマケフコエテアサキユメミシヱヒモセス";
pub fn iroha(n: usize, hira: bool) -> Option<String> {
    let c = IROHA.chars().nth(n.checked_sub(1)?)?;
    Some(if hira { char::from_u32(c as u32 - 0x60).unwrap().to_string() } else { c.to_string() })
}
pub fn roman(n: usize) -> String {
    let mut n = n;
    let mut s = String::new();
    for (v, t) in [(1000, "M"), (900, "CM"), (500, "D"), (400, "CD"), (100, "C"), (90, "XC"), (50, "L"), (40, "XL"), (10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")] {
        while n >= v {
            s += t;
            n -= v;
        }
    }
    s
}
fn romans() -> &'static std::collections::HashMap<String, usize> {
    static R: OnceLock<std::collections::HashMap<String, usize>> = OnceLock::new();
    R.get_or_init(|| (1..=3999).map(|n| (roman(n), n)).collect())
}
fn wide(s: &str, lower: bool) -> String {
    s.chars().map(|c| char::from_u32(c as u32 - 'A' as u32 + if lower { 'ａ' as u32 } else { 'Ａ' as u32 }).unwrap()).collect()
}
pub fn letters(n: usize) -> String {
    let mut n = n;
    let mut v = vec![];
    while n > 0 {
        n -= 1;
        v.push((b'A' + (n % 26) as u8) as char);
        n /= 26;
    }
    v.iter().rev().collect()
}
/// Is this (ASCII upper case) label a roman numeral rather than letters?
fn reads_as_roman(s: &str) -> Option<usize> {
    let n = *romans().get(s)?;
    (s.len() > 1 || ["I", "V", "X"].contains(&s)).then_some(n)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style {
    Kanji,
    Kata,
    Hira,
    Zen,
    RomanU,
    RomanL,
    Upper,
    Lower,
}
use Style::*;
pub const STYLES: [Style; 8] = [Kanji, Kata, Hira, Zen, RomanU, RomanL, Upper, Lower];
pub fn style_max(s: Style) -> usize {
    match s {
        Kanji => 9999,
        Kata | Hira => 47,
        Zen => 99999,
        RomanU | RomanL => 3999,
        Upper | Lower => 20000,
    }
}
/// Numeral of n in the style, None where the style has none or the numeral would read as another style.
pub fn numeral(s: Style, n: usize) -> Option<String> {
    if n == 0 || n > style_max(s) {
        return None;
    }
    Some(match s {
        Kanji => kanji(n),
        Kata => iroha(n, false)?,
        Hira => iroha(n, true)?,
        Zen => zen(n),
        RomanU | RomanL => {
            let r = roman(n);
            reads_as_roman(&r)?;
            wide(&r, s == RomanL)
        }
        Upper | Lower => {
            let r = letters(n);
            if reads_as_roman(&r).is_some() {
                return None;
            }
            wide(&r, s == Lower)
        }
    })
}
pub fn pattern(s: Style, paren: bool) -> ItemPattern {
    use ItemPattern::*;
    match (s, paren) {
        (Kanji, false) => NoParenKansuji,
        (Kata, false) => NoParenIrohaKatakana,
        (Hira, false) => NoParenIrohaHiragana,
        (Zen, false) => NoParenZenkakuNum,
        (RomanU, false) => NoParenZenkakuRomanUpper,
        (RomanL, false) => NoParenZenkakuRomanLower,
        (Upper, false) => NoParenZenkakuUpper,
        (Lower, false) => NoParenZenkakuLower,
        (Kanji, true) => ParenKansuji,
        (Kata, true) => ParenIrohaKatakana,
        (Hira, true) => ParenIrohaHiragana,
        (Zen, true) => ParenZenkakuNum,
        (RomanU, true) => ParenZenkakuRomanUpper,
        (RomanL, true) => ParenZenkakuRomanLower,
        (Upper, true) => ParenZenkakuUpper,
        (Lower, true) => ParenZenkakuLower,
    }
}

// -- C12 -------------------------------------------------------------------------------------------
pub struct Attr;
#[derive(Clone)]
pub enum AS {
    Num(Vec<usize>, Vec<usize>),
    Text(String),
}
const VALS: [usize; 9] = [0, 1, 2, 9, 10, 99, 100, u32::MAX as usize, usize::MAX];
const CH12: [&str; 16] = ["0", "1", "9", "_", ":", "-", "+", ".", " ", "a", "１", "一", "の", ",", "\u{660}", "x"];

fn ref_attr_num(s: &str) -> Result<ArticleNumber, bool> {
    // Err(true): leading zero or plus sign only, which the statement leaves open
    let mut open = false;
    let mut list = |s: &str| -> Option<Vec<usize>> {
        s.split('_')
            .map(|p| {
                let q = match p.strip_prefix('+') {
                    Some(q) => {
                        open = true;
                        q
                    }
                    None => p,
                };
                if q.is_empty() || !q.bytes().all(|b| b.is_ascii_digit()) {
                    return None;
                }
                if q.len() > 1 && q.starts_with('0') {
                    open = true;
                }
                let v: Option<usize> = q.parse().ok();
                v
            })
            .collect()
    };
    let (a, b) = match s.split_once(':') {
        Some((a, b)) => (a, Some(b)),
        None => (s, None),
    };
    let Some(a) = list(a) else { return Err(false) };
    let b = match b {
        None => vec![],
        Some(b) => match list(b) {
            Some(b) => b,
            None => return Err(false),
        },
    };
    if open {
        return Err(true);
    }
    Ok(an(a[0], &a[1..], &b))
}
fn attr_doc(v: &str) -> String {
    static D: OnceLock<String> = OnceLock::new();
    let d = D.get_or_init(|| {
        let (mut d, p) = crate::props_xml::base_for(&crate::props_xml::chain("Item"));
        for i in 1..=p.len() {
            let e = d.at_mut(&p[..i]);
            if e.attr("Num").is_some() {
                e.set_attr("Num", "@@@");
            }
            if ["MainProvision", "LawBody"].contains(&e.name.as_str()) {
                continue;
            }
        }
        let e = d.at_mut(&p);
        e.set_attr("Num", "@@@");
        d.to_xml()
    });
    d.replace("@@@", v)
}
fn attrs_named(x: &X, v: &str, out: &mut u64, bad: &mut u64, want: &X) {
    // compare Num attributes of the two trees position by position
    if let Some(w) = want.attr("Num") {
        if w == v {
            *out += 1;
            if x.attr("Num") != Some(v) {
                *bad += 1;
            }
        }
    }
    let k = |x: &X| x.kids.iter().filter_map(|k| if let xt::N::E(e) = k { Some(e.clone()) } else { None }).collect::<Vec<_>>();
    for (a, b) in k(x).iter().zip(k(want).iter()) {
        attrs_named(a, v, out, bad, b);
    }
}

/// Numbers with many parts: (own number with branches, end of range with branches)
pub fn long_lists() -> Vec<(Vec<usize>, Vec<usize>)> {
    let mut v = vec![];
    for k in (3..=13).chain([16, 17, 20, 32, 33, 40]) {
        let up: Vec<usize> = (1..=k).collect();
        let same = vec![7; k];
        let tens: Vec<usize> = (1..=k).map(|x| x * 10).collect();
        for l in [&up, &same, &tens] {
            v.push((l.clone(), vec![]));
            v.push((l.clone(), vec![9]));
            v.push((l.clone(), l.clone()));
            v.push((vec![1], l.clone()));
            v.push((vec![1, 2], l.clone()));
        }
        let mut a = vec![1; k];
        a[k - 1] = 2;
        v.push((vec![1; k], a.clone()));
        v.push((a, vec![]));
    }
    v
}
impl Model for Attr {
    type S = AS;
    fn roots(&self, tier: Tier) -> Vec<(AS, usize)> {
        let mut v: Vec<(AS, usize)> = VALS.iter().map(|n| (AS::Num(vec![*n], vec![]), if tier == Tier::Quick { 4 } else { 6 })).collect();
        v.push((AS::Text(String::new()), if tier == Tier::Quick { 4 } else { 6 }));
        for s in ["1_2", "1:2", "1_2:3_4", "10_99:100", "18446744073709551615", "18446744073709551616", "1_18446744073709551616", "1:99999999999999999999", "1_2_3:4_5_6"] {
            v.push((AS::Text(s.into()), if tier == Tier::Quick { 2 } else { 3 }));
        }
        let m = if tier == Tier::Quick { 5_000 } else { 100_000 };
        let mut ns: Vec<usize> = (0..m).collect();
        for k in 3..20 {
            let p = 10usize.saturating_pow(k);
            ns.extend([p - 1, p, p + 1]);
        }
        for k in 8..64 {
            let p = 1usize << k;
            ns.extend([p - 1, p, p + 1]);
        }
        for n in ns {
            v.push((AS::Num(vec![n], vec![]), 0));
            v.push((AS::Num(vec![5, n], vec![]), 0));
            v.push((AS::Num(vec![5], vec![n]), 0));
            v.push((AS::Num(vec![n, 2], vec![n, 3]), 0));
        }
        v.extend(long_lists().into_iter().map(|(a, e)| (AS::Num(a, e), 0)));
        for c in odd_chars() {
            for t in ["1", "12_3", "4:6", "2_1:3_9"] {
                let cs: Vec<char> = t.chars().collect();
                for i in 0..=cs.len() {
                    let mut x = cs.clone();
                    x.insert(i, c);
                    v.push((AS::Text(x.iter().collect()), 0));
                }
            }
        }
        v
    }
    fn succ(&self, s: &AS, out: &mut Vec<AS>) {
        match s {
            AS::Num(a, e) => {
                for n in VALS {
                    if e.is_empty() && a.len() < 4 {
                        let mut b = a.clone();
                        b.push(n);
                        out.push(AS::Num(b, vec![]));
                    }
                    if e.len() < 3 {
                        let mut f = e.clone();
                        f.push(n);
                        out.push(AS::Num(a.clone(), f));
                    }
                }
            }
            AS::Text(t) => {
                for c in CH12 {
                    out.push(AS::Text(format!("{t}{c}")));
                    if !t.is_empty() {
                        out.push(AS::Text(format!("{c}{t}")));
                    }
                }
                // inner edits of the longer roots
                if t.len() > 2 && t.is_ascii() {
                    for i in 1..t.len() {
                        out.push(AS::Text(format!("{}{}", &t[..i], &t[i + 1..])));
                        for c in ["_", ":", "0", "1", "-", " "] {
                            out.push(AS::Text(format!("{}{c}{}", &t[..i], &t[i..])));
                        }
                    }
                }
            }
        }
    }
    fn key(&self, s: &AS) -> String {
        match s {
            AS::Num(a, e) => format!("N:{}", serde_json::json!([a, e])),
            AS::Text(t) => format!("T:{t}"),
        }
    }
    fn check(&self, key: &str) -> Check {
        if let Some(j) = key.strip_prefix("N:") {
            let (a, e): (Vec<usize>, Vec<usize>) = serde_json::from_str(j).unwrap();
            let n = an(a[0], &a[1..], &e);
            let join = |v: &[usize]| v.iter().map(|n| n.to_string()).collect::<Vec<_>>().join("_");
            let want = if e.is_empty() { join(&a) } else { format!("{}:{}", join(&a), join(&e)) };
            let got = n.num_str();
            if got != want {
                return fail(format!("num_str of {} is {got:?}, not {want:?}", show(&n)));
            }
            let r = ArticleNumber::from_num_str(&want).map_err(|e| Fail { msg: format!("{want:?} refused: {e}") })?;
            let r2: ArticleNumber = want.parse().map_err(|e| Fail { msg: format!("{want:?} refused by parse: {e}") })?;
            if r != n || r2 != n {
                return fail(format!("{want:?} read as {} / {}", show(&r), show(&r2)));
            }
            return xml_attr(&want, true, 4);
        }
        let t = key.strip_prefix("T:").unwrap();
        let want = ref_attr_num(t);
        let r = ArticleNumber::from_num_str(t).ok();
        let r2 = t.parse::<ArticleNumber>().ok();
        if r != r2 {
            return fail(format!("from_num_str and parse differ on {t:?}"));
        }
        match (want, r) {
            (Ok(w), Some(r)) if w == r => {
                if r.num_str() != t {
                    return fail(format!("{t:?} is written back as {:?}", r.num_str()));
                }
                xml_attr(t, true, 3)
            }
            (Ok(w), Some(r)) => fail(format!("{t:?} read as {}, not {}", show(&r), show(&w))),
            (Ok(_), None) => fail(format!("{t:?} refused")),
            (Err(true), _) => ok(2),
            (Err(false), None) => {
                if t.is_empty() {
                    return ok(2);
                }
                xml_attr(t, false, 3)
            }
            (Err(false), Some(r)) => fail(format!("{t:?} is no number but read as {}", show(&r))),
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        let d = if tier == Tier::Quick { (4, 2) } else { (6, 3) };
        format!("numbers with <=3 branch numbers and <=3 range components from {VALS:?} (<=1+{} components); all strings of <={} of 16 characters and <={} edits of 9 longer ones; numbers 0..=5000 (thorough 100000), powers of 2 and 10 and their neighbours, and up to 40 branch numbers, in every place; ~480 characters inserted at every place of 4 numbers; each through from_num_str, parse, num_str and the Num attributes of Article, Paragraph and Item in a document", d.0, d.0, d.1)
    }
}
fn xml_attr(v: &str, valid: bool, n: u64) -> Check {
    let mut esc = String::new();
    for c in v.chars() {
        esc.push(c)
    }
    let doc = attr_doc(&esc);
    match jl::parse_xml(doc.as_bytes()) {
        Ok(law) => {
            if !valid {
                return fail(format!("document with Num={v:?} accepted"));
            }
            let out = jl::to_xml(&law).map_err(|e| Fail { msg: format!("not writable: {e}") })?;
            let (a, b) = (xt::read(&out).map_err(|m| Fail { msg: m })?, xt::read(&doc).unwrap());
            let (mut c, mut bad) = (0, 0);
            attrs_named(&a, v, &mut c, &mut bad, &b);
            if bad > 0 || c == 0 {
                return fail(format!("Num={v:?} is not written back at {bad} of {c} places"));
            }
            ok(n + c)
        }
        Err(e) => {
            if valid {
                return fail(format!("document with Num={v:?} refused: {e}"));
            }
            ok(n)
        }
    }
}

// -- C13 -------------------------------------------------------------------------------------------
const KINDS: [&str; 9] = ["編", "章", "節", "款", "目", "条", "項", "号", ""];
const DSTYLE: [&str; 3] = ["漢", "全", "半"];
fn dnum(style: usize, n: usize) -> String {
    match style {
        0 => kanji(n),
        1 => zen(n),
        _ => n.to_string(),
    }
}
pub fn prov_text(kind: usize, style: usize, sep: &str, a: &[usize], e: &[usize]) -> String {
    let one = |v: &[usize]| {
        let mut s = if kind == 8 { dnum(style, v[0]) } else { format!("第{}{}", dnum(style, v[0]), KINDS[kind]) };
        for n in &v[1..] {
            s += sep;
            s += &dnum(style, *n);
        }
        s
    };
    if e.is_empty() {
        one(a)
    } else {
        format!("{}から{}まで", one(a), one(e))
    }
}
/// Characters to put at any place of a number.
pub fn odd_chars() -> Vec<char> {
    let mut v: Vec<char> = (' '..='~').collect();
    v.extend(['\t', '\n', '\r', '\u{a0}', '\u{ad}', '\u{85}', '\u{200b}', '\u{200d}', '\u{2028}', '\u{2060}', '\u{feff}', '\u{fe0f}', '\u{20dd}', '\u{3099}']);
    v.extend('\u{3000}'..='\u{30ff}');
    v.extend('\u{ff00}'..='\u{ffef}');
    v.extend("①⑩ⅠⅡⅣⅰⅱⅴ②㈠㊀⒈Ⅹ壱弐参肆拾廿卅万億兆零〇○◯一二三四五六七八九十百千第編章節款目条項号の及ひ又又並附則抄削除表別図様式―－‐–—・…".chars());
    v
}
pub struct Prov;
#[derive(Clone)]
pub struct PS {
    kind: usize,
    style: usize,
    sep: usize,
    a: Vec<usize>,
    e: Vec<usize>,
    max: usize,
}
const EDA: [usize; 13] = [1, 2, 3, 9, 10, 11, 12, 20, 21, 100, 111, 1001, 9999];
impl Model for Prov {
    type S = PS;
    fn roots(&self, tier: Tier) -> Vec<(PS, usize)> {
        let max = if tier == Tier::Quick { 1200 } else { 9999 };
        let mut v = vec![];
        for kind in 0..9 {
            for style in 0..3 {
                if kind == 8 && style == 0 {
                    continue;
                }
                for sep in 0..2 {
                    v.push((PS { kind, style, sep, a: vec![1], e: vec![], max }, max + 6));
                    let mut put = |a: Vec<usize>, e: Vec<usize>| v.push((PS { kind, style, sep, a, e, max: 0 }, 0));
                    for (a, e) in long_lists() {
                        put(a, e)
                    }
                    let w = if tier == Tier::Quick { 40 } else { 200 };
                    for a in 1..=w {
                        for e in 1..=w {
                            put(vec![a], vec![e]);
                            if a <= 12 && e <= 12 {
                                put(vec![a, e], vec![a, e]);
                                put(vec![a, e], vec![e]);
                                put(vec![a], vec![a, e]);
                                put(vec![3, a], vec![3, e]);
                                put(vec![a, 2], vec![e, 2]);
                            }
                        }
                    }
                    let m = if tier == Tier::Thorough || kind == 5 { 9999 } else if kind == 8 { 3000 } else { 300 };
                    for n in 1..=m {
                        put(vec![n], vec![]);
                        put(vec![4, n], vec![]);
                        put(vec![4], vec![n]);
                        put(vec![4, 2], vec![4, n]);
                    }
                    if style > 0 {
                        // in digits also zero and numbers as large as there are
                        let mut ns = vec![0usize];
                        for k in 4..20 {
                            let p = 10usize.pow(k);
                            ns.extend([p - 1, p, p + 1]);
                        }
                        for k in 14..64 {
                            let p = 1usize << k;
                            ns.extend([p - 1, p, p + 1]);
                        }
                        ns.extend([usize::MAX - 1, usize::MAX]);
                        ns.extend(10_000..if tier == Tier::Quick { 10_300 } else { 100_000 });
                        for n in ns {
                            put(vec![n], vec![]);
                            put(vec![n, n], vec![]);
                            put(vec![4, n], vec![]);
                            put(vec![4, 2, n], vec![]);
                            put(vec![4, n, 2], vec![]);
                            put(vec![4], vec![n]);
                            put(vec![4], vec![n, 2]);
                            put(vec![4, 2], vec![4, n]);
                            put(vec![n, 2], vec![n, n]);
                        }
                    }
                }
            }
        }
        v
    }
    fn succ(&self, s: &PS, out: &mut Vec<PS>) {
        let mut p = |f: &dyn Fn(&mut PS)| {
            let mut t = s.clone();
            f(&mut t);
            out.push(t);
        };
        if s.a.len() == 1 && s.e.is_empty() && s.a[0] < s.max {
            p(&|t| t.a[0] += 1);
        }
        let edge = s.a[0] <= 12 || [20, 21, 99, 100, 101, 110, 111, 999, 1000, 1001, 1010, 1100].contains(&s.a[0]);
        if s.a.len() - 1 + s.e.len() >= if edge && s.max > 2000 { 4 } else if edge { 3 } else { 2 } {
            return;
        }
        if s.e.is_empty() && s.a.len() < if edge { 4 } else { 2 } {
            for n in if edge || s.max > 2000 { &EDA[..] } else { &EDA[1..6] } {
                p(&|t| t.a.push(*n));
            }
        }
        if s.e.is_empty() && s.a.len() < 4 {
            for n in [s.a[0], s.a[0] + 1, 20, 105, 9999] {
                if n <= 9999 {
                    p(&|t| t.e.push(n));
                }
            }
        }
        if !s.e.is_empty() && s.e.len() < if edge { 4 } else { 2 } {
            for n in [1, 2, 10, 13, 110] {
                if edge && (s.e.len() < 3 || n < 10) {
                    p(&|t| t.e.push(n));
                }
            }
        }
    }
    fn key(&self, s: &PS) -> String {
        serde_json::json!([s.kind, s.style, s.sep, s.a, s.e]).to_string()
    }
    fn check(&self, key: &str) -> Check {
        let (kind, style, sep, a, e): (usize, usize, usize, Vec<usize>, Vec<usize>) = serde_json::from_str(key).unwrap();
        let n = an(a[0], &a[1..], &e);
        let t = prov_text(kind, style, ["の", "ノ"][sep], &a, &e);
        match parse_article_number(&t) {
            Some(r) if r == n => {}
            r => return fail(format!("{t:?} ({}) read as {:?}", DSTYLE[style], r.map(|r| show(&r)))),
        }
        let own = match kind {
            0 => n.part_text(),
            1 => n.chapter_text(),
            2 => n.section_text(),
            3 => n.subsection_text(),
            4 => n.division_text(),
            5 => n.article_text(),
            8 => n.paragraph_text(),
            _ => return ok(1),
        };
        if sep == 0 && style == if kind == 8 { 1 } else { 0 } {
            if own != t {
                return fail(format!("own text of {} is {own:?}, not {t:?}", show(&n)));
            }
            match parse_article_number(&own) {
                Some(r) if r == n => return ok(3),
                r => return fail(format!("own text {own:?} read as {:?}", r.map(|r| show(&r)))),
            }
        }
        ok(1)
    }
    fn bounds(&self, tier: Tier) -> String {
        format!("9 provision kinds x 3 numeral styles x 2 separators; base 1..={}; <=3 branch numbers from {EDA:?}; range ends from 5 values with branch numbers; together <=2 such additions (<=3, thorough <=4, at 24 base values); own text form compared and re-read; all ranges within 1..=40 (thorough 200); branch numbers, range ends and their branches 1..=9999 (articles; fewer for the others), up to 40 branch numbers; in digits also zero, 10000 and more, and the neighbours of the powers of 2 and 10, in every place", if tier == Tier::Quick { 1200 } else { 9999 })
    }
}

// -- C14 -------------------------------------------------------------------------------------------
pub struct Label;
#[derive(Clone)]
pub struct LS {
    st: usize,
    paren: bool,
    /// style of branch numbers: 0 = same as the base, 1 = kanji, 2 = full-width digits
    es: usize,
    a: Vec<usize>,
    e: Vec<usize>,
    max: usize,
    deep: bool,
}
pub fn label(st: Style, paren: bool, es: usize, a: &[usize], e: &[usize]) -> Option<String> {
    let one = |v: &[usize]| -> Option<String> {
        let b = numeral(st, v[0])?;
        let mut s = if paren { format!("（{b}）") } else { b };
        for n in &v[1..] {
            s += "の";
            s += &numeral([st, Kanji, Zen][es], *n)?;
        }
        Some(s)
    };
    Some(if e.is_empty() { one(a)? } else { format!("{}から{}まで", one(a)?, one(e)?) })
}
impl Model for Label {
    type S = LS;
    fn roots(&self, tier: Tier) -> Vec<(LS, usize)> {
        let mut v = vec![];
        for st in 0..8 {
            for paren in [false, true] {
                for es in 0..3 {
                    let m = style_max(STYLES[st]);
                    let m = if tier == Tier::Quick { m.min(1500) } else { m };
                    v.push((LS { st, paren, es, a: vec![1], e: vec![], max: m, deep: tier == Tier::Thorough }, m + 6));
                    let mut put = |a: Vec<usize>, e: Vec<usize>| v.push((LS { st, paren, es, a, e, max: 0, deep: false }, 0));
                    for (a, e) in long_lists() {
                        put(a, e)
                    }
                    let w = if tier == Tier::Quick { 40 } else { 200 };
                    for a in 1..=w {
                        for e in 1..=w {
                            put(vec![a], vec![e]);
                            if a <= 12 && e <= 12 {
                                put(vec![a, e], vec![a, e]);
                                put(vec![a, e], vec![e]);
                                put(vec![a], vec![a, e]);
                                put(vec![3, a], vec![3, e]);
                            }
                        }
                    }
                    for n in 1..=if tier == Tier::Quick { 1000 } else { 9999 } {
                        put(vec![4, n], vec![]);
                        put(vec![4], vec![n]);
                        put(vec![4, 2], vec![4, n]);
                    }
                }
            }
        }
        v
    }
    fn succ(&self, s: &LS, out: &mut Vec<LS>) {
        let mut p = |f: &dyn Fn(&mut LS)| {
            let mut t = s.clone();
            f(&mut t);
            out.push(t);
        };
        if s.a.len() == 1 && s.e.is_empty() && s.a[0] < s.max {
            p(&|t| t.a[0] += 1);
        }
        let edge = s.a[0] <= 27 || [49, 50, 90, 99, 100, 101, 400, 702, 703, 999, 1000, 1001, 3999].contains(&s.a[0]);
        if s.a.len() - 1 + s.e.len() >= if edge && s.deep { 4 } else if edge { 3 } else { 2 } {
            return;
        }
        if s.e.is_empty() && s.a.len() < if edge { 3 } else { 2 } {
            for n in [1, 2, 3, 9, 10, 20, 26, 33, 47] {
                p(&|t| t.a.push(n));
            }
        }
        if s.e.is_empty() {
            for n in [1, s.a[0] + 1, 4, 26, 47, 100] {
                p(&|t| t.e.push(n));
            }
        } else if s.e.len() < if edge { 3 } else { 2 } {
            for n in [1, 2, 3, 26] {
                p(&|t| t.e.push(n));
            }
        }
    }
    fn key(&self, s: &LS) -> String {
        serde_json::json!([s.st, s.paren, s.es, s.a, s.e]).to_string()
    }
    fn check(&self, key: &str) -> Check {
        let (st, paren, es, a, e): (usize, bool, usize, Vec<usize>, Vec<usize>) = serde_json::from_str(key).unwrap();
        let Some(t) = label(STYLES[st], paren, es, &a, &e) else { return ok(0) };
        let pat = pattern(STYLES[st], paren);
        let Some(r) = parse_item_number(&t) else { return fail(format!("label {t:?} not recognised")) };
        if r.base_number != a[0] || r.eda_numbers != a[1..] || r.range_end_numbers != e || r.pattern != pat || r.str != t {
            return fail(format!("label {t:?} read as {r:?}"));
        }
        let n = ArticleNumber::from_item_number(&r);
        if n != an(a[0], &a[1..], &e) {
            return fail(format!("number of label {t:?} is {}", show(&n)));
        }
        if es == 0 {
            let own = n.item_text(pat);
            if own != t {
                return fail(format!("own label of {} in {pat:?} is {own:?}, not {t:?}", show(&n)));
            }
            return ok(3);
        }
        ok(2)
    }
    fn bounds(&self, tier: Tier) -> String {
        format!("16 numbering styles, numbers 1..={} of each style (iroha 47, roman 3999), branch numbers in the same style, kanji or digits (<=2 from 9 values), range ends from 6 values with <=2 branch numbers; together <=2 such additions (<=3, thorough <=4, at 40 base values); all ranges within 1..=40 (thorough 200); branch numbers and range ends 1..=1000 and lists of up to 40; ambiguous single letters excluded by rule; own label compared", if tier == Tier::Quick { "1500" } else { "style maximum (kanji 9999, letters 20000, digits 99999)" })
    }
}

// -- C15 -------------------------------------------------------------------------------------------
#[derive(Debug, PartialEq)]
pub enum Rec<T> {
    No,
    /// must be this value
    Must(T),
    /// this value or nothing
    May(T),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum NK {
    Ascii,
    Zen,
    Kanji,
}
/// Longest numeral at the start: (kind, value if it is one, canonical, rest)
fn take_num(s: &str) -> Option<(NK, Option<usize>, bool, &str)> {
    let c = s.chars().next()?;
    let run = |f: fn(char) -> bool| {
        let i = s.find(|c| !f(c)).unwrap_or(s.len());
        (&s[..i], &s[i..])
    };
    if c.is_ascii_digit() {
        let (a, r) = run(|c| c.is_ascii_digit());
        return Some((NK::Ascii, a.parse().ok(), !a.starts_with('0'), r));
    }
    if ('０'..='９').contains(&c) {
        let (a, r) = run(|c| ('０'..='９').contains(&c));
        let b: String = a.chars().map(|c| char::from_u32(c as u32 - '０' as u32 + 48).unwrap()).collect();
        return Some((NK::Zen, b.parse().ok(), !a.starts_with('０'), r));
    }
    if "一二三四五六七八九十百千".contains(c) {
        let (a, r) = run(|c| "一二三四五六七八九十百千".contains(c));
        let (v, canon) = kanji_value(a);
        return Some((NK::Kanji, v, canon, r));
    }
    None
}
/// Value of a kanji numeral (<= 9999) and whether it is in the usual form (no 一 before 十/百/千)
fn kanji_value(s: &str) -> (Option<usize>, bool) {
    let d = |c: char| "一二三四五六七八九".chars().position(|x| x == c).map(|i| i + 1);
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut v = 0;
    let mut canon = true;
    for (u, m) in [('千', 1000), ('百', 100), ('十', 10)] {
        if i + 1 < cs.len() && cs[i + 1] == u && d(cs[i]).is_some() {
            let k = d(cs[i]).unwrap();
            if k == 1 {
                canon = false;
            }
            v += k * m;
            i += 2;
        } else if i < cs.len() && cs[i] == u {
            v += m;
            i += 1;
        }
    }
    if i < cs.len() {
        if let Some(k) = d(cs[i]) {
            v += k;
            i += 1;
        }
    }
    if i == cs.len() {
        (Some(v), canon)
    } else {
        (None, canon)
    }
}
fn take_suffix(s: &str) -> Option<(char, &str)> {
    let c = s.chars().next()?;
    "編章節款目条項号".contains(c).then(|| (c, &s[c.len_utf8()..]))
}
pub fn rec_article(s: &str) -> Rec<ArticleNumber> {
    let mut strict = true;
    let mut kind: Option<NK> = None;
    let mut sep: Option<char> = None;
    let mut none = false; // some numeral has no value
    fn num<'a>(s: &'a str, kind: &mut Option<NK>, strict: &mut bool, none: &mut bool) -> Option<(usize, &'a str)> {
        let (k, v, canon, r) = take_num(s)?;
        if kind.map(|x| x != k).unwrap_or(false) || !canon {
            *strict = false;
        }
        *kind = Some(k);
        if v.is_none() {
            *none = true;
        }
        if v == Some(0) {
            *strict = false;
        }
        Some((v.unwrap_or(0), r))
    }
    let mut suffix = None;
    let mut first = None;
    let mut part = |s: &mut &str, second: bool| -> Option<Vec<usize>> {
        let mut t = *s;
        let dai = t.strip_prefix('第');
        t = dai.unwrap_or(t);
        let (b, r) = num(t, &mut kind, &mut strict, &mut none)?;
        let mut v = vec![b];
        t = r;
        let mut bare = false;
        match take_suffix(t) {
            Some((c, r)) => {
                if dai.is_none() {
                    if second {
                        return None;
                    }
                    strict = false;
                }
                if suffix.map(|x| x != c).unwrap_or(false) {
                    strict = false;
                }
                suffix = Some(c);
                t = r;
            }
            None => {
                if dai.is_some() {
                    return None;
                }
                bare = true;
            }
        }
        if first.map(|f| f != bare).unwrap_or(false) {
            return None;
        }
        first = Some(bare);
        loop {
            let Some(c) = t.chars().next() else { break };
            if c != 'の' && c != 'ノ' {
                break;
            }
            if sep.map(|x| x != c).unwrap_or(false) {
                strict = false;
            }
            sep = Some(c);
            let (n, r) = num(&t[c.len_utf8()..], &mut kind, &mut strict, &mut none)?;
            v.push(n);
            t = r;
        }
        *s = t;
        Some(v)
    };
    let mut t = s;
    let Some(a) = part(&mut t, false) else { return Rec::No };
    let mut e = vec![];
    if let Some(r) = t.strip_prefix("から") {
        t = r;
        match part(&mut t, true) {
            Some(v) => e = v,
            None => return Rec::No,
        }
        match t.strip_prefix("まで") {
            Some(r) => t = r,
            None => return Rec::No,
        }
    }
    if !t.is_empty() || none {
        return Rec::No;
    }
    // a bare number (of a paragraph) is written in digits
    if first == Some(true) && s.chars().any(|c| "一二三四五六七八九十百千".contains(c)) {
        return Rec::No;
    }
    let n = an(a[0], &a[1..], &e);
    if strict {
        Rec::Must(n)
    } else {
        Rec::May(n)
    }
}
type Lab = (ArticleNumber, ItemPattern);
pub fn rec_item(s: &str) -> Rec<Lab> {
    let t0 = s.trim();
    let mut strict = t0 == s;
    fn core(s: &str) -> Option<(Style, Option<usize>, bool, &str)> {
        let c = s.chars().next()?;
        let run = |lo: char, hi: char| {
            let i = s.find(|c| c < lo || c > hi).unwrap_or(s.len());
            (&s[..i], &s[i..])
        };
        if ('ａ'..='ｚ').contains(&c) || ('Ａ'..='Ｚ').contains(&c) {
            let lower = c >= 'ａ';
            let (lo, hi) = if lower { ('ａ', 'ｚ') } else { ('Ａ', 'Ｚ') };
            let (a, r) = run(lo, hi);
            let t: String = a.chars().map(|c| char::from_u32(c as u32 - lo as u32 + 65).unwrap()).collect();
            if let Some(n) = reads_as_roman(&t) {
                return Some((if lower { RomanL } else { RomanU }, Some(n), true, r));
            }
            let v = t.bytes().try_fold(0usize, |n, b| n.checked_mul(26)?.checked_add((b - 64) as usize));
            return Some((if lower { Lower } else { Upper }, v, true, r));
        }
        let kat = |c: char| ('ア'..='ン').contains(&c) as usize + 2 * ('あ'..='ん').contains(&c) as usize;
        match kat(c) {
            1 => return Some((Kata, IROHA.chars().position(|x| x == c).map(|i| i + 1), true, &s[c.len_utf8()..])),
            2 => {
                let k = char::from_u32(c as u32 + 0x60).unwrap();
                return Some((Hira, IROHA.chars().position(|x| x == k).map(|i| i + 1), true, &s[c.len_utf8()..]));
            }
            _ => {}
        }
        let (k, v, canon, r) = take_num(s)?;
        match k {
            NK::Ascii => None,
            NK::Zen => Some((Zen, v, canon && v != Some(0), r)),
            NK::Kanji => Some((Kanji, v, canon, r)),
        }
    }
    let mut none = false;
    let mut pat: Option<(Style, bool)> = None;
    let mut part = |s: &mut &str| -> Option<Vec<usize>> {
        let mut v = vec![];
        let mut t = *s;
        loop {
            let paren = t.starts_with('（');
            if paren {
                t = &t['（'.len_utf8()..];
            }
            let (st, n, canon, r) = core(t)?;
            t = r;
            if paren {
                t = t.strip_prefix('）')?;
            }
            if n.is_none() {
                none = true;
            }
            if !canon {
                strict = false;
            }
            match (pat, v.is_empty()) {
                (None, _) => pat = Some((st, paren)),
                (Some(p), true) => {
                    if p != (st, paren) {
                        strict = false;
                    }
                }
                (Some(p), false) => {
                    if paren || (st != p.0 && st != Kanji && st != Zen) {
                        strict = false;
                    }
                }
            }
            v.push(n.unwrap_or(0));
            match t.strip_prefix('の') {
                Some(r) => t = r,
                None => break,
            }
        }
        *s = t;
        Some(v)
    };
    let mut t = t0;
    let Some(a) = part(&mut t) else { return Rec::No };
    let mut e = vec![];
    if let Some(r) = t.strip_prefix("から") {
        t = r;
        match part(&mut t) {
            Some(v) => e = v,
            None => return Rec::No,
        }
        match t.strip_prefix("まで") {
            Some(r) => t = r,
            None => return Rec::No,
        }
    }
    if !t.is_empty() || none {
        return Rec::No;
    }
    let p = pat.unwrap();
    let r = (an(a[0], &a[1..], &e), pattern(p.0, p.1));
    if strict {
        Rec::Must(r)
    } else {
        Rec::May(r)
    }
}
fn is_sep(c: char) -> bool {
    c.is_whitespace()
}
pub fn check_split(s: &str) -> Check {
    let r = guard(|| split_number(s)).map_err(|p| Fail { msg: format!("splitting {s:?} panics: {p}") })?;
    if s.contains('\n') || s.contains('\r') {
        return ok(1);
    }
    let trimmed = s.trim_end_matches(is_sep);
    let lead = s.starts_with(is_sep);
    match r {
        Some((a, b)) => {
            if a.is_empty() || a.contains(is_sep) || b.is_empty() {
                return fail(format!("{s:?} split into {a:?} and {b:?}"));
            }
            let mid = s.trim_start_matches(is_sep).strip_prefix(a.as_str()).and_then(|r| r.strip_suffix(b.as_str()));
            match mid {
                Some(m) if !m.is_empty() && m.chars().all(is_sep) => {}
                _ => {
                    // the rest may have lost spaces at its end only
                    let ok_rest = s.trim_start_matches(is_sep).strip_prefix(a.as_str()).map(|r| r.starts_with(is_sep) && r.trim() == b.trim()).unwrap_or(false);
                    if !ok_rest {
                        return fail(format!("{s:?} split into {a:?} and {b:?}"));
                    }
                }
            }
            if b.trim() != b && !b.trim().is_empty() && b.trim_start() != b {
                return fail(format!("{s:?} split into {a:?} and {b:?}: separating spaces kept"));
            }
            ok(2)
        }
        None => {
            if !lead && trimmed.contains(is_sep) {
                return fail(format!("{s:?} not split"));
            }
            ok(2)
        }
    }
}
const TOK: [&str; 42] = [
    "第", "編", "条", "項", "号", "の", "ノ", "から", "まで", "一", "二", "九", "十", "百", "千", "万", "〇", "0", "1", "9", "０", "１", "９", "イ", "ン", "ァ", "い", "ん", "か", "ａ", "ｉ", "ｘ", "Ａ", "Ｖ", "Ｚ", "（", "）", "(", " ", "　", "\n", "漢",
];
const SEEDS: [&str; 26] = [
    "第一条", "第百二十三条の二", "第十編から第千九十条まで", "第１章の２の３", "第2節ノ3", "１の２", "12から15の3まで", "第一条の二から第三条の四まで", "（一）", "（ｉｖ）の二", "イからハまで", "イの二からロの三まで", "いのの", "Ａの２", "ＸＬＩＩ", "ｄｃ", "第九千九百九十九項の九千九百九十九",
    "第99999999999999999999条", "第９９９９９９９９９９９９９９９９９９９９条", "99999999999999999999の1", "１の９９９９９９９９９９９９９９９９９９９９", "ＺＺＺＺＺＺＺＺＺＺＺＺＺＺＺＺ", "（９９９９９９９９９９９９９９９９９９９９９９）", "第千千千条", "一　あ い", "第一条　あ",
];
#[derive(Clone)]
pub struct RS {
    v: Vec<String>,
    edit: bool,
}
pub struct Recog;
pub fn split_tokens(s: &str) -> Vec<String> {
    s.chars().map(|c| c.to_string()).collect()
}
const WHOLE: [&str; 12] = ["第三節", "第四款の二", "第五目", "三", "（三）", "（イ）", "ハ", "は", "Ｂ", "（ｃ）", "３　x", "第三条から第五条まで　x"];
impl Model for Recog {
    type S = RS;
    fn roots(&self, tier: Tier) -> Vec<(RS, usize)> {
        let mut v = vec![(RS { v: vec![], edit: false }, if tier == Tier::Quick { 4 } else { 5 })];
        for s in SEEDS.into_iter().chain(WHOLE) {
            let cs: Vec<char> = s.chars().collect();
            for c in odd_chars() {
                for i in 0..=cs.len() {
                    let mut x = cs.clone();
                    x.insert(i, c);
                    v.push((RS { v: vec![x.iter().collect()], edit: false }, 0));
                    if i < cs.len() {
                        x.remove(i + 1);
                        v.push((RS { v: vec![x.iter().collect()], edit: false }, 0));
                    }
                    let mut x = cs.clone();
                    x.insert(i, c);
                    x.insert(i, c);
                    v.push((RS { v: vec![x.iter().collect()], edit: false }, 0));
                }
                // around the whole
                for d in ["。", "、", ")", "）", "」", "]", "】", " ", "　"] {
                    v.push((RS { v: vec![format!("{c}{s}{d}")], edit: false }, 0));
                }
            }
            for n in [1usize, 2, 3, 10, 100, 1000, 20000] {
                for t in ["一", "九", "千", "イ", "い", "１", "1", "ｉ", "Ａ", "第", "（", "の", "から", "　"] {
                    for i in [0, cs.len() / 2, cs.len()] {
                        let x: String = cs[..i].iter().collect::<String>() + &t.repeat(n) + &cs[i..].iter().collect::<String>();
                        v.push((RS { v: vec![x], edit: false }, 0));
                    }
                }
            }
            v.push((RS { v: split_tokens(s), edit: true }, if s.chars().count() < 12 && tier == Tier::Thorough { 2 } else if s.chars().count() < 8 { 2 } else { 1 }));
        }
        v
    }
    fn succ(&self, s: &RS, out: &mut Vec<RS>) {
        if !s.edit {
            for t in TOK {
                let mut v = s.v.clone();
                v.push(t.into());
                out.push(RS { v, edit: false });
            }
            return;
        }
        for i in 0..=s.v.len() {
            for t in TOK {
                let mut v = s.v.clone();
                v.insert(i, t.into());
                out.push(RS { v, edit: true });
                if i < s.v.len() {
                    let mut v = s.v.clone();
                    v[i] = t.into();
                    out.push(RS { v, edit: true });
                }
            }
            if i < s.v.len() {
                let mut v = s.v.clone();
                v.remove(i);
                out.push(RS { v, edit: true });
            }
        }
    }
    fn key(&self, s: &RS) -> String {
        s.v.concat()
    }
    fn salt(&self, s: &RS) -> u64 {
        s.edit as u64
    }
    fn check(&self, key: &str) -> Check {
        let a = guard(|| parse_article_number(key)).map_err(|p| Fail { msg: format!("reading {key:?} as a provision number panics: {p}") })?;
        let w = rec_article(key);
        match (&w, &a) {
            (Rec::No, None) | (Rec::May(_), None) => {}
            (Rec::Must(x) | Rec::May(x), Some(y)) if x == y => {}
            (w, a) => return fail(format!("provision number {key:?}: expected {w:?}, got {a:?}")),
        }
        let b = guard(|| parse_item_number(key)).map_err(|p| Fail { msg: format!("reading {key:?} as a label panics: {p}") })?;
        let w = rec_item(key);
        match (&w, &b) {
            (Rec::No, None) | (Rec::May(_), None) => {}
            (Rec::Must(x) | Rec::May(x), Some(y)) if x.0 == ArticleNumber::from_item_number(y) && x.1 == y.pattern && (y.str == key || y.str == key.trim()) => {}
            (w, b) => return fail(format!("label {key:?}: expected {w:?}, got {b:?}")),
        }
        check_split(key)?;
        ok(3)
    }
    fn bounds(&self, tier: Tier) -> String {
        format!("all sequences of <={} of {} tokens; {} well-formed or over-long texts with <={} insertions, deletions or replacements of a character by any token; ~480 characters inserted (once, twice), substituted and put around at every place of {} texts, tokens repeated up to 20000 times; provision numbers, labels and line splitting", if tier == Tier::Quick { 4 } else { 5 }, TOK.len(), SEEDS.len(), 2, SEEDS.len() + WHOLE.len())
    }
}
