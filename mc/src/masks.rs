//! Documents that vary one feature over every subset of the levels (or cells) of a structure, so that a
//! decision taken from several levels together is met in every combination.
const HEAD: &str = r#"<Law Era="Showa" Year="21" Num="3" LawType="Act" Lang="ja"><LawNum>法律</LawNum><LawBody>"#;
const TAIL: &str = "</LawBody></Law>";
pub fn law(body: &str) -> String {
    format!("{HEAD}{body}{TAIL}")
}
fn paragraph(inner: &str) -> String {
    law(&format!(r#"<MainProvision><Article Num="1"><Paragraph Num="1"><ParagraphNum/>{inner}</Paragraph></Article></MainProvision>"#))
}

/// A paragraph with a chain of an item and ten levels of subitems; each level has the feature or not.
pub fn chains() -> Vec<String> {
    let mut out = vec![];
    for kind in 0..9 {
        for mask in 0..1u32 << 11 {
            let mut s = String::new();
            for i in (0..11).rev() {
                let on = mask >> i & 1 == 1;
                let (tag, sent) = if i == 0 { ("Item".to_string(), "ItemSentence".to_string()) } else { (format!("Subitem{i}"), format!("Subitem{i}Sentence")) };
                let plain = format!("<Sentence>文{i}</Sentence>");
                let (num, title, text, more) = match (kind, on) {
                    (_, false) => ("1".to_string(), true, plain, ""),
                    (0, _) => (String::new(), true, plain, ""),
                    (1, _) => ("1".into(), true, "<Sentence/>".into(), ""),
                    (2, _) => ("1".into(), true, format!("<Column><Sentence>左{i}</Sentence></Column><Column><Sentence>右{i}</Sentence></Column>"), ""),
                    (3, _) => ("1".into(), true, format!("<Table><TableRow><TableColumn><Sentence>表{i}</Sentence></TableColumn></TableRow></Table>"), ""),
                    (4, _) => ("2_3".into(), false, plain, ""),
                    (5, _) => ("1".into(), true, plain, "two"),
                    (6, _) => (String::new(), false, "<Sentence/>".into(), ""),
                    (7, _) => ("1".into(), true, plain, "list"),
                    _ => (String::new(), true, format!("<Column><Sentence>欄{i}</Sentence></Column>"), "two"),
                };
                let t = if title { format!("<{tag}Title>題{i}</{tag}Title>") } else { String::new() };
                let list = if more == "list" { "<List><ListSentence><Sentence>列</Sentence></ListSentence></List>" } else { "" };
                let one = |n: &str, inner: &str, l: &str| format!("<{tag} Num=\"{n}\">{t}<{sent}>{text}</{sent}>{inner}{l}</{tag}>");
                s = if more == "two" { one(&num, "", "") + &one("4", &s, "") } else { one(&num, &s, list) };
            }
            out.push(paragraph(&format!("<ParagraphSentence><Sentence>本文</Sentence></ParagraphSentence>{s}")));
        }
    }
    // the number of paragraph, item and subitem, of two siblings each, in every combination
    let nums = ["", "1", "2_3"];
    for c in 0..729usize {
        let n: Vec<&str> = (0..6).map(|i| nums[c / 3usize.pow(i) % 3]).collect();
        let sub = |a: &str, t: &str| format!("<Subitem1 Num=\"{a}\"><Subitem1Sentence><Sentence>{t}</Sentence></Subitem1Sentence></Subitem1>");
        let item = |a: &str, x: &str| format!("<Item Num=\"{a}\"><ItemSentence><Sentence>号</Sentence></ItemSentence>{x}</Item>");
        let a = item(n[0], &(sub(n[1], "一") + &sub(n[2], "二")));
        let b = item(n[3], &(sub(n[4], "三") + &sub(n[5], "四")));
        out.push(paragraph(&format!("<ParagraphSentence><Sentence>本文</Sentence></ParagraphSentence>{a}{b}")));
    }
    // sentences and columns of sentences, where each text is one of two or none
    let words = ["同", "別", ""];
    let sentences = |n: usize, from: usize, c: usize| (from..from + n).map(|i| format!("<Sentence>{}</Sentence>", words[c / 3usize.pow(i as u32) % 3])).collect::<String>();
    for level in [0, 1, 2, 5, 10, 11] {
        let at = |text: &str| {
            let mut inner = String::new();
            if level == 11 {
                return paragraph(&format!("<ParagraphSentence>{text}</ParagraphSentence>"));
            }
            for i in (0..=level).rev() {
                let tag = if i == 0 { "Item".to_string() } else { format!("Subitem{i}") };
                let t = if i == level { text } else { "<Sentence>上</Sentence>" };
                inner = format!("<{tag} Num=\"1\"><{tag}Sentence>{t}</{tag}Sentence>{inner}</{tag}>");
            }
            paragraph(&format!("<ParagraphSentence><Sentence>本文</Sentence></ParagraphSentence>{inner}"))
        };
        for n in 1..=6 {
            for c in 0..3usize.pow(n as u32) {
                out.push(at(&sentences(n, 0, c)));
            }
        }
        if level == 11 {
            continue;
        }
        for shape in [&[1][..], &[1, 1], &[1, 1, 1], &[1, 1, 1, 1], &[1, 1, 1, 1, 1], &[2], &[2, 1], &[1, 2], &[2, 2], &[3], &[3, 1], &[1, 3], &[1, 2, 1], &[2, 2, 2]] {
            let total: usize = shape.iter().sum();
            for c in 0..3usize.pow(total as u32) {
                let mut from = 0;
                let mut t = String::new();
                for n in shape {
                    t += &format!("<Column>{}</Column>", sentences(*n, from, c));
                    from += n;
                }
                out.push(at(&t));
            }
        }
    }
    // up to four items whose numbers, titles and texts are the same or not, and a paragraph before them with the same number
    for n in 1..=4u32 {
        for c in 0..8usize.pow(n) {
            let mut t = String::new();
            for i in 0..n {
                let b = c / 8usize.pow(i) % 8;
                let of = |bit: usize, same: &str, other: String| if b >> bit & 1 == 0 { same.to_string() } else { other };
                t += &format!("<Item Num=\"{}\"><ItemTitle>{}</ItemTitle><ItemSentence><Sentence>{}</Sentence></ItemSentence></Item>", of(0, "1", format!("{}", i + 2)), of(1, "一", format!("題{i}")), of(2, "同", format!("文{i}")));
            }
            out.push(paragraph(&format!("<ParagraphSentence><Sentence>同</Sentence></ParagraphSentence>{t}")));
        }
    }
    out
}

/// Sentences of cells, columns and paragraphs: every sequence of up to four kinds of contents.
pub fn cells() -> Vec<String> {
    let kinds = ["<Sentence/>", "<Sentence>甲</Sentence>", "<Sentence><Ruby>乙<Rt>おつ</Rt></Ruby></Sentence>", "<Sentence>\u{3000}</Sentence>", "<Sentence>丙。<Sup>2</Sup></Sentence>"];
    let mut seqs = vec![String::new()];
    let mut level = vec![String::new()];
    for _ in 0..4 {
        level = level.iter().flat_map(|p| kinds.iter().map(move |k| format!("{p}{k}"))).collect();
        seqs.extend(level.clone());
    }
    let mut out = vec![];
    let item = |t: &str| paragraph_direct(&format!("<ParagraphSentence><Sentence>本文</Sentence></ParagraphSentence><Item Num=\"1\"><ItemSentence>{t}</ItemSentence></Item>"));
    let table = |cell: &str| format!("<Table><TableRow><TableColumn>{cell}</TableColumn></TableRow></Table>");
    for s in &seqs {
        out.push(item(&table(s)));
        if !s.is_empty() {
            out.push(item(&table(&format!("<Column>{s}</Column>"))));
            out.push(item(&table(&format!("<Column><Sentence>左</Sentence></Column><Column>{s}</Column>"))));
            out.push(item(&table(&format!("<Column>{s}</Column><Column><Sentence>右</Sentence></Column>"))));
            out.push(item(s));
            out.push(item(&format!("<Column>{s}</Column><Column><Sentence>右</Sentence></Column>")));
            out.push(paragraph_direct(&format!("<ParagraphSentence>{s}</ParagraphSentence>")));
        }
    }
    // tables of up to 3 rows and 3 columns, every cell empty, an empty sentence or text
    let cell = ["", "<Sentence/>", "<Sentence>字</Sentence>"];
    let head = ["", "<Sup/>", "見"];
    for (rows, cols, h) in [(1, 3, 0), (3, 1, 0), (2, 2, 0), (2, 3, 0), (3, 2, 0), (1, 3, 1), (2, 2, 1), (1, 2, 2), (2, 1, 2)] {
        let cells = (rows + h) * cols;
        for c in 0..3usize.pow(cells as u32) {
            let mut t = String::new();
            for r in 0..rows + h {
                let (row, col) = if r < h { ("TableHeaderRow", "TableHeaderColumn") } else { ("TableRow", "TableColumn") };
                t += &format!("<{row}>");
                for i in 0..cols {
                    let k = c / 3usize.pow((r * cols + i) as u32) % 3;
                    t += &format!("<{col}>{}</{col}>", if r < h { head[k] } else { cell[k] });
                }
                t += &format!("</{row}>");
            }
            out.push(item(&format!("<Table>{t}</Table>")));
        }
    }
    out
}
fn paragraph_direct(inner: &str) -> String {
    law(&format!(r#"<MainProvision><Paragraph Num="1"><ParagraphNum/>{inner}</Paragraph></MainProvision>"#))
}

/// Two of every container under each of the containers above it, over every subset of the kinds of container;
/// each kind has the feature or not.
pub fn skeletons() -> Vec<String> {
    let kinds = ["Part", "Chapter", "Section", "Subsection", "Division"];
    let mut out = vec![];
    for main in [true, false] {
        let lo = if main { 0 } else { 1 };
        for set in 0..1usize << 5 {
            let ks: Vec<usize> = (lo..5).filter(|i| set >> i & 1 == 1).collect();
            if ks.len() != set.count_ones() as usize || !allowed(main, &ks) {
                continue;
            }
            // the last bit is the article's
            for feature in 0..6 {
                for mask in 0..1usize << (ks.len() + 1) {
                    if feature > 0 && mask == 0 {
                        continue;
                    }
                    let mut n = 0;
                    let body = level(&kinds, &ks, mask, feature, &mut n);
                    out.push(law(&if main {
                        format!("<MainProvision>{body}</MainProvision>")
                    } else {
                        format!(r#"<MainProvision><Article Num="9"><Paragraph Num="1"><ParagraphNum/><ParagraphSentence><Sentence>本</Sentence></ParagraphSentence></Paragraph></Article></MainProvision><SupplProvision><SupplProvisionLabel>附則</SupplProvisionLabel>{body}</SupplProvision>"#)
                    }));
                }
            }
        }
    }
    out
}
fn allowed(main: bool, ks: &[usize]) -> bool {
    let top = match ks.first() {
        None => return true,
        Some(k) => *k,
    };
    (if main { top <= 2 } else { top == 1 })
        && ks.windows(2).all(|w| matches!((w[0], w[1]), (0, 1) | (1, 2) | (2, 3) | (2, 4) | (3, 4)))
}
fn level(kinds: &[&str], ks: &[usize], mask: usize, feature: usize, n: &mut usize) -> String {
    let on = mask & 1 == 1;
    let mut s = String::new();
    for i in 0..2 {
        // only the second of two siblings has the feature, so that what belongs to the first may leak into it
        let on = on && i == 1;
        *n += 1;
        let k = *n;
        match ks.first() {
            None => {
                let title = match (feature, on) {
                    (0, true) => String::new(),
                    (1, true) => "<ArticleTitle/>".into(),
                    _ => format!("<ArticleTitle>第{k}条</ArticleTitle>"),
                };
                let caption = if feature == 4 && on { String::new() } else { format!("<ArticleCaption>（見{k}）</ArticleCaption>") };
                let attr = match (feature, on) {
                    (2, true) => " Delete=\"true\"",
                    (5, true) => " Hide=\"true\"",
                    _ => "",
                };
                let num = if feature == 3 && on { format!("{k}:{}", k + 3) } else { format!("{k}_2") };
                s += &format!(r#"<Article Num="{num}"{attr}>{caption}{title}<Paragraph Num="1"><ParagraphNum/><ParagraphSentence><Sentence>文{k}</Sentence></ParagraphSentence></Paragraph></Article>"#);
            }
            Some(c) => {
                let name = kinds[*c];
                let title = match (feature, on) {
                    (0, true) => format!("<{name}Title/>"),
                    (1, true) => format!("<{name}Title><Ruby>第{k}<Rt>よみ</Rt></Ruby></{name}Title>"),
                    _ => format!("<{name}Title>第{k}　{name}</{name}Title>"),
                };
                let attr = match (feature, on) {
                    (2, true) => " Delete=\"true\"",
                    (5, true) => " Hide=\"true\"",
                    _ => "",
                };
                let num = if feature == 3 && on { format!("{k}:{}", k + 1) } else { k.to_string() };
                let inner = if feature == 4 && on { String::new() } else { level(kinds, &ks[1..], mask >> 1, feature, n) };
                s += &format!(r#"<{name} Num="{num}"{attr}>{title}{inner}</{name}>"#);
            }
        }
    }
    s
}
