//! The reference model of the schema: for every element its attributes, its content model, and how its
//! content is read (as the JSON view of the library's data model). Written from the published schema
//! (XMLSchemaForJapaneseLaw) and the public data types; shares no code with the subject.
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum AT {
    /// required provision number
    Num,
    /// required by the schema, may be empty: absent number
    NumE,
    Usize,
    UsizeOpt,
    /// optional, empty means absent
    UsizeE,
    StrReq,
    StrOpt,
    /// optional boolean, default false
    BoolF,
    BoolOpt,
    /// enumeration; pairs xml value -> json value
    Enum(&'static [(&'static str, &'static str)], ED),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ED {
    Req,
    /// absent is null
    Null,
    /// absent is this value
    Def(&'static str),
}
#[derive(Clone, Copy, Debug)]
pub struct At {
    pub json: &'static str,
    pub xml: &'static str,
    pub ty: AT,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Card {
    One,
    Opt,
    Star,
    Plus,
}
#[derive(Clone, Debug)]
pub struct Slot {
    pub json: &'static str,
    pub names: Vec<&'static str>,
    pub card: Card,
    /// list of {"Name": value} instead of plain values
    pub tagged: bool,
}
#[derive(Clone, Debug)]
pub enum Kind {
    /// JSON object of attributes and slots
    Struct(Vec<Slot>),
    /// mixed content: {<field>: [{"<text tag>": ".."} | {"Name": ..}], attrs}; nested = field path
    Mixed { fields: Vec<&'static str>, tag: &'static str, names: Vec<&'static str> },
    /// element whose text content is the field
    Str(&'static str),
    /// text content is the JSON value itself
    PlainStr,
    /// Ruby
    Ruby,
    /// element is transparent: value is an array (tagged or not)
    List(Vec<&'static str>, bool),
    /// value is its single child
    Single(&'static str),
    /// Sentence+ | Column+ | Table
    Sct,
    /// mixed content wrapped as {"text": Text, attrs}
    TextField,
    /// attributes only
    Empty,
}
#[derive(Clone, Debug)]
pub struct El {
    pub name: &'static str,
    pub attrs: Vec<At>,
    pub kind: Kind,
}

pub const INL: &[&str] = &["Ruby", "Line", "Sup", "Sub"];
pub const SEN: &[&str] = &["Line", "QuoteStruct", "ArithFormula", "Ruby", "Sup", "Sub"];
pub const LIN: &[&str] = &["QuoteStruct", "ArithFormula", "Ruby", "Sup", "Sub"];
pub const SUBITEMS: &[&str] = &[
    "Subitem1", "Subitem2", "Subitem3", "Subitem4", "Subitem5", "Subitem6", "Subitem7", "Subitem8", "Subitem9", "Subitem10",
];
pub fn any_contents() -> Vec<&'static str> {
    let mut v = vec![
        "Table", "TableStruct", "Fig", "FigStruct", "QuoteStruct", "NoteStruct", "StyleStruct", "AppdxTable", "Ruby", "Line", "Sup",
        "Sub", "Paragraph", "Item",
    ];
    v.extend_from_slice(SUBITEMS);
    v.extend(["List", "Sentence", "ArithFormula", "Remarks", "TOC", "TOCSection", "TableRow"]);
    v
}
pub fn new_provisions() -> Vec<&'static str> {
    let mut v = vec![
        "LawTitle", "Preamble", "TOC", "Part", "PartTitle", "Chapter", "ChapterTitle", "Section", "SectionTitle", "Subsection",
        "SubsectionTitle", "Division", "DivisionTitle", "Article", "SupplNote", "Paragraph", "Item",
    ];
    v.extend_from_slice(SUBITEMS);
    v.extend([
        "List", "Sentence", "AmendProvision", "AppdxTable", "AppdxNote", "AppdxStyle", "Appdx", "AppdxFig", "AppdxFormat",
        "SupplProvisionAppdxStyle", "SupplProvisionAppdxTable", "SupplProvisionAppdx", "TableStruct", "TableRow", "TableColumn",
        "FigStruct", "NoteStruct", "StyleStruct", "FormatStruct", "Remarks", "LawBody",
    ]);
    v
}
pub fn column_contents() -> Vec<&'static str> {
    let mut v = vec!["Part", "Chapter", "Section", "Subsection", "Division", "Article", "Paragraph", "Item"];
    v.extend_from_slice(SUBITEMS);
    v.extend(["FigStruct", "Sentence", "Remarks", "Column"]);
    v
}

const ERA: &[(&str, &str)] = &[("Showa", "Showa"), ("Meiji", "Meiji"), ("Taisho", "Taisho"), ("Heisei", "Heisei"), ("Reiwa", "Reiwa")];
const LAWTYPE: &[(&str, &str)] = &[
    ("Act", "Act"),
    ("Constitution", "Constitution"),
    ("CabinetOrder", "CabinetOrder"),
    ("ImperialOrder", "ImperialOrder"),
    ("MinisterialOrdinance", "MinisterialOrdinance"),
    ("Rule", "Rule"),
    ("Misc", "Misc"),
];
const LANG: &[(&str, &str)] = &[("ja", "Ja"), ("en", "En")];
const WM: &[(&str, &str)] = &[("vertical", "Vertical"), ("horizontal", "Horizontal")];
const LS: &[(&str, &str)] = &[("solid", "Solid"), ("dotted", "Dotted"), ("double", "Double"), ("none", "None")];
const ALIGN: &[(&str, &str)] = &[("left", "Left"), ("center", "Center"), ("right", "Right"), ("justify", "Justify")];
const VALIGN: &[(&str, &str)] = &[("top", "Top"), ("middle", "Middle"), ("bottom", "Bottom")];
const FUNC: &[(&str, &str)] = &[("main", "Main"), ("proviso", "Proviso")];
const SPT: &[(&str, &str)] = &[("New", "New"), ("Amend", "Amend")];
const INDENT: &[(&str, &str)] = &[
    ("Paragraph", "Paragraph"),
    ("Item", "Item"),
    ("Subitem1", "Subitem1"),
    ("Subitem2", "Subitem2"),
    ("Subitem3", "Subitem3"),
    ("Subitem4", "Subitem4"),
    ("Subitem5", "Subitem5"),
    ("Subitem6", "Subitem6"),
    ("Subitem7", "Subitem7"),
    ("Subitem8", "Subitem8"),
    ("Subitem9", "Subitem9"),
    ("Subitem10", "Subitem10"),
];

fn a(json: &'static str, xml: &'static str, ty: AT) -> At {
    At { json, xml, ty }
}
/// "field:Name", "field:Name?", "field:Name*", "field:Name+"
fn s(spec: &'static str) -> Slot {
    let (json, rest) = spec.split_once(':').unwrap();
    let (n, card) = card(rest);
    Slot { json, names: vec![n], card, tagged: false }
}
fn card(rest: &'static str) -> (&'static str, Card) {
    if let Some(n) = rest.strip_suffix('?') {
        (n, Card::Opt)
    } else if let Some(n) = rest.strip_suffix('*') {
        (n, Card::Star)
    } else if let Some(n) = rest.strip_suffix('+') {
        (n, Card::Plus)
    } else {
        (rest, Card::One)
    }
}
fn tagged(json: &'static str, names: &[&'static str], card: Card) -> Slot {
    Slot { json, names: names.to_vec(), card, tagged: true }
}

pub struct Grammar {
    pub els: BTreeMap<&'static str, El>,
}

pub fn g() -> &'static Grammar {
    static G: OnceLock<Grammar> = OnceLock::new();
    G.get_or_init(build)
}
pub fn el(name: &str) -> Option<&'static El> {
    g().els.get(name)
}

fn build() -> Grammar {
    use AT::*;
    let mut els: BTreeMap<&'static str, El> = BTreeMap::new();
    let mut add = |name: &'static str, attrs: Vec<At>, kind: Kind| {
        assert!(els.insert(name, El { name, attrs, kind }).is_none(), "dup {name}");
    };
    let st = Kind::Struct;
    let text = || Kind::Mixed { fields: vec!["contents"], tag: "Text", names: INL.to_vec() };
    let wm = || a("writing_mode", "WritingMode", Enum(WM, ED::Def("Vertical")));
    let num = || a("num", "Num", Num);
    let del = || a("delete", "Delete", BoolF);
    let hide = || a("hide", "Hide", BoolF);
    let structs: &[&'static str] = &["TableStruct", "FigStruct", "StyleStruct", "List"];

    add(
        "Law",
        vec![
            a("era", "Era", Enum(ERA, ED::Req)),
            a("year", "Year", Usize),
            a("num", "Num", NumE),
            a("promulgate_month", "PromulgateMonth", UsizeE),
            a("promulgate_day", "PromulgateDay", UsizeE),
            a("law_type", "LawType", Enum(LAWTYPE, ED::Req)),
            a("lang", "Lang", Enum(LANG, ED::Req)),
        ],
        st(vec![s("law_num:LawNum"), s("law_body:LawBody")]),
    );
    add("LawNum", vec![], Kind::PlainStr);
    add(
        "LawBody",
        vec![a("subject", "Subject", StrOpt)],
        st(vec![
            s("law_title:LawTitle?"),
            s("enact_statement:EnactStatement*"),
            s("toc:TOC?"),
            s("preamble:Preamble?"),
            s("main_provision:MainProvision"),
            s("suppl_provision:SupplProvision*"),
            s("appdx_table:AppdxTable*"),
            s("appdx_note:AppdxNote*"),
            s("appdx_style:AppdxStyle*"),
            s("appdx:Appdx*"),
            s("appdx_fig:AppdxFig*"),
            s("appdx_format:AppdxFormat*"),
        ]),
    );
    add(
        "LawTitle",
        vec![a("kana", "Kana", StrOpt), a("abbrev", "Abbrev", StrOpt), a("abbrev_kana", "AbbrevKana", StrOpt)],
        Kind::TextField,
    );
    for n in [
        "EnactStatement", "PartTitle", "ChapterTitle", "SectionTitle", "SubsectionTitle", "DivisionTitle", "ArticleTitle", "SupplNote",
        "ParagraphNum", "ClassTitle", "ItemTitle", "Subitem1Title", "Subitem2Title", "Subitem3Title", "Subitem4Title", "Subitem5Title",
        "Subitem6Title", "Subitem7Title", "Subitem8Title", "Subitem9Title", "Subitem10Title", "TOCLabel", "TOCPreambleLabel",
        "TOCAppdxTableLabel", "ArticleRange", "SupplProvisionLabel", "RelatedArticleNum", "ArithFormulaNum", "NoteStructTitle",
        "StyleStructTitle", "FormatStructTitle", "FigStructTitle", "TableHeaderColumn",
    ] {
        add(n, vec![], text());
    }
    for n in [
        "TableStructTitle", "AppdxTableTitle", "AppdxNoteTitle", "AppdxStyleTitle", "AppdxFormatTitle", "AppdxFigTitle",
        "SupplProvisionAppdxTableTitle", "SupplProvisionAppdxStyleTitle",
    ] {
        add(n, vec![wm()], text());
    }
    for n in ["ArticleCaption", "ParagraphCaption"] {
        add(n, vec![a("common_caption", "CommonCaption", BoolOpt)], Kind::TextField);
    }
    add("RemarksLabel", vec![a("line_break", "LineBreak", BoolF)], Kind::TextField);
    add("Preamble", vec![], st(vec![s("children:Paragraph+")]));
    add(
        "MainProvision",
        vec![a("extract", "Extract", BoolOpt)],
        st(vec![tagged("children", &["Part", "Chapter", "Section", "Article", "Paragraph"], Card::Plus)]),
    );
    // hierarchy
    add("Part", vec![num(), del(), hide()], st(vec![s("part_title:PartTitle"), tagged("children", &["Article", "Chapter"], Card::Star)]));
    add(
        "Chapter",
        vec![num(), del(), hide()],
        st(vec![s("chapter_title:ChapterTitle"), tagged("children", &["Article", "Section"], Card::Star)]),
    );
    add(
        "Section",
        vec![num(), del(), hide()],
        st(vec![s("section_title:SectionTitle"), tagged("children", &["Article", "Subsection", "Division"], Card::Star)]),
    );
    add(
        "Subsection",
        vec![num(), del(), hide()],
        st(vec![s("subsection_title:SubsectionTitle"), tagged("children", &["Article", "Division"], Card::Star)]),
    );
    add("Division", vec![num(), del(), hide()], st(vec![s("division_title:DivisionTitle"), s("children:Article*")]));
    add(
        "Article",
        vec![num(), del(), hide()],
        st(vec![s("caption:ArticleCaption?"), s("title:ArticleTitle"), s("paragraph:Paragraph+"), s("suppl_note:SupplNote?")]),
    );
    add(
        "Paragraph",
        vec![num(), a("old_style", "OldStyle", BoolF), a("old_num", "OldNum", BoolF), hide()],
        st(vec![
            s("caption:ParagraphCaption?"),
            s("paragraph_num:ParagraphNum"),
            s("sentence:ParagraphSentence"),
            s("amend_provision:AmendProvision*"),
            s("class:Class*"),
            tagged("struct_list", structs, Card::Star),
            s("children:Item*"),
        ]),
    );
    add("ParagraphSentence", vec![], Kind::List(vec!["Sentence"], false));
    add(
        "Class",
        vec![a("num", "Num", StrReq)],
        st(vec![s("class_title:ClassTitle?"), s("class_sentence:ClassSentence"), s("children:Item*")]),
    );
    add("ClassSentence", vec![], Kind::Sct);
    let items: &[(&'static str, &'static str, &'static str, &'static str)] = &[
        ("Item", "title:ItemTitle?", "sentence:ItemSentence", "children:Subitem1*"),
        ("Subitem1", "title:Subitem1Title?", "sentence:Subitem1Sentence", "children:Subitem2*"),
        ("Subitem2", "title:Subitem2Title?", "sentence:Subitem2Sentence", "children:Subitem3*"),
        ("Subitem3", "title:Subitem3Title?", "sentence:Subitem3Sentence", "children:Subitem4*"),
        ("Subitem4", "title:Subitem4Title?", "sentence:Subitem4Sentence", "children:Subitem5*"),
        ("Subitem5", "title:Subitem5Title?", "sentence:Subitem5Sentence", "children:Subitem6*"),
        ("Subitem6", "title:Subitem6Title?", "sentence:Subitem6Sentence", "children:Subitem7*"),
        ("Subitem7", "title:Subitem7Title?", "sentence:Subitem7Sentence", "children:Subitem8*"),
        ("Subitem8", "title:Subitem8Title?", "sentence:Subitem8Sentence", "children:Subitem9*"),
        ("Subitem9", "title:Subitem9Title?", "sentence:Subitem9Sentence", "children:Subitem10*"),
        ("Subitem10", "title:Subitem10Title?", "sentence:Subitem10Sentence", ""),
    ];
    for (n, t, se, ch) in items {
        let mut v = vec![s(t), s(se)];
        if !ch.is_empty() {
            v.push(s(ch));
        }
        v.push(tagged("struct_list", structs, Card::Star));
        add(n, vec![a("num", "Num", NumE), del(), hide()], st(v));
        add(s(se).names[0], vec![], Kind::Sct);
    }
    // inline
    add(
        "Sentence",
        vec![
            a("num", "Num", UsizeOpt),
            a("function", "Function", Enum(FUNC, ED::Null)),
            a("indent", "Indent", Enum(INDENT, ED::Null)),
            wm(),
        ],
        Kind::Mixed { fields: vec!["contents"], tag: "String", names: SEN.to_vec() },
    );
    add(
        "Column",
        vec![a("num", "Num", UsizeOpt), a("line_break", "LineBreak", BoolF), a("align", "Align", Enum(ALIGN, ED::Null))],
        st(vec![s("sentence:Sentence+")]),
    );
    add("Ruby", vec![], Kind::Ruby);
    add("Rt", vec![], Kind::PlainStr);
    add("Sup", vec![], Kind::Str("text"));
    add("Sub", vec![], Kind::Str("text"));
    add(
        "Line",
        vec![a("style", "Style", Enum(LS, ED::Req))],
        Kind::Mixed { fields: vec!["contents"], tag: "String", names: LIN.to_vec() },
    );
    for n in ["QuoteStruct", "Style", "Note", "Format"] {
        add(n, vec![], Kind::Mixed { fields: vec!["contentes", "contents"], tag: "String", names: any_contents() });
    }
    add(
        "ArithFormula",
        vec![a("num", "Num", UsizeOpt)],
        Kind::Mixed { fields: vec!["contentes", "contents"], tag: "String", names: any_contents() },
    );
    // structures
    add("Fig", vec![a("src", "src", StrReq)], Kind::Empty);
    add(
        "FigStruct",
        vec![],
        st(vec![s("title:FigStructTitle?"), s("title_remarks:Remarks*"), s("fig:Fig"), s("fig_remarks:Remarks*")]),
    );
    add(
        "NoteStruct",
        vec![],
        st(vec![s("title:NoteStructTitle?"), s("title_remarks:Remarks*"), s("note:Note"), s("note_remarks:Remarks*")]),
    );
    add(
        "StyleStruct",
        vec![],
        st(vec![s("title:StyleStructTitle?"), s("title_remarks:Remarks*"), s("style:Style"), s("style_remarks:Remarks*")]),
    );
    add(
        "FormatStruct",
        vec![],
        st(vec![s("title:FormatStructTitle?"), s("title_remarks:Remarks*"), s("format:Format"), s("format_remarks:Remarks*")]),
    );
    add(
        "TableStruct",
        vec![],
        st(vec![s("title:TableStructTitle?"), s("title_remarks:Remarks*"), s("table:Table"), s("table_remarks:Remarks*")]),
    );
    add("Remarks", vec![], st(vec![s("label:RemarksLabel"), tagged("children", &["Item", "Sentence"], Card::Star)]));
    add("List", vec![], st(vec![s("sentence:ListSentence"), s("children:Sublist1*")]));
    add("Sublist1", vec![], st(vec![s("sentence:Sublist1Sentence"), s("children:Sublist2*")]));
    add("Sublist2", vec![], st(vec![s("sentence:Sublist2Sentence"), s("children:Sublist3*")]));
    add("Sublist3", vec![], st(vec![s("sentence:Sublist3Sentence")]));
    for n in ["ListSentence", "Sublist1Sentence", "Sublist2Sentence", "Sublist3Sentence"] {
        add(n, vec![], Kind::List(vec!["Sentence", "Column"], true));
    }
    // tables
    add("Table", vec![wm()], st(vec![s("table_header_row:TableHeaderRow*"), s("table_row:TableRow+")]));
    add("TableHeaderRow", vec![], st(vec![s("columns:TableHeaderColumn+")]));
    add("TableRow", vec![], st(vec![s("columns:TableColumn+")]));
    let bd = |json, xml| a(json, xml, Enum(LS, ED::Def("Solid")));
    add(
        "TableColumn",
        vec![
            bd("border_top", "BorderTop"),
            bd("border_bottom", "BorderBottom"),
            bd("border_left", "BorderLeft"),
            bd("border_right", "BorderRight"),
            a("rowspan", "rowspan", StrOpt),
            a("colspan", "colspan", StrOpt),
            a("align", "Align", Enum(ALIGN, ED::Null)),
            a("valign", "Valign", Enum(VALIGN, ED::Null)),
        ],
        Kind::Mixed { fields: vec!["contents"], tag: "String", names: column_contents() },
    );
    // TOC
    add(
        "TOC",
        vec![],
        st(vec![
            s("toc_label:TOCLabel?"),
            s("toc_preamble_label:TOCPreambleLabel?"),
            tagged("toc_main_contents", &["TOCPart", "TOCChapter", "TOCSection", "TOCArticle"], Card::Star),
            s("toc_suppl_provision:TOCSupplProvision?"),
            s("toc_appdx_table_label:TOCAppdxTableLabel*"),
        ]),
    );
    add(
        "TOCPart",
        vec![num(), del()],
        st(vec![s("part_title:PartTitle"), s("article_range:ArticleRange?"), s("children:TOCChapter*")]),
    );
    add(
        "TOCChapter",
        vec![num(), del()],
        st(vec![s("chapter_title:ChapterTitle"), s("article_range:ArticleRange?"), s("children:TOCSection*")]),
    );
    add(
        "TOCSection",
        vec![num(), del()],
        st(vec![
            s("section_title:SectionTitle"),
            s("article_range:ArticleRange?"),
            tagged("children", &["TOCSubsection", "TOCDivision"], Card::Star),
        ]),
    );
    add(
        "TOCSubsection",
        vec![num(), del()],
        st(vec![s("subsection_title:SubsectionTitle"), s("article_range:ArticleRange?"), s("children:TOCDivision*")]),
    );
    add("TOCDivision", vec![num(), del()], st(vec![s("division_title:DivisionTitle"), s("article_range:ArticleRange?")]));
    add("TOCArticle", vec![num(), del()], st(vec![s("article_title:ArticleTitle"), s("article_caption:ArticleCaption")]));
    add(
        "TOCSupplProvision",
        vec![],
        st(vec![
            s("suppl_provision_label:SupplProvisionLabel"),
            s("article_range:ArticleRange?"),
            tagged("children", &["TOCArticle", "TOCChapter"], Card::Star),
        ]),
    );
    // supplementary provisions and appendices
    add(
        "SupplProvision",
        vec![
            a("suppl_provision_type", "Type", Enum(SPT, ED::Null)),
            a("amend_law_num", "AmendLawNum", StrOpt),
            a("extract", "Extract", BoolOpt),
        ],
        st(vec![
            s("label:SupplProvisionLabel"),
            tagged(
                "children",
                &["Chapter", "Article", "Paragraph", "SupplProvisionAppdxTable", "SupplProvisionAppdxStyle", "SupplProvisionAppdx"],
                Card::Star,
            ),
        ]),
    );
    let numo = || a("num", "Num", StrOpt);
    add(
        "SupplProvisionAppdxTable",
        vec![numo()],
        st(vec![
            s("title:SupplProvisionAppdxTableTitle"),
            s("related_article_num:RelatedArticleNum?"),
            s("table_struct:TableStruct*"),
        ]),
    );
    add(
        "SupplProvisionAppdxStyle",
        vec![numo()],
        st(vec![
            s("title:SupplProvisionAppdxStyleTitle"),
            s("related_article_num:RelatedArticleNum?"),
            s("style_struct:StyleStruct*"),
        ]),
    );
    add(
        "SupplProvisionAppdx",
        vec![numo()],
        st(vec![
            s("arith_formula_num:ArithFormulaNum?"),
            s("related_article_num:RelatedArticleNum?"),
            s("arith_formula:ArithFormula*"),
        ]),
    );
    add(
        "AppdxTable",
        vec![numo()],
        st(vec![
            s("title:AppdxTableTitle?"),
            s("related_article_num:RelatedArticleNum?"),
            tagged("children", &["TableStruct", "Item"], Card::Star),
            s("remarks:Remarks?"),
        ]),
    );
    add(
        "AppdxNote",
        vec![numo()],
        st(vec![
            s("title:AppdxNoteTitle?"),
            s("related_article_num:RelatedArticleNum?"),
            tagged("children", &["NoteStruct", "FigStruct", "TableStruct"], Card::Star),
            s("remarks:Remarks?"),
        ]),
    );
    add(
        "AppdxStyle",
        vec![numo()],
        st(vec![
            s("title:AppdxStyleTitle?"),
            s("related_article_num:RelatedArticleNum?"),
            s("children:StyleStruct*"),
            s("remarks:Remarks?"),
        ]),
    );
    add(
        "AppdxFormat",
        vec![numo()],
        st(vec![
            s("title:AppdxFormatTitle?"),
            s("related_article_num:RelatedArticleNum?"),
            s("children:FormatStruct*"),
            s("remarks:Remarks?"),
        ]),
    );
    add(
        "Appdx",
        vec![],
        st(vec![
            s("arith_formula_num:ArithFormulaNum?"),
            s("related_article_num:RelatedArticleNum?"),
            s("arith_formula:ArithFormula+"),
            s("remarks:Remarks?"),
        ]),
    );
    add(
        "AppdxFig",
        vec![numo()],
        st(vec![
            s("title:AppdxFigTitle?"),
            s("related_article_num:RelatedArticleNum?"),
            tagged("children", &["FigStruct", "TableStruct"], Card::Star),
        ]),
    );
    // amendments
    add(
        "AmendProvision",
        vec![],
        st(vec![
            s("sentence:AmendProvisionSentence?"),
            Slot { json: "new_provision", names: vec!["NewProvision"], card: Card::Star, tagged: false },
        ]),
    );
    add("AmendProvisionSentence", vec![], Kind::Single("Sentence"));
    add("NewProvision", vec![], Kind::List(new_provisions(), true));
    Grammar { els }
}

// ---------------------------------------------------------------------------------------------
// minimal instances and edits
use crate::xt::{N, X};

pub fn attr_values(at: &At) -> Vec<String> {
    let v: Vec<&str> = match at.ty {
        AT::Num => vec!["2", "3_2", "3_2_10", "5:8", "3_2:3_5", "0", "38:84", "4294967296"],
        AT::NumE => vec!["2", "3_2", "10:12", "3_2_4:5", ""],
        AT::Usize => vec!["2", "64", "0", "1868"],
        AT::UsizeOpt => vec!["1", "2", "0"],
        AT::UsizeE => vec!["1", "12", "31", ""],
        AT::StrReq => vec!["二", "a&<>\"'b", ""],
        AT::StrOpt => vec!["別記一", "a&<>\"'b\u{3000}c", ""],
        AT::BoolF | AT::BoolOpt => vec!["true", "false"],
        AT::Enum(p, _) => p.iter().map(|x| x.0).collect(),
    };
    v.into_iter().map(|s| s.to_string()).collect()
}
pub fn attr_required(at: &At) -> bool {
    matches!(at.ty, AT::Num | AT::NumE | AT::Usize | AT::StrReq | AT::Enum(_, ED::Req))
}
fn attr_base(at: &At, n: usize) -> Option<String> {
    match at.ty {
        AT::Num | AT::NumE => Some(format!("{}", n % 1000 + 1)),
        AT::Usize => Some("21".into()),
        AT::StrReq => Some(format!("s{n}")),
        AT::Enum(p, ED::Req) => Some(p[0].0.to_string()),
        _ => None,
    }
}

/// The smallest valid instance; `n` seeds texts and numbers so that siblings differ.
pub fn min(name: &str, n: &mut usize) -> X {
    let e = el(name).unwrap_or_else(|| panic!("no element {name}"));
    let mut x = X::new(name);
    *n += 1;
    for at in &e.attrs {
        if let Some(v) = attr_base(at, *n) {
            x.attrs.push((at.xml.to_string(), v));
        }
    }
    match &e.kind {
        Kind::Struct(slots) => {
            for s in slots {
                if matches!(s.card, Card::One | Card::Plus) {
                    let nm = *s.names.last().unwrap();
                    x.kids.push(N::E(min(nm, n)));
                }
            }
        }
        Kind::Mixed { .. } | Kind::Str(_) | Kind::PlainStr | Kind::TextField => x.kids.push(N::T(format!("〔{name}{n}〕"))),
        Kind::Ruby => {
            x.kids.push(N::T(format!("〔Ruby{n}〕")));
            x.kids.push(N::E(min("Rt", n)));
        }
        Kind::List(names, t) => {
            if name != "NewProvision" {
                x.kids.push(N::E(min(names[0], n)))
            } else {
                let _ = t;
                x.kids.push(N::E(min("Sentence", n)))
            }
        }
        Kind::Single(c) => x.kids.push(N::E(min(c, n))),
        Kind::Sct => x.kids.push(N::E(min("Sentence", n))),
        Kind::Empty => {}
    }
    x
}

/// Direct children names the grammar allows.
pub fn child_names(e: &El) -> Vec<&'static str> {
    match &e.kind {
        Kind::Struct(sl) => {
            let mut v = vec![];
            for s in sl {
                for n in &s.names {
                    if !v.contains(n) {
                        v.push(*n)
                    }
                }
            }
            v
        }
        Kind::Mixed { names, .. } => names.clone(),
        Kind::TextField => INL.to_vec(),
        Kind::Ruby => vec!["Rt"],
        Kind::List(n, _) => n.clone(),
        Kind::Single(n) => vec![n],
        Kind::Sct => vec!["Sentence", "Column", "Table"],
        _ => vec![],
    }
}

/// Assign existing element children to slots, greedily and in order. Err if the content model is broken.
pub fn assign<'a>(x: &'a X, slots: &[Slot]) -> Result<Vec<Vec<(usize, &'a X)>>, String> {
    let mut out: Vec<Vec<(usize, &X)>> = vec![vec![]; slots.len()];
    let mut cur = 0;
    for (i, k) in x.kids.iter().enumerate() {
        match k {
            N::E(c) => {
                let mut j = cur;
                loop {
                    if j >= slots.len() {
                        return Err(format!("<{}>: <{}> not allowed here", x.name, c.name));
                    }
                    let full = matches!(slots[j].card, Card::One | Card::Opt) && !out[j].is_empty();
                    if !full && slots[j].names.contains(&c.name.as_str()) {
                        break;
                    }
                    j += 1;
                }
                out[j].push((i, c));
                cur = j;
            }
            N::T(t) => return Err(format!("<{}>: text {t:?} not allowed", x.name)),
            N::Raw(_) => {}
        }
    }
    for (s, o) in slots.iter().zip(&out) {
        // an empty label may be left out: it reads back as the same empty label
        let may_omit = s.names[0] == "SupplProvisionLabel";
        if matches!(s.card, Card::One | Card::Plus) && o.is_empty() && !may_omit {
            return Err(format!("<{}>: <{}> missing", x.name, s.names.join("|")));
        }
    }
    Ok(out)
}

pub const TEXTS: &[&str] = &["A&B<C>D\"E'F", "\u{3000}全角　空白\u{3000}", " half  space ", "行一\n行二", "]]>𠮷", "１２"];

/// One-edit successors of the node at `path` (its attributes, its direct content).
pub fn edits_at(root: &X, path: &[usize], texts: &[&str], out: &mut Vec<X>) {
    let node = root.at(path);
    let Some(e) = el(&node.name) else { return };
    let mut n = root.count() + 100;
    let mut push = |f: &mut dyn FnMut(&mut X)| {
        let mut r = root.clone();
        f(r.at_mut(path));
        out.push(r);
    };
    for at in &e.attrs {
        let cur = node.attr(at.xml).map(|s| s.to_string());
        for v in attr_values(at) {
            if cur.as_deref() != Some(&v) {
                push(&mut |x| x.set_attr(at.xml, &v));
            }
        }
    }
    match &e.kind {
        Kind::Struct(slots) => {
            if let Ok(asg) = assign(node, slots) {
                for (j, s) in slots.iter().enumerate() {
                    if matches!(s.card, Card::One | Card::Opt) && !asg[j].is_empty() {
                        continue;
                    }
                    let pos = asg[..=j].iter().flatten().map(|(i, _)| i + 1).max().unwrap_or(0);
                    for nm in &s.names {
                        let c = min(nm, &mut n);
                        push(&mut |x| x.kids.insert(pos, N::E(c.clone())));
                    }
                    // removal of an optional alternative of a Plus slot is covered by other roots
                }
            }
        }
        Kind::Mixed { names, .. } => mixed_edits(node, names, texts, &mut n, &mut push),
        Kind::TextField => mixed_edits(node, INL, texts, &mut n, &mut push),
        Kind::Str(_) | Kind::PlainStr => {
            for t in texts {
                push(&mut |x| x.kids = vec![N::T(t.to_string())]);
            }
            if !node.kids.is_empty() {
                push(&mut |x| x.kids.clear());
            }
        }
        Kind::Ruby if node.kids.is_empty() => {}
        Kind::Ruby => {
            for t in texts {
                push(&mut |x| x.kids[0] = N::T(t.to_string()));
            }
            if node.kids.len() == 2 {
                push(&mut |x| {
                    x.kids.pop();
                });
            }
        }
        Kind::List(names, _) => {
            let names: Vec<&str> = names.to_vec();
            for nm in names {
                let c = min(nm, &mut n);
                push(&mut |x| x.kids.push(N::E(c.clone())));
                push(&mut |x| x.kids.insert(0, N::E(c.clone())));
                if node.kids.len() == 1 {
                    push(&mut |x| x.kids = vec![N::E(c.clone())]);
                }
            }
            if node.name == "ParagraphSentence" {
                // an empty sentence list is representable
            }
        }
        Kind::Single(_) | Kind::Empty => {}
        Kind::Sct => {
            let first = node.kids.iter().find_map(|k| if let N::E(e) = k { Some(e.name.clone()) } else { None });
            if let Some(f) = first {
                if f != "Table" {
                    let c = min(&f, &mut n);
                    push(&mut |x| x.kids.push(N::E(c.clone())));
                }
                if node.kids.len() == 1 {
                    for nm in ["Sentence", "Column", "Table"] {
                        if nm != f {
                            let c = min(nm, &mut n);
                            push(&mut |x| x.kids = vec![N::E(c.clone())]);
                        }
                    }
                }
            }
        }
    }
}

fn mixed_edits(node: &X, names: &[&'static str], texts: &[&str], n: &mut usize, push: &mut dyn FnMut(&mut dyn FnMut(&mut X))) {
    let is_t = |i: usize| matches!(node.kids.get(i), Some(N::T(_)));
    for pos in 0..=node.kids.len() {
        for nm in names {
            let c = min(nm, n);
            push(&mut |x| x.kids.insert(pos, N::E(c.clone())));
        }
        let before_t = pos > 0 && is_t(pos - 1);
        let after_t = is_t(pos);
        if !before_t && !after_t {
            let t = format!("〔文{n}〕");
            push(&mut |x| x.kids.insert(pos, N::T(t.clone())));
        }
    }
    for i in 0..node.kids.len() {
        if is_t(i) {
            for t in texts {
                push(&mut |x| x.kids[i] = N::T(t.to_string()));
            }
            push(&mut |x| {
                x.kids.remove(i);
            });
        }
    }
}

// ---------------------------------------------------------------------------------------------
// saturated instances, value sweeps, repetition, removal

/// Non-default value for every attribute.
fn attr_max(at: &At, n: usize) -> String {
    match at.ty {
        AT::Num | AT::NumE => format!("{}_{}:{}_{}", n % 90 + 2, n % 7 + 2, n % 90 + 3, n % 5 + 4),
        AT::Usize => format!("{}", n % 60 + 2),
        AT::UsizeOpt => format!("{}", n % 11 + 2),
        AT::UsizeE => format!("{}", n % 11 + 2),
        AT::StrReq | AT::StrOpt => format!("値{n}<&>"),
        AT::BoolF | AT::BoolOpt => "true".into(),
        AT::Enum(p, _) => p.last().unwrap().0.to_string(),
    }
}

/// An instance in which every attribute is set and every slot is filled with every alternative
/// (in schema order, or reversed inside a slot), down to `d` levels; below that minimal instances.
pub fn max(name: &str, n: &mut usize, d: usize, rev: bool) -> X {
    let e = el(name).unwrap();
    *n += 1;
    let mut x = X::new(name);
    for at in &e.attrs {
        x.attrs.push((at.xml.to_string(), attr_max(at, *n)));
    }
    let sub = |nm: &str, n: &mut usize| N::E(if d > 1 { max(nm, n, d - 1, rev) } else { min(nm, n) });
    let order = |names: &[&'static str]| -> Vec<&'static str> {
        let mut v = names.to_vec();
        if rev {
            v.reverse()
        }
        v
    };
    match &e.kind {
        Kind::Struct(slots) => {
            for s in slots {
                let names = order(&s.names);
                let one = matches!(s.card, Card::One | Card::Opt);
                for nm in names.iter().take(if one { 1 } else { usize::MAX }) {
                    x.kids.push(sub(nm, n));
                    if !one && s.names.len() == 1 {
                        x.kids.push(sub(nm, n));
                    }
                }
            }
        }
        Kind::Mixed { names, .. } => {
            for nm in order(names) {
                x.kids.push(N::T(format!("〔{name}{n}〕")));
                x.kids.push(sub(nm, n));
            }
            x.kids.push(N::T(format!("〔{name}{n}末〕")));
        }
        Kind::TextField => {
            for nm in order(INL) {
                x.kids.push(N::T(format!("〔{name}{n}〕")));
                x.kids.push(sub(nm, n));
            }
        }
        Kind::Str(_) | Kind::PlainStr => x.kids.push(N::T(format!("〔{name}{n}〕"))),
        Kind::Ruby => {
            x.kids.push(N::T(format!("〔Ruby{n}〕")));
            x.kids.push(N::E(min("Rt", n)));
        }
        Kind::List(names, _) => {
            for nm in order(names) {
                x.kids.push(sub(nm, n));
            }
        }
        Kind::Single(c) => x.kids.push(sub(c, n)),
        Kind::Sct => {
            let nm = if rev { "Column" } else { "Sentence" };
            x.kids.push(sub(nm, n));
            x.kids.push(sub(nm, n));
            if rev {
                x.kids.push(sub(nm, n));
            }
        }
        Kind::Empty => {}
    }
    x
}

/// The document in which every element on the way to `path`, and the one there, has every attribute
/// and every optional child that only holds text, but no further branches. With the new path.
pub fn dressed(doc: &X, path: &[usize]) -> (X, Vec<usize>) {
    let mut d = doc.clone();
    let mut at: Vec<usize> = vec![];
    let mut n = doc.count() + 300;
    for k in 0..=path.len() {
        let mut next = path.get(k).copied();
        let node = d.at_mut(&at);
        if let Some(e) = el(&node.name) {
            for a in &e.attrs {
                n += 1;
                node.set_attr(a.xml, &attr_max(a, n));
            }
            if let Kind::Struct(slots) = &e.kind {
                for j in 0..slots.len() {
                    let Ok(asg) = assign(node, slots) else { break };
                    if slots[j].card != Card::Opt || !asg[j].is_empty() {
                        continue;
                    }
                    let Some(nm) = slots[j].names.iter().find(|nm| matches!(el(nm).map(|e| &e.kind), Some(Kind::Str(_) | Kind::PlainStr | Kind::TextField | Kind::Mixed { tag: "Text", .. }))) else { continue };
                    let pos = asg[..=j].iter().flatten().map(|(i, _)| i + 1).max().unwrap_or(0);
                    let c = min(nm, &mut n);
                    node.kids.insert(pos, N::E(c));
                    if let Some(i) = next.as_mut() {
                        if pos <= *i {
                            *i += 1;
                        }
                    }
                }
            }
        }
        if let Some(i) = next {
            at.push(i);
        }
    }
    (d, at)
}

/// Mixed contents that are one element only, which itself holds its least content, one text or one element
/// (that holds its least content or one element).
pub fn pieces_at(root: &X, path: &[usize], out: &mut Vec<X>) {
    fn inner(name: &str, depth: usize, n: &mut usize) -> Vec<X> {
        let e = el(name).unwrap();
        let mut v = vec![min(name, n)];
        for at in &e.attrs {
            for a in attr_values(at).into_iter().take(4) {
                let mut x = min(name, n);
                x.set_attr(at.xml, &a);
                v.push(x);
            }
        }
        let (names, text) = match &e.kind {
            Kind::Mixed { names, .. } => (names.clone(), true),
            Kind::TextField => (INL.to_vec(), true),
            Kind::List(names, _) => (names.clone(), false),
            _ => (vec![], false),
        };
        if text {
            let mut x = min(name, n);
            x.kids = vec![N::T("文".into())];
            v.push(x);
        }
        if depth > 0 {
            for c in names {
                for k in inner(c, depth - 1, n) {
                    let mut x = min(name, n);
                    x.kids = vec![N::E(k)];
                    v.push(x);
                }
            }
        }
        v
    }
    let e = el(&root.at(path).name).unwrap();
    let names = match &e.kind {
        Kind::Mixed { names, .. } => names.clone(),
        Kind::TextField => INL.to_vec(),
        _ => return,
    };
    let mut n = root.count() + 500;
    for c in names {
        for k in inner(c, 1, &mut n) {
            let mut d = root.clone();
            d.at_mut(path).kids = vec![N::E(k)];
            out.push(d);
        }
    }
}

/// Every subset of the attributes of the element at `path` (with ordinary and with unusual values), and every
/// subset of its optional children (with and without all attributes); of more than `most` of them the subsets of
/// up to three and those with up to two missing.
pub fn subsets(root: &X, path: &[usize], most: usize) -> Vec<X> {
    let name = root.at(path).name.clone();
    let e = el(&name).unwrap();
    let mut v = vec![];
    let masks = |n: usize| -> Vec<u64> {
        if n <= most {
            return (0..1u64 << n).collect();
        }
        let all = (1u64 << n) - 1;
        let mut v = vec![0, all];
        for i in 0..n {
            v.push(1 << i);
            v.push(all ^ 1 << i);
            for j in 0..i {
                v.push(1 << i | 1 << j);
                v.push(all ^ (1 << i | 1 << j));
                v.extend((0..j).map(|k| 1u64 << i | 1 << j | 1 << k));
            }
        }
        v
    };
    for style in 0..3 {
        for m in masks(e.attrs.len()) {
            let mut d = root.clone();
            let x = d.at_mut(path);
            for (i, a) in e.attrs.iter().enumerate() {
                let on = m >> i & 1 == 1;
                if !on && !attr_required(a) {
                    x.attrs.retain(|(n, _)| n != a.xml);
                } else if on {
                    let vals = attr_values(a);
                    let val = match style {
                        0 => attr_max(a, i),
                        1 => vals.first().cloned().unwrap_or_default(),
                        _ => vals[vals.len() / 2].clone(),
                    };
                    x.set_attr(a.xml, &val);
                }
            }
            v.push(d);
        }
    }
    // every combination of values of as many attributes in a row as make up to 1500 combinations
    let values: Vec<Vec<Option<String>>> = e
        .attrs
        .iter()
        .map(|a| {
            let all = attr_values(a);
            let mut v: Vec<Option<String>> = if matches!(a.ty, AT::Enum(..) | AT::BoolF | AT::BoolOpt) { all.into_iter().map(Some).collect() } else { all.into_iter().take(2).map(Some).collect() };
            if !attr_required(a) {
                v.push(None);
            }
            v
        })
        .collect();
    for from in 0..values.len() {
        let (mut to, mut size) = (from, 1);
        while to < values.len() && size * values[to].len() <= 1500 {
            size *= values[to].len();
            to += 1;
        }
        for c in 0..size {
            let mut d = root.clone();
            let x = d.at_mut(path);
            let mut c = c;
            for i in from..to {
                let a = &e.attrs[i];
                match &values[i][c % values[i].len()] {
                    Some(val) => x.set_attr(a.xml, val),
                    None => x.attrs.retain(|(n, _)| n != a.xml),
                }
                c /= values[i].len();
            }
            v.push(d);
        }
        if to == values.len() {
            break;
        }
    }
    if let Kind::Struct(slots) = &e.kind {
        let opt: Vec<usize> = (0..slots.len()).filter(|j| !matches!(slots[*j].card, Card::One | Card::Plus)).collect();
        for style in 0..4 {
            for m in masks(opt.len()) {
                let mut n = root.count() + 600;
                let mut x = min(&name, &mut n);
                x.attrs = root.at(path).attrs.clone();
                x.kids.clear();
                if style % 2 == 1 {
                    for (i, a) in e.attrs.iter().enumerate() {
                        x.set_attr(a.xml, &attr_max(a, i));
                    }
                }
                for (j, s) in slots.iter().enumerate() {
                    let i = opt.iter().position(|o| *o == j);
                    if i.is_some_and(|i| m >> i & 1 == 0) {
                        continue;
                    }
                    // of the alternatives one by turns, the last where it has to be there
                    let nm = if i.is_none() { s.names[s.names.len() - 1] } else { s.names[(style / 2 + m as usize) % s.names.len()] };
                    x.kids.push(N::E(min(nm, &mut n)));
                    if style >= 2 && matches!(s.card, Card::Star | Card::Plus) {
                        x.kids.push(N::E(min(nm, &mut n)));
                    }
                }
                let mut d = root.clone();
                *d.at_mut(path) = x;
                v.push(d);
            }
        }
    }
    v
}

/// Documents with `k` copies of the element at `path` in a row that have a number, or every attribute
/// (only where the schema allows so many).
pub fn series(doc: &X, path: &[usize], k: usize) -> Vec<X> {
    let mut v = vec![];
    let Some((at, up)) = path.split_last() else { return v };
    let parent = doc.at(up).name.clone();
    let Some(pe) = el(&parent) else { return v };
    for all in [false, true] {
        let mut n = doc.count() + 400;
        let copies: Vec<N> = (0..k)
            .map(|_| {
                n += 1;
                let mut c = min(&doc.at(path).name, &mut n);
                let e = el(&c.name).unwrap();
                for a in &e.attrs {
                    if all || a.xml == "Num" {
                        c.set_attr(a.xml, &attr_max(a, n));
                    }
                }
                N::E(c)
            })
            .collect();
        let mut d = doc.clone();
        d.at_mut(up).kids.splice(*at..=*at, copies);
        let fits = match &pe.kind {
            Kind::Struct(slots) => assign(d.at(up), slots).is_ok(),
            Kind::List(..) | Kind::Mixed { .. } | Kind::TextField => true,
            Kind::Sct => doc.at(path).name != "Table",
            _ => false,
        };
        if fits && !v.contains(&d) {
            v.push(d);
        }
    }
    v
}

/// Documents with a row of three or four elements at `path`, some of them the very same: two kinds of content
/// in every order, and another permitted element between two that are the same.
pub fn patterned(doc: &X, path: &[usize]) -> Vec<X> {
    let mut v = vec![];
    let Some((at, up)) = path.split_last() else { return v };
    let Some(pe) = el(&doc.at(up).name) else { return v };
    let name = doc.at(path).name.clone();
    let mut n = doc.count() + 600;
    let mut make = |name: &str| {
        let mut c = min(name, &mut n);
        for a in &el(name).unwrap().attrs {
            if a.xml == "Num" {
                c.set_attr(a.xml, &attr_max(a, n));
            }
        }
        N::E(c)
    };
    let (a, b) = (make(&name), make(&name));
    let mut rows: Vec<Vec<N>> = vec![];
    for len in [3, 4] {
        for bits in 0..1 << (len - 1) {
            rows.push((0..len).map(|i| if i > 0 && bits >> (i - 1) & 1 == 1 { b.clone() } else { a.clone() }).collect());
        }
    }
    for other in child_names(pe) {
        if other != name {
            let x = make(other);
            rows.push(vec![a.clone(), x.clone(), a.clone()]);
            rows.push(vec![a.clone(), x.clone(), x, a.clone()]);
        }
    }
    for row in rows {
        let mut d = doc.clone();
        d.at_mut(up).kids.splice(*at..=*at, row);
        let fits = match &pe.kind {
            Kind::Struct(slots) => assign(d.at(up), slots).is_ok(),
            Kind::List(..) | Kind::Mixed { .. } | Kind::TextField => true,
            Kind::Sct => name != "Table" && d.at(up).kids.iter().all(|k| matches!(k, N::E(e) if e.name == name)),
            _ => false,
        };
        if fits && !v.contains(&d) {
            v.push(d);
        }
    }
    v
}

/// Set every attribute of the nodes on the way to (not including) `path`.
pub fn dress_ancestors(doc: &mut X, path: &[usize]) {
    for k in 0..path.len() {
        let node = doc.at_mut(&path[..k]);
        if let Some(e) = el(&node.name) {
            for at in &e.attrs {
                node.set_attr(at.xml, &attr_max(at, k + 3));
            }
        }
    }
}

pub fn sweep_nums(at: AT) -> Vec<String> {
    let mut v: Vec<u64> = (0..=130).collect();
    v.extend([199, 200, 201, 254, 255, 256, 257, 299, 300, 365, 499, 500, 511, 512, 999, 1000, 1001, 1023, 1024, 1025, 1868, 2019]);
    v.extend([4095, 4096, 9999, 10000, 10001, 32767, 32768, 65535, 65536, 99999, 1 << 31, (1 << 31) - 1, (1 << 32) - 1, 1 << 32]);
    v.extend([1 << 53, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX]);
    let mut v: Vec<String> = v.iter().map(|n| n.to_string()).collect();
    if matches!(at, AT::Num | AT::NumE) {
        for k in (0..=40).chain([99, 100, 255, 256, 65536]) {
            v.push(format!("1_{k}"));
            v.push(format!("1:{k}"));
            v.push(format!("{k}:{}", k + 1));
        }
        for k in 0..=12 {
            v.push(format!("3_2_{k}"));
            v.push(format!("3_2:{k}_2"));
            v.push(format!("3_2:3_{k}"));
            v.push(format!("3:3_{k}"));
            v.push(format!("3_{k}:4"));
            v.push(format!("{}_{}:{}_{}", k, k + 1, k + 2, k + 3));
            let deep = (1..=k + 2).map(|i| i.to_string()).collect::<Vec<_>>().join("_");
            v.push(deep.clone());
            v.push(format!("7:{deep}"));
            v.push(format!("{deep}:{deep}"));
        }
        v.push(format!("{0}_{0}:{0}_{0}", u64::MAX));
        v.push(["1"; 40].join("_"));
    }
    if matches!(at, AT::NumE | AT::UsizeE) {
        v.push(String::new());
    }
    v
}

pub const RICH: &[&str] = &[
    "", " ", "　", "\u{a0}", "\n", "\t", " x", "x ", " x ", "　x", "x　", "\nx\n", "\tx\t", "x  y", "x\n\ny", "x\r\ny", "x\ry", "\u{a0}x\u{a0}",
    "\u{2003}", "\u{200b}", "\u{feff}", "\u{85}x", "x\u{2028}y", "\u{ad}", "0", "1", "2", "9", "10", "00", "-1", "1.0", "１", "０", "一", "〇", "十",
    "第一条", "第一項", "１２３", "true", "false", "null", "none", "vertical", "horizontal", "&", "<", ">", "\"", "'", "&amp;", "&lt;b&gt;", "&#65;", "&nbsp;",
    "<Ruby>x</Ruby>", "<!-- x -->", "<?pi?>", "<![CDATA[x]]>", "]]>", "]", "]]", "--", "?>", "/>", "削除", "（削除）", "略", "抄", "（抄）", "附則", "附　則",
    "目次", "別表", "備考", "イ", "ロ", "（一）", "(1)", "、", "。", "「x」", "『x』", "・", "…", "ー", "—", "％", "㎡", "①", "Ⅳ", "ｱ", "ﾞ", "が", "か\u{3099}", "髙",
    "𠮷", "\u{e000}", "\u{fffd}", "葛\u{e0100}", "e\u{301}", "👨\u{200d}👩", "\u{202e}x", "A", "a", "Ａ", "ａ", "AND", "%s", "{}", "{0}", "\\", "\\n", "$1", "#", "@",
    "平成", "令和元年", "昭和二十二年五月三日", "法律第一号", "../x", "file.pdf", "a/b", "http://example.com/?a=1&b=2", "x;y", "x=y", "x:y", "1_2", "1:2",
];

pub fn long_texts() -> Vec<String> {
    [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4097, 8192, 16384, 40000]
        .iter()
        .map(|&n| {
            let mut s: String = "条".repeat(n - 1);
            s.push('末');
            s
        })
        .chain([70000usize, 131072].iter().map(|&n| "a".repeat(n)))
        .collect()
}

pub const REPEATS: &[usize] = &[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 21, 26, 27, 32, 33, 47, 48, 50, 64, 65, 100, 101, 128, 129, 200, 256, 257, 300];

/// Character data; blank character data is only kept by XML readers in a CDATA section.
pub fn text_node(t: &str) -> N {
    if t.trim_matches([' ', '\t', '\n', '\r']).is_empty() {
        N::Raw(format!("<![CDATA[{t}]]>"))
    } else {
        N::T(t.to_string())
    }
}
/// Value sweeps at one node: every attribute over the wide value list, every text over the rich and
/// long texts, every repeatable child repeated up to 300 times (distinct, and identical copies).
/// `long`: 0 no long texts and few repetitions, 1 moderate, 2 all.
pub fn sweep_at(root: &X, path: &[usize], long: u8, out: &mut Vec<X>) {
    let node = root.at(path);
    let Some(e) = el(&node.name) else { return };
    let mut n = root.count() + 100;
    let mut push = |f: &mut dyn FnMut(&mut X)| {
        let mut r = root.clone();
        f(r.at_mut(path));
        out.push(r);
    };
    for at in &e.attrs {
        let vals: Vec<String> = match at.ty {
            AT::Num | AT::NumE | AT::Usize | AT::UsizeOpt | AT::UsizeE => sweep_nums(at.ty),
            AT::StrReq | AT::StrOpt => {
                let mut v: Vec<String> = RICH.iter().map(|s| s.to_string()).collect();
                if long > 0 {
                    v.extend(long_texts().into_iter().filter(|t| long > 1 || t.len() < 4000))
                }
                v
            }
            _ => attr_values(at),
        };
        for v in vals {
            push(&mut |x| x.set_attr(at.xml, &v));
        }
    }
    let mut texts: Vec<String> = RICH.iter().filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    if long > 0 {
        texts.extend(long_texts().into_iter().filter(|t| long > 1 || t.len() < 4000));
    }
    let reps = |c: &str, pos: usize, n: &mut usize, push: &mut dyn FnMut(&mut dyn FnMut(&mut X))| {
        for &k in REPEATS {
            if k > [10, 65, 1000][long as usize] {
                continue;
            }
            let many: Vec<N> = (0..k).map(|_| N::E(min(c, n))).collect();
            push(&mut |x| {
                x.kids.splice(pos..pos, many.iter().cloned());
            });
            if k <= 12 {
                let same: Vec<N> = vec![N::E(min(c, n)); k];
                push(&mut |x| {
                    x.kids.splice(pos..pos, same.iter().cloned());
                });
            }
        }
    };
    match &e.kind {
        Kind::Struct(slots) => {
            if let Ok(asg) = assign(node, slots) {
                for (j, s) in slots.iter().enumerate() {
                    if matches!(s.card, Card::One | Card::Opt) {
                        continue;
                    }
                    let pos = asg[..=j].iter().flatten().map(|(i, _)| i + 1).max().unwrap_or(0);
                    for nm in &s.names {
                        reps(nm, pos, &mut n, &mut push);
                    }
                }
            }
        }
        Kind::Mixed { names, .. } | Kind::List(names, _) => {
            for nm in names {
                reps(nm, node.kids.len(), &mut n, &mut push);
            }
        }
        Kind::TextField => {
            for nm in INL {
                reps(nm, node.kids.len(), &mut n, &mut push);
            }
        }
        Kind::Sct => {
            if let Some(N::E(f)) = node.kids.first() {
                if f.name != "Table" {
                    reps(&f.name.clone(), node.kids.len(), &mut n, &mut push);
                }
            }
        }
        _ => {}
    }
    // texts: alone, and as a run between and around inline elements
    let text_pos: Vec<usize> = (0..node.kids.len()).filter(|&i| matches!(node.kids[i], N::T(_))).collect();
    for t in &texts {
        for &i in &text_pos {
            push(&mut |x| x.kids[i] = text_node(t));
        }
        let inl: &[&str] = match &e.kind {
            Kind::Mixed { names, .. } => names,
            Kind::TextField => INL,
            _ => &[],
        };
        if t.len() > 2000 {
            continue;
        }
        for (a, b) in [("Ruby", "Ruby"), ("Sup", "Sub"), ("Line", "Line")] {
            if inl.contains(&a) && inl.contains(&b) {
                let (ca, cb) = (min(a, &mut n), min(b, &mut n));
                push(&mut |x| x.kids = vec![N::E(ca.clone()), text_node(t), N::E(cb.clone())]);
                push(&mut |x| x.kids = vec![text_node(t), N::E(ca.clone()), N::T("中".into()), N::E(cb.clone()), text_node(t)]);
            }
        }
        if t.chars().count() < 4 {
            for a in inl {
                let ca = min(a, &mut n);
                push(&mut |x| x.kids = vec![text_node(t), N::E(ca.clone()), text_node(t)]);
            }
        }
    }
    let inl: &[&str] = match &e.kind {
        Kind::Mixed { names, .. } => names,
        Kind::TextField => INL,
        _ => &[],
    };
    for a in inl {
        for b in inl {
            let (ca, cb) = (min(a, &mut n), min(b, &mut n));
            push(&mut |x| x.kids = vec![N::E(ca.clone()), N::E(cb.clone())]);
            for t in [" ", "\n", "\u{3000}", "、", "1"] {
                push(&mut |x| x.kids = vec![N::E(ca.clone()), text_node(t), N::E(cb.clone())]);
            }
        }
    }
}

/// Documents too large to be enumerated eagerly: every repeatable child `reps` times, every text and every
/// text attribute of `chars` characters. Returns how many there are and, built on demand, the one wanted.
pub fn huge_at(root: &X, path: &[usize], reps: &[usize], chars: &[usize], want: Option<usize>) -> (usize, Option<X>) {
    let node = root.at(path);
    let Some(e) = el(&node.name) else { return (0, None) };
    let mut n = root.count() + 100;
    let mut count = 0;
    let mut got = None;
    let mut push = |f: &mut dyn FnMut(&mut X)| {
        if want == Some(count) {
            let mut r = root.clone();
            f(r.at_mut(path));
            got = Some(r);
        }
        count += 1;
    };
    let text = |k: usize| "条".repeat(k - 1) + "末";
    for at in &e.attrs {
        if matches!(at.ty, AT::StrReq | AT::StrOpt) {
            for &k in chars {
                push(&mut |x| x.set_attr(at.xml, &text(k)));
            }
        }
    }
    let mut places: Vec<(&str, usize)> = vec![];
    let mut inl: &[&str] = &[];
    match &e.kind {
        Kind::Struct(slots) => {
            if let Ok(asg) = assign(node, slots) {
                for (j, s) in slots.iter().enumerate() {
                    if !matches!(s.card, Card::One | Card::Opt) {
                        let pos = asg[..=j].iter().flatten().map(|(i, _)| i + 1).max().unwrap_or(0);
                        places.extend(s.names.iter().map(|nm| (*nm, pos)));
                    }
                }
            }
        }
        Kind::Mixed { names, .. } | Kind::List(names, _) => {
            places.extend(names.iter().map(|nm| (*nm, node.kids.len())));
            if matches!(e.kind, Kind::Mixed { .. }) {
                inl = names
            }
        }
        Kind::TextField => {
            inl = INL;
            places.extend(INL.iter().map(|nm| (*nm, node.kids.len())));
        }
        Kind::Sct => {
            if let Some(N::E(f)) = node.kids.first() {
                if f.name != "Table" {
                    places.push((el(&f.name).unwrap().name, node.kids.len()));
                }
            }
        }
        _ => {}
    }
    for (nm, pos) in places {
        for &k in reps {
            push(&mut |x| {
                let many: Vec<N> = (0..k).map(|_| N::E(min(nm, &mut n))).collect();
                x.kids.splice(pos..pos, many);
            });
        }
    }
    for i in (0..node.kids.len()).filter(|&i| matches!(node.kids[i], N::T(_))) {
        for &k in chars {
            push(&mut |x| x.kids[i] = N::T(text(k)));
        }
    }
    for nm in inl {
        for &k in reps {
            push(&mut |x| x.kids = (0..k).flat_map(|i| [N::E(min(nm, &mut n)), N::T(format!("文{i}"))]).collect());
        }
    }
    (count, got)
}

/// Removals (an attribute, a child, all children of one name) and repetitions of an existing child at one node.
/// Candidates that break the schema are for the caller to drop.
pub fn trims_at(root: &X, path: &[usize], out: &mut Vec<X>) {
    let node = root.at(path);
    let mut push = |f: &mut dyn FnMut(&mut X)| {
        let mut r = root.clone();
        f(r.at_mut(path));
        if crate::refread::refread(r.at(path)).is_ok() && crate::refread::crowded(r.at(path)).is_none() {
            out.push(r);
        }
    };
    for (k, _) in &node.attrs {
        push(&mut |x| x.del_attr(k));
    }
    let mut names = vec![];
    for i in 0..node.kids.len() {
        push(&mut |x| {
            x.kids.remove(i);
        });
        if let N::E(c) = &node.kids[i] {
            push(&mut |x| x.kids.insert(i, N::E(c.clone())));
            if !names.contains(&c.name) {
                names.push(c.name.clone());
            }
        }
        if i + 1 < node.kids.len() {
            push(&mut |x| x.kids.swap(i, i + 1));
        }
    }
    for nm in names {
        push(&mut |x| x.kids.retain(|k| !matches!(k, N::E(e) if e.name == nm)));
        push(&mut |x| x.kids.retain(|k| !matches!(k, N::E(e) if e.name != nm)));
    }
}

/// Shortest containment cycle from `name` back to itself (names after the first), if any.
pub fn cycle(name: &'static str) -> Option<Vec<&'static str>> {
    use std::collections::VecDeque;
    let mut prev: BTreeMap<&str, &'static str> = BTreeMap::new();
    let mut q = VecDeque::from([name]);
    while let Some(n) = q.pop_front() {
        for c in child_names(el(n).unwrap()) {
            if c == name {
                let mut v = vec![name];
                let mut cur = n;
                while cur != name {
                    v.push(cur);
                    cur = prev[cur];
                }
                v.reverse();
                return Some(v);
            }
            if !prev.contains_key(c) {
                prev.insert(c, n);
                q.push_back(c);
            }
        }
    }
    None
}

// ---------------------------------------------------------------------------------------------
// documents whose values agree with each other

/// Every text, and every attribute that is a number or free text, with the same value.
pub fn uniform(doc: &X, t: &str, num: &str) -> X {
    let mut d = doc.clone();
    fn go(x: &mut X, t: &str, num: &str) {
        if let Some(e) = el(&x.name) {
            for at in &e.attrs {
                if x.attr(at.xml).is_some() {
                    match at.ty {
                        AT::Num | AT::NumE | AT::Usize | AT::UsizeOpt | AT::UsizeE => x.set_attr(at.xml, num),
                        AT::StrReq | AT::StrOpt => x.set_attr(at.xml, t),
                        _ => {}
                    }
                }
            }
        }
        for k in x.kids.iter_mut() {
            match k {
                N::E(c) => go(c, t, num),
                N::T(s) => *s = t.into(),
                N::Raw(_) => {}
            }
        }
    }
    go(&mut d, t, num);
    d
}

/// Siblings numbered from `from`, and the titles, numbers and labels people write for these numbers:
/// `style` 0 with headings, 1 bare.
pub fn lifelike(doc: &X, from: usize, style: usize) -> X {
    use crate::props_num::{iroha, kanji, zen};
    let mut d = doc.clone();
    fn set(x: &mut X, t: String) {
        x.kids = if t.is_empty() { vec![] } else { vec![N::T(t)] };
    }
    fn go(x: &mut X, from: usize, style: usize) {
        let mut seen: std::collections::HashMap<String, usize> = Default::default();
        for k in x.kids.iter_mut() {
            let N::E(c) = k else { continue };
            let n = {
                let s = seen.entry(c.name.clone()).or_insert(from);
                *s += 1;
                *s - 1
            };
            if let Some(e) = el(&c.name) {
                for at in &e.attrs {
                    if c.attr(at.xml).is_some() && at.xml == "Num" {
                        match at.ty {
                            AT::Num | AT::NumE | AT::Usize | AT::UsizeOpt | AT::UsizeE | AT::StrReq | AT::StrOpt => c.set_attr("Num", &n.to_string()),
                            _ => {}
                        }
                    }
                }
            }
            let head = if style == 0 { "　総則" } else { "" };
            let kind = c.name.trim_start_matches("TOC").to_string();
            let title = match kind.as_str() {
                "Part" => format!("第{}編{head}", kanji(n)),
                "Chapter" => format!("第{}章{head}", kanji(n)),
                "Section" => format!("第{}節{head}", kanji(n)),
                "Subsection" => format!("第{}款{head}", kanji(n)),
                "Division" => format!("第{}目{head}", kanji(n)),
                "Article" => format!("第{}条", kanji(n)),
                "Item" => kanji(n),
                "Class" => format!("第{}類", kanji(n)),
                "Subitem1" => iroha(n, false).unwrap_or_default(),
                "Subitem2" => format!("（{}）", zen(n)),
                "Subitem3" => ["", "（ｉ）", "（ｉｉ）", "（ｉｉｉ）"][n.min(3)].into(),
                s if s.starts_with("Subitem") => zen(n),
                _ => String::new(),
            };
            for k in c.kids.iter_mut() {
                let N::E(t) = k else { continue };
                if t.name == format!("{kind}Title") && !title.is_empty() {
                    set(t, title.clone());
                }
                match t.name.as_str() {
                    // 一つめの項の番号は書かれない
                    "ParagraphNum" => set(t, if n == 1 && style == 0 { String::new() } else { zen(n) }),
                    "ArticleCaption" | "ParagraphCaption" => set(t, "（目的）".into()),
                    "SupplProvisionLabel" => set(t, if style == 0 { "附　則" } else { "附則" }.into()),
                    "RelatedArticleNum" => set(t, format!("（第{}条関係）", kanji(n))),
                    "ArticleRange" => set(t, format!("（第{}条―第{}条）", kanji(n), kanji(n + 1))),
                    "AppdxTableTitle" => set(t, format!("別表第{}", kanji(n))),
                    "AppdxStyleTitle" => set(t, format!("様式第{}", kanji(n))),
                    "TOCLabel" => set(t, "目次".into()),
                    "RemarksLabel" => set(t, "備考".into()),
                    "LawNum" => set(t, "昭和二十一年法律第三号".into()),
                    _ => {}
                }
            }
            go(c, from, style);
        }
    }
    go(&mut d, from, style);
    d
}
pub const SAME: &[(&str, &str)] = &[("一", "1"), ("１", "1"), ("1", "1"), ("第一条", "1"), ("イ", "1"), ("（１）", "1"), ("附則", "2"), ("第二章", "2"), ("十", "10"), ("削除", "1")];
/// The document with values that agree, in all ways.
pub fn agreeing(doc: &X) -> Vec<X> {
    let mut v: Vec<X> = SAME.iter().map(|(t, n)| uniform(doc, t, n)).collect();
    for from in [1, 2, 9, 10] {
        for style in [0, 1] {
            v.push(lifelike(doc, from, style));
        }
    }
    v
}
