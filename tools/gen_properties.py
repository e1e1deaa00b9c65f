#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

XOBS = ["parse_xml -> Law (compared through serde_json with an independent reference reading of the XML)",
        "to_xml -> XML (re-read by an independent parser and schema reading)", "parse_xml(to_xml(law)) == law"]
XWHY = "The only XML test parses and rewrites one document (129AC0000000089) and asserts nothing about the values; most elements, attributes and orderings of the schema never occur in it."
def x(id, title, what, q, files, mech):
    p(id, title,
      what + " Parsing yields exactly the content of the document, each datum in its own place and siblings in document order; writing yields XML with the schema's element and attribute names and the same content; and parsing what was written yields an equal law.",
      ["inputs"], q, XWHY, files, mech, XOBS)

x("C01", "Law header, title, enactment statement and preamble survive XML in and out",
  "Applies to a law's era, year, number, promulgation date, kind, language, law number, title (with reading and abbreviations), subject, enactment statements and preamble, in every combination of present and absent optional parts.",
  "Every schema-valid law header: all attribute values, presence combinations and repetitions within the bound.",
  ["src/law.rs", "src/lib.rs"], [("Law/LawBody/LawTitle/Preamble parser and to_xml_element", "src/law.rs")])
x("C02", "Provision hierarchy survives XML in and out",
  "Applies to parts, chapters, sections, subsections, divisions, articles, paragraphs, classes, items and ten levels of subitems with all their captions, titles, numbers and flags, in every nesting the schema allows.",
  "Every schema-valid arrangement of provisions within the bound on edits from a minimal document, at every nesting level and in every parent context.",
  ["src/article.rs", "src/paragraph.rs", "src/class.rs", "src/law.rs"],
  [("Part..Article, Paragraph, Item, Subitem1..10, Class, Caption parser/to_xml_element", "src/article.rs, src/paragraph.rs, src/class.rs")])
x("C03", "Sentences and inline markup survive XML in and out",
  "Applies to sentences and columns with their attributes and to mixed inline content: character data (including characters that need escaping), ruby, lines, superscripts, subscripts, quotations and formulas, in every order.",
  "Every interleaving of text runs and inline elements within the bound, in every host element that carries text.",
  ["src/sentence.rs", "src/text.rs", "src/line.rs", "src/contents.rs", "src/class.rs"],
  [("Sentence, Column, Text::from_children/to_children, Ruby, Line, Sup, Sub, ArithFormula, QuoteStruct", "src/sentence.rs, src/text.rs, src/line.rs, src/contents.rs, src/structs.rs")])
x("C04", "Table of contents survives XML in and out",
  "Applies to the table of contents: its labels, part/chapter/section/subsection/division/article entries with titles, captions, article ranges, numbers and deletion flags, supplementary provision entries and appended-table labels.",
  "Every schema-valid table of contents within the bound.",
  ["src/table_of_contents.rs"], [("TOC* parser/to_xml_element", "src/table_of_contents.rs")])
x("C05", "Supplementary provisions and appendices survive XML in and out",
  "Applies to supplementary provisions (label, type, amending law number, extract flag, contents) with their appended tables, styles and formulas, and to the law's appended tables, notes, styles, formulas, figures and formats with titles, related article numbers, remarks and numbers.",
  "Every schema-valid supplementary provision or appendix within the bound.",
  ["src/suppl_provision.rs", "src/appdx.rs"], [("SupplProvision*, Appdx* parser/to_xml_element", "src/suppl_provision.rs, src/appdx.rs")])
x("C06", "Tables, structures, lists and remarks survive XML in and out",
  "Applies to tables (header rows, rows, columns with borders, spans, alignment and any permitted contents), figure/style/note/format/table structures with titles and remarks before and after, three-level lists, and remarks with labels.",
  "Every schema-valid table or structure within the bound, in every host element.",
  ["src/table.rs", "src/structs.rs", "src/list.rs", "src/remarks.rs", "src/fig.rs", "src/contents.rs"],
  [("Table*, *Struct, List/Sublist*, Remarks parser/to_xml_element", "src/table.rs, src/structs.rs, src/list.rs, src/remarks.rs")])
x("C07", "Amending provisions survive XML in and out",
  "Applies to amending provisions: the amending sentence and the sequence of new provisions, each of any of the kinds the schema allows, including whole law bodies and nested amendments.",
  "Every schema-valid amending provision within the bound, over all 46 kinds of new provision and their sequences.",
  ["src/law.rs"], [("AmendProvision/NewProvision parser/to_xml_element", "src/law.rs")])

p("C08", "XML spellings that mean the same are read as the same law",
  "Comments, processing instructions, whitespace between elements, attribute order, CDATA sections versus escaped text, and character or entity references never change the law that is read: wherever they occur, parsing gives the same law (the same text, even where it is stored in one or several runs) as for the plain spelling.",
  ["inputs"], "Every insertion point of every such spelling change in the corpus documents, and all pairs of them within the bound.",
  "The tests read one document that contains no comments, processing instructions, CDATA or references between the elements that matter.",
  ["src/law.rs", "src/article.rs", "src/list.rs", "src/text.rs", "src/paragraph.rs"],
  [("child iteration that assumes a particular node kind at a particular position", "src/law.rs, src/article.rs, src/list.rs, src/text.rs")],
  ["parse_xml on the respelled document versus the plain one"])
p("C09", "Documents that break the schema are refused, not mangled",
  "A document that lacks a required attribute or a required element with parts of its own, has an attribute value outside its type, or has an element where the schema does not permit it (unknown, known but misplaced, repeated where one is permitted, or mixed with another kind of content) is answered with an error; only an absent label or an absent list of parts may be read as an empty one. Parsing never panics, and never succeeds by leaving out an element of the document. The order of siblings of different kinds, unknown attributes and character data between elements are left open.",
  ["inputs"], "Every single schema-breaking change, and pairs of changes within the bound, at every place of documents that contain every element of the schema.",
  "The tests only read well-formed, valid documents; no test feeds a broken one.",
  ["src/lib.rs", "src/law.rs", "src/article.rs", "src/structs.rs", "src/text.rs", "src/class.rs"],
  [("required attribute/tag errors, unexpected-tag errors", "src/lib.rs get_attribute*, src/result.rs")],
  ["parse_xml result: Ok/Err/panic"])
p("C10", "A torn or corrupted file is never read as a law and never panics",
  "Every proper prefix of a written law that lacks any part of the closing tag of the law is refused with an error, and so are every such prefix followed by zero bytes and every damaged copy whose bytes are no longer UTF-8, from memory and as a file alike. No single corrupted byte makes reading panic or run forever.",
  ["crash_points", "inputs"], "Every byte position at which writing can stop, and every single-byte substitution from a set of byte values at every position, over documents covering the schema.",
  "No test truncates or corrupts a file.",
  ["src/lib.rs"], [("parse_xml / parse_xml_file error mapping", "src/lib.rs")],
  ["parse_xml and parse_xml_file result on the damaged bytes"])
p("C11", "Writing reports exactly what reached the sink",
  "Writing a law to any sink either returns success after delivering one complete document, or returns an error; it never reports success after a failed or truncated write, whatever pattern of short writes, interruptions and failures the sink shows. The delivered document reads back as the same law as the one produced as a string, and reading a law from a file gives the same result as from its bytes.",
  ["fault_sequences", "inputs"], "Every fault sequence within the bound: an error, zero-length write, interruption or short write at every write call, for several documents.",
  "The test writes one document to an in-memory buffer that never fails or shortens a write.",
  ["src/lib.rs"], [("write_file, to_xml, parse_xml_file", "src/lib.rs")],
  ["write_file result and bytes received by a fault-injecting writer"])
p("C12", "Numbers in attributes round-trip",
  "The attribute form of a number (base, branch numbers, optional end of a range) and its structured form determine each other: reading the attribute form of any number gives that number back, and writing a number read from an attribute gives the attribute back; text that is not of that form is refused with an error (whether leading zeros or a plus sign before a component are tolerated is left open).",
  ["inputs"], "All numbers with up to three branch numbers and up to three range components from a set of boundary values, and all strings up to a bounded length over the characters that matter.",
  "No test covers branch numbers together with ranges in the attribute form.",
  ["src/article_number.rs"], [("num_str / from_num_str / FromStr", "src/article_number.rs")],
  ["ArticleNumber::num_str, from_num_str, str::parse, and Num attributes through parse_xml/to_xml"])
p("C13", "Article and paragraph numbers in legal text are read exactly",
  "For every provision kind (part, chapter, section, subsection, division, article, paragraph, item) the written Japanese form of a number - kanji, full-width or ASCII digits, with branch numbers and with a range - is recognised as exactly that number, and the library's own text form of a number is that written form (第N編のM…, a range as 第N編から第M編まで; paragraphs in full-width digits) and is recognised as that number. Numbers from 1 to 9999, in digits any number; explicit 一千, 一百 and 一十, a missing 第, mixed digit styles and mismatched suffixes of a range are left open.",
  ["inputs"], "All numbers up to a bound in every numeral style and provision kind, with up to two branch numbers, with and without a range end.",
  "The existing tests check about twenty hand-picked numbers.",
  ["src/article_number.rs"], [("parse_article_number and the *_text renderers", "src/article_number.rs")],
  ["article_number::parse_article_number, ArticleNumber::{part,chapter,section,subsection,division,article,paragraph}_text"])
p("C14", "Item labels of every numbering style are read exactly",
  "For each item numbering style (kanji, iroha in katakana or hiragana, full-width digits, full-width roman numerals and letters of both cases; bare or in parentheses) the label of a number is recognised as that style and that number, also with branch numbers (in the label's own style, in kanji or in digits) or a range, and the library's own label for a number the style can write is recognised as that number. Where a full-width letter label is both a letter and a roman numeral, ｉ, ｖ and ｘ alone and well-formed roman numerals of several letters are roman, other letters are letters; letters beyond z continue with two letters.",
  ["inputs"], "All sixteen styles, all numbers each style can write up to a bound, with up to two branch numbers, with and without a range end.",
  "The existing tests check a handful of labels and no range.",
  ["src/article_number.rs"], [("parse_item_number, ItemNumber, ItemPattern, item_text", "src/article_number.rs")],
  ["article_number::parse_item_number, ArticleNumber::item_text"])
p("C15", "Number recognisers accept nothing but numbers and never panic",
  "Recognising a provision number or item label in arbitrary text always returns an answer without panicking, and answers with a number only if the whole text is a well-formed number; splitting a line into label and text loses no character other than the separating spaces and never splits a line that has no separator.",
  ["inputs"], "All strings up to a bounded length over an alphabet with every character the recognisers distinguish, plus over-long and out-of-range numerals.",
  "Tests only feed well-formed labels.",
  ["src/article_number.rs"], [("parse_article_number, parse_item_number, split_number, parse_number", "src/article_number.rs")],
  ["article_number::{parse_article_number, parse_item_number, split_number}"])
p("C16", "Plain text is structured as its headings say",
  "Reading plain law text puts every heading line (part, chapter, section, subsection, division, article, supplementary provision) into the innermost open provision that may hold its kind, with its number, its title (of containers) and the caption line before it, and every paragraph under the article that precedes it (or directly in the main or supplementary provision), in text order; text before any heading becomes the preamble, text after a heading that can hold none is refused with an error, and 削除 marks the provision as deleted. A supplementary heading records the amending law number in parentheses and a following 抄.",
  ["inputs"], "All sequences of line kinds up to a bounded length over an alphabet with every kind of heading, caption, paragraph, item and text line, in both orders of nesting.",
  "Two tests read two fixed texts.",
  ["src/parse_from_text.rs", "src/lib.rs"], [("line classifier and recursive descent parse_body/parse_part/.../parse_paragraph", "src/parse_from_text.rs")],
  ["parse_text -> Law"])
p("C17", "Item nesting in plain text follows the labels",
  "Within a paragraph of plain text, a label in the style of an open level continues that level, and a label in a new style opens a level below the current one; every item and subitem keeps its number and text, in order; beyond the tenth subitem level further labels continue as siblings at the last level.",
  ["inputs"], "All sequences of item labels up to a bounded length over six numbering styles (first and later numbers).",
  "One test contains two levels of items in one fixed order.",
  ["src/parse_from_text.rs"], [("parse_item / parse_subitem1..10", "src/parse_from_text.rs")], ["parse_text -> Law, paragraph children"])
p("C18", "Reading plain text loses nothing and always ends",
  "Reading any plain text ends with a law or an error, without panicking or running forever, and on success every non-blank line of the text appears in the law exactly once and in order, its characters unchanged apart from spaces, where the label of a heading, paragraph or item may appear as its number.",
  ["inputs"], "All line sequences up to a bounded length over an alphabet of line kinds that includes blank, odd, malformed and extreme lines.",
  "Two fixed texts are read; neither has blank lines after captions, stray text after headings, or supplementary provisions.",
  ["src/parse_from_text.rs"], [("main loop and fallthrough branches of parse_body and parse_*", "src/parse_from_text.rs")], ["parse_text -> Law; leaves of the law in document order"])
p("C19", "Promulgation data given with plain text is recorded or refused",
  "Reading plain text records the given year, month, day, kind, language, number, law number and title unchanged, the era that contains the given date (a missing month or day counting as the first) and the year counted in that era; a date that does not exist or lies before the first era is refused with an error, never a panic. Years beyond 9999 may be refused.",
  ["inputs"], "All dates around every era boundary, month and leap-day boundaries and out-of-range values, combined with presence of month and day.",
  "Two tests use one date each.",
  ["src/lib.rs"], [("parse_text date and era mapping", "src/lib.rs")], ["parse_text -> Law header"])
p("C20", "A law read from plain text survives being written and read as XML",
  "Every law obtained from plain text that consists of characters XML allows can be written as XML and read back as an equal law.",
  ["inputs"], "All line sequences up to a bounded length over the line-kind alphabet, with and without law number and date parts.",
  "No test combines text reading with XML output.",
  ["src/lib.rs", "src/parse_from_text.rs", "src/law.rs", "src/article.rs", "src/paragraph.rs"],
  [("parse_text, to_xml, parse_xml", "src/lib.rs")], ["parse_xml(to_xml(parse_text(t))) == parse_text(t)"])
p("C21", "Article lists are complete, ordered and correctly attributed",
  "Listing the articles of the main or a supplementary provision yields every article once, in document order, each with the numbers of exactly the part, chapter, section, subsection and division that contain it, and yields the paragraphs that stand directly in the provision grouped into the runs before, between and after its articles and containers (k of those give k+1 runs, empty ones included; appendices of a supplementary provision do not end a run).",
  ["inputs"], "All provision trees within the bound over every nesting the schema allows.",
  "No test calls the listing functions.",
  ["src/utils.rs"], [("article_list_from_*, with_number_article_list_from_*", "src/utils.rs")], ["utils::with_number_article_list_from_{main,suppl}_provision, article_list_from_{main,suppl}_provision"])
p("C22", "Generated contents listings are complete and correctly attributed",
  "The contents listing generated from the main or a supplementary provision has one entry per part, chapter, section, subsection, division and article, in document order, carrying its title, its own number and the numbers of exactly the provisions that contain it.",
  ["inputs"], "All provision trees within the bound over every nesting the schema allows.",
  "No test calls the listing functions.",
  ["src/utils.rs"], [("toc_list_from_*, Toc setters and getters", "src/utils.rs")], ["utils::toc_list_from_{main,suppl}_provision"])
p("C23", "Text extraction visits every paragraph, item and subitem with its address",
  "Extracting the text of paragraphs yields one entry per paragraph, item and subitem, in document order, addressed by the paragraph's number and the numbers of its enclosing items and itself, with the text of its own sentences (joined directly), columns (sentences separated by spaces) or table; the joined text of an article or paragraph list is those entries in order, one per line.",
  ["inputs"], "All paragraph trees within the bound, to ten levels of subitems, with sentences, columns or tables at every level.",
  "One test flattens one fixed paragraph.",
  ["src/utils.rs"], [("text_info_list_from_paragraph, text_list_from_subitem1..10", "src/utils.rs")], ["utils::{text_info_list_from_paragraph, text_from_article, text_from_paragraph_list}"])
p("C24", "Plain-text rendering keeps every character in order",
  "Rendering sentence parts, inline text or a table as plain text keeps all their character data in order: ruby contributes its base text only, superscripts and subscripts are kept (marked in sentences), lines are left out, formulas and quotations contribute the inline text directly in them, and table rows (header rows first) stay on separate lines with their cells separated by a space and in order. Cells that hold other things than text, sentences and columns are left open.",
  ["inputs"], "All sequences of inline elements and all small tables within the bound.",
  "Two tests render two fixed sentences.",
  ["src/utils.rs", "src/text.rs"], [("sentence_element_to_str, table_to_str, Text::to_string", "src/utils.rs, src/text.rs")], ["utils::{sentence_element_to_str, table_to_str}, Text::to_string"])
p("C25", "Laws survive JSON serialisation",
  "Serialising any law to JSON and deserialising it gives an equal law, which also writes the same XML; distinct laws have distinct JSON.",
  ["inputs"], "Every law reachable by reading the documents of the bound over every element of the schema.",
  "No test serialises a law.",
  ["src/law.rs", "src/article.rs", "src/paragraph.rs", "src/table.rs"], [("serde derives on every model type", "src/*.rs")], ["serde_json::to_string / from_str on Law"])
p("C26", "The library is silent",
  "Reading, writing, listing and number recognition write nothing to the process's standard output or standard error.",
  ["inputs"], "Every operation of the library over its corpus of inputs (all line kinds, all labels, all schema elements).",
  "The test harness captures output and checks none of it.",
  ["src/article_number.rs", "src/parse_from_text.rs"], [("no print in library code", "src/*.rs")], ["bytes written to file descriptors 1 and 2 while the library runs"])
p("C27", "Results do not depend on what was done before",
  "Every operation gives the same result for the same input whatever operations, successful or failed, were performed before it in the process.",
  ["histories"], "All sequences of operations up to a bounded length from a pool that covers reading, writing, text structuring, number recognition and listing, including failing calls.",
  "Each test makes its calls in one fixed order and most make a single call.",
  ["src/lib.rs", "src/article_number.rs", "src/parse_from_text.rs", "src/utils.rs"], [("no mutable state outside the arguments", "src/*.rs")], ["results of each call in the sequence versus the same call made first in a fresh process"])
p("C28", "Inline text built piece by piece keeps every piece",
  "A Text made by any sequence of from_value, add_string, add_text, add_ruby, add_line, add_sup and add_sub (or from_children) holds exactly the pieces added, in that order: as contents, as a string (ruby base text, superscripts and subscripts kept, lines left out), with a writing mode, turned into XML nodes and back, and as the title of a law that is written and read. How neighbouring strings are grouped is left open.",
  ["histories"], "All sequences of building operations up to a depth over pieces of every kind, and long runs of every operation.",
  "Tests build texts only by reading XML, and no test joins texts.",
  ["src/text.rs", "src/line.rs"], [("Text::{from_value, from_children, add_*, with_writing_mode, to_children, to_string}", "src/text.rs")], ["contents, to_string, to_children/from_children, to_xml + parse_xml"])
p("C29", "Provision addresses and numbers can be set, read and shown",
  "Every getter of an article's address (WithNumberArticle) and of a contents entry (Toc) returns what was last set for that field and nothing else changes it; a new one has no numbers, and two are equal exactly when all their fields are. Every provision shows its number as the number's own text with its own unit, which is recognised as that number; an item's number keeps base, branches and range; zero is zero; line styles, alignments and positions are read from exactly the attribute values they are written as.",
  ["histories"], "All sequences of settings up to a depth over all fields and several values each, all assignments of all fields; numbers with branches and ranges for each kind of provision.",
  "No test calls a setter, a getter, number_text or zero.",
  ["src/utils.rs", "src/article.rs", "src/article_number.rs", "src/line.rs", "src/class.rs", "src/table.rs"], [("WithNumberArticle, Toc: setters and getters", "src/utils.rs"), ("number_text", "src/article.rs"), ("from_attribute, to_attribute", "src/line.rs, src/class.rs, src/table.rs")], ["getters after each setting; number_text; from_attribute / to_attribute"])
p("C30", "Laws are equal exactly when their content is",
  "Two laws compare as equal exactly when no part of their content differs, whichever is on the left; equal laws have equal hashes; a copy of a law and the same document read again are equal to it; laws that differ are written as different XML.",
  ["inputs"], "Every pair of documents one edit apart, or one edit each from the same document, over every element, attribute and parent of the schema.",
  "Tests compare a law only with itself after a round trip, where parts ignored by the comparison go unnoticed.",
  ["src/law.rs", "src/article.rs", "src/paragraph.rs", "src/article_number.rs", "src/sentence.rs"], [("PartialEq, Hash, Clone of every model type", "src/*.rs")], ["==, !=, Hash and Clone of Law; to_xml"])
p("C31", "A refused document is refused for what is wrong in it",
  "When a document is refused because of one fault, the error names it: an element that is unknown, misplaced or one too many by its name; an attribute that is missing or whose value is not one of those permitted by its name and its element's; a document that is not well-formed as XML that cannot be parsed; a file that cannot be read as an input/output error. An ill-formed number may be reported as just that; what is said when a required element is missing, or two kinds of content are mixed, is left open.",
  ["inputs"], "Every single-fault document over the schema: each element with each misplaced element, repeated child, missing attribute and ill-typed value, in several contexts.",
  "No test reads a faulty document.",
  ["src/result.rs", "src/lib.rs", "src/list.rs", "src/suppl_provision.rs"], [("Error and its uses in every parser", "src/result.rs, src/*.rs")], ["the text of the error from parse_xml and parse_xml_file"])
p("C32", "Calls on different threads do not affect each other",
  "A program may call the library from several threads at once. Each call gives the result it gives when it runs alone, whatever calls on other laws, texts and numbers run at the same time and however they are interleaved with it, and none of them blocks the others for good or changes what later calls give.",
  ["schedules"], "Every ordered pair of operations (reading laws of different shapes, well-formed or not, writing them to a string or a sink, listing, reading from text, reading and printing numbers and labels) on two threads; the second run at every memory operation of the first, and every schedule of two switches over a grid of memory operations.",
  "The tests call each function once on one thread; an interference shows only under particular interleavings.",
  ["src/lib.rs", "src/parse_from_text.rs", "src/utils.rs", "src/article_number.rs"], [("functions of their arguments only, without shared state", "src/lib.rs, src/parse_from_text.rs, src/utils.rs, src/article_number.rs")], ["results of parse_xml, to_xml, write_file, parse_text, listings and number functions called on two threads"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
import collections
assert all(len(q["title"]) <= 80 for q in P), [q["id"] for q in P if len(q["title"])>80]
