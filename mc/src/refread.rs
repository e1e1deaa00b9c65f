//! Reference reading: XML tree -> JSON view of the data model, refusing anything the schema model does
//! not allow (names, attributes, order, value types).
use crate::grammar::*;
use crate::xt::{N, X};
use serde_json::{json, Map, Value};

pub type R<T> = Result<T, String>;

/// "1_2_3:4_5" -> base 1, branches [2,3], range end [4,5]
pub fn ref_num(s: &str) -> R<Value> {
    fn nums(s: &str) -> R<Vec<u64>> {
        s.split('_')
            .map(|p| {
                if p.is_empty() || !p.bytes().all(|b| b.is_ascii_digit()) {
                    return Err(format!("bad number {s:?}"));
                }
                p.parse::<u64>().map_err(|_| format!("number too large {s:?}"))
            })
            .collect()
    }
    let (a, b) = match s.split_once(':') {
        Some((a, b)) => (a, Some(b)),
        None => (s, None),
    };
    let v = nums(a)?;
    let r = match b {
        Some(b) => nums(b)?,
        None => vec![],
    };
    Ok(json!({"base_number": v[0], "eda_numbers": v[1..], "range_end_numbers": r}))
}

fn ref_attr(at: &At, v: Option<&str>, el: &str) -> R<Value> {
    let bad = |v: &str| Err(format!("<{el}> {}={v:?} bad value", at.xml));
    let us = |v: &str| -> R<Value> {
        if v.is_empty() || !v.bytes().all(|b| b.is_ascii_digit()) {
            return Err(format!("<{el}> {}={v:?} bad value", at.xml));
        }
        v.parse::<u64>().map(|n| json!(n)).map_err(|_| format!("<{el}> {}={v:?} too large", at.xml))
    };
    if v.is_none() && attr_required(at) {
        return Err(format!("<{el}> missing attribute {}", at.xml));
    }
    Ok(match (at.ty, v) {
        (AT::Num, Some(v)) => ref_num(v)?,
        (AT::NumE, Some("")) => Value::Null,
        (AT::NumE, Some(v)) => ref_num(v)?,
        (AT::Usize, Some(v)) => us(v)?,
        (AT::UsizeOpt, Some(v)) => us(v)?,
        (AT::UsizeE, Some("")) => Value::Null,
        (AT::UsizeE, Some(v)) => us(v)?,
        (AT::StrReq | AT::StrOpt, Some(v)) => json!(v),
        (AT::BoolF | AT::BoolOpt, Some(v)) => match v {
            "true" => json!(true),
            "false" => json!(false),
            _ => return bad(v),
        },
        (AT::BoolF, None) => json!(false),
        (AT::Enum(p, _), Some(v)) => match p.iter().find(|x| x.0 == v) {
            Some(x) => json!(x.1),
            None => return bad(v),
        },
        (AT::Enum(_, ED::Def(d)), None) => json!(d),
        (_, None) => Value::Null,
    })
}

pub fn elements(x: &X) -> R<Vec<&X>> {
    x.kids
        .iter()
        .filter_map(|k| match k {
            N::E(e) => Some(Ok(e)),
            N::T(t) => Some(Err(format!("<{}>: text {t:?} not allowed", x.name))),
            N::Raw(_) => None,
        })
        .collect()
}
fn text_only(x: &X) -> R<String> {
    let mut s = String::new();
    for k in &x.kids {
        match k {
            N::T(t) => s.push_str(t),
            N::E(e) => return Err(format!("<{}>: <{}> not allowed", x.name, e.name)),
            N::Raw(_) => {}
        }
    }
    Ok(s)
}
fn mixed(x: &X, tag: &str, names: &[&str]) -> R<Value> {
    let mut v: Vec<Value> = vec![];
    for k in &x.kids {
        match k {
            N::T(t) => match v.last_mut().and_then(|l| l.as_object_mut()).and_then(|o| o.get_mut(tag)).filter(|p| p.is_string()) {
                Some(p) => {
                    let s = format!("{}{t}", p.as_str().unwrap());
                    *p = json!(s)
                }
                None => v.push(json!({ tag: t })),
            },
            N::E(e) => {
                if !names.contains(&e.name.as_str()) {
                    return Err(format!("<{}>: <{}> not allowed", x.name, e.name));
                }
                v.push(json!({ e.name.clone(): refread(e)? }))
            }
            N::Raw(_) => {}
        }
    }
    Ok(Value::Array(v))
}

pub fn refread(x: &X) -> R<Value> {
    let e = el(&x.name).ok_or_else(|| format!("unknown element <{}>", x.name))?;
    let mut o = Map::new();
    for (k, _) in &x.attrs {
        if !e.attrs.iter().any(|a| a.xml == k) {
            return Err(format!("<{}>: unknown attribute {k}", x.name));
        }
    }
    for at in &e.attrs {
        o.insert(at.json.to_string(), ref_attr(at, x.attr(at.xml), &x.name)?);
    }
    match &e.kind {
        Kind::Struct(slots) => {
            let asg = assign(x, slots)?;
            for (s, v) in slots.iter().zip(asg) {
                let val = if s.json == "new_provision" {
                    let mut all = vec![];
                    for (_, c) in v {
                        if let Value::Array(a) = refread(c)? {
                            all.extend(a)
                        }
                    }
                    Value::Array(all)
                } else {
                    let one = |c: &X| -> R<Value> {
                        let r = refread(c)?;
                        Ok(if s.tagged { json!({ c.name.clone(): r }) } else { r })
                    };
                    match s.card {
                        Card::One if v.is_empty() => json!({"contents": []}),
                        Card::One => one(v[0].1)?,
                        Card::Opt => match v.first() {
                            Some(c) => one(c.1)?,
                            None => Value::Null,
                        },
                        _ => Value::Array(v.iter().map(|c| one(c.1)).collect::<R<_>>()?),
                    }
                };
                o.insert(s.json.to_string(), val);
            }
            Ok(Value::Object(o))
        }
        Kind::Mixed { fields, tag, names } => {
            let mut v = mixed(x, tag, names)?;
            for f in fields[1..].iter().rev() {
                v = json!({ *f: v });
            }
            o.insert(fields[0].to_string(), v);
            Ok(Value::Object(o))
        }
        Kind::TextField => {
            o.insert("text".into(), json!({"contents": mixed(x, "Text", INL)?}));
            Ok(Value::Object(o))
        }
        Kind::Str(f) => {
            o.insert(f.to_string(), json!(text_only(x)?));
            Ok(Value::Object(o))
        }
        Kind::PlainStr => Ok(json!(text_only(x)?)),
        Kind::Ruby => {
            let mut t = String::new();
            let mut r = String::new();
            let mut seen = false;
            for k in &x.kids {
                match k {
                    N::T(s) => t.push_str(s),
                    N::E(c) if c.name == "Rt" => {
                        // the data model holds one reading; the library refuses a second one
                        if std::mem::replace(&mut seen, true) {
                            return Err("<Ruby>: second <Rt>".into());
                        }
                        r = text_only(c)?
                    }
                    N::E(c) => return Err(format!("<Ruby>: <{}> not allowed", c.name)),
                    N::Raw(_) => {}
                }
            }
            let c = if t.is_empty() { json!([]) } else { json!([{ "Text": t }]) };
            Ok(json!({"text": {"contents": c}, "ruby": r}))
        }
        Kind::List(names, tagged) => {
            let mut v = vec![];
            for c in elements(x)? {
                if !names.contains(&c.name.as_str()) {
                    return Err(format!("<{}>: <{}> not allowed", x.name, c.name));
                }
                let r = refread(c)?;
                v.push(if *tagged { json!({ c.name.clone(): r }) } else { r });
            }
            Ok(Value::Array(v))
        }
        Kind::Single(n) => {
            let c = elements(x)?;
            if c.is_empty() || c.iter().any(|e| e.name != *n) {
                return Err(format!("<{}>: <{n}> expected", x.name));
            }
            refread(c[0])
        }
        Kind::Sct => {
            let c = elements(x)?;
            let f = c.first().ok_or_else(|| format!("<{}>: empty", x.name))?.name.clone();
            if !["Sentence", "Column", "Table"].contains(&f.as_str()) || c.iter().any(|e| e.name != f) || (f == "Table" && c.len() > 1) {
                return Err(format!("<{}>: bad contents", x.name));
            }
            let v = c.iter().map(|e| refread(e)).collect::<R<Vec<_>>>()?;
            Ok(if f == "Table" { json!({ "Table": v[0] }) } else { json!({ f: v }) })
        }
        Kind::Empty => {
            if !x.kids.is_empty() {
                return Err(format!("<{}>: must be empty", x.name));
            }
            Ok(Value::Object(o))
        }
    }
}

/// Merge adjacent text runs in every content list of a JSON view; drop empty runs.
pub fn merge_runs(v: &mut Value) {
    match v {
        Value::Array(a) => {
            let mut out: Vec<Value> = Vec::with_capacity(a.len());
            for mut x in std::mem::take(a) {
                merge_runs(&mut x);
                if let Some((k, t)) = run(&x) {
                    if t.is_empty() {
                        continue;
                    }
                    if let Some((k2, t2)) = out.last().and_then(run) {
                        if k == k2 {
                            let j = json!({ k: format!("{t2}{t}") });
                            *out.last_mut().unwrap() = j;
                            continue;
                        }
                    }
                }
                out.push(x);
            }
            *a = out;
        }
        Value::Object(o) => {
            for (_, x) in o.iter_mut() {
                merge_runs(x)
            }
        }
        _ => {}
    }
}
fn run(v: &Value) -> Option<(String, String)> {
    let o = v.as_object()?;
    if o.len() != 1 {
        return None;
    }
    let (k, t) = o.iter().next()?;
    if k != "Text" && k != "String" {
        return None;
    }
    Some((k.clone(), t.as_str()?.to_string()))
}

/// First difference between two JSON values, for messages.
pub fn diff(a: &Value, b: &Value) -> Option<String> {
    fn go(a: &Value, b: &Value, p: &mut String) -> Option<String> {
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for (k, v) in x {
                    let l = p.len();
                    p.push('.');
                    p.push_str(k);
                    match y.get(k) {
                        Some(w) => {
                            if let Some(d) = go(v, w, p) {
                                return Some(d);
                            }
                        }
                        None => return Some(format!("{p}: {} vs (absent)", short(v))),
                    }
                    p.truncate(l);
                }
                for (k, w) in y {
                    if !x.contains_key(k) {
                        return Some(format!("{p}.{k}: (absent) vs {}", short(w)));
                    }
                }
                None
            }
            (Value::Array(x), Value::Array(y)) => {
                for i in 0..x.len().max(y.len()) {
                    let l = p.len();
                    p.push_str(&format!("[{i}]"));
                    match (x.get(i), y.get(i)) {
                        (Some(v), Some(w)) => {
                            if let Some(d) = go(v, w, p) {
                                return Some(d);
                            }
                        }
                        (v, w) => return Some(format!("{p}: {} vs {}", v.map(short).unwrap_or("(absent)".into()), w.map(short).unwrap_or("(absent)".into()))),
                    }
                    p.truncate(l);
                }
                None
            }
            _ if a == b => None,
            _ => Some(format!("{p}: {} vs {}", short(a), short(b))),
        }
    }
    go(a, b, &mut String::new())
}
fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.chars().count() > 200 {
        s.chars().take(200).collect::<String>() + "…"
    } else {
        s
    }
}

/// The first element with room for one sentence that holds several (a recorded finding of C07).
pub fn crowded(x: &X) -> Option<String> {
    let own = match el(&x.name).map(|e| &e.kind) {
        Some(Kind::Single(_)) => x.kids.iter().filter(|k| matches!(k, N::E(_))).count() > 1,
        _ => false,
    };
    if own {
        return Some(x.name.clone());
    }
    x.kids.iter().find_map(|k| if let N::E(e) = k { crowded(e) } else { None })
}
