//! Replays operations on the attributes and class list of one element and reports every query.
use oxvg_ast::{element::Element, parse::roxmltree::parse};
use oxvg_collections::{
    attribute::{Attr, AttrId},
    name::{NS, Prefix},
};
use oxvg_serialize::{PrinterOptions, ToValue};
use serde_json::{Value, json};
use vharness::{each_line, guard};

const NAMES: [(&str, &str, &str); 12] = [
    ("", "", "class"),
    ("", "", "data-x"),
    ("", "", "fill"),
    ("", "", "href"),
    ("", "", "id"),
    ("", "", "stroke"),
    ("", "", "stroke-width"),
    ("e", "urn:e", "foo"),
    ("e", "urn:e", "href"),
    ("xlink", "http://www.w3.org/1999/xlink", "href"),
    ("xml", "http://www.w3.org/XML/1998/namespace", "space"),
    ("xmlns", "http://www.w3.org/2000/xmlns/", "q"),
];
const WORDS: [&str; 3] = ["a", "b", "c"];

fn prefix(k: usize) -> Prefix<'static> {
    let (px, ns, _) = NAMES[k];
    if px.is_empty() { Prefix::SVG } else { Prefix::new(ns.into(), Some(px.into())) }
}

fn id(element: &Element, k: usize) -> AttrId<'static> {
    let name = oxvg_collections::element::ElementId::A;
    debug_assert!(*element.qual_name() == name);
    name.parse_attr_id(&prefix(k), NAMES[k].2.into())
}

fn words(v: &Value) -> Vec<&str> {
    v.as_array().unwrap().iter().map(|w| w.as_str().unwrap()).collect()
}

fn value(attr: &Attr) -> Vec<String> {
    attr.to_value_string(PrinterOptions::default())
        .unwrap_or_else(|_| "unwritable".into())
        .split_ascii_whitespace()
        .map(str::to_string)
        .collect()
}

fn none() -> Vec<String> {
    vec!["-".into()]
}

fn view(e: &Element, note: &mut String) -> Value {
    let mut complain = |s: String| {
        if note.is_empty() {
            *note = s;
        }
    };
    let key = |a: &Attr| {
        (0..NAMES.len())
            .find(|&k| a.name() == &id(e, k) && a.prefix() == &prefix(k))
            .map_or("?".to_string(), |k| (k + 1).to_string())
    };
    let mut list = vec![];
    for a in e.attributes() {
        let mut row = vec![key(&a)];
        row.extend(value(&a));
        list.push(row);
    }
    let by_index: Vec<Vec<String>> = (0..)
        .map_while(|i| e.attributes().item(i).map(|a| [vec![key(&a)], value(&a)].concat()))
        .collect();
    let by_slice: Vec<Vec<String>> = e.attributes().as_slice().iter().map(|a| [vec![key(a)], value(a)].concat()).collect();
    let by_mut: Vec<Vec<String>> = e.attributes().into_iter_mut().map(|a| [vec![key(&a)], value(&a)].concat()).collect();
    let names: Vec<String> = e.get_attribute_names::<Vec<_>>().iter().map(|n| {
        (0..NAMES.len()).find(|&k| **n == id(e, k)).map_or("?".to_string(), |k| (k + 1).to_string())
    }).collect();
    if by_index != list || by_slice != list || by_mut != list {
        complain(format!("iteration disagrees: {list:?} {by_index:?} {by_slice:?} {by_mut:?}"));
    }
    if names != list.iter().map(|r| r[0].clone()).collect::<Vec<_>>() {
        complain(format!("names disagree: {names:?} {list:?}"));
    }
    if e.attributes().len() != list.len() || e.attributes().is_empty() != list.is_empty() || e.has_attributes() == list.is_empty() {
        complain("length disagrees".into());
    }
    let get: Vec<Vec<String>> = (0..NAMES.len())
        .map(|k| {
            let n = id(e, k);
            let got = e.get_attribute(&n).map_or_else(none, |a| value(&a));
            let item = e.attributes().get_named_item(&n).map_or_else(none, |a| value(&a));
            let node = e.get_attribute_node_mut(&n).map_or_else(none, |a| value(&a));
            let (px, ns, local) = NAMES[k];
            let other = if px.is_empty() {
                e.get_attribute_local(&local.into()).map_or_else(none, |a| value(&a))
            } else {
                e.get_attribute_ns(&NS::new(ns.into()), &local.into()).map_or_else(none, |a| value(&a))
            };
            if item != got || node != got || other != got || e.has_attribute(&n) == (got == none()) {
                complain(format!("lookups of {px}:{local} disagree: {got:?} {item:?} {node:?} {other:?}"));
            }
            got
        })
        .collect();
    let classes = e.class_list();
    let mut tokens = vec![];
    classes.for_each(|t| tokens.push(t.to_string()));
    let by_item: Vec<String> = classes.keys().filter_map(|i| classes.item(i).map(|t| t.to_string())).collect();
    if by_item != tokens || classes.item(tokens.len()).is_some() || classes.length() != tokens.len() || classes.value() != tokens.join(" ") {
        complain(format!("class list disagrees: {tokens:?} {by_item:?} {}", classes.value()));
    }
    let has: Vec<bool> = WORDS.iter().map(|w| classes.contains(w)).collect();
    if has != WORDS.iter().map(|w| e.has_class(w)).collect::<Vec<_>>() || has != WORDS.iter().map(|w| e.has_class(&format!(".{w}"))).collect::<Vec<_>>() {
        complain("class queries disagree".into());
    }
    json!({"l": list, "g": get, "c": tokens, "h": has})
}

fn run(v: &Value) -> Vec<Value> {
    let mut svg = String::from(r#"<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:e="urn:e"><a"#);
    // declarations are listed first by the parser whatever their place, so put them where they go
    for a in v["at"].as_array().unwrap() {
        let (px, _, local) = NAMES[a["k"].as_u64().unwrap() as usize - 1];
        let colon = if px.is_empty() { "" } else { ":" };
        svg += &format!(" {px}{colon}{local}=\"{}\"", words(&a["v"]).join(" "));
    }
    svg += "/><a/></svg>";
    let ops = v["ops"].as_array().unwrap();
    parse(&svg, |dom, _| {
        let root = Element::new(dom).and_then(|d| d.first_element_child()).unwrap();
        let e = root.first_element_child().unwrap();
        let spare = e.next_element_sibling().unwrap();
        // the parser lists declarations before attributes; bring the list into the stated order
        let at = v["at"].as_array().unwrap();
        if let Some(i) = at.iter().position(|a| a["k"] == 12) {
            let mut attrs = e.attributes().0.borrow_mut();
            let decl = attrs.remove(0);
            attrs.insert(i, decl);
        }
        let mut out = vec![];
        for op in ops {
            let mut note = String::new();
            let done = guard(|| {
                let k = (op["k"].as_u64().unwrap() as usize).wrapping_sub(1);
                let w = words(&op["w"]);
                let make = || {
                    let text: &'static str = Box::leak(words(&op["v"]).join(" ").into_boxed_str());
                    Attr::new(id(&e, k), text)
                };
                let atom = |i: usize| {
                    let text: &'static str = Box::leak(w[i].to_string().into_boxed_str());
                    text.into()
                };
                let nothing: Vec<String> = vec![];
                match op["op"].as_str().unwrap() {
                    "set" => { e.set_attribute(make()); nothing }
                    "set_item" => e.attributes().set_named_item(make()).map_or_else(none, |a| value(&a)),
                    "mutate" => match e.attributes().get_named_item_mut(&id(&e, k)) {
                        Some(mut a) => value(&std::mem::replace(&mut *a, make())),
                        None => none(),
                    },
                    "remove" => e.remove_attribute(&id(&e, k)).map_or_else(none, |a| value(&a)),
                    "retain" => {
                        let keep: Vec<_> = op["ks"].as_array().unwrap().iter().map(|k| id(&e, k.as_u64().unwrap() as usize - 1)).collect();
                        e.attributes().retain(|a| keep.contains(a.name()));
                        nothing
                    }
                    "sort" => {
                        let order: Vec<String> = w.iter().map(|s| s.to_string()).collect();
                        e.attributes().sort(&order, op["k"] == 1);
                        nothing
                    }
                    "move" => {
                        spare.set_attributes(&e.attributes());
                        if !e.attributes().is_empty() {
                            return vec!["moved attributes stay behind".into()];
                        }
                        e.set_attributes(&spare.attributes());
                        nothing
                    }
                    "c_add" => { e.class_list().add(atom(0)); nothing }
                    "c_remove" => { e.class_list().remove(w[0]); nothing }
                    "c_toggle" => vec![e.class_list().toggle(atom(0)).to_string()],
                    "c_replace" => vec![e.class_list().replace(w[0], atom(1)).to_string()],
                    "c_retain" => { e.class_list().retain(|t| w.contains(&&*t.0)); nothing }
                    other => panic!("unknown operation {other}"),
                }
            });
            match done {
                Ok(ret) => {
                    let view = view(&e, &mut note);
                    out.push(json!({"ret": ret, "view": view, "note": note}));
                }
                Err(p) => {
                    out.push(json!({"ret": [], "view": {}, "note": p}));
                    break;
                }
            }
        }
        out
    })
    .unwrap()
}

fn main() {
    each_line(|mut v| {
        v["obs"] = match guard(|| run(&v)) {
            Ok(obs) => Value::Array(obs),
            Err(p) => json!([{"ret": [], "view": {}, "note": p}]),
        };
        v
    });
}
