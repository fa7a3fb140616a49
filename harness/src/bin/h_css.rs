//! Asks the selector engine and the cascade about every element of a document.
//! Elements are named by their place in document order, starting with 1 for the root element.
use oxvg_ast::{
    element::Element,
    parse::roxmltree::parse,
    selectors::{SelectElement, Selector},
    style::{self, ComputedStyles, Mode},
};
use oxvg_collections::attribute::Attr;
use oxvg_serialize::{PrinterOptions, ToValue as _};
use lightningcss::properties::PropertyId;
use serde_json::{Value, json};
use vharness::{each_line, guard};

fn gather<'i, 'a>(e: Element<'i, 'a>, out: &mut Vec<Element<'i, 'a>>) {
    for child in e.child_nodes_iter() {
        if let Some(child) = Element::new(child) {
            out.push(child);
            gather(child, out);
        }
    }
}

fn strings(v: &Value) -> Vec<String> {
    v.as_array().map_or(vec![], |a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect())
}

fn ask_selector<'i, 'a>(doc: Element<'i, 'a>, all: &[Element<'i, 'a>], text: &str) -> Value {
    let place = |e: &Element<'i, 'a>| all.iter().position(|x| x == e).map_or(0, |p| p + 1);
    guard(|| {
        let Ok(selector) = Selector::new(text) else {
            return json!({"bad": true});
        };
        let matching: Vec<usize> =
            all.iter().filter(|e| selector.matches_naive(&SelectElement::new(**e))).map(place).collect();
        let picked = |from: &Element<'i, 'a>| -> Vec<usize> { from.select(text).unwrap().map(|e| place(&e)).collect() };
        let below: Vec<Vec<usize>> = all.iter().map(picked).collect();
        let again: Vec<usize> = doc.select_with_selector(Selector::new(text).ok().unwrap()).map(|e| place(&e)).collect();
        json!({"bad": false, "whole": picked(&doc), "again": again, "below": below, "matching": matching})
    })
    .unwrap_or_else(|e| json!({"panic": e}))
}

fn mode(m: Mode) -> &'static str {
    match m {
        Mode::Static => "definite",
        Mode::Dynamic => "uncertain",
    }
}

fn ask_style<'i, 'a>(doc: Element<'i, 'a>, e: Element<'i, 'a>, props: &[String]) -> Value {
    guard(|| {
        let sheets: Vec<_> = style::root(doc).collect();
        let computed = match ComputedStyles::default().with_all(e, &sheets) {
            Ok(computed) => computed,
            Err(err) => return json!({"refused": err.to_string()}),
        };
        let answers: Vec<Value> = props
            .iter()
            .map(|p| {
                guard(|| {
                    if p == "mix-blend-mode" || p == "isolation" {
                        let id = PropertyId::from(p.as_str());
                        return match computed.get_by_property(&id) {
                            None => json!({"set": false}),
                            Some((v, m)) => json!({"set": true, "mode": mode(m), "v": v.value_to_css_string(PrinterOptions::default()).unwrap()}),
                        };
                    }
                    let id = e.parse_attr_id(p);
                    match computed.get(&id) {
                        None => json!({"set": false}),
                        Some((Attr::Unparsed { .. } | Attr::CSSUnknown { .. }, m)) => json!({"set": true, "mode": mode(m), "opaque": true, "v": ""}),
                        Some((v, m)) => json!({"set": true, "mode": mode(m), "v": v.value().to_value_string(PrinterOptions::default()).unwrap_or("?".into())}),
                    }
                })
                .unwrap_or_else(|e| json!({"panic": e}))
            })
            .collect();
        json!({"props": answers})
    })
    .unwrap_or_else(|e| json!({"panic": e}))
}

fn main() {
    each_line(|mut v| {
        let svg = v["svg"].as_str().unwrap().to_string();
        let (sels, props, names) = (strings(&v["sels"]), strings(&v["props"]), strings(&v["names"]));
        let answer = parse(&svg, |dom, _| {
            let doc = Element::new(dom).unwrap();
            let mut all = vec![];
            gather(doc, &mut all);
            let place = |e: &Element| all.iter().position(|x| x.id_eq(e)).map_or(0, |p| p + 1);
            let sels: Vec<Value> = sels.iter().map(|s| ask_selector(doc, &all, s)).collect();
            let closest: Vec<Vec<usize>> = names
                .iter()
                .map(|n| {
                    let wanted = all.iter().find(|e| e.local_name().as_str() == n).map(|e| e.qual_name().clone());
                    all.iter().map(|e| wanted.as_ref().and_then(|w| e.closest(w)).map_or(0, |c| place(&c))).collect()
                })
                .collect();
            let styles: Vec<Value> =
                if props.is_empty() { vec![] } else { all.iter().map(|e| ask_style(doc, *e, &props)).collect() };
            json!({"sels": sels, "closest": closest, "styles": styles})
        });
        v["answer"] = answer.unwrap_or_else(|e| json!({"unreadable": e.to_string()}));
        v
    });
}
