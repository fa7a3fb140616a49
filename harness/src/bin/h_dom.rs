//! Replays edit histories on the document tree and reports every public query of every node.
use oxvg_ast::{
    arena::Allocator,
    element::Element,
    node::{Node, Ref},
    parse::roxmltree::parse,
};
use oxvg_collections::element::ElementId;
use serde_json::{Value, json};
use vharness::{each_line, guard};

const NIL: usize = 99;
const LIMIT: usize = 40;

type Nodes<'i, 'a> = Vec<Ref<'i, 'a>>;

fn at<'i, 'a>(nodes: &Nodes<'i, 'a>, n: Option<Ref<'i, 'a>>) -> usize {
    n.map_or(NIL, |n| nodes.iter().position(|m| std::ptr::eq(*m, n)).unwrap_or(98))
}

fn list<'i, 'a>(nodes: &Nodes<'i, 'a>, it: impl Iterator<Item = Ref<'i, 'a>>) -> Vec<usize> {
    it.take(LIMIT).map(|n| at(nodes, Some(n))).collect()
}

fn below<'i, 'a>(nodes: &Nodes<'i, 'a>, n: Ref<'i, 'a>) -> Vec<usize> {
    (0..nodes.len()).filter(|&m| n.contains(nodes[m])).collect()
}

/// Links walked by hand with a limit, so that a cyclic list shows up as data instead of a hang.
fn bounded(n: &Node) -> bool {
    let mut seen = 0;
    let mut c = n.first_child();
    while let Some(x) = c {
        seen += 1;
        if seen > LIMIT {
            return false;
        }
        if !bounded_depth(x, 0) {
            return false;
        }
        c = x.next_sibling();
    }
    true
}
fn bounded_depth(n: &Node, depth: usize) -> bool {
    if depth > 12 {
        return false;
    }
    let mut seen = 0;
    let mut c = n.first_child();
    while let Some(x) = c {
        seen += 1;
        if seen > LIMIT || !bounded_depth(x, depth + 1) {
            return false;
        }
        c = x.next_sibling();
    }
    true
}

fn view<'i, 'a>(nodes: &Nodes<'i, 'a>) -> Value {
    let mut rows = vec![];
    for (i, &n) in nodes.iter().enumerate() {
        let base = json!([
            i,
            at(nodes, n.parent_node().map(|e| e.0)),
            at(nodes, n.previous_sibling()),
            at(nodes, n.next_sibling()),
            at(nodes, n.first_child()),
            at(nodes, n.last_child())
        ]);
        if !nodes.iter().all(|n| bounded(n)) {
            rows.push(base);
            continue;
        }
        let mut row = base.as_array().unwrap().clone();
        row.push(json!(n.parent_node().and_then(|p| p.child_index(&n)).unwrap_or(NIL)));
        let e = Element::new(n);
        row.push(json!(at(nodes, e.and_then(|e| e.first_element_child()).map(|e| e.0))));
        row.push(json!(at(nodes, e.and_then(|e| e.last_element_child()).map(|e| e.0))));
        row.push(json!(at(nodes, e.and_then(|e| e.previous_element_sibling()).map(|e| e.0))));
        row.push(json!(at(nodes, e.and_then(|e| e.next_element_sibling()).map(|e| e.0))));
        row.push(json!(list(nodes, n.child_nodes_iter())));
        row.push(json!(list(nodes, n.child_nodes_iter().rev())));
        let mut alt = vec![];
        let mut it = n.child_nodes_iter();
        loop {
            if alt.len() > LIMIT {
                break;
            }
            let next = if alt.len() % 2 == 0 { it.next() } else { it.next_back() };
            match next {
                Some(c) => alt.push(at(nodes, Some(c))),
                None => break,
            }
        }
        row.push(json!(alt));
        let count = n.child_node_count();
        row.push(json!((0..count).map(|i| at(nodes, n.item(i))).collect::<Vec<_>>()));
        row.push(json!(e.map_or(vec![], |e| list(nodes, e.children_iter().map(|e| e.0)))));
        row.push(json!(below(nodes, n)));
        row.push(json!(e.map_or(vec![], |e| list(nodes, e.breadth_first().map(|e| e.0)))));
        rows.push(Value::Array(row));
    }
    Value::Array(rows)
}

fn num(o: &Value, k: &str) -> usize {
    o[k].as_u64().unwrap() as usize
}

fn apply<'i, 'a>(nodes: &mut Nodes<'i, 'a>, o: &Value, root: Ref<'i, 'a>, al: &Allocator<'i, 'a>) -> Value {
    let p = nodes[num(o, "p")];
    let n = nodes[num(o, "n")];
    let r = nodes[num(o, "r")];
    let i = num(o, "i");
    let ns: Nodes<'i, 'a> = o["ns"].as_array().unwrap().iter().map(|v| nodes[v.as_u64().unwrap() as usize]).collect();
    let el = |n: Ref<'i, 'a>| Element::new(n).expect("element");
    let mut ids = vec![];
    match o["op"].as_str().unwrap() {
        "append" => el(p).append(n),
        "append_child" => p.append_child(n),
        "prepend" => el(p).prepend(n),
        "insert" => p.insert(i, n),
        "insert_before" => p.insert_before(n, r),
        "insert_after" => p.insert_after(n, &r),
        "replace_child" => {
            p.replace_child(n, &r);
        }
        "before" => {
            el(r).before(n);
        }
        "after" => el(r).after(n),
        "replace_with" => el(r).replace_with(n),
        "remove" => n.remove(),
        "sort" => {
            let order = |e: &Element<'i, 'a>| nodes.iter().position(|m| std::ptr::eq(*m, e.0)).unwrap();
            el(p).sort_child_elements(|a, b| order(&b).cmp(&order(&a)));
        }
        "empty" => p.empty(),
        "flatten" => el(p).flatten(),
        "retain" => p.retain_children(|c| ns.iter().any(|k| std::ptr::eq(*k, c))),
        "replace_children" => el(p).replace_children(ns.into_iter()),
        "clone" => nodes.push(n.clone_node(al)),
        "rename" => {
            let e = el(n).set_local_name(ElementId::Circle, al);
            nodes.push(e.0);
        }
        "set_text" => {
            n.set_text_content("changed".into(), al);
            if let Some(e) = Element::new(n)
                && let Some(t) = e.first_child()
            {
                nodes.push(t);
            }
        }
        "reorder" => {
            // number the tree below node 0; everything else comes after it
            let _ = root;
            al.reorder(nodes[0]);
            let live: Vec<usize> = nodes.iter().map(|n| n.id()).collect();
            for n in nodes.iter() {
                assert!(std::ptr::eq(al.get(n.id()).expect("known id"), *n), "id does not find its node");
            }
            ids = live;
        }
        other => panic!("unknown op {other}"),
    }
    json!(ids)
}

fn main() {
    each_line(|rec| {
        parse("<svg xmlns=\"http://www.w3.org/2000/svg\"/>", |root, allocator| {
            let al = &allocator;
            let svg = root.find_element().expect("root");
            let mut nodes: Nodes = vec![];
            for k in rec["kinds"].as_array().unwrap() {
                if k == "elem" {
                    nodes.push(svg.as_document().create_element(ElementId::G, al).0);
                } else {
                    nodes.push(svg.as_document().create_text_node("t".into(), al));
                }
            }
            for (p, ks) in rec["kids"].as_array().unwrap().iter().enumerate() {
                for k in ks.as_array().unwrap() {
                    Element::new(nodes[p]).unwrap().append(nodes[k.as_u64().unwrap() as usize]);
                }
            }
            let init = view(&nodes);
            let mut obs = vec![];
            for o in rec["ops"].as_array().unwrap() {
                let r = guard(|| {
                    let ids = apply(&mut nodes, o, root, al);
                    (ids, view(&nodes))
                });
                match r {
                    Ok((ids, v)) => obs.push(json!({"panic": "", "view": v, "ids": ids})),
                    Err(e) => {
                        obs.push(json!({"panic": e, "view": [], "ids": []}));
                        break;
                    }
                }
            }
            let mut rec = rec.clone();
            rec["init"] = init;
            rec["obs"] = Value::Array(obs);
            rec
        })
        .expect("parse")
    });
}
