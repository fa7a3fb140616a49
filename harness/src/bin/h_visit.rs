//! Walks a document with a visitor that records what it is shown and does what a script tells it to.
use oxvg_ast::{
    element::Element,
    get_attribute,
    node::Ref,
    parse::roxmltree::parse,
    serialize::Node as _,
    visitor::{Context, ContextFlags, PrepareOutcome, Visitor},
};
use oxvg_collections::{attribute::{Attr, AttrId, core_attrs::NonWhitespace}, element::ElementId};
use serde_json::{Value, json};
use std::cell::RefCell;
use vharness::{each_line, guard};

struct Recorder {
    script: Value,
    events: RefCell<Vec<Value>>,
    made: RefCell<usize>,
}

fn key(element: Element) -> String {
    get_attribute!(element, Id).map_or_else(String::new, |id| id.0.to_string())
}

impl Recorder {
    fn note(&self, kind: &str, name: String, context: Option<&Context>) {
        let foreign = context.map(|c| c.flags.contains(ContextFlags::within_foreign_object));
        self.events.borrow_mut().push(json!([kind, name, foreign.map_or("?", |f| if f { "in" } else { "out" })]));
    }
    fn effects(&self, at: &str, name: &str) -> Vec<String> {
        self.script[at][name].as_array().map_or(vec![], |a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect())
    }
    fn act<'i, 'a>(&self, at: &str, element: Element<'i, 'a>, context: &mut Context<'i, 'a, '_>) -> Result<(), String> {
        for effect in self.effects(at, &key(element)) {
            match effect.as_str() {
                "skip" => context.flags.visit_skip(),
                "remove" => element.remove(),
                "clear" => {
                    while let Some(child) = element.first_child() {
                        child.remove();
                    }
                }
                "behead" => {
                    if let Some(child) = element.first_child() {
                        child.remove();
                    }
                }
                "add" | "before" => {
                    let n = *self.made.borrow() + 1;
                    *self.made.borrow_mut() = n;
                    let new = context.root.as_document().create_element(ElementId::G, &context.info.allocator);
                    new.set_attribute(Attr::Id(NonWhitespace(format!("n{n}").into())));
                    if effect == "add" {
                        element.append_child(*new);
                    } else {
                        element.insert(0, &new);
                    }
                }
                "unwrap" => element.flatten(),
                "fail" => return Err(format!("{at} {}", key(element))),
                _ => panic!("unknown effect"),
            }
        }
        Ok(())
    }
}

impl<'i, 'a> Visitor<'i, 'a> for Recorder {
    type Error = String;
    fn document(&self, _: Element<'i, 'a>, c: &Context<'i, 'a, '_>) -> Result<(), String> {
        self.note("document", String::new(), Some(c));
        Ok(())
    }
    fn exit_document(&self, _: Element<'i, 'a>, c: &Context<'i, 'a, '_>) -> Result<(), String> {
        self.note("exit_document", String::new(), Some(c));
        Ok(())
    }
    fn element(&self, e: Element<'i, 'a>, c: &mut Context<'i, 'a, '_>) -> Result<(), String> {
        self.note("element", key(e), Some(c));
        self.act("start", e, c)
    }
    fn exit_element(&self, e: Element<'i, 'a>, c: &mut Context<'i, 'a, '_>) -> Result<(), String> {
        self.note("exit_element", key(e), Some(c));
        self.act("end", e, c)
    }
    fn doctype(&self, _: Ref<'i, 'a>) -> Result<(), String> {
        self.note("doctype", String::new(), None);
        Ok(())
    }
    fn style(&self, n: Ref<'i, 'a>) -> Result<(), String> {
        self.note("style", n.text_content().unwrap_or_default().to_string(), None);
        Ok(())
    }
    fn text_or_cdata(&self, n: Ref<'i, 'a>) -> Result<(), String> {
        self.note("text", n.text_content().unwrap_or_default().to_string(), None);
        Ok(())
    }
    fn comment(&self, n: Ref<'i, 'a>) -> Result<(), String> {
        self.note("comment", n.node_value().unwrap_or_default().to_string(), None);
        Ok(())
    }
    fn processing_instruction(&self, n: Ref<'i, 'a>, c: &Context<'i, 'a, '_>) -> Result<(), String> {
        self.note("instruction", n.processing_instruction().map_or_else(String::new, |(t, _)| t.to_string()), Some(c));
        Ok(())
    }
    fn prepare(&self, _: Element<'i, 'a>, _: &mut Context<'i, 'a, '_>) -> Result<PrepareOutcome, String> {
        match self.script["prepare"].as_str() {
            Some("skip") => Ok(PrepareOutcome::skip),
            Some("fail") => Err("prepare".into()),
            _ => Ok(PrepareOutcome::none),
        }
    }
}

fn main() {
    each_line(|case| {
        guard(|| {
            parse(case["svg"].as_str().unwrap(), |root, allocator| {
                let recorder = Recorder { script: case["script"].clone(), events: RefCell::default(), made: RefCell::default() };
                let (ended, again) = {
                    let first = recorder.start(root, allocator);
                    (first.as_ref().err().cloned().unwrap_or_default(), first.is_ok_and(|p| p.can_skip()))
                };
                let _ = AttrId::Id;
                json!({"events": recorder.events.take(), "ended": ended, "skipped": again, "svg": root.serialize().unwrap_or_default()})
            })
            .unwrap_or_else(|err| json!({"bad": err.to_string()}))
        })
        .unwrap_or_else(|panic| json!({"panic": panic}))
    });
}
