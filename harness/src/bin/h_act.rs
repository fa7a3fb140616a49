//! Applies actions to a document one by one, saving and reading it back where asked to, and reports the derived
//! state and the written document after every step.
use oxvg_actions::{Action, Actor};
use oxvg_ast::{parse::roxmltree::parse, serialize::Node as _};
use serde_json::{Value, json};
use vharness::{each_line, guard};

fn report(actor: &Actor, error: Option<String>) -> Value {
    let before = actor.root.serialize().unwrap_or_default();
    let state = match actor.derive_state() {
        Ok(state) => json!({"hist": serde_json::to_value(&state.history).unwrap(), "sel": state.selection}),
        Err(err) => json!({"refused": err.to_string()}),
    };
    let after = actor.root.serialize().unwrap_or_default();
    json!({"error": error, "state": state, "same": before == after, "raw": before})
}

/// Runs the steps up to the next save; gives the written document and what is left to do.
fn stretch(text: &str, steps: &[Value], out: &mut Vec<Value>) -> (Option<String>, usize) {
    parse(text, |root, allocator| {
        let mut actor = match Actor::new(root, allocator) {
            Ok(actor) => actor,
            Err(err) => {
                out.push(json!({"error": err.to_string()}));
                return (None, 0);
            }
        };
        let mut done = 0;
        for step in steps {
            done += 1;
            match step.as_str() {
                Some("save") => match actor.snapshot() {
                    Ok(text) => return (Some(text), done),
                    Err(err) => {
                        out.push(json!({"error": err.to_string()}));
                        return (None, done);
                    }
                },
                Some("keep") => return (Some(actor.root.serialize().unwrap_or_default()), done),
                Some("snapshot") => {
                    let error = actor.snapshot().err().map(|e| e.to_string());
                    out.push(report(&actor, error));
                }
                _ => {
                    let action: Action<'static> = serde_json::from_value(step.clone()).expect("an action");
                    let error = actor.dispatch(action).err().map(|e| e.to_string());
                    out.push(report(&actor, error));
                }
            }
        }
        (None, done)
    })
    .unwrap_or_else(|err| {
        out.push(json!({"error": err.to_string()}));
        (None, 0)
    })
}

fn main() {
    each_line(|case| {
        let mut text = case["svg"].as_str().unwrap().to_string();
        let steps = case["steps"].as_array().unwrap().clone();
        let outcome = guard(|| {
            let mut out = vec![];
            let mut at = 0;
            loop {
                let (saved, done) = stretch(&text, &steps[at..], &mut out);
                at += done;
                match saved {
                    Some(saved) => {
                        text = saved;
                        out.push(json!({"saved": text.clone()}));
                    }
                    None => return Value::Array(out),
                }
            }
        });
        match outcome {
            Ok(out) => json!({"out": out}),
            Err(panic) => json!({"panic": panic}),
        }
    });
}
