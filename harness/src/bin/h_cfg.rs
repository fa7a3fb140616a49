//! Resolves configurations and runs them: what is configured, what that is written as and read back
//! as, and what it does to documents, next to what its parts do one after another.
use oxvg_ast::{parse::roxmltree::parse_with_options, serialize::Node as _, visitor::Info, xmlwriter::Options};
use oxvg_optimiser::{Extends, Jobs};
use roxmltree::ParsingOptions;
use serde_json::{Value, json};
use vharness::{each_line, guard};

/// Runs configurations over one tree, in turn.
fn run(svg: &str, parts: &[Jobs]) -> String {
    let out = guard(|| {
        let text = parse_with_options(svg, ParsingOptions { allow_dtd: true, ..ParsingOptions::default() }, |dom, allocator| {
            let mut info = Info::new(allocator);
            info.path = Some("dir/name.svg".into());
            for part in parts {
                if let Err(e) = part.run(dom, &info) {
                    return format!("!refused {e}");
                }
            }
            match dom.serialize_with_options(Options::default()) {
                Ok(text) => text,
                Err(e) => format!("!unwritten {e:?}"),
            }
        });
        json!(match text {
            Ok(text) => text,
            Err(e) => format!("!unread {e}"),
        })
    });
    match out {
        Ok(Value::String(text)) => text,
        Ok(other) => other.to_string(),
        Err(panic) => format!("!panic {panic}"),
    }
}

fn read(v: &Value) -> Result<Jobs, String> {
    serde_json::from_str(&v.to_string()).map_err(|e| e.to_string())
}

fn resolve(case: &Value) -> Result<Jobs, String> {
    if case["kind"] == "svgo" {
        let plugins = case["plugins"].as_array().cloned();
        return Jobs::from_svgo_plugin_config(plugins).map_err(|e| e.to_string());
    }
    let jobs = read(&case["jobs"])?;
    let mut jobs = match &case["extends"] {
        Value::String(preset) if !preset.is_empty() => {
            let extends: Extends = serde_json::from_value(json!(preset)).map_err(|e| e.to_string())?;
            extends.extend(&jobs)
        }
        _ => jobs,
    };
    for name in case["omit"].as_array().into_iter().flatten() {
        jobs.omit(name.as_str().unwrap());
    }
    Ok(jobs)
}

fn main() {
    each_line(|case| {
        let jobs = match guard(|| json!(resolve(&case).map(|jobs| serde_json::to_value(jobs).unwrap()))) {
            Ok(v) => v,
            Err(panic) => return json!({"error": format!("panic {panic}")}),
        };
        if let Some(e) = jobs.get("Err") {
            return json!({"error": e});
        }
        let written = jobs["Ok"].clone();
        let jobs = resolve(&case).unwrap();
        let again = match read(&written) {
            Ok(again) => again,
            Err(e) => return json!({"error": "", "written": written, "again": {"!": e}}),
        };
        let steps: Result<Vec<Jobs>, String> = case["steps"].as_array().into_iter().flatten().map(read).collect();
        let steps = match steps {
            Ok(steps) => steps,
            Err(e) => return json!({"error": "", "written": written, "again": again, "step": e}),
        };
        let parts: Vec<Value> = steps.iter().map(|s| serde_json::to_value(s).unwrap()).collect();
        let docs: Vec<&str> = case["docs"].as_array().into_iter().flatten().map(|d| d.as_str().unwrap()).collect();
        json!({
            "error": "",
            "written": written,
            "again": again,
            "parts": parts,
            "plain": docs.iter().map(|d| run(d, &[])).collect::<Vec<_>>(),
            "texts": docs.iter().map(|d| run(d, std::slice::from_ref(&jobs))).collect::<Vec<_>>(),
            "agains": docs.iter().map(|d| run(d, std::slice::from_ref(&again))).collect::<Vec<_>>(),
            "expects": docs.iter().map(|d| run(d, &steps)).collect::<Vec<_>>(),
        })
    });
}
