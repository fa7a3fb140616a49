//! Runs optimiser configurations over documents: text and configuration in, text or failure out.
use oxvg_ast::{parse::roxmltree::parse_with_options, serialize::Node as _, visitor::Info, xmlwriter::{Indent, Options, Space}};
use oxvg_optimiser::Jobs;
use roxmltree::ParsingOptions;
use serde_json::{Value, json};
use vharness::{each_line, guard};

fn jobs(cfg: &Value) -> Result<Jobs, String> {
    match cfg {
        Value::String(s) if s == "default" => Ok(Jobs::default()),
        Value::String(s) if s == "safe" => Ok(Jobs::safe()),
        Value::String(s) if s == "none" => Ok(Jobs::none()),
        Value::Array(plugins) => Jobs::from_svgo_plugin_config(Some(plugins.clone())).map_err(|e| e.to_string()),
        v => serde_json::from_value(v.clone()).map_err(|e| e.to_string()),
    }
}

fn indent(v: &Value) -> Indent {
    match v {
        Value::Number(n) => Indent::Spaces(n.as_u64().unwrap() as u8),
        Value::String(s) if s == "tabs" => Indent::Tabs,
        _ => Indent::None,
    }
}

fn options(o: &Value) -> Options {
    Options {
        indent: indent(&o["indent"]),
        attributes_indent: indent(&o["attributes"]),
        use_single_quote: o["single"].as_bool().unwrap_or(false),
        enable_self_closing: o["close"].as_bool().unwrap_or(true),
        minify: o["minify"].as_bool().unwrap_or(true),
        trim_whitespace: match o["space"].as_str() {
            Some("never") => Space::Never,
            Some("default") => Space::Default,
            Some("preserve") => Space::Preserve,
            _ => Space::Auto,
        },
    }
}

/// What the command does with one document: parse, run the jobs, write.
fn run(svg: &str, cfg: &Value, opts: &Value) -> Value {
    let once = guard(|| {
        let jobs = match jobs(cfg) {
            Ok(jobs) => jobs,
            Err(e) => return json!({"config": e}),
        };
        let parsed = parse_with_options(
            svg,
            ParsingOptions { allow_dtd: true, ..ParsingOptions::default() },
            |dom, allocator| -> Value {
                let mut info = Info::new(allocator);
                if let Some(p) = opts["path"].as_str() {
                    info.path = Some(p.into());
                }
                if let Err(e) = jobs.run(dom, &info) {
                    return json!({"refused": e.to_string()});
                }
                match dom.serialize_with_options(options(opts)) {
                    Ok(s) => json!({"svg": s}),
                    Err(e) => json!({"unwritable": e.to_string()}),
                }
            },
        );
        match parsed {
            Ok(v) => v,
            Err(e) => json!({"unreadable": e.to_string()}),
        }
    });
    once.unwrap_or_else(|e| json!({"panic": e}))
}

fn main() {
    each_line(|mut v| {
        let svg = v["svg"].as_str().unwrap().to_string();
        let outs: Vec<Value> = v["runs"].as_array().unwrap().iter().map(|r| {
            let mut out = run(&svg, &r["cfg"], &r["opts"]);
            if r["again"].as_bool() == Some(true)
                && let Some(text) = out["svg"].as_str()
            {
                out["again"] = run(text, &r["cfg"], &r["opts"]);
            }
            out
        }).collect();
        v["outs"] = Value::Array(outs);
        v
    });
}
