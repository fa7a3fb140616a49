//! Lints documents: every problem with its kind, names, severity and place, the totals, and the printed report.
use oxvg_ast::{parse::roxmltree::parse_with_options, visitor::Visitor as _};
use oxvg_lint::{
    Rules, Severity,
    error::{DeprecatedProblem, LintingError, NoXLinkProblem, Problem},
};
use roxmltree::ParsingOptions;
use serde_json::{Value, json};
use vharness::{each_line, guard};

fn problem(p: &Problem) -> (&'static str, Vec<String>) {
    match p {
        Problem::UnknownAttribute { attribute, element } => ("unknown-attribute", vec![attribute.to_string(), element.to_string()]),
        Problem::UnknownElement { parent, element } => ("unknown-element", vec![element.to_string(), parent.to_string()]),
        Problem::Deprecated(DeprecatedProblem::DeprecatedElement(e)) => ("deprecated-element", vec![e.to_string()]),
        Problem::Deprecated(DeprecatedProblem::DeprecatedAttribute(a)) => ("deprecated-attribute", vec![a.to_string()]),
        Problem::DefaultAttribute(a) => ("default", vec![a.to_string()]),
        Problem::NoXLink(NoXLinkProblem::XLinkShowReplace) => ("xlink", vec!["replace".into()]),
        Problem::NoXLink(NoXLinkProblem::XLinkShowNew) => ("xlink", vec!["new".into()]),
        Problem::NoXLink(NoXLinkProblem::XLinkTitle) => ("xlink", vec!["title".into()]),
        Problem::NoXLink(NoXLinkProblem::XLinkHref) => ("xlink", vec!["href".into()]),
        Problem::NoXLink(NoXLinkProblem::XLinkUnsupported(a)) => ("xlink", vec![a.to_string()]),
        Problem::UnreferencedId(id) => ("unused-id", vec![id.to_string()]),
        Problem::UnreferencedXMLNS(prefix, uri) => ("unused-xmlns", vec![prefix.as_ref().map(ToString::to_string).unwrap_or_default(), uri.to_string()]),
        Problem::InvalidAttribute { attribute } => ("invalid", vec![attribute.to_string()]),
    }
}

fn main() {
    each_line(|case: Value| {
        let svg = case["svg"].as_str().unwrap().to_string();
        let rules: Rules = match &case["rules"] {
            Value::String(name) if name == "recommended" => Rules::recommended(),
            Value::String(_) => Rules::off(),
            given => match serde_json::from_value(given.clone()) {
                Ok(rules) => rules,
                Err(e) => return json!({"unread": e.to_string()}),
            },
        };
        let problems = guard(|| {
            let listed = parse_with_options(&svg, ParsingOptions { allow_dtd: true, ..ParsingOptions::default() }, |dom, allocator| {
                match rules.start_with_path(dom, allocator, None) {
                    Ok(_) => json!([]),
                    Err(errors) => json!(
                        errors
                            .iter()
                            .map(|e| {
                                let (kind, names) = problem(&e.problem);
                                let severity = match e.severity {
                                    Severity::Off => "off",
                                    Severity::Warn => "warn",
                                    Severity::Error => "error",
                                };
                                json!({"kind": kind, "names": names, "severity": severity, "range": e.range.as_ref().map(|r| [r.start, r.end])})
                            })
                            .collect::<Vec<_>>()
                    ),
                }
            });
            listed.unwrap_or_else(|e| json!({"unread": e.to_string()}))
        });
        let report = guard(|| {
            let mut text = String::new();
            let (errors, warnings, result) = match rules.lint_to(&mut text, &svg) {
                Ok(()) => (0, 0, "ok"),
                Err(LintingError::Reported { errors, warnings }) => (errors, warnings, "reported"),
                Err(_) => (0, 0, "failed"),
            };
            json!({"errors": errors, "warnings": warnings, "result": result, "text": text})
        });
        json!({"problems": problems.unwrap_or_else(|e| json!({"panic": e})), "report": report.unwrap_or_else(|e| json!({"panic": e}))})
    });
}
