//! Known findings: recorded failures of the unchanged tree, tried again by every run of their property.

use crate::env::Env;
use crate::pipeline::fatal;
use crate::report::Report;
use oracle::json::J;

/// Tries the findings which KNOWN_FINDINGS.txt lists for the property of the report.
///
/// A line `known: property=<id> case=<file> <what fails>` names a replay file with, beside the case, the
/// exact failure expected. Any other failure of that case is a violation; a case which passes is not reported.
pub fn probe(env: &Env, rep: &mut Report) {
    let path = env.verif.join("KNOWN_FINDINGS.txt");
    let text = std::fs::read_to_string(&path).unwrap_or_else(|e| fatal(&format!("{}: {}", path.display(), e)));
    for l in text.lines() {
        let mut w = l.splitn(4, ' ');
        if w.next() != Some("known:") || w.next().and_then(|v| v.strip_prefix("property=")) != Some(&*rep.prop) {
            continue;
        }
        let file = w.next().and_then(|v| v.strip_prefix("case=")).unwrap_or_else(|| fatal("a known finding without a case"));
        let what = w.next().unwrap_or("").to_string();
        let t = std::fs::read_to_string(env.verif.join(file)).unwrap_or_else(|e| fatal(&format!("{}: {}", file, e)));
        let j = J::parse(&t).unwrap_or_else(|e| fatal(&format!("{}: {}", file, e)));
        let want = j.get("expect").and_then(|v| v.str()).unwrap_or_else(|| fatal("a known finding without its failure"));
        match crate::replay(env, &rep.prop.clone(), &j) {
            Ok(m) if m == want => rep.known.push(what),
            Ok(m) => rep.violation(format!("{}: the case of a known finding ({}) fails in another way: {}", rep.prop, what, m), j),
            Err(_) => (),
        }
        rep.cov.evaluations += 1;
    }
}
