//! The committed list of known findings. Nothing here is written at run time.
use std::sync::OnceLock;

fn lines() -> &'static Vec<String> {
    static L: OnceLock<Vec<String>> = OnceLock::new();
    L.get_or_init(|| {
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        std::fs::read_to_string(format!("{dir}/known-findings.txt"))
            .map(|s| s.lines().map(str::to_string).collect())
            .unwrap_or_default()
    })
}

/// Is this failure, word for word, listed as `KNOWN-FINDING: property=<id> <what>`?
pub fn listed(id: &str, what: &str) -> bool {
    let want = format!("KNOWN-FINDING: property={id} {what}");
    lines().contains(&want)
}
