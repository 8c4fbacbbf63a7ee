//! The findings listed in KNOWN_FINDINGS.txt that are not repaired: panics at given places of the
//! markdown parser (a dependency) while importing. Lines of the form
//!   finding: property=C15 site=<crate/file:line> input=<JSON string> <what fails>

use crate::bridge::guard;
use std::sync::OnceLock;

pub struct Finding {
    pub property: String,
    pub site: String,
    pub input: String,
    pub text: String,
}

fn parse(l: &str) -> Option<Finding> {
    let l = l.strip_prefix("finding: property=")?;
    let (property, l) = l.split_once(" site=")?;
    let (site, l) = l.split_once(" input=")?;
    let mut de = serde_json::Deserializer::from_str(l).into_iter::<String>();
    let input = de.next()?.ok()?;
    let text = l[de.byte_offset()..].trim().to_string();
    Some(Finding {
        property: property.to_string(),
        site: site.to_string(),
        input,
        text,
    })
}

pub fn all() -> &'static [Finding] {
    static ALL: OnceLock<Vec<Finding>> = OnceLock::new();
    ALL.get_or_init(|| {
        let path = concat!(env!("CARGO_MANIFEST_DIR"), "/../KNOWN_FINDINGS.txt");
        let s = std::fs::read_to_string(path).unwrap_or_default();
        s.lines().filter_map(parse).collect()
    })
}

fn at(panic: &str, site: &str) -> bool {
    panic.rsplit(" at ").next() == Some(site)
}

/// Whether this panic while importing is one of the listed ones.
pub fn listed(property: &str, panic: &str) -> bool {
    all().iter().any(|k| k.property == property && at(panic, &k.site))
}

/// Tries the listed findings of a property on the real code: those that fail as listed are printed.
pub fn print(property: &str) {
    for k in all().iter().filter(|k| k.property == property) {
        match guard(|| prosemirror::markdown::from_markdown(&k.input)) {
            Err(p) if at(&p, &k.site) => {
                println!("KNOWN-FINDING: property={} {} (importing {:?} panics at {})", property, k.text, k.input, k.site)
            }
            _ => println!("{}: the listed finding at {} does not show any more", property, k.site),
        }
    }
}
