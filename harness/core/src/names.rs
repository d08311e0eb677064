//! C11: lookup.
use crate::util::*;
use static_xml::de::find;
use static_xml::ExpandedNameRef;

const NS: &[&str] = &["", "a", "urn:a", "urn:b", "urn:ab", "http://www.w3.org/XML/1998/namespace", "http://x/", "http://x", "http://x/#", "http://x#", "HTTP://x", "é", "urn:a:", "z"];
const LO: &[&str] = &["", "a", "b", "A", "ab", "aa", "a-b", "a.b", "a1", "item", "items", "Item", "é", "_x", "z"];

fn one(r: &mut Report, table: &[ExpandedNameRef<'static>], n: ExpandedNameRef<'static>) {
    let input = format!("find({n:?}, &{table:?})");
    r.begin(&input, table.len() > 1);
    let got = guard(|| format!("{:?}", find(&n, table))).unwrap_or_else(|e| e);
    r.end();
    let e = table.iter().position(|t| t.namespace == n.namespace && t.local_name == n.local_name);
    r.check(&["C11"], "lookup", &input, &format!("{e:?}"), &got);
}

pub fn run(r: &mut Report, rng: &mut Rng) {
    let mut nss = NS.to_vec();
    nss.extend(dict().uris.iter().take(20));
    let mut los = LO.to_vec();
    los.extend(dict().names.iter().take(30));
    for ns in &nss { for lo in &los { for ns2 in NS { for lo2 in LO {
        let (a, b) = (ExpandedNameRef { namespace: ns, local_name: lo }, ExpandedNameRef { namespace: ns2, local_name: lo2 });
        one(r, &[a], b);
    } } } }
    for n in 0..2000usize {
        if n >= 1200 && !r.more() { break; }
        let size = if n < 1200 { n % 24 } else { rng.size(rng.clone().below(150), 150) };
        let mut t: Vec<(&str, &str)> = vec![];
        while t.len() < size {
            let x = (rng.pick(&nss), rng.pick(&los));
            if !t.contains(&x) { t.push(x); }
        }
        t.sort();
        let table: Vec<ExpandedNameRef> = t.iter().map(|(a, b)| ExpandedNameRef { namespace: a, local_name: b }).collect();
        for ns in &nss { for lo in &los { one(r, &table, ExpandedNameRef { namespace: ns, local_name: lo }); } }
        if r.violation.is_some() { return; }
    }
}
