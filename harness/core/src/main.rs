mod c01;
mod docs;
mod fields;
mod flat;
mod names;
mod read;
mod scalars;
mod util;
mod write;
use util::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].as_str();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone()).unwrap_or(d.to_owned());
    let thorough = get("--tier", "quick") == "thorough";
    let seed: u64 = get("--seed", "1").parse().unwrap_or(1);
    let secs: f64 = get("--secs", "20").parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut rng = Rng::new(seed);
    let mut r;
    match prop {
        "C01" => {
            r = Report::new(prop, secs, "strings: all short ones over a small alphabet, one per code point class, then random; non-trivial: not empty");
            c01::run(&mut r, &mut rng, thorough);
        }
        "C02" | "C03" | "C04" | "C05" => {
            r = Report::new(prop, secs, "random documents (two fifths broken, truncated or with a failing source) read by random handlers that take, pass, ignore, read, fail and swallow; non-trivial: more than three events");
            read::run(&mut r, &mut rng, prop == "C05");
        }
        "C06" => {
            r = Report::new(prop, secs, "documents with 0 to 12 valid and failing occurrences of an element read into required, optional and repeated fields, and attribute values; non-trivial: at least one occurrence");
            fields::run(&mut r, &mut rng);
        }
        "C07" => {
            r = Report::new(prop, secs, "strings offered to the 14 scalar parsers and values printed and parsed again; non-trivial: not the empty string");
            scalars::run(&mut r, &mut rng, thorough);
        }
        "C11" => {
            r = Report::new(prop, secs, "sorted name tables and names looked up in them, then documents read by random handlers; non-trivial: tables of two or more names");
            names::run(&mut r, &mut rng);
            r.secs += secs / 2.0;
            read::run(&mut r, &mut rng, false);
        }
        "C12" => {
            r = Report::new(prop, secs, "flattened fields answering consume, pass (another value) or fail; non-trivial: at least one field");
            flat::run(&mut r, &mut rng);
        }
        "C08" | "C09" | "C10" | "C17" => {
            r = Report::new(prop, secs, "random writing programs (namespaces, attributes, nested and repeated elements, text, abandoned builders and writers, ignored errors) and outputs failing at a byte; non-trivial: more than two events requested");
            write::run(&mut r, &mut rng, prop);
        }
        _ => panic!("no such property"),
    }
    r.print();
    // threads and visitors may still hold broken values
    std::process::exit(0);
}
