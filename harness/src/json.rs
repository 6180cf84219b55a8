//! Reading and writing package.json without changing its style.
use crate::sym;
use oro_pretty_json::{from_str, to_string_pretty};

/// A string as JSON writers write it.
fn quote(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

/// Any value, as its lines (without line ends), each with its depth.
fn value(depth: usize, at: usize, len: usize, out: &mut Vec<(usize, String)>) {
    let add = |out: &mut Vec<(usize, String)>, s: &str| out.last_mut().expect("a line").1.push_str(s);
    match sym::choose(if depth == 0 { 5 } else { 7 }) {
        0 => add(out, &quote(&sym::string(0, len, "a \"\\\n\t{}[]:,/"))),
        1 => add(out, sym::pick(&["0", "-7", "12"])),
        2 => add(out, sym::pick(&["null", "true", "false"])),
        3 => add(out, "{}"),
        4 => add(out, "[]"),
        5 => {
            add(out, "{");
            // in any order
            let keys: &[&str] = [&["z"][..], &["b", "a"], &["a", "b"]][sym::choose(3)];
            for (i, k) in keys.iter().enumerate() {
                out.push((at + 1, quote(k) + ": "));
                if i == 0 {
                    value(depth - 1, at + 1, len, out);
                } else {
                    add(out, "-7");
                }
                if i + 1 < keys.len() {
                    add(out, ",");
                }
            }
            out.push((at, "}".to_string()));
        }
        _ => {
            add(out, "[");
            let n = 1 + sym::choose(2);
            for i in 0..n {
                out.push((at + 1, String::new()));
                if i == 0 {
                    value(depth - 1, at + 1, len, out);
                } else {
                    add(out, "\"\"");
                }
                if i + 1 < n {
                    add(out, ",");
                }
            }
            out.push((at, "]".to_string()));
        }
    }
}

fn same(depth: usize, len: usize, deep: bool) {
    let mut lines = vec![(0, String::new())];
    value(depth, 0, len, &mut lines);
    let unit = if sym::bool() { " " } else { "\t" }.repeat([1, 2, 4, 3][sym::choose(if deep { 4 } else { 3 })]);
    let end = sym::pick(&["\n", "\r\n"]);
    let mut text = String::new();
    for (i, (at, l)) in lines.iter().enumerate() {
        if i > 0 {
            text.push_str(end);
        }
        text.push_str(&unit.repeat(*at));
        text.push_str(l);
    }
    if sym::bool() {
        text.push_str(end);
    }
    let f = from_str(&text);
    sym::check(f.is_ok(), "valid JSON is read");
    if let Ok(f) = f {
        let out = to_string_pretty(&f).expect("printing");
        sym::check(out == text, "unchanged JSON is written as it was read");
        sym::cover("done");
    }
}

fn any(len: usize) {
    let text = sym::string(1, len, "{}[]\":,1a \n\r\t\\");
    match from_str(&text) {
        Ok(f) => {
            let out = to_string_pretty(&f).expect("printing");
            match from_str(&out) {
                Ok(g) => {
                    sym::check(g.value == f.value, "formatting does not change the value");
                    sym::check(to_string_pretty(&g).expect("printing") == out, "formatted JSON is formatted as it is");
                }
                Err(_) => sym::check(false, "formatted JSON is JSON"),
            }
            sym::cover("ok");
        }
        Err(_) => sym::cover("err"),
    }
}

crate::harnesses! {
    h_json_same { same(2, 1, false) }
    h_json_same_deep { same(3, 2, true) }
    h_json_any { any(4) }
    h_json_any_deep { any(6) }
}
