//! The parser of quadrature files
use polyquad_parse::{parse2d, parse3d};
use vlib::{Case, Run};

/// text of a number in one of the ways f64 understands, and its value
fn number(c: &mut Case) -> (String, f64) {
    let x = match c.rng.below(6) {
        0 => c.rng.f(-1.0, 1.0),
        1 => c.rng.logf(1e-300, 1e300) * if c.rng.bool() { -1.0 } else { 1.0 },
        2 => c.rng.below(5) as f64 - 2.0,
        3 => f64::from_bits(c.rng.u64() & 0x800f_ffff_ffff_ffff),
        4 => -0.0,
        _ => c.rng.normal(),
    };
    let s = match c.rng.below(5) {
        0 => format!("{x:e}"),
        1 => format!("{x:?}"),
        2 => format!("{x:E}"),
        3 if !x.is_sign_negative() => format!("+{x:?}"),
        _ => format!("{x}"),
    };
    (s, x)
}

const BAD: [&str; 14] = ["x", "1,5", "--1", "1e", "0x10", "1.0.0", "e5", "+", "-", ".", "1_000", "1.0f", "ß", "1\u{a0}2"];

fn check_parse(c: &mut Case) {
    let n = c.rng.sized(0, 60, 1000);
    let dim = c.rng.range(2, 3);
    let mut text = String::new();
    let mut want: Vec<Vec<f64>> = vec![];
    let nl = if c.rng.chance(0.25) { "\r\n" } else { "\n" };
    let spaces = [" ", "  ", "\t", " \t ", "     "];
    let gap = |c: &mut Case| *c.rng.pick(&spaces);
    let noise = c.rng.f01() * 0.4;
    // what to spoil
    let spoil = if n > 0 && c.rng.chance(0.5) { Some((c.rng.below(n), c.rng.below(4))) } else { None };
    for i in 0..n {
        while c.rng.chance(noise) {
            let s = if c.rng.bool() { String::new() } else { gap(c).to_string() };
            text += &format!("{s}{nl}");
            c.count("blank_lines", 1);
        }
        let mut entries: Vec<(String, f64)> = (0..=dim).map(|_| number(c)).collect();
        if let Some((k, how)) = spoil {
            if k == i {
                match how {
                    0 => {
                        let k = c.rng.below(entries.len());
                        entries[k].0 = c.rng.pick(&BAD).to_string();
                    }
                    1 => {
                        let k = c.rng.range(1, dim);
                        entries.truncate(k);
                    }
                    2 => entries.extend((0..c.rng.range(1, 3)).map(|_| ("1".to_string(), 1.0)).collect::<Vec<_>>()),
                    _ => {
                        let k = c.rng.below(entries.len() + 1);
                        entries.insert(k, (c.rng.pick(&BAD).to_string(), 0.0));
                    }
                }
            }
        }
        if c.rng.chance(noise) {
            text += gap(c);
        }
        for (j, e) in entries.iter().enumerate() {
            if j > 0 {
                text += gap(c);
            }
            text += &e.0;
        }
        if c.rng.chance(noise) {
            text += gap(c);
        }
        if i + 1 < n || c.rng.bool() {
            text += nl;
        }
        want.push(entries.iter().map(|e| e.1).collect());
    }
    c.key(&text);
    c.desc(format!("{dim} dimensions, {n} lines, spoiled {spoil:?}"));
    let bits = |v: &[f64]| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
    let got: Result<Vec<Vec<f64>>, String> = {
        let t = text.clone();
        let r = c.catch(move || {
            if dim == 2 {
                parse2d(&t).map(|r| (r.points.iter().map(|p| p.to_vec()).collect::<Vec<_>>(), r.weights)).map_err(|e| e.to_string())
            } else {
                parse3d(&t).map(|r| (r.points.iter().map(|p| p.to_vec()).collect::<Vec<_>>(), r.weights)).map_err(|e| e.to_string())
            }
        });
        match r {
            Err(p) => {
                c.fail("panicked", format!("{p:?}"));
                return;
            }
            Ok(Err(e)) => Err(e),
            Ok(Ok((p, w))) => {
                if !c.check(p.len() == w.len(), "lengths", || format!("{} points, {} weights", p.len(), w.len())) {
                    return;
                }
                Ok(p.into_iter().zip(w).map(|(mut p, w)| { p.push(w); p }).collect())
            }
        }
    };
    match (spoil, got) {
        (None, Ok(g)) => {
            c.count("files_read", 1);
            c.check(g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| bits(a) == bits(b)), "numbers", || {
                let k = g.iter().zip(&want).position(|(a, b)| bits(a) != bits(b));
                format!("{} of {} lines; first difference at {k:?}", g.len(), want.len())
            });
        }
        (None, Err(e)) => {
            c.fail("good_file_refused", e);
        }
        (Some(_), Ok(g)) => {
            c.fail("bad_file_accepted", format!("{} lines read", g.len()));
        }
        (Some(_), Err(e)) => {
            c.count("files_refused", 1);
            c.check(!e.is_empty(), "no_message", || String::new());
        }
    }
}

fn check_other(c: &mut Case) {
    // a file for one dimension is no file for the other; arbitrary text never panics
    let n = c.rng.sized(1, 30, 500);
    let alphabet = ['0', '1', '9', '.', '-', '+', 'e', 'E', ' ', '\t', '\n', '\r', 'n', 'a', 'i', 'f', 'ä', '\u{2028}', '\u{3000}', '\0'];
    let s: String = if c.rng.bool() {
        (0..n * 4).map(|_| *c.rng.pick(&alphabet)).collect()
    } else {
        (0..n).map(|_| (0..c.rng.range(3, 4)).map(|_| number(c).0).collect::<Vec<_>>().join(" ") + "\n").collect()
    };
    c.key(&s);
    // what a reader of the format does
    let model = |k: usize| -> Option<Vec<Vec<u64>>> {
        let mut out = vec![];
        for l in s.split('\n') {
            let e: Vec<&str> = l.split([' ', '\t', '\r', '\x0c']).filter(|x| !x.is_empty()).collect();
            if e.is_empty() {
                continue;
            }
            let v: Option<Vec<u64>> = e.iter().map(|x| x.parse::<f64>().ok().map(|x| if x.is_nan() { u64::MAX } else { x.to_bits() })).collect();
            let v = v?;
            if v.len() != k {
                return None;
            }
            out.push(v);
        }
        Some(out)
    };
    let b = |x: f64| if x.is_nan() { u64::MAX } else { x.to_bits() };
    let t = s.clone();
    let r = c.catch(move || {
        (
            parse2d(&t).ok().map(|r| r.points.iter().zip(&r.weights).map(|(p, w)| vec![b(p[0]), b(p[1]), b(*w)]).collect::<Vec<_>>()),
            parse3d(&t).ok().map(|r| r.points.iter().zip(&r.weights).map(|(p, w)| vec![b(p[0]), b(p[1]), b(p[2]), b(*w)]).collect::<Vec<_>>()),
        )
    });
    match r {
        Err(p) => {
            c.fail("panicked", format!("{p:?} on {s:?}"));
        }
        Ok((a, b)) => {
            c.check(a == model(3), "arbitrary_2d", || format!("{s:?}"));
            c.check(b == model(4), "arbitrary_3d", || format!("{s:?}"));
            c.count("arbitrary_texts", 1);
        }
    }
}

pub fn q03(r: &mut Run) {
    r.section("rules", "Files of 0 to 60 lines in both formats with every way of writing numbers, blank lines, tabs and both line ends, intact or with one entry or line spoiled.", 20000, 400000, check_parse);
    r.section("other_text", "Files of mixed or wrong format and arbitrary text against a model of the format.", 20000, 400000, check_other);
    r.require("files_read", 3000);
    r.require("files_refused", 3000);
    r.require("blank_lines", 3000);
}
