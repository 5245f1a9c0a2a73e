//! C24-C26: FOLD files, read from real files in a scratch directory.

use std::fs;
use std::path::{Path, PathBuf};

use kami::fold::fold::Fold;
use serde_json::{json, Map, Value};

use crate::engine::{dom, Class, Cx, Dom, Plan, Tier};
use crate::util::subsets;

/// The recognised keys, in the order of the specification, and how their values look.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Int,
    Str,
    Strs,
    Floats,
    FloatRows,
    IntRows,
    Triples,
}

const KEYS: [(&str, Kind); 24] = [
    ("file_spec", Kind::Int),
    ("file_creator", Kind::Str),
    ("file_author", Kind::Str),
    ("file_title", Kind::Str),
    ("file_description", Kind::Str),
    ("file_classes", Kind::Strs),
    ("frame_author", Kind::Str),
    ("frame_title", Kind::Str),
    ("frame_description", Kind::Str),
    ("frame_classes", Kind::Strs),
    ("frame_attributes", Kind::Strs),
    ("frame_unit", Kind::Str),
    ("vertices_coords", Kind::FloatRows),
    ("vertices_vertices", Kind::IntRows),
    ("vertices_faces", Kind::IntRows),
    ("edges_vertices", Kind::IntRows),
    ("edges_faces", Kind::IntRows),
    ("edges_assignment", Kind::Strs),
    ("edges_foldAngles", Kind::Floats),
    ("edges_lengths", Kind::Floats),
    ("faces_vertices", Kind::IntRows),
    ("faces_edges", Kind::IntRows),
    ("faceOrders", Kind::Triples),
    ("edgeOrders", Kind::Triples),
];

/// The field that belongs to a key, as JSON (floats widened from f32).
fn field(f: &Fold, key: usize) -> Value {
    fn w(v: &[f32]) -> Value { Value::Array(v.iter().map(|x| json!(*x as f64)).collect()) }
    match KEYS[key].0 {
        "file_spec" => json!(f.file_spec as i64),
        "file_creator" => json!(f.file_creator),
        "file_author" => json!(f.file_author),
        "file_title" => json!(f.file_title),
        "file_description" => json!(f.file_description),
        "file_classes" => json!(f.file_classes),
        "frame_author" => json!(f.frame_author),
        "frame_title" => json!(f.frame_title),
        "frame_description" => json!(f.frame_description),
        "frame_classes" => json!(f.frame_classes),
        "frame_attributes" => json!(f.frame_attributes),
        "frame_unit" => json!(f.frame_unit),
        "vertices_coords" => Value::Array(f.vertices_coords.iter().map(|r| w(r)).collect()),
        "vertices_vertices" => json!(f.vertices_vertices),
        "vertices_faces" => json!(f.vertices_faces),
        "edges_vertices" => json!(f.edges_vertices),
        "edges_faces" => json!(f.edges_faces),
        "edges_assignment" => json!(f.edges_assignment),
        "edges_foldAngles" => w(&f.edges_foldangles),
        "edges_lengths" => w(&f.edges_lengths),
        "faces_vertices" => json!(f.faces_vertices),
        "faces_edges" => json!(f.faces_edges),
        "faceOrders" => json!(f.faceorders),
        "edgeOrders" => json!(f.edgeorders),
        _ => unreachable!(),
    }
}

fn default_of(k: Kind) -> Value {
    match k { Kind::Int => json!(0), Kind::Str => json!(""), _ => json!([]) }
}

/// The value of a JSON number rounded to single precision, everything else unchanged.
fn single(k: Kind, v: &Value) -> Value {
    let s = |x: &Value| json!((x.as_f64().unwrap() as f32) as f64);
    match k {
        Kind::Floats => Value::Array(v.as_array().unwrap().iter().map(s).collect()),
        Kind::FloatRows => Value::Array(v.as_array().unwrap().iter().map(|r| Value::Array(r.as_array().unwrap().iter().map(s).collect())).collect()),
        _ => v.clone(),
    }
}

/// Sample values per kind; index 0 is a small non-empty one.
fn values(k: Kind) -> Vec<Value> {
    match k {
        Kind::Int => vec![json!(1), json!(0), json!(-7), json!(2147483647), json!(-2147483648i64), json!(12)],
        Kind::Str => vec![json!("kami"), json!(""), json!("two\nlines \"quoted\" \\ back/slash \u{0} \u{1f}\t"), json!("折り紙 – ünïcødé 🦢"), json!("null"), json!(" 1 "), json!("x".repeat(3000))],
        Kind::Strs => vec![json!(["M", "V"]), json!([]), json!(["B"]), json!([""]), json!(["V", "M", "F", "U", "B", "V"]), json!(["a,b", "[\"]", "折"]), json!(vec!["M"; 300])],
        Kind::Floats => vec![json!([180.0, -90.5]), json!([]), json!([0]), json!([1, 2.5, -3, 0.1]), json!([1e-3, 2.5e10, -1.25e-20, 3.4e38, 1e-45]), json!([0.333333333333, 16777217, 123456789.123, -0.0]), json!((0..200).map(|i| i as f64 * 0.25).collect::<Vec<_>>())],
        Kind::FloatRows => vec![json!([[0.0, 1.5], [2.25, -3.0]]), json!([]), json!([[]]), json!([[1, 2, 3]]), json!([[0.1, 0.2], [1e3, 1e-3, 7], [], [-400.75]]), json!((0..150).map(|i| vec![i as f64, 0.5 * i as f64, -1.0]).collect::<Vec<_>>())],
        Kind::IntRows => vec![json!([[0, 1], [1, 2]]), json!([]), json!([[]]), json!([[5]]), json!([[0, 1, 2, 3, 4, 5, 6, 7], [], [-1, 2147483647, -2147483648i64]]), json!((0..150).map(|i| vec![i, i + 1, 2 * i]).collect::<Vec<_>>())],
        Kind::Triples => vec![json!([[0, 1, -1]]), json!([]), json!([[3, 2, 1], [1, 0, 0]]), json!([[2147483647, 0, -2147483648i64]]), json!((0..150).map(|i| vec![i, i + 1, i % 3 - 1]).collect::<Vec<_>>())],
    }
}

/// Extra keys of the format, of applications, and look-alikes, which must be ignored.
fn extras() -> Vec<(&'static str, Value)> {
    vec![
        ("file_frames", json!([{"frame_title": "other", "frame_parent": 0, "frame_inherit": true, "vertices_coords": [[9, 9]]}])),
        ("frame_parent", json!(3)),
        ("frame_inherit", json!(true)),
        ("cpedit:page", json!({"xMin": 0, "edges_vertices": [[1, 2]]})),
        ("faces_edgesFlipped", json!(null)),
        ("Edges_Vertices", json!([[7, 7]])),
        ("edges_foldangles", json!([77.0])),
        ("faceorders", json!("none")),
        ("", json!(false)),
        ("file_spec_", json!("x")),
        ("vertices", json!([[[[[[]]]]], {"a": {"b": {}}}])),
    ]
}

/// A document as a list of key/value pairs in writing order.
type Doc = Vec<(String, Value)>;

fn compact(d: &Doc) -> String {
    let parts: Vec<String> = d.iter().map(|(k, v)| format!("{}:{}", json!(k), v)).collect();
    format!("{{{}}}", parts.join(","))
}

fn spaced(d: &Doc) -> String {
    let parts: Vec<String> = d.iter().map(|(k, v)| format!("\r\n\t{} :  {} ", json!(k), serde_json::to_string_pretty(v).unwrap())).collect();
    format!(" \n{{{}\n}}\n\n ", parts.join(","))
}

// ------------------------------------------------------------------------------------------------------- scratch

struct Scratch(PathBuf);
impl Scratch {
    fn new(what: &str) -> Scratch {
        let d = std::env::temp_dir().join(format!("kamimc-fold-{}-{}", what, std::process::id()));
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
    fn write(&self, bytes: &[u8]) -> PathBuf {
        let p = self.0.join("a.fold");
        fs::write(&p, bytes).expect("scratch file");
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn load(p: &Path) -> Result<Fold, String> {
    Fold::from_file(p).map_err(|e| format!("importing fails: {}", e))
}

fn check_doc(f: &Fold, d: &Doc) -> Result<(), String> {
    for (i, (k, kind)) in KEYS.iter().enumerate() {
        let want = match d.iter().find(|x| x.0 == *k) { Some((_, v)) => single(*kind, v), None => default_of(*kind) };
        let got = field(f, i);
        if got != want {
            let c = |v: &Value| { let s = v.to_string(); s.chars().take(200).collect::<String>() };
            return Err(format!("field of key {} is {}, expected {}", k, c(&got), c(&want)));
        }
    }
    if !f.file_frames.is_empty() { return Err(format!("file_frames is {:?}", f.file_frames)); }
    Ok(())
}

fn short(s: &str) -> String {
    if s.len() <= 700 { s.to_string() } else { format!("{}... ({} bytes)", s.chars().take(600).collect::<String>(), s.len()) }
}

fn c24_case(cx: &mut Cx, sc: &Scratch, d: &Doc, text: String, class: Class) {
    cx.case(|| format!("document {}", short(&text)), || {
        let f = load(&sc.write(text.as_bytes()))?;
        check_doc(&f, d)?;
        Ok(class)
    });
}

fn orders(d: &Doc) -> Vec<Doc> {
    let mut v = vec![d.clone()];
    if d.len() > 1 {
        v.push(d.iter().rev().cloned().collect());
        v.push(d[d.len() / 2..].iter().chain(&d[..d.len() / 2]).cloned().collect());
    }
    v
}

fn pair(k: usize, v: usize) -> (String, Value) {
    let vs = values(KEYS[k].1);
    (KEYS[k].0.to_string(), vs[v % vs.len()].clone())
}

fn c24_subsets(sizes: Vec<usize>) -> Dom {
    let n = KEYS.len();
    let sets: Vec<Vec<usize>> = sizes.iter().flat_map(|k| subsets(n, *k)).collect();
    let bound = format!("all {} sets of {:?} of {} keys and their complements x 3 key orders x compact/spaced text x with and without unknown keys", sets.len(), sizes, n);
    dom("key sets", &bound, 64.min(sets.len()), move |u, cx: &mut Cx| {
        let sc = Scratch::new("k");
        let mut i = u;
        while i < sets.len() {
            if cx.done() { return; }
            for &neg in &[false, true] {
                let keys: Vec<usize> = (0..n).filter(|k| sets[i].contains(k) != neg).collect();
                let d: Doc = keys.iter().map(|&k| pair(k, i * (k + 1) % 4)).collect();
                for mut o in orders(&d) {
                    c24_case(cx, &sc, &d, compact(&o), if keys.len() < n / 2 { "few keys" } else { "most keys" });
                    c24_case(cx, &sc, &d, spaced(&o), "spaced");
                    for (x, e) in extras().into_iter().enumerate() {
                        if (x + i) % 3 == 0 { o.insert((x * 7 + i) % (o.len() + 1), (e.0.to_string(), e.1)); }
                    }
                    c24_case(cx, &sc, &d, compact(&o), "with unknown keys");
                }
            }
            i += 64.min(sets.len());
        }
    })
}

fn c24_values() -> Dom {
    let n = KEYS.len();
    dom("values", "every sample value of every key, alone and with every sample value of every other key", n, move |a, cx: &mut Cx| {
        let sc = Scratch::new("v");
        for va in 0..values(KEYS[a].1).len() {
            let d = vec![pair(a, va)];
            c24_case(cx, &sc, &d, compact(&d), "one key");
            for b in 0..n {
                if b == a || cx.done() { continue; }
                for vb in 0..values(KEYS[b].1).len() {
                    let d = vec![pair(a, va), pair(b, vb)];
                    c24_case(cx, &sc, &d, compact(&d), "two keys");
                }
            }
        }
    })
}

fn c24_extras() -> Dom {
    let n = extras().len();
    dom("unknown keys", "every unknown key at every position among all recognised keys, alone, and together with every other unknown key", n, move |a, cx: &mut Cx| {
        let sc = Scratch::new("x");
        let e = extras();
        let own = |i: usize| (e[i].0.to_string(), e[i].1.clone());
        c24_case(cx, &sc, &vec![], compact(&vec![own(a)]), "only an unknown key");
        let d: Doc = (0..KEYS.len()).map(|k| pair(k, 0)).collect();
        for at in 0..=d.len() {
            let mut o = d.clone();
            o.insert(at, own(a));
            c24_case(cx, &sc, &d, compact(&o), "all keys and an unknown one");
        }
        for b in 0..n {
            if b == a { continue; }
            let o = vec![own(b), d[12].clone(), own(a), d[15].clone()];
            c24_case(cx, &sc, &vec![d[12].clone(), d[15].clone()], compact(&o), "two unknown keys");
        }
    })
}

fn c24_large(sizes: Vec<usize>) -> Dom {
    let bound = format!("every list-valued key with {:?} entries, and all keys large together", sizes);
    dom("large documents", &bound, KEYS.len() + 1, move |u, cx: &mut Cx| {
        let sc = Scratch::new("l");
        let big = |k: usize, n: usize| -> Option<(String, Value)> {
            let v = match KEYS[k].1 {
                Kind::Int => return None,
                Kind::Str => json!("0123456789abcdef".repeat(n / 8 + 1)),
                Kind::Strs => Value::Array((0..n).map(|i| json!(["M", "V", "B", "F"][i % 4])).collect()),
                Kind::Floats => Value::Array((0..n).map(|i| json!(i as f64 * 0.125 - 9.0)).collect()),
                Kind::FloatRows => Value::Array((0..n).map(|i| json!([i as f64 * 0.5, -(i as f64), 0.25])).collect()),
                Kind::IntRows => Value::Array((0..n).map(|i| json!([i, i + 1, i * 2])).collect()),
                Kind::Triples => Value::Array((0..n).map(|i| json!([i, i + 1, i as i64 % 3 - 1])).collect()),
            };
            Some((KEYS[k].0.to_string(), v))
        };
        for &n in &sizes {
            if cx.done() { return; }
            let d: Doc = if u < KEYS.len() { match big(u, n) { Some(p) => vec![p], None => continue } } else { (0..KEYS.len()).filter_map(|k| big(k, n / 8)).collect() };
            let text = compact(&d);
            let class = if text.len() > 1 << 20 { "over 1 MB" } else if text.len() > 1 << 16 { "over 64 KB" } else { "under 64 KB" };
            c24_case(cx, &sc, &d, text, class);
        }
    })
}

/// Strings of 1- to 4-byte characters placed at every alignment around the sizes readers buffer by.
fn c24_alignment(blocks: Vec<usize>) -> Dom {
    let bound = format!("strings of characters of 1 to 4 bytes whose boundaries lie at every offset from -9 to +9 around {:?} bytes into the file, in a string, a string list, and before other keys", blocks);
    dom("multi-byte text around buffer sizes", &bound, blocks.len(), move |u, cx: &mut Cx| {
        let sc = Scratch::new("a");
        for off in 0..19usize {
            for (ci, ch) in ["x", "é", "折", "🦢"].iter().enumerate() {
                if cx.done() { return; }
                let at = blocks[u] + off - 9;
                for shape in 0..3 {
                    let head = match shape { 0 => "{\"file_title\":\"", 1 => "{\"edges_assignment\":[\"M\",\"", _ => "{\"file_title\":\"t\",\"zzz\":\"" };
                    if at < head.len() { continue; }
                    let s = format!("{}{}{}", "a".repeat(at - head.len()), ch.repeat(40), "é\u{1f9a2}".repeat(20));
                    let mut d: Doc = vec![];
                    let mut o: Doc = vec![];
                    match shape {
                        0 => d.push(("file_title".into(), json!(s))),
                        1 => d.push(("edges_assignment".into(), json!(["M", s]))),
                        _ => { d.push(("file_title".into(), json!("t"))); }
                    }
                    o.extend(d.clone());
                    if shape == 2 { o.push(("zzz".into(), json!(s))); }
                    let last = pair(15, 0);
                    d.push(last.clone());
                    o.push(last);
                    c24_case(cx, &sc, &d, compact(&o), ["one byte", "two bytes", "three bytes", "four bytes"][ci]);
                }
            }
        }
    })
}

fn c24_numbers() -> Dom {
    let lits = ["0", "-0", "1", "-1", "0.5", "1e3", "1E3", "1e+3", "1.5e-3", "0.1", "0.2", "0.30000000000000004", "3.14159265358979", "16777216", "16777217", "33554433", "123456789012", "1e-40", "3.4028234e38", "-3.4028234e38", "1.17549435e-38", "0.00000000000000000000000000000000000001", "100.00000000000000000000000000000001", "179.99999", "-180"];
    let spec = ["1", "2", "0", "-1", "1.0", "1.1", "1.2"];
    dom("number formats", "25 number literals in every numeric list position; file_spec as 1, 2, 0, -1, 1.0, 1.1, 1.2", 3, move |u, cx: &mut Cx| {
        let sc = Scratch::new("n");
        if u == 2 {
            for l in &spec {
                let text = format!("{{\"file_spec\":{},\"file_title\":\"t\"}}", l);
                cx.case(|| format!("document {}", text), || {
                    let f = load(&sc.write(text.as_bytes()))?;
                    let want: f64 = l.parse().unwrap();
                    if f.file_title != "t" || f.file_spec as f64 != want { return Err(format!("file_spec is {}, expected {}", f.file_spec, want)); }
                    Ok("specification version")
                });
            }
            return;
        }
        for a in &lits {
            for b in &lits {
                let (key, text) = if u == 0 { ("edges_lengths", format!("{{\"edges_lengths\":[{},{}]}}", a, b)) } else { ("vertices_coords", format!("{{\"vertices_coords\":[[{},7],[{}]]}}", a, b)) };
                cx.case(|| format!("document {}", text), || {
                    let f = load(&sc.write(text.as_bytes()))?;
                    let got: Vec<f32> = if key == "edges_lengths" { f.edges_lengths.clone() } else { vec![f.vertices_coords[0][0], f.vertices_coords[1][0]] };
                    let want: Vec<f32> = vec![a.parse().unwrap(), b.parse().unwrap()];
                    for (g, w) in got.iter().zip(&want) {
                        // one unit in the last place for decimal conversion
                        if got.len() != 2 || !((g - w).abs() <= w.abs() * 1.2e-7 + 1.5e-45) { return Err(format!("{} holds {:?}, expected {:?}", key, got, want)); }
                    }
                    Ok("number literals")
                });
            }
        }
    })
}

/// Whole numbers and decimals, many to a list, and lists of lists of every shape.
fn c24_ranges(ints: i64, decimals: i64) -> Dom {
    let mut special: Vec<i64> = vec![];
    for d in -2..=2i64 {
        for k in 0..32 { special.push((1i64 << k) + d); special.push(-(1i64 << k) + d); }
        for k in 0..10 { special.push(10i64.pow(k) + d); special.push(-(10i64.pow(k)) + d); }
    }
    special.retain(|x| *x >= i32::MIN as i64 && *x <= i32::MAX as i64);
    let bound = format!("every whole number from -{} to {} and {} around powers of 2 and 10 in every key of whole numbers, every multiple of 0.001 up to {} in absolute value in every key of decimals, plainly and with an exponent; lists of up to 70 entries of up to 70 entries; the special ones as file_spec", ints, ints, special.len(), decimals as f64 * 0.001);
    let keys: Vec<usize> = (0..KEYS.len()).filter(|k| match KEYS[*k].1 { Kind::Str | Kind::Strs => false, _ => true }).collect();
    dom("ranges of numbers and shapes of lists", &bound, keys.len(), move |u, cx: &mut Cx| {
        let sc = Scratch::new("r");
        let (key, kind) = (KEYS[keys[u]].0.to_string(), KEYS[keys[u]].1);
        let mut one = |cx: &mut Cx, text: String, v: Value| c24_case(cx, &sc, &vec![(key.clone(), v)], format!("{{\"{}\":{}}}", key, text), "numbers");
        match kind {
            Kind::Int => for &i in &special { one(cx, i.to_string(), json!(i)); },
            Kind::IntRows | Kind::Triples => {
                let all: Vec<i64> = special.iter().cloned().chain(-ints..=ints).collect();
                for part in all.chunks(3000) {
                    let rows: Vec<&[i64]> = part.chunks(3).filter(|c| c.len() == 3).collect();
                    let v = json!(rows);
                    one(cx, v.to_string(), v);
                }
            }
            _ => {
                let mut i = -decimals;
                while i <= decimals {
                    let (mut a, mut b) = (vec![], vec![]);
                    for j in i..(i + 1000).min(decimals + 1) {
                        let sg = if j < 0 { "-" } else { "" };
                        let w = j.abs();
                        a.push(format!("{}{}.{:03}", sg, w / 1000, w % 1000));
                        b.push(format!("{}e-3", j));
                    }
                    for t in &[a, b] {
                        let list = if kind == Kind::Floats { format!("[{}]", t.join(",")) } else { format!("[{}]", t.chunks(2).map(|c| format!("[{}]", c.join(","))).collect::<Vec<_>>().join(",")) };
                        cx.case(|| format!("document {}", short(&format!("{{\"{}\":{}}}", key, list))), || {
                            let f = load(&sc.write(format!("{{\"{}\":{}}}", key, list).as_bytes()))?;
                            let got: Vec<f32> = match key.as_str() {
                                "edges_lengths" => f.edges_lengths.clone(),
                                "edges_foldAngles" => f.edges_foldangles.clone(),
                                _ => f.vertices_coords.iter().flatten().cloned().collect(),
                            };
                            if got.len() != t.len() { return Err(format!("{} holds {} numbers, expected {}", key, got.len(), t.len())); }
                            for (g, l) in got.iter().zip(t) {
                                let w: f32 = l.parse().unwrap();
                                if !((g - w).abs() <= w.abs() * 1.2e-7) { return Err(format!("{} holds {:?} for {}", key, g, l)); }
                            }
                            Ok("numbers")
                        });
                    }
                    i += 1000;
                }
            }
        }
        // shapes
        let num = |i: usize, j: usize| -> Value { if kind == Kind::FloatRows { json!((i * 71 + j) as f64 + 0.5) } else { json!(i * 71 + j) } };
        match kind {
            Kind::FloatRows | Kind::IntRows => {
                for n in 0..71usize {
                    // n rows of n entries; n rows of all lengths; one row of n entries among others
                    let a = json!((0..n).map(|i| (0..n).map(|j| num(i, j)).collect()).collect::<Vec<Vec<Value>>>());
                    let b = json!((0..n).map(|i| (0..(i * 7) % (n + 1)).map(|j| num(i, j)).collect()).collect::<Vec<Vec<Value>>>());
                    let c = json!([vec![num(0, 0), num(0, 1)], (0..n).map(|j| num(1, j)).collect::<Vec<Value>>(), vec![num(2, 0)], Vec::<Value>::new()]);
                    for v in vec![a, b, c] { one(cx, v.to_string(), v); }
                }
            }
            Kind::Triples | Kind::Floats => {
                for n in 0..71usize {
                    let v = if kind == Kind::Floats { json!((0..n).map(|i| i as f64 + 0.5).collect::<Vec<_>>()) } else { json!((0..n).map(|i| vec![i, i + 1, i % 2]).collect::<Vec<_>>()) };
                    one(cx, v.to_string(), v);
                }
            }
            _ => {}
        }
    })
}

/// Strings and keys written with JSON escapes.
fn c24_escapes() -> Dom {
    let pieces: Vec<(&'static str, &'static str)> = vec![
        ("\\\"", "\""), ("\\\\", "\\"), ("\\/", "/"), ("\\b", "\u{8}"), ("\\f", "\u{c}"), ("\\n", "\n"), ("\\r", "\r"), ("\\t", "\t"),
        ("\\u0000", "\u{0}"), ("\\u001f", "\u{1f}"), ("\\u0022", "\""), ("\\u005C", "\\"), ("\\u002f", "/"), ("\\u0041", "A"), ("\\u00e9", "é"), ("\\u00E9", "é"), ("\\u6298", "折"),
        ("\\ud83e\\udda2", "\u{1f9a2}"), ("\\uD83E\\uDDA2", "\u{1f9a2}"), ("\\ud800\\udc00", "\u{10000}"), ("\\udbff\\udfff", "\u{10ffff}"), ("\\ufeff", "\u{feff}"), ("\\uffff", "\u{ffff}"), ("\\u2028", "\u{2028}"),
        ("", ""), (" ", " "), ("//", "//"), ("折", "折"), ("u0041", "u0041"), ("/*", "/*"), ("{", "{"), ("],", "],"),
    ];
    let n = pieces.len();
    let keys: Vec<usize> = (0..KEYS.len()).filter(|k| KEYS[*k].1 == Kind::Str || KEYS[*k].1 == Kind::Strs).collect();
    let bound = format!("every pair of {} escapes and characters in a row as the value of {} string keys or entry of string lists (keys in turn; thereby every piece under every key); every recognised key with any one character of it written as an escape", n, keys.len());
    dom("escapes", &bound, n + 1, move |u, cx: &mut Cx| {
        let sc = Scratch::new("e");
        if u == n {
            for k in 0..KEYS.len() {
                let name = KEYS[k].0;
                for i in 0..name.len() {
                    for upper in 0..2 {
                        let c = name.as_bytes()[i];
                        let esc = if upper == 1 { format!("\\u{:04X}", c) } else { format!("\\u{:04x}", c) };
                        let p = pair(k, 0);
                        let text = format!("{{\"{}{}{}\":{}}}", &name[..i], esc, &name[i + 1..], p.1);
                        c24_case(cx, &sc, &vec![p], text, "escaped key");
                    }
                }
            }
            return;
        }
        for v in 0..n {
            if cx.done() { return; }
            for (j, k) in keys.iter().enumerate() {
                if v != 0 && (u + v + j) % 3 != 0 { continue; }
                let (src, want) = (format!("{}{}", pieces[u].0, pieces[v].0), format!("{}{}", pieces[u].1, pieces[v].1));
                let (text, val) = if KEYS[*k].1 == Kind::Str { (format!("\"{}\"", src), json!(want)) } else { (format!("[\"a\",\"{}\",\"{}\"]", src, src), json!(["a", want, want])) };
                c24_case(cx, &sc, &vec![(KEYS[*k].0.to_string(), val)], format!("{{\"{}\":{}}}", KEYS[*k].0, text), "escaped text");
            }
        }
    })
}

/// The characters of one block of 1024 code points (surrogates are none).
fn chars_of(block: u32) -> Vec<char> {
    (block * 1024..(block + 1) * 1024).filter_map(std::char::from_u32).collect()
}

fn escape(c: char) -> String {
    let mut b = [0u16; 2];
    c.encode_utf16(&mut b).iter().map(|w| format!("\\u{:04x}", w)).collect()
}

/// Every character there is, as text by itself and between others, written plainly and as an escape.
fn c24_unicode(all_keys: bool) -> Dom {
    let strs: Vec<usize> = (0..KEYS.len()).filter(|k| KEYS[*k].1 == Kind::Str).collect();
    let lists: Vec<usize> = (0..KEYS.len()).filter(|k| KEYS[*k].1 == Kind::Strs).collect();
    let bound = format!("all 1112064 Unicode characters, in blocks of 1024: each alone and between two letters as entries of a string list, and all of a block in a row as a string, under {}; written plainly and as escapes; in the names and values of unknown keys", if all_keys { "every such key" } else { "the keys in turn" });
    dom("every character", &bound, 1088, move |u, cx: &mut Cx| {
        let cs = chars_of(u as u32);
        if cs.is_empty() { return; }
        let sc = Scratch::new("c");
        let n = strs.len() * lists.len();
        for i in 0..n {
            if !all_keys && i != u % n { continue; }
            if cx.done() { return; }
            let (ks, kl) = (strs[i % strs.len()], lists[i / strs.len()]);
            for form in 0..2 {
                let w = |c: char| if form == 1 { escape(c) } else if (c as u32) < 0x20 || c == '"' || c == '\\' { escape(c) } else { c.to_string() };
                let mut text = format!("{{\"{}\":\"", KEYS[ks].0);
                for &c in &cs { text.push_str(&w(c)); }
                text.push_str(&format!("\",\"{}\":[", KEYS[kl].0));
                let mut want = vec![];
                for (j, &c) in cs.iter().enumerate() {
                    text.push_str(&format!("{}\"{}\",\"a{}b\"", if j > 0 { "," } else { "" }, w(c), w(c)));
                    want.push(json!(c.to_string()));
                    want.push(json!(format!("a{}b", c)));
                }
                text.push(']');
                if i == u % n {
                    for &c in &cs { text.push_str(&format!(",\"x{}\":\"{}\"", w(c), w(c))); }
                }
                text.push('}');
                let d = vec![(KEYS[ks].0.to_string(), json!(cs.iter().collect::<String>())), (KEYS[kl].0.to_string(), Value::Array(want))];
                c24_case(cx, &sc, &d, text, if form == 1 { "escaped characters" } else { "plain characters" });
            }
        }
    })
}

/// Files of any name, reached by any kind of path.
fn c24_names() -> Dom {
    dom("file names", "one document under 24 names (no or other extensions, blanks, non-ASCII and non-UTF-8 bytes, leading dots and dashes, 255 bytes) in nested directories, named directly, through ., .., doubled slashes, symbolic and hard links and chains of 10 links; read-only", 1, move |_, cx: &mut Cx| {
        use std::os::unix::ffi::OsStringExt;
        use std::os::unix::fs::{symlink, PermissionsExt};
        let sc = Scratch::new("n");
        let d: Doc = vec![pair(3, 3), pair(12, 0), pair(15, 0)];
        let text = compact(&d);
        let mut names: Vec<Vec<u8>> = ["a", "a.fold", "a.FOLD", "a.json", "a.txt", "a.fold.bak", ".fold", ".hidden", "-", "--help", "a b.fold", " a", "a\n.fold", "*", "?.fold", "~", "$HOME", "é折🦢.fold", "null", "a:b", "a\\b.fold"].iter().map(|s| s.as_bytes().to_vec()).collect();
        names.push(b"\xff\xfe.fold".to_vec());
        names.push(b"a.\xc3".to_vec());
        names.push(vec![b'x'; 255]);
        for name in names {
            let os = std::ffi::OsString::from_vec(name);
            for (di, dir) in ["", "deep/er/dir.d"].iter().enumerate() {
                if cx.done() { return; }
                let dirp = sc.0.join(dir);
                let _ = fs::create_dir_all(&dirp);
                let p = dirp.join(&os);
                fs::write(&p, &text).expect("scratch file");
                let links = sc.0.join(format!("links{}", di));
                let _ = fs::remove_dir_all(&links);
                let _ = fs::create_dir_all(&links);
                let soft = links.join("soft");
                let _ = symlink(&p, &soft);
                let hard = links.join("hard");
                let _ = fs::hard_link(&p, &hard);
                for i in 0..10 {
                    let _ = symlink(if i == 0 { p.clone() } else { links.join(format!("c{}", i - 1)) }, links.join(format!("c{}", i)));
                }
                let twice = { let mut s = dirp.clone().into_os_string(); s.push("//"); s.push(&os); PathBuf::from(s) };
                let ways: Vec<(&'static str, PathBuf)> = vec![("directly", p.clone()), ("through .", dirp.join(".").join(&os)), ("through ..", links.join("..").join(dir).join(&os)), ("doubled slash", twice), ("symbolic link", soft), ("hard link", hard), ("ten links", links.join("c9"))];
                for ro in 0..2 {
                    let _ = fs::set_permissions(&p, fs::Permissions::from_mode(if ro == 1 { 0o400 } else { 0o644 }));
                    for (what, way) in &ways {
                        cx.case(|| format!("file named {:?} in {:?}, {}{}", os, dir, what, if ro == 1 { ", read-only" } else { "" }), || {
                            let f = load(way)?;
                            check_doc(&f, &d)?;
                            Ok("file name")
                        });
                    }
                }
                let _ = fs::remove_file(&p);
            }
        }
    })
}

/// Every import is a function of what the file holds then, whatever was imported before.
fn c24_histories(depth: usize) -> Dom {
    let bound = format!("every sequence of {} replacements over 2 paths x 7 contents (two documents of equal length, a shorter one, a cut-off one, text that is no document, no file, a directory), both paths imported after each step", depth);
    dom("import histories", &bound, 14, move |first, cx: &mut Cx| {
        let sc = Scratch::new("h");
        let docs: Vec<Doc> = vec![
            vec![pair(3, 0), pair(19, 0), pair(17, 0)],
            vec![("file_title".to_string(), json!("imak")), ("edges_lengths".to_string(), json!([-90.5, 180.0])), ("faces_edges".to_string(), json!([[1, 2]]))],
            vec![pair(15, 0)],
        ];
        let mut texts: Vec<Vec<u8>> = docs.iter().map(|d| compact(d).into_bytes()).collect();
        let longest = texts.iter().map(|t| t.len()).max().unwrap();
        for t in texts.iter_mut().take(2) { t.resize(longest, b' '); }
        texts.push(texts[0][..texts[0].len() / 2].to_vec());
        texts.push(b"not a document".to_vec());
        let total = 14usize.pow(depth as u32 - 1);
        for rest in 0..total {
            if cx.done() { return; }
            let mut seq = vec![first];
            let mut r = rest;
            for _ in 1..depth { seq.push(r % 14); r /= 14; }
            cx.case(|| format!("replacements {:?} (path = n / 7, content = n % 7)", seq), || {
                let paths = [sc.0.join("p.fold"), sc.0.join("q.fold")];
                for p in &paths { let _ = fs::remove_file(p); let _ = fs::remove_dir(p); }
                let mut now = [5usize, 5];
                for s in &seq {
                    let (i, c) = (s / 7, s % 7);
                    if now[i] == 6 { fs::remove_dir(&paths[i]).map_err(|e| e.to_string())?; }
                    match c {
                        5 => { let _ = fs::remove_file(&paths[i]); }
                        6 => { let _ = fs::remove_file(&paths[i]); fs::create_dir(&paths[i]).map_err(|e| e.to_string())?; }
                        _ => fs::write(&paths[i], &texts[c]).map_err(|e| e.to_string())?,
                    }
                    now[i] = c;
                    for k in 0..2 {
                        match (Fold::from_file(&paths[k]), now[k]) {
                            (Ok(f), c) if c < 3 => check_doc(&f, &docs[c])?,
                            (Ok(_), c) => return Err(format!("content {} was imported", c)),
                            (Err(e), c) if c < 3 => return Err(format!("content {} is not imported: {}", c, e)),
                            _ => {}
                        }
                    }
                }
                Ok("history")
            });
        }
    })
}

/// Documents of many megabytes.
fn c24_huge(megabytes: Vec<usize>) -> Dom {
    let bound = format!("a long string, a list of long strings, a list of numbers, and an unknown key before the last key, of {:?} MB each", megabytes);
    dom("documents of many megabytes", &bound, megabytes.len() * 4, move |u, cx: &mut Cx| {
        let sc = Scratch::new("g");
        let n = (megabytes[u / 4] << 20) + 1000;
        let d: Doc = match u % 4 {
            0 => vec![("file_description".to_string(), json!("0123456789abcdef".repeat(n / 16)))],
            1 => vec![("edges_assignment".to_string(), Value::Array((0..n / 1024).map(|i| json!(format!("{:01021}", i))).collect()))],
            2 => vec![("edges_foldAngles".to_string(), Value::Array((0..n / 8).map(|i| json!(((i % 1000) as f64) + 1000.5)).collect()))],
            _ => vec![],
        };
        let mut o = d.clone();
        if u % 4 == 3 { o.push(("zzz".to_string(), json!("é折🦢 ".repeat(n / 10)))); }
        let last = pair(23, 0);
        o.push(last.clone());
        let d = d.into_iter().chain(vec![last]).collect();
        c24_case(cx, &sc, &d, compact(&o), "many megabytes");
    })
}

/// All words of up to `n` letters of an alphabet of `m`.
fn words(m: usize, n: usize) -> Vec<Vec<usize>> {
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..n {
        let to = all.len();
        for i in from..to {
            for c in 0..m { let mut w = all[i].clone(); w.push(c); all.push(w); }
        }
        from = to;
    }
    all
}

/// Every small value of a kind: entries in every order, repeated, equal, descending, blank.
fn small_values(k: Kind, n: usize) -> Vec<Value> {
    let pick = |ws: Vec<Vec<usize>>, a: Vec<Value>| -> Vec<Value> { ws.iter().map(|w| Value::Array(w.iter().map(|c| a[*c].clone()).collect())).collect() };
    match k {
        Kind::Int => (-300..3000).map(|i| json!(i)).collect(),
        Kind::Str => words(16, n).iter().map(|w| json!(w.iter().map(|c| [' ', 'a', 'A', '\n', '\t', '0', '.', ',', '}', ']', '{', '[', ':', '"', '/', '\\'][*c]).collect::<String>())).collect(),
        Kind::Strs => pick(words(6, n + 1), vec![json!(""), json!("M"), json!("V"), json!("m"), json!(" V"), json!("U")]),
        Kind::Floats => pick(words(7, n), vec![json!(0.0), json!(1.0), json!(-1.0), json!(0.5), json!(180.0), json!(-180.0), json!(360.0)]),
        Kind::Triples => {
            let mut v = vec![];
            for a in -1..3 { for b in -1..3 { for c in -2..3 { v.push(json!([[a, b, c]])); } } }
            let t: Vec<Value> = words(3, 3).iter().filter(|w| w.len() == 3).map(|w| json!([w[0], w[1], w[2] as i64 - 1])).collect();
            for a in &t { for b in &t { v.push(json!([a, b])); } }
            if n > 3 { for a in &t { for b in &t { for c in &t { v.push(json!([a, b, c])); } } } }
            v
        }
        Kind::FloatRows | Kind::IntRows => {
            let letters: Vec<Value> = if k == Kind::IntRows { vec![json!(0), json!(1), json!(2)] } else { vec![json!(0.0), json!(1.0), json!(-0.5)] };
            let rows = pick(words(3, 3), letters.clone());
            let mut v: Vec<Value> = pick(words(3, n + 3), letters).into_iter().map(|r| json!([r])).collect();
            for a in &rows { for b in &rows { v.push(json!([a, b])); } }
            // whole documents' worth of short rows, in every order
            let few: Vec<Value> = vec![json!([1, 0]), json!([0, 1]), json!([2, 2]), json!([0, 1, 2])];
            v.extend(pick(words(4, n + 1), few));
            v
        }
    }
}

/// A crease pattern whose fields belong together, the same one written otherwise, and one whose fields contradict each other.
fn pattern(model: usize) -> Doc {
    let cols: [Value; 12] = match model {
        0 => [json!([[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]]), json!([[1, 2, 3], [0, 2], [0, 1, 3], [0, 2]]), json!([[0, 1], [0], [0, 1], [1]]), json!([[0, 1], [1, 2], [2, 3], [3, 0], [0, 2]]), json!([[0, -1], [0, -1], [1, -1], [1, -1], [0, 1]]), json!(["B", "B", "B", "B", "V"]), json!([0.0, 0.0, 0.0, 0.0, 180.0]), json!([1.0, 1.0, 1.0, 1.0, 1.4142135]), json!([[0, 1, 2], [0, 2, 3]]), json!([[0, 1, 4], [4, 2, 3]]), json!([[0, 1, 1]]), json!([[0, 2, 0]])],
        1 => [json!([[1.0, 1.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 0.0], [1.0, 0.0, 0.0]]), json!([[3, 2, 1], [2, 0], [3, 1, 0], [2, 0]]), json!([[1, 0], [0], [1, 0], [1]]), json!([[2, 0], [1, 0], [2, 1], [3, 2], [0, 3]]), json!([[1, 0], [-1, 0], [0], [1, -1], [1]]), json!(["M", "B", "B", "B", "B"]), json!([-180.0, 0.0, 0.0, 0.0, 0.0]), json!([1.4142135, 1.0, 1.0, 1.0, 1.0]), json!([[2, 1, 0], [3, 2, 0]]), json!([[2, 1, 0], [3, 0, 4]]), json!([[1, 0, -1]]), json!([[3, 1, -1]])],
        _ => [json!([[1.0, 1.0], [1.0, 1.0], [0.0, 0.0, 5.0]]), json!([[0, 0], [9]]), json!([[-1], [7, 7], [], [0]]), json!([[1, 0], [0, 1], [1, 0], [2, 2], [5, -4], [0, 1, 2]]), json!([[3], []]), json!(["V", "X", "v", "M", ""]), json!([-90.0, 90.0, 400.0]), json!([-1.0, 0.0, 7.0, 7.0]), json!([[2, 0, 1], [1, 2, 0], [0, 0, 0]]), json!([[8, 8, 8], [1]]), json!([[1, 0, 1], [0, 1, 1], [1, 0, 1], [0, 0, 0]]), json!([[2, 1, 5], [2, 1, -5]])],
    };
    (0..12).map(|i| (KEYS[12 + i].0.to_string(), cols[i].clone())).collect()
}

fn pattern_docs(model: usize, sub: usize) -> Vec<Doc> {
    let meta: Doc = vec![("file_spec".into(), json!(1)), ("file_creator".into(), json!("kami")), ("file_classes".into(), json!(["singleModel"])), ("frame_classes".into(), json!(["creasePattern"])), ("frame_attributes".into(), json!(["2D", "2D"])), ("frame_unit".into(), json!("unit"))];
    let all = pattern(model);
    let own: Doc = (0..12).filter(|i| sub >> i & 1 == 1).map(|i| all[i].clone()).collect();
    vec![own.clone(), meta.into_iter().chain(own).collect()]
}

fn c24_small(n: usize) -> Dom {
    let bound = format!("under every key, every small value: lists of up to {} (whole numbers in rows: up to {}) entries of a few letters in every order, so also descending, repeated and equal ones, all pairs of rows of up to 3 entries and of triples, all short texts of blanks, letters, digits and punctuation", n + 1, n + 3);
    dom("every small value", &bound, KEYS.len() * 4, move |u, cx: &mut Cx| {
        let sc = Scratch::new("s");
        let k = u / 4;
        for (i, v) in small_values(KEYS[k].1, n).into_iter().enumerate() {
            if i % 4 != u % 4 { continue; }
            if cx.done() { return; }
            let d = vec![(KEYS[k].0.to_string(), v)];
            c24_case(cx, &sc, &d, compact(&d), "small value");
        }
    })
}

fn c24_patterns() -> Dom {
    dom("crease patterns", "three crease patterns (consistent, the same with everything in other orders, contradictory): all 4096 subsets of their 12 vertex, edge, face and layer keys, with and without metadata", 96, move |u, cx: &mut Cx| {
        let sc = Scratch::new("p");
        for sub in (0..4096usize).filter(|s| s % 32 == u % 32) {
            if cx.done() { return; }
            for d in pattern_docs(u / 32, sub) { c24_case(cx, &sc, &d, compact(&d), ["consistent", "reordered", "contradictory"][u / 32]); }
        }
    })
}

pub fn c24(tier: Tier) -> Plan {
    let mut doms = vec![c24_subsets(vec![0, 1, 2]), c24_values(), c24_extras(), c24_small(3), c24_patterns(), c24_numbers(), c24_ranges(70_000, 200_000), c24_large(vec![100, 4000, 30000]), c24_alignment(vec![64, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536]), c24_escapes(), c24_unicode(false), c24_names(), c24_histories(3), c24_huge(vec![5, 17])];
    if tier == Tier::Thorough {
        doms.push(c24_subsets(vec![3, 4, 5]));
        doms.push(c24_histories(4));
        doms.push(c24_small(4));
        doms.push(c24_unicode(true));
        doms.push(c24_ranges(2_000_000, 4_000_000));
        doms.push(c24_huge(vec![33, 65, 130]));
        doms.push(c24_alignment(vec![32, 100, 500, 1500, 3000, 5000, 10000, 12288, 24576, 100000, 131072, 262144, 524288, 1048576, 2097152]));
        doms.push(c24_large(vec![1, 2, 3, 5, 17, 64, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 8191, 8192, 8193, 65535, 65536, 200000]));
    }
    Plan {
        level: "exploration",
        rule: "every document in the stated sets is written to a real file and imported; every field is compared with the value written (or the empty default); all cases are non-trivial",
        assumptions: vec!["recognised keys are the 24 declared by the Fold type; file_frames is documented as not yet supported and counts as unknown"],
        doms,
    }
}

// ------------------------------------------------------------------------------------------------------ C25

fn same_fold(a: &Fold, b: &Fold) -> Result<(), String> {
    for i in 0..KEYS.len() {
        let (x, y) = (field(a, i), field(b, i));
        if x != y {
            let c = |v: &Value| { let s = v.to_string(); s.chars().take(200).collect::<String>() };
            return Err(format!("{} was {}, after the round trip it is {}", KEYS[i].0, c(&x), c(&y)));
        }
    }
    Ok(())
}

/// A document with the given fields set directly (not through the importer).
fn fill(set: &[(usize, usize)]) -> Fold {
    fill_with(&set.iter().map(|&(k, v)| pair(k, v)).collect())
}

fn fill_with(doc: &Doc) -> Fold {
    let mut f: Fold = serde_json::from_str("{}").expect("the empty document");
    for (name, v) in doc {
        let s = || v.as_str().unwrap().to_string();
        let strs = || v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect::<Vec<_>>();
        let fl = |x: &Value| x.as_array().unwrap().iter().map(|y| y.as_f64().unwrap() as f32).collect::<Vec<f32>>();
        let il = |x: &Value| x.as_array().unwrap().iter().map(|y| y.as_i64().unwrap() as i32).collect::<Vec<i32>>();
        let ir = || v.as_array().unwrap().iter().map(|r| il(r)).collect::<Vec<_>>();
        let tr = || v.as_array().unwrap().iter().map(|r| { let q = il(r); [q[0], q[1], q[2]] }).collect::<Vec<[i32; 3]>>();
        match name.as_str() {
            "file_spec" => f.file_spec = v.as_i64().unwrap() as i32,
            "file_creator" => f.file_creator = s(),
            "file_author" => f.file_author = s(),
            "file_title" => f.file_title = s(),
            "file_description" => f.file_description = s(),
            "file_classes" => f.file_classes = strs(),
            "frame_author" => f.frame_author = s(),
            "frame_title" => f.frame_title = s(),
            "frame_description" => f.frame_description = s(),
            "frame_classes" => f.frame_classes = strs(),
            "frame_attributes" => f.frame_attributes = strs(),
            "frame_unit" => f.frame_unit = s(),
            "vertices_coords" => f.vertices_coords = v.as_array().unwrap().iter().map(|r| fl(r)).collect(),
            "vertices_vertices" => f.vertices_vertices = ir(),
            "vertices_faces" => f.vertices_faces = ir(),
            "edges_vertices" => f.edges_vertices = ir(),
            "edges_faces" => f.edges_faces = ir(),
            "edges_assignment" => f.edges_assignment = strs(),
            "edges_foldAngles" => f.edges_foldangles = fl(v),
            "edges_lengths" => f.edges_lengths = fl(v),
            "faces_vertices" => f.faces_vertices = ir(),
            "faces_edges" => f.faces_edges = ir(),
            "faceOrders" => f.faceorders = tr(),
            "edgeOrders" => f.edgeorders = tr(),
            _ => unreachable!(),
        }
    }
    f
}

fn c25_case(cx: &mut Cx, sc: &Scratch, set: &[(usize, usize)], trips: usize, class: Class) {
    c25_doc(cx, sc, &set.iter().map(|&(k, v)| pair(k, v)).collect(), trips, class);
}

fn c25_doc(cx: &mut Cx, sc: &Scratch, doc: &Doc, trips: usize, class: Class) {
    cx.case(|| format!("document with {}", short(&doc.iter().map(|p| format!("{}={}", p.0, p.1)).collect::<Vec<_>>().join(" "))), || {
        let first = fill_with(doc);
        let mut cur = fill_with(doc);
        for t in 0..trips {
            let text = if t % 2 == 0 { serde_json::to_string(&cur) } else { serde_json::to_string_pretty(&cur) }.map_err(|e| format!("exporting fails: {}", e))?;
            let v: Map<String, Value> = serde_json::from_str(&text).map_err(|e| format!("the export is not a JSON object: {}", e))?;
            for k in v.keys() {
                if !KEYS.iter().any(|x| x.0 == k.as_str()) { return Err(format!("the export uses the key {:?}, which the importer does not know", k)); }
            }
            cur = load(&sc.write(text.as_bytes()))?;
            same_fold(&first, &cur)?;
            let again: Fold = serde_json::from_str(&text).map_err(|e| format!("reading the export back fails: {}", e))?;
            same_fold(&first, &again)?;
        }
        Ok(class)
    });
}

pub fn c25(tier: Tier) -> Plan {
    let n = KEYS.len();
    let sub = |sizes: Vec<usize>, trips: usize| {
        let sets: Vec<Vec<usize>> = sizes.iter().flat_map(|k| subsets(n, *k)).collect();
        let bound = format!("all {} sets of {:?} of {} fields filled, and their complements; {} round trips", sets.len(), sizes, n, trips);
        dom("field sets", &bound, 64.min(sets.len()), move |u, cx: &mut Cx| {
            let sc = Scratch::new("r");
            let mut i = u;
            while i < sets.len() {
                if cx.done() { return; }
                for &neg in &[false, true] {
                    for var in 0..3 {
                        let set: Vec<(usize, usize)> = (0..n).filter(|k| sets[i].contains(k) != neg).map(|k| (k, var * 2 + (i + k) % 2)).collect();
                        c25_case(cx, &sc, &set, trips, if neg { "most fields" } else { "few fields" });
                    }
                }
                i += 64.min(sets.len());
            }
        })
    };
    let floats: Vec<f32> = vec![0.0, -0.0, 1.0, -1.0, 0.1, 0.2, 0.3, 1.0 / 3.0, 2.0 / 3.0, 1e-3, 123.456, 16777216.0, 16777218.0, 33554432.0, 1e10, 1.5e-10, 3.4028235e38, -3.4028235e38, 1.1754944e-38, 1e-40, 1e-45, 0.099999994, 179.99998, 90.00001, 5e-324f64 as f32, 8388607.5, 9.8607613e-32];
    let nf = floats.len();
    let mut doms = vec![
        sub(vec![0, 1, 2], 3),
        dom("values", "every sample value of every field, alone and in pairs; 2 round trips", n, move |a, cx: &mut Cx| {
            let sc = Scratch::new("w");
            for va in 0..values(KEYS[a].1).len() {
                c25_case(cx, &sc, &[(a, va)], 4, "one field");
                for b in a + 1..n {
                    if cx.done() { return; }
                    for vb in 0..values(KEYS[b].1).len() { c25_case(cx, &sc, &[(a, va), (b, vb)], 2, "two fields"); }
                }
            }
        }),
        dom("finite numbers", "every pair of 27 single-precision numbers (extremes, subnormals, both zeros) in every numeric field; 2 round trips", nf, move |u, cx: &mut Cx| {
            let sc = Scratch::new("f");
            for i in 0..floats.len() {
                let (x, y) = (floats[u], floats[i]);
                cx.case(|| format!("numbers {:e} {:e}", x, y), || {
                    let mk = || { let mut f = fill(&[]); f.vertices_coords = vec![vec![x, y], vec![y]]; f.edges_foldangles = vec![y, x]; f.edges_lengths = vec![x, x, y]; f };
                    let first = mk();
                    let mut cur = mk();
                    for _ in 0..2 {
                        let text = serde_json::to_string(&cur).map_err(|e| e.to_string())?;
                        cur = load(&sc.write(text.as_bytes()))?;
                        same_fold(&first, &cur)?;
                    }
                    Ok("numbers")
                });
            }
        }),
    ];
    let small = if tier == Tier::Thorough { 4 } else { 3 };
    doms.push(dom("every small value", "in every field, every small value (as in C24: entries in every order, repeated, equal, descending; short texts); 1 round trip", KEYS.len() * 4, move |u, cx: &mut Cx| {
        let sc = Scratch::new("s");
        let k = u / 4;
        for (i, v) in small_values(KEYS[k].1, small).into_iter().enumerate() {
            if i % 4 != u % 4 { continue; }
            if cx.done() { return; }
            c25_doc(cx, &sc, &vec![(KEYS[k].0.to_string(), v)], 1, "small value");
        }
    }));
    doms.push(dom("crease patterns", "three crease patterns (consistent, the same with everything in other orders, contradictory): all 4096 subsets of their 12 vertex, edge, face and layer fields, with and without metadata; 2 round trips", 96, move |u, cx: &mut Cx| {
        let sc = Scratch::new("p");
        for sub in (0..4096usize).filter(|s| s % 32 == u % 32) {
            if cx.done() { return; }
            for d in pattern_docs(u / 32, sub) { c25_doc(cx, &sc, &d, 2, ["consistent", "reordered", "contradictory"][u / 32]); }
        }
    }));
    doms.push(dom("every character", "all 1112064 Unicode characters, in blocks of 1024: each alone and between two letters as entries of a string list, all of a block in a row as a string; 2 round trips", 1088, move |u, cx: &mut Cx| {
        let cs = chars_of(u as u32);
        if cs.is_empty() { return; }
        let sc = Scratch::new("c");
        cx.case(|| format!("texts of the characters U+{:04X} to U+{:04X}", cs[0] as u32, cs[cs.len() - 1] as u32), || {
            let mut f = fill(&[]);
            let all: String = cs.iter().collect();
            let each: Vec<String> = cs.iter().flat_map(|&c| vec![c.to_string(), format!("a{}b", c)]).collect();
            match u % 4 {
                0 => { f.file_title = all; f.file_classes = each; }
                1 => { f.file_creator = all.clone(); f.frame_unit = all; f.frame_classes = each; }
                2 => { f.file_description = all.clone(); f.frame_title = all; f.edges_assignment = each; }
                _ => { f.file_author = all.clone(); f.frame_author = all.clone(); f.frame_description = all; f.frame_attributes = each; }
            }
            let mut g = load(&sc.write(serde_json::to_string(&f).map_err(|e| e.to_string())?.as_bytes()))?;
            same_fold(&f, &g)?;
            g = load(&sc.write(serde_json::to_string_pretty(&g).map_err(|e| e.to_string())?.as_bytes()))?;
            same_fold(&f, &g)?;
            Ok("characters")
        });
    }));
    // random-looking but enumerated bit patterns of f32: all exponents x a few mantissas
    doms.push(dom("all exponents", "every finite exponent and sign x 64 mantissas, exported and imported", 128, move |u, cx: &mut Cx| {
        let sc = Scratch::new("e");
        for s in 0..2u32 {
            for e in (u as u32 * 2)..(u as u32 * 2 + 2) {
                if e == 255 { continue; }
                let xs: Vec<f32> = (0..64u32).map(|m| f32::from_bits(s << 31 | e << 23 | (m.wrapping_mul(0x2f0b4a9) ^ (m << 17)) & 0x7fffff)).collect();
                cx.case(|| format!("numbers {:?}", xs), || {
                    let mut f = fill(&[]);
                    f.edges_lengths = xs.clone();
                    let g = load(&sc.write(serde_json::to_string(&f).map_err(|e| e.to_string())?.as_bytes()))?;
                    same_fold(&f, &g)?;
                    Ok("numbers")
                });
            }
        }
    }));
    if tier == Tier::Thorough {
        doms.push(sub(vec![3, 4], 3));
        doms.push(sub(vec![5], 2));
    }
    Plan {
        level: "exploration",
        rule: "every document in the stated sets (fields set directly) is exported with serde_json, written to a file, imported with Fold::from_file and compared field by field, repeatedly; all cases are non-trivial",
        assumptions: vec!["documents hold finite numbers only; file_frames is not part of a document (documented as unsupported)"],
        doms,
    }
}

// ------------------------------------------------------------------------------------------------------ C26

/// A file is a document exactly when it is UTF-8 and a JSON object (by an independent parse). A file whose only
/// flaw is an ill-formed character inside the value of a key that the importer ignores is not judged.
fn maybe_document(b: &[u8]) -> bool {
    match std::str::from_utf8(b) {
        Ok(s) => serde_json::from_str::<Value>(s).map_or(false, |v| v.is_object() || v.is_array()),
        Err(_) => match serde_json::from_str::<Value>(&String::from_utf8_lossy(b)) {
            Ok(Value::Object(o)) => o.iter().all(|(k, v)| {
                !k.contains('\u{fffd}') && (!KEYS.iter().any(|x| x.0 == k) || !v.to_string().contains('\u{fffd}'))
            }),
            _ => false,
        },
    }
}

fn base_docs() -> Vec<String> {
    let all: Doc = (0..KEYS.len()).map(|k| pair(k, 0)).collect();
    vec![
        compact(&all),
        compact(&vec![pair(12, 0), pair(15, 0), pair(17, 0)]),
        spaced(&vec![pair(0, 0), pair(2, 3), pair(12, 4), pair(22, 2)]),
        compact(&vec![pair(1, 3), ("x".into(), json!({"a": [null, true, false, 1e3, "\u{e9}\u{1f9a2}"]})), pair(18, 4)]),
        "{}".into(),
    ]
}

/// Ok(imported?) unless the file was touched.
fn import(p: &Path, before: &[u8]) -> Result<bool, String> {
    let r = Fold::from_file(p).is_ok();
    if fs::read(p).ok().as_deref() != Some(before) { return Err("importing changed the file".into()); }
    Ok(r)
}

fn c26_cut() -> Dom {
    let n = base_docs().len();
    dom("cut off", "5 documents cut off at every byte", n, move |u, cx: &mut Cx| {
        let sc = Scratch::new("t");
        let full = base_docs()[u].clone().into_bytes();
        let end = full.iter().rposition(|b| *b == b'}').unwrap();
        for k in 0..=full.len() {
            let cut = &full[..k];
            cx.case(|| format!("document {} cut after {} bytes", short(&String::from_utf8_lossy(&full)), k), || {
                let ok = import(&sc.write(cut), cut)?;
                if ok != (k > end) { return Err(if ok { "a cut-off document was imported".into() } else { "the complete document was not imported".to_string() }); }
                Ok(if k > end { "complete" } else { "cut off" })
            });
        }
    })
}

fn c26_cut_large(entries: usize) -> Dom {
    dom(&format!("large document of {} entries per list cut off", entries), "cut at every multiple of 512 bytes, one before and one after, and in the last 64 bytes", 16, move |u, cx: &mut Cx| {
        let sc = Scratch::new("c");
        let d: Doc = vec![
            ("file_title".into(), json!("é折🦢".repeat(entries))),
            ("vertices_coords".into(), Value::Array((0..entries).map(|i| json!([i as f64 * 0.5, 2])).collect())),
            ("edges_assignment".into(), Value::Array((0..entries).map(|i| json!(["M", "V"][i % 2])).collect())),
            ("faceOrders".into(), Value::Array((0..entries).map(|i| json!([i, i + 1, 1])).collect())),
        ];
        let full = compact(&d).into_bytes();
        let mut cuts: Vec<usize> = (1..full.len() / 512 + 1).flat_map(|k| vec![512 * k - 1, 512 * k, 512 * k + 1]).filter(|k| *k < full.len()).collect();
        cuts.extend(full.len() - 64..full.len());
        for k in cuts.into_iter().skip(u).step_by(16) {
            if cx.done() { return; }
            let cut = &full[..k];
            cx.case(|| format!("document of {} bytes cut after {}", full.len(), k), || {
                if import(&sc.write(cut), cut)? { return Err("a cut-off document was imported".into()); }
                Ok("cut off")
            });
        }
        if u == 0 {
            cx.case(|| format!("document of {} bytes, complete", full.len()), || {
                if !import(&sc.write(&full), &full)? { return Err("the complete document was not imported".into()); }
                Ok("complete")
            });
        }
    })
}

/// Two bytes altered at once (thorough).
fn c26_pairs(alts: Vec<u8>) -> Dom {
    let full = compact(&vec![pair(0, 0), pair(3, 0), pair(12, 0), pair(17, 0)]).into_bytes();
    let n = full.len();
    let bound = format!("one document of {} bytes, every pair of bytes replaced by each pair of {} values", n, alts.len());
    dom("two altered bytes", &bound, n, move |i, cx: &mut Cx| {
        let sc = Scratch::new("p");
        for j in i + 1..n {
            if cx.done() { return; }
            for a in &alts {
                for c in &alts {
                    let mut b = full.clone();
                    b[i] = *a;
                    b[j] = *c;
                    cx.case(|| format!("document {}", short(&String::from_utf8_lossy(&b))), || {
                        let ok = import(&sc.write(&b), &b)?;
                        if ok && !maybe_document(&b) { return Err("a file that is not a JSON document was imported".into()); }
                        Ok(if ok { "still a document" } else { "error" })
                    });
                }
            }
        }
    })
}

fn c26_bytes(which: Vec<usize>, alts: Vec<u8>) -> Dom {
    let docs: Vec<Vec<u8>> = which.iter().map(|&i| base_docs()[i].clone().into_bytes()).collect();
    let flat: Vec<(usize, usize)> = docs.iter().enumerate().flat_map(|(d, b)| (0..b.len()).map(move |i| (d, i))).collect();
    let bound = format!("{} documents x every byte replaced by each of {} values, deleted, or doubled", docs.len(), alts.len());
    dom("altered byte", &bound, flat.len(), move |u, cx: &mut Cx| {
        let sc = Scratch::new("b");
        let (d, i) = flat[u];
        let full = &docs[d];
        for k in 0..alts.len() + 2 {
            let mut b = full.clone();
            if k < alts.len() { b[i] = alts[k]; } else if k == alts.len() { b.remove(i); } else { let x = b[i]; b.insert(i, x); }
            if cx.done() { return; }
            cx.case(|| format!("document {} with byte {} {}", short(&String::from_utf8_lossy(full)), i, if k < alts.len() { format!("replaced by 0x{:02x}", alts[k]) } else if k == alts.len() { "deleted".into() } else { "doubled".into() }), || {
                let ok = import(&sc.write(&b), &b)?;
                if ok && !maybe_document(&b) { return Err("a file that is not a JSON document was imported".into()); }
                if !ok && b == *full { return Err("the intact document was not imported".into()); }
                Ok(if b == *full { "-unaltered" } else if ok { "still a document" } else { "error" })
            });
        }
    })
}

fn wrong_values(k: Kind) -> Vec<Value> {
    let any = vec![json!(null), json!(true), json!({}), json!({"a": 1})];
    let mut v = any;
    match k {
        Kind::Int => v.extend(vec![json!("1"), json!([1]), json!([]), json!(2147483648u64), json!(-2147483649i64), json!(1e300)]),
        Kind::Str => v.extend(vec![json!(1), json!(1.5), json!([]), json!(["a"]), json!(false)]),
        Kind::Strs => v.extend(vec![json!("M"), json!(1), json!([1]), json!(["M", null]), json!([["M"]]), json!(["M", "V", 3]), json!([{}])]),
        Kind::Floats => v.extend(vec![json!("1"), json!(1.5), json!(["1"]), json!([1.0, null]), json!([[1.0]]), json!([true]), json!([{}])]),
        Kind::FloatRows => v.extend(vec![json!("1"), json!(1.5), json!([1.0]), json!([[1.0], 2.0]), json!([["a"]]), json!([[1, null]]), json!([[[1]]]), json!([{"x": 1}])]),
        Kind::IntRows => v.extend(vec![json!("1"), json!(1), json!([1]), json!([[0, 1], 2]), json!([["0"]]), json!([[0, 1.5]]), json!([[null]]), json!([[2147483648u64]]), json!([[[0]]])]),
        Kind::Triples => v.extend(vec![json!("1"), json!(1), json!([1]), json!([[0, 1]]), json!([[0, 1, 2, 3]]), json!([[0, 1, -1], []]), json!([[0, 1, "1"]]), json!([[0, 1, 0.5]]), json!([[0, null, 1]])]),
    }
    v
}

fn c26_kinds() -> Dom {
    dom("wrong kind", "every key x every wrong-kind value, alone, before, after and among all other keys", KEYS.len(), move |k, cx: &mut Cx| {
        let sc = Scratch::new("w");
        let rest: Doc = (0..KEYS.len()).filter(|x| *x != k).map(|x| pair(x, 0)).collect();
        for w in wrong_values(KEYS[k].1) {
            let bad = (KEYS[k].0.to_string(), w);
            let mid = { let mut d = rest.clone(); d.insert(KEYS.len() / 2, bad.clone()); d };
            let docs = vec![vec![bad.clone()], { let mut d = vec![bad.clone()]; d.extend(rest.clone()); d }, { let mut d = rest.clone(); d.push(bad.clone()); d }, mid];
            for d in docs {
                let text = compact(&d);
                cx.case(|| format!("document {}", short(&text)), || {
                    if import(&sc.write(text.as_bytes()), text.as_bytes())? { return Err(format!("a document with {}:{} was imported", bad.0, bad.1)); }
                    Ok("error")
                });
            }
        }
    })
}

fn c26_files() -> Dom {
    dom("other files", "missing files, directories, dangling links, paths through files, and over 30 contents that are no documents", 2, move |u, cx: &mut Cx| {
        let sc = Scratch::new("o");
        if u == 0 {
            let reg = sc.0.join("regular");
            fs::write(&reg, b"{}").unwrap();
            let dirp = sc.0.join("dir.fold");
            fs::create_dir_all(&dirp).unwrap();
            let link = sc.0.join("dangling");
            let lp = sc.0.join("loop");
            let _ = std::os::unix::fs::symlink(sc.0.join("nowhere"), &link);
            let _ = std::os::unix::fs::symlink(&lp, &lp);
            let paths: Vec<(&'static str, PathBuf)> = vec![
                ("missing file", sc.0.join("missing.fold")), ("missing directory", sc.0.join("no/such/dir/a.fold")), ("directory", dirp), ("empty path", PathBuf::new()),
                ("path through a file", reg.join("a.fold")), ("dangling link", link), ("link loop", lp), ("name too long", sc.0.join("x".repeat(5000))),
                ("name with a NUL", { use std::os::unix::ffi::OsStringExt; sc.0.join(std::ffi::OsString::from_vec(b"a\0b".to_vec())) }),
                ("name that is not UTF-8", { use std::os::unix::ffi::OsStringExt; sc.0.join(std::ffi::OsString::from_vec(b"a\xff\xfe".to_vec())) }),
            ];
            for (what, p) in &paths {
                cx.case(|| what.to_string(), || if Fold::from_file(p).is_ok() { Err("importing succeeded".into()) } else { Ok("unreadable") });
            }
            cx.case(|| "regular file, for comparison".into(), || if Fold::from_file(&reg).is_ok() { Ok("readable") } else { Err("importing failed".into()) });
            return;
        }
        let mut contents: Vec<Vec<u8>> = vec![b"".to_vec(), b" ".to_vec(), b"\n\n".to_vec(), b"null".to_vec(), b"true".to_vec(), b"1".to_vec(), b"\"{}\"".to_vec(), b"{".to_vec(), b"}".to_vec(), b"{}{}".to_vec(), b"{},".to_vec(), b"{} x".to_vec(),
            b"{'file_title':'x'}".to_vec(), b"{file_title:\"x\"}".to_vec(), b"{\"file_title\":\"x\",}".to_vec(), b"{\"file_title\"}".to_vec(), b"{\"file_title\":}".to_vec(), b"// c\n{}".to_vec(),
            b"{\"file_title\":\"\xff\"}".to_vec(), b"{\"file_title\":\"\xc3\"}".to_vec(), b"{\"file_title\":\"\\ud800\"}".to_vec(), b"{\"file_title\":\"a\nb\"}".to_vec(), b"{\"edges_lengths\":[NaN]}".to_vec(), b"{\"edges_lengths\":[Infinity]}".to_vec(), b"{\"edges_lengths\":[01]}".to_vec(), b"{\"edges_lengths\":[1.]}".to_vec(), b"{\"edges_lengths\":[.5]}".to_vec(), b"{\"edges_lengths\":[1e]}".to_vec(), b"\0\0\0\0".to_vec(), b"PK\x03\x04".to_vec(), b"\xff\xfe{\0}\0".to_vec()];
        let mut deep = b"{\"x\":".to_vec();
        deep.extend(vec![b'['; 100000]);
        contents.push(deep.clone());
        deep.extend(vec![b']'; 100000]);
        deep.push(b'}');
        contents.push(vec![b'['; 200000]);
        contents.push(b"{\"x\":".repeat(50000));
        for b in &contents {
            cx.case(|| format!("file content {}", short(&String::from_utf8_lossy(b))), || {
                if import(&sc.write(b), b)? { return Err("importing succeeded".into()); }
                Ok("not a document")
            });
        }
        cx.case(|| "deeply nested unknown key".into(), || { import(&sc.write(&deep), &deep)?; Ok("deep nesting") });
    })
}

/// A wrong entry at every position of a long list, and in the middle of very long ones.
fn c26_wrong_entry(n: usize, every: bool) -> Dom {
    let lists: Vec<usize> = (0..KEYS.len()).filter(|k| KEYS[*k].1 != Kind::Int && KEYS[*k].1 != Kind::Str).collect();
    let bound = format!("every list-valued key with {} entries, one of which ({}) is of the wrong kind, 4 ways each", n, if every { "any" } else { "at 24 positions" });
    dom("wrong entry in a list", &bound, lists.len(), move |u, cx: &mut Cx| {
        let sc = Scratch::new("q");
        let (key, kind) = KEYS[lists[u]];
        let (good, bads) = match kind {
            Kind::Strs => ("\"M\"", ["7", "null", "[]", "[\"M\"]"]),
            Kind::Floats => ("0.5", ["\"x\"", "null", "[1]", "true"]),
            Kind::FloatRows => ("[0.5,1]", ["0.5", "null", "[\"x\",1]", "[0.5,null]"]),
            Kind::IntRows => ("[3,4]", ["3", "null", "[3,\"4\"]", "[3,4.5]"]),
            _ => ("[3,4,1]", ["3", "[3,4]", "[3,4,1,0]", "[3,4,null]"]),
        };
        let step = if every { 1 } else { n / 24 };
        let mut at = 0;
        while at < n {
            if cx.done() { return; }
            for bad in &bads {
                let text = format!("{{\"file_title\":\"t\",\"{}\":[{}{}{}],\"file_author\":\"a\"}}", key, format!("{},", good).repeat(at), bad, format!(",{}", good).repeat(n - 1 - at));
                cx.case(|| format!("{} of {} entries {}, entry {} is {}", key, n, good, at, bad), || {
                    if import(&sc.write(text.as_bytes()), text.as_bytes())? { return Err("the document was imported".into()); }
                    Ok("error")
                });
            }
            at += step;
        }
    })
}

/// What an interrupted save can leave: a document overwritten in place by another one up to any byte (the old tail
/// kept or cut), written out of order, or with a stretch still zero.
fn c26_torn(block: usize) -> Dom {
    let n = base_docs().len();
    let bound = format!("5 documents each partly overwritten by each of the others up to every byte, with and without the old tail; every stretch of whole blocks of {} bytes of zeros, of blanks, or of the other document", block);
    dom("interrupted writes", &bound, n * n, move |u, cx: &mut Cx| {
        let sc = Scratch::new("i");
        let (old, new) = (base_docs()[u / n].clone().into_bytes(), base_docs()[u % n].clone().into_bytes());
        let judge = |cx: &mut Cx, what: &dyn Fn() -> String, b: &[u8], class: Class| {
            cx.case(|| format!("{}: {}", what(), short(&String::from_utf8_lossy(b))), || {
                let ok = import(&sc.write(b), b)?;
                let want = std::str::from_utf8(b).ok().and_then(|s| serde_json::from_str::<Value>(s).ok()).map_or(false, |v| v.is_object());
                if ok && !want && !maybe_document(b) { return Err("a file that is not a JSON document was imported".into()); }
                if !ok && (b == &old[..] || b == &new[..]) { return Err("an intact document was not imported".into()); }
                Ok(if ok { "still a document" } else { class })
            });
        };
        for k in 0..=new.len().max(old.len()) {
            if cx.done() { return; }
            let mut b = new[..k.min(new.len())].to_vec();
            if k < old.len() { b.extend(&old[k..]); }
            judge(cx, &|| format!("new document written up to byte {} over the old one", k), &b, "error: old tail");
            let mut z = new[..k.min(new.len())].to_vec();
            z.resize(new.len().max(k), 0);
            judge(cx, &|| format!("new document written up to byte {}, the rest zero", k), &z, "error: zeros");
        }
        let blocks = (new.len() + block - 1) / block;
        for i in 0..blocks {
            for j in i + 1..=blocks {
                if cx.done() { return; }
                for fill in 0..3 {
                    let mut b = new.clone();
                    for x in i * block..(j * block).min(new.len()) {
                        b[x] = match fill { 0 => 0, 1 => b' ', _ => *old.get(x).unwrap_or(&0) };
                    }
                    judge(cx, &|| format!("bytes {} to {} {}", i * block, j * block, ["zero", "blank", "of the old document"][fill]), &b, "error: missing stretch");
                }
            }
        }
    })
}

pub fn c26(tier: Tier) -> Plan {
    let few: Vec<u8> = vec![0, 9, 10, 0x1f, b' ', b'"', b'\\', b'{', b'}', b'[', b']', b',', b':', b'0', b'-', b'.', b'e', b'n', b'N', b'a', 0x7f, 0x80, 0xc3, 0xff];
    let mut doms = vec![c26_files(), c26_kinds(), c26_cut(), c26_cut_large(2000), c26_bytes(vec![0], few), c26_bytes(vec![1, 2, 3, 4], (0..=255u8).collect()), c26_wrong_entry(40, true), c26_wrong_entry(3000, false), c26_torn(16)];
    if tier == Tier::Thorough {
        doms.push(c26_bytes(vec![0], (0..=255u8).collect()));
        doms.push(c26_cut_large(20000));
        doms.push(c26_wrong_entry(300, true));
        doms.push(c26_wrong_entry(100000, false));
        doms.push(c26_torn(2));
        doms.push(c26_pairs(vec![0, b' ', b'"', b'{', b'}', b'[', b']', b',', b':', b'1', b'-', b'e', b'n', 0xff]));
    }
    Plan {
        level: "fault_enumeration",
        rule: "every stated damage (cut, altered byte, wrong kind, unreadable path) of every base document is written to a scratch file and imported; all cases are non-trivial except bytes replaced by themselves",
        assumptions: vec!["files live in a private scratch directory; the importer gets no other path"],
        doms,
    }
}
