//! C15: what is read from input files, on a disk that fails and from files that were damaged.

use super::c01::short;
use super::common::*;
use crate::cal::{self, Dt};
use crate::case::{Prop, Rep, world, write_files};
use crate::genm::{Cfg, Gen, Time, lit};
use crate::rng::Rng;
use crate::seams::{self, Class, FaultKind};
use crate::sut::{self, Engine, Plan};
use crate::world::{Scratch, run_in};
use serde_json::{Value, json};
use std::sync::Arc;

pub static C15: Prop = Prop {
    id: "C15",
    make,
    run,
    cases: (12000, 200000),
    rule: "Each case is a model whose parameters, node limits and recorded metrics refer to 1-3 time series files (the model's spacing, finer or coarser, multiples or not, aligned or not, earlier, later, sorted or not, by column, single column or scenario group, as numbers or indices) and 0-3 tables (row, column and row-and-column keys of 1-4 levels, scalars and arrays), with checksums. The files are damaged (cut at any byte, bytes changed, lines lost, repeated or swapped, cells blank, columns lost, files missing) before or after their checksums were taken, and the disk fails while they are read (open errors, read errors, short and interrupted reads). A reference reads the files as they are. Every value used must be the one of the file for that date or key; undamaged files on a disk without errors must load; otherwise loading may report an error; nothing may panic. Non-trivial: a file is resampled, damaged or read under a fault, or has a checksum.",
    real: "real: schema loading, digests, polars and csv readers, alignment and resampling, table look-ups, array parameters, profiles, network, HiGHS and MicroLP. Reference: a direct reading of the files, and own MD5 and SHA-256. Simulated: disk (open, read), damage to stored files, thread scheduling, clocks, hash seeds.",
    assume: &["polars maps CSV files into memory, so that read errors cannot be injected below it; open errors can"],
};

// ------------------------------------------------------------------------------------- hashes

fn md5(d: &[u8]) -> String {
    let s: [u32; 16] = [7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21];
    let k: Vec<u32> = (0..64).map(|i| ((i as f64 + 1.0).sin().abs() * 4294967296.0) as u32).collect();
    let mut h: [u32; 4] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476];
    let mut m = d.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((d.len() as u64) * 8).to_le_bytes());
    for c in m.chunks(64) {
        let w: Vec<u32> = c.chunks(4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).collect();
        let [mut a, mut b, mut cc, mut dd] = h;
        for i in 0..64 {
            let (f, g) = match i / 16 {
                0 => ((b & cc) | (!b & dd), i),
                1 => ((dd & b) | (!dd & cc), (5 * i + 1) % 16),
                2 => (b ^ cc ^ dd, (3 * i + 5) % 16),
                _ => (cc ^ (b | !dd), (7 * i) % 16),
            };
            let t = dd;
            dd = cc;
            cc = b;
            b = b.wrapping_add(a.wrapping_add(f).wrapping_add(k[i]).wrapping_add(w[g]).rotate_left(s[i / 16 * 4 + i % 4]));
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, cc, dd]) {
            *x = x.wrapping_add(y);
        }
    }
    h.iter().flat_map(|x| x.to_le_bytes()).map(|b| format!("{b:02x}")).collect()
}

fn sha256(d: &[u8]) -> String {
    let primes: Vec<u64> = (2u64..400).filter(|n| (2..*n).take_while(|k| k * k <= *n).all(|k| n % k != 0)).take(64).collect();
    // Fractional bits of square and cube roots, in integers.
    let root = |p: u64, n: u32| -> u32 {
        let (mut lo, mut hi) = (0u128, 1u128 << 40);
        while hi - lo > 1 {
            let x = (lo + hi) / 2;
            let big = if n == 2 { x * x >= (p as u128) << 64 && x * x != (p as u128) << 64 } else { x * x * x > (p as u128) << 96 };
            if big { hi = x } else { lo = x }
        }
        lo as u32
    };
    let k: Vec<u32> = primes.iter().map(|p| root(*p, 3)).collect();
    let mut h: Vec<u32> = primes[..8].iter().map(|p| root(*p, 2)).collect();
    let mut m = d.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((d.len() as u64) * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w: Vec<u32> = c.chunks(4).map(|b| u32::from_be_bytes(b.try_into().unwrap())).collect();
        for i in 16..64 {
            let (x, y) = (w[i - 15], w[i - 2]);
            let s0 = x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3);
            let s1 = y.rotate_right(17) ^ y.rotate_right(19) ^ (y >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let t2 = s0.wrapping_add((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
            v.rotate_right(1);
            v[4] = v[4].wrapping_add(t1);
            v[0] = t1.wrapping_add(t2);
        }
        for (x, y) in h.iter_mut().zip(v) {
            *x = x.wrapping_add(y);
        }
    }
    h.iter().map(|x| format!("{x:08x}")).collect()
}

fn digest(ty: &str, d: &[u8]) -> String {
    if ty == "MD5" { md5(d) } else { sha256(d) }
}

// ----------------------------------------------------------------------------------- reference

/// The lines and cells of a file.
fn cells(text: &str) -> Vec<Vec<String>> {
    text.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).filter(|l| !l.is_empty()).map(|l| l.split(',').map(|c| c.to_string()).collect()).collect()
}

/// Strictly `YYYY-MM-DD`, with `THH:MM:SS`, with or without a fraction of zeros.
fn date(s: &str) -> Option<i64> {
    let b = s.as_bytes();
    let ok = |p: &str| p.len() == b.len() && p.bytes().zip(b).all(|(x, y)| if x == b'0' { y.is_ascii_digit() } else if x == b'T' { *y == b'T' || *y == b' ' } else { x == *y });
    if !ok("0000-00-00") && !ok("0000-00-00T00:00:00") {
        return None;
    }
    let d = Dt::parse(&s.replace(' ', "T"))?;
    let sec: i64 = if b.len() > 10 { s[17..].parse().ok()? } else { 0 };
    let good = (1..=12).contains(&d.m) && d.d >= 1 && d.d <= cal::month_days(d.y, d.m) && d.h < 24 && d.mi < 60 && sec == 0;
    good.then(|| d.minutes())
}

/// Something no reader takes for a date. (Times of one digit and something else are read as such.)
fn no_date(s: &str) -> bool {
    s.is_empty() || s.get(..10).unwrap_or(s).contains('x')
}

fn num(s: &str) -> Option<f64> {
    s.parse().ok()
}

/// What a use may see: values, and whether an error is excluded.
#[derive(Clone)]
struct May {
    vals: Vec<f64>,
    must: bool,
    /// Nothing can be said.
    any: bool,
}

struct Series {
    rows: Vec<(i64, Vec<String>)>,
    cols: Vec<String>,
    /// Every line is a row of the table with a date and nothing in it is doubtful.
    whole: bool,
    odd: bool,
    /// Uniform spacing of the rows.
    gap: Option<i64>,
    unique: bool,
}

fn series(def: &Value, text: Option<&str>) -> Option<Series> {
    let c = cells(text?);
    let head = c.first()?;
    let tc = match def["time_col"].as_str() {
        Some(n) => head.iter().position(|h| h == n)?,
        None => 0,
    };
    let mut rows = vec![];
    let mut odd = false;
    let mut whole = head.iter().all(|h| !h.is_empty());
    for r in &c[1..] {
        whole &= r.len() == head.len();
        odd |= r.len() > head.len();
        let d = r.get(tc).map(|s| s.as_str()).unwrap_or("");
        match date(d) {
            // A date that is written differently from the first may be taken for one or not.
            Some(_) if Some(d.len()) != c[1].get(tc).map(|d| d.len()) => {
                whole = false;
                odd |= r.iter().enumerate().any(|(i, c)| i != tc && !c.is_empty());
            }
            Some(t) => {
                let mut v = r.clone();
                v.resize(head.len(), String::new());
                v.remove(tc);
                rows.push((t, v));
            }
            None => {
                whole = false;
                odd |= !no_date(d);
            }
        }
    }
    rows.sort_by_key(|r| r.0);
    let gaps: Vec<i64> = rows.windows(2).map(|w| w[1].0 - w[0].0).collect();
    let gap = gaps.first().copied().filter(|g| *g > 0 && gaps.iter().all(|x| x == g));
    let unique = gaps.iter().all(|g| *g > 0);
    let mut cols = head.clone();
    cols.remove(tc);
    let mut seen = cols.clone();
    seen.sort();
    seen.dedup();
    whole &= seen.len() == cols.len();
    // Dates are all written in one way, and no line is empty.
    whole &= c[1..].iter().all(|r| r.get(tc).map(|d| d.len()) == c[1].get(tc).map(|d| d.len()));
    whole &= text.is_some_and(|t| t.lines().all(|l| !l.is_empty()));
    // Types are found for a whole column.
    whole &= rows.iter().all(|r| r.1.iter().all(|c| num(c).is_some()));
    Some(Series { rows, cols, whole, odd, gap, unique })
}

/// The value of column `k` for the step [a, b), the model's first step starting at `start`.
fn value(s: &Series, k: usize, a: i64, b: i64, from: (i64, i64), even: Option<i64>) -> May {
    let mut v = value_of(s, k, a, b, from, even);
    // The spacing may as well be that of the rows from the start on.
    if s.gap.is_none() && !s.odd {
        let rows: Vec<_> = s.rows.iter().filter(|r| r.0 >= from.0).cloned().collect();
        let gaps: Vec<i64> = rows.windows(2).map(|w| w[1].0 - w[0].0).collect();
        if let Some(g) = gaps.first().copied().filter(|g| *g > 0 && gaps.iter().all(|x| x == g)) {
            let rest = Series { rows, cols: s.cols.clone(), whole: s.whole, odd: false, gap: Some(g), unique: true };
            v.vals.extend(value_of(&rest, k, a, b, from, even).vals);
        }
    }
    v
}

fn value_of(s: &Series, k: usize, a: i64, b: i64, (start, last): (i64, i64), even: Option<i64>) -> May {
    let none = May { vals: vec![], must: false, any: false };
    if s.odd {
        return May { any: true, ..none };
    }
    let at = |r: &(i64, Vec<String>)| num(&r.1[k]);
    // The spacing, by most of the rows where it is not uniform.
    let gap = match s.gap {
        Some(g) => g,
        None => {
            let mut g: Vec<i64> = s.rows.windows(2).map(|w| w[1].0 - w[0].0).filter(|g| *g > 0).collect();
            if g.is_empty() {
                // A single row: good for its own date only.
                return May { vals: s.rows.iter().filter(|r| r.0 >= a && r.0 < b).filter_map(at).collect(), ..none };
            }
            g.sort();
            g[g.len() / 2]
        }
    };
    let inside: Vec<&(i64, Vec<String>)> = s.rows.iter().filter(|r| r.0 >= a && r.0 < b).collect();
    // The spacing is found from what is left from the start on.
    let covered = s.whole && s.gap.is_some() && even.is_some() && s.rows.iter().filter(|r| r.0 >= start).count() > 1;
    let phase = |x: i64| s.rows.first().map(|r| (x - r.0).rem_euclid(gap) == 0).unwrap_or(false);
    if gap < b - a {
        // Finer: the mean of the step.
        let v: Vec<Option<f64>> = inside.iter().map(|r| at(r)).collect();
        if v.iter().all(|x| x.is_none()) {
            return none;
        }
        let known: Vec<f64> = v.iter().flatten().copied().collect();
        let mean = known.iter().sum::<f64>() / known.len() as f64;
        // Rows that should be there.
        let want = {
            let first = s.rows.first().map(|r| a + (r.0 - a).rem_euclid(gap)).unwrap_or(a);
            (b - 1 - first) / gap + 1
        };
        let full = inside.len() as i64 == want && s.unique;
        let tail = b >= last && s.rows.last().map(|r| r.0 < b).unwrap_or(true);
        if !full && !tail && s.unique {
            return none;
        }
        if !s.unique {
            // Repeated dates have no mean that is theirs.
            return May { vals: vec![mean], ..none };
        }
        let must = covered && full && v.iter().all(|x| x.is_some()) && phase(a) && (b - a) % gap == 0;
        return May { vals: vec![mean], must, any: false };
    }
    if gap == b - a && even.is_some() {
        let v: Vec<Option<f64>> = inside.iter().filter(|r| r.0 == a).map(|r| at(r)).collect();
        if v.iter().any(|x| x.is_none()) {
            return none;
        }
        let must = covered && v.len() == 1;
        return May { vals: v.into_iter().flatten().collect(), must, any: false };
    }
    // Coarser: the latest row, as long as it lasts. Steps that are as long as the series' spacing among others that
    // are not may as well take the row within them.
    let within: Vec<f64> = if gap == b - a && s.unique { inside.iter().filter_map(|r| at(r)).collect() } else { vec![] };
    let only = May { vals: within.clone(), ..none.clone() };
    let Some(r) = s.rows.iter().filter(|r| r.0 <= a).next_back() else { return only };
    if a >= r.0 + gap {
        return only;
    }
    let v: Vec<Option<f64>> = s.rows.iter().filter(|x| x.0 == r.0).map(|r| at(r)).collect();
    if v.iter().any(|x| x.is_none()) {
        return only;
    }
    let step = even.unwrap_or(1);
    let must = covered && phase(start) && gap % step == 0 && s.rows.last().unwrap().0 >= last - step;
    let mut vals: Vec<f64> = v.into_iter().flatten().collect();
    vals.extend(within);
    May { vals, must, any: false }
}

/// Looks a key up in a table: all values found (of arrays: all elements), and whether the file is sound.
fn look(def: &Value, text: Option<&str>, key: &[String]) -> (Vec<Vec<Option<f64>>>, bool) {
    let Some(text) = text else { return (vec![], false) };
    let c = cells(text);
    let l = &def["lookup"];
    let (r, k) = match l["type"].as_str() {
        Some("Row") => (1, l["cols"].as_u64().unwrap_or(1) as usize),
        Some("Col") => (l["rows"].as_u64().unwrap_or(1) as usize, 0),
        _ => (l["rows"].as_u64().unwrap_or(1) as usize, l["cols"].as_u64().unwrap_or(1) as usize),
    };
    let width = c.first().map(|x| x.len()).unwrap_or(0);
    let mut sound = c.len() > r && width > k && c.iter().all(|x| x.len() == width);
    let scalar = def["type"] == "Scalar";
    let body: Vec<&Vec<String>> = c.iter().skip(r).collect();
    let mut out = vec![];
    match l["type"].as_str() {
        Some("Row") => {
            sound &= !scalar || width == k + 1;
            for x in body {
                if x.len() >= k && x[..k] == *key {
                    out.push(x[k..].iter().map(|v| num(v)).collect());
                }
            }
        }
        Some("Col") => {
            sound &= !scalar || body.len() == 1;
            for j in 0..width {
                if c.iter().take(r).all(|x| j < x.len()) && c.iter().take(r).map(|x| &x[j]).eq(key.iter()) {
                    out.push(body.iter().map(|x| x.get(j).and_then(|v| num(v))).collect());
                }
            }
        }
        _ => {
            if key.len() == k + r {
                for x in &body {
                    for j in k..width {
                        if x.len() > j && x[..k] == key[..k] && c.iter().take(r).all(|h| j < h.len()) && c.iter().take(r).map(|h| &h[j]).eq(key[k..].iter()) {
                            out.push(vec![num(&x[j])]);
                        }
                    }
                }
            }
        }
    }
    // Array tables are parsed as a whole.
    if !scalar {
        sound &= c.iter().skip(r).all(|x| x.iter().skip(k).all(|v| num(v).is_some()));
    }
    (out, sound)
}

fn key_of(m: &Value) -> Vec<String> {
    let mut k = vec![];
    for f in ["row", "column"] {
        match &m[f] {
            Value::String(s) => k.push(s.clone()),
            Value::Array(a) => k.extend(a.iter().filter_map(|x| x.as_str()).map(|x| x.to_string())),
            _ => {}
        }
    }
    k
}

// ----------------------------------------------------------------------------------- generator

/// Numbers of the array that shows an index.
const TOP: i64 = 12;

fn stamp(t: i64, style: u64) -> String {
    let d = Dt::from_days(t.div_euclid(1440)).add_minutes(t.rem_euclid(1440));
    match style {
        0 => d.date_string(),
        1 => d.iso().replace('T', " "),
        _ => d.iso(),
    }
}

fn gen_file(r: &mut Rng, steps: &[(Dt, i64)], cols: &[String], ints: bool) -> (String, Option<String>, bool) {
    let start = steps[0].0.minutes();
    let dur = steps[0].1;
    let end = steps.last().map(|s| s.0.minutes() + s.1).unwrap();
    let plain = r.chance(0.8);
    let div: Vec<i64> = [2, 3, 4, 7, 12, 24, 10].into_iter().filter(|k| dur % k == 0 && (end - start) / (dur / k) < 1500).collect();
    let even = steps.iter().all(|s| s.1 == dur);
    let gap = match if r.chance(0.3) { 0 } else if plain { r.weighted(&[4, 4, if even { 4 } else { 1 }]) } else { r.weighted(&[4, 4, 4, 2, 2]) } {
        1 if !div.is_empty() => dur / *r.pick(&div),
        2 => dur * *r.pick(&[2, 3, 5, 7]),
        3 => (dur * *r.pick(&[3, 5, 7]) / 2).max(1),
        4 => (dur * *r.pick(&[2, 3]) / 5).max(1),
        _ => dur,
    };
    let mut from = start;
    if r.chance(0.4) {
        from -= gap * r.range(1, 5);
    }
    let mut to = end;
    if r.chance(0.5) {
        to += gap * r.range(1, 6);
    }
    if gap > dur {
        to += gap;
    }
    if !plain {
        match r.below(6) {
            0 => from = start + gap * r.range(1, 2),
            1 => to = end - gap * r.range(1, 3),
            2 => from += *r.pick(&[60, 360, 720, 1440, -60, -1440]),
            _ => {}
        }
    }
    let mut rows: Vec<(i64, Vec<String>)> = vec![];
    let mut t = from;
    let whole = r.chance(0.3);
    while t < to && rows.len() < 3000 {
        let v = cols
            .iter()
            .map(|_| if ints { format!("{}", r.range(0, TOP - 1)) } else if whole { format!("{}", r.range(0, 50)) } else { format!("{:?}", r.q(0.0, 40.0)) })
            .collect();
        rows.push((t, v));
        t += gap;
    }
    if ints && r.chance(0.05) && !rows.is_empty() {
        let k = r.us(rows.len());
        let c = r.us(cols.len());
        rows[k].1[c] = r.pick(&["1.5", "-1", "2.0"]).to_string();
    }
    if !plain && rows.len() > 2 {
        match r.below(9) {
            0 => {
                let k = r.us(rows.len());
                rows.remove(k);
            }
            1 => {
                let k = r.us(rows.len());
                let x = rows[k].clone();
                rows.insert(k, x);
            }
            2 => {
                let (k, c) = (r.us(rows.len()), r.us(cols.len()));
                rows[k].1[c] = String::new();
            }
            3 => {
                let (k, c) = (r.us(rows.len()), r.us(cols.len()));
                rows[k].1[c] = r.pick(&["x", "12x", "-", "n/a", "1.2.3"]).to_string();
            }
            4 => {
                // From here on with another spacing.
                let k = r.us(rows.len());
                let s = r.range(1, 5) * 1440;
                for x in &mut rows[k..] {
                    x.0 += s;
                }
            }
            _ => {}
        }
    }
    // All dates are written the same way: mixed ways are not all understood.
    let style = if rows.iter().all(|x| x.0.rem_euclid(1440) == 0) { r.below(3) } else { 1 + r.below(2) };
    if r.chance(0.2) {
        r.shuffle(&mut rows);
    }
    // The time column need not be the first one if it is named.
    let at = if r.chance(0.2) { r.us(cols.len() + 1) } else { 0 };
    let named = at > 0 || r.chance(0.3);
    let put = |d: String, v: &[String]| {
        let mut v = v.to_vec();
        v.insert(at, d);
        v.join(",")
    };
    let mut text = put("when".into(), cols) + "\n";
    for (t, v) in &rows {
        text += &put(stamp(*t, style), v);
        text += "\n";
    }
    if r.chance(0.1) {
        text.pop();
    }
    if r.chance(0.1) {
        text = text.replace('\n', "\r\n");
    }
    (text, named.then(|| "when".to_string()), plain)
}

fn gen_table(r: &mut Rng, size: usize, ints: bool) -> (Value, String, Vec<Vec<String>>) {
    let scalar = size == 0;
    let vals = |r: &mut Rng| if ints || r.chance(0.1) { format!("{}", r.range(0, TOP - 1)) } else { format!("{:?}", r.q(0.0, 30.0)) };
    // Distinct keys of n levels.
    let keys = |r: &mut Rng, n: usize, p: &str, count: usize| -> Vec<Vec<String>> {
        let mut out: Vec<Vec<String>> = vec![];
        for _ in 0..40 {
            let k: Vec<String> = (0..n).map(|l| format!("{p}{}{}", (b'a' + l as u8) as char, r.below(3))).collect();
            if !out.contains(&k) && out.len() < count {
                out.push(k);
            }
        }
        out
    };
    let n = r.range(1, 4) as usize;
    let kind = r.weighted(&[4, 3, if scalar { 4 } else { 0 }]);
    let mut text;
    let mut all = vec![];
    let lookup;
    match kind {
        0 => {
            lookup = json!({"type": "Row", "cols": n});
            text = (0..n).map(|k| format!("k{k}")).collect::<Vec<_>>().join(",");
            for j in 0..size.max(1) {
                text += &format!(",v{j}");
            }
            text += "\n";
            let count = r.range(1, 5) as usize;
            for k in keys(r, n, "", count) {
                text += &k.join(",");
                for _ in 0..size.max(1) {
                    text += &format!(",{}", vals(r));
                }
                text += "\n";
                all.push(k);
            }
        }
        1 => {
            lookup = json!({"type": "Col", "rows": n});
            let count = r.range(1, 5) as usize;
            let ks = keys(r, n, "", count);
            text = String::new();
            for l in 0..n {
                // The first line names the columns, which have to differ for no one but us.
                text += &ks.iter().map(|k| k[l].clone()).collect::<Vec<_>>().join(",");
                text += "\n";
            }
            for _ in 0..size.max(1) {
                text += &ks.iter().map(|_| vals(r)).collect::<Vec<_>>().join(",");
                text += "\n";
            }
            all = ks;
        }
        _ => {
            let (h, c) = (r.range(1, 2) as usize, r.range(1, 2) as usize);
            lookup = json!({"type": "Both", "rows": h, "cols": c});
            let count = r.range(1, 4) as usize;
            let (hk, ck) = (keys(r, h, "h", count), keys(r, c, "c", count));
            text = String::new();
            for l in 0..h {
                text += &(0..c).map(|k| format!("k{k}")).chain(hk.iter().map(|k| k[l].clone())).collect::<Vec<_>>().join(",");
                text += "\n";
            }
            for k in &ck {
                text += &k.join(",");
                for x in &hk {
                    text += &format!(",{}", vals(r));
                    all.push(k.iter().chain(x).cloned().collect());
                }
                text += "\n";
            }
        }
    }
    if r.chance(0.04) {
        // A blank, a repeated line or one too many.
        let mut l: Vec<String> = text.lines().map(|x| x.to_string()).collect();
        let k = r.us(l.len());
        match r.below(3) {
            0 => {
                if let Some(c) = l[k].rfind(',') {
                    l[k].truncate(c + 1);
                }
            }
            1 => {
                let x = l[k].clone();
                l.push(x);
            }
            _ => l[k] += ",7.5",
        }
        text = l.join("\n") + "\n";
    }
    (lookup, text, all)
}

/// Damages a stored file.
fn damage(r: &mut Rng, t: &str) -> String {
    if t.is_empty() {
        return "x".into();
    }
    let mut l: Vec<String> = t.split('\n').map(|x| x.to_string()).collect();
    match r.below(9) {
        0 => t[..r.us(t.len())].to_string(),
        1 => {
            // The end of a file is lost.
            let k = t.len() - 1 - r.us(t.len().min(60));
            t[..k].to_string()
        }
        2 => {
            let k = r.us(l.len());
            l.remove(k);
            l.join("\n")
        }
        3 => {
            let k = r.us(l.len());
            let x = l[k].clone();
            l.insert(r.us(l.len() + 1), x);
            l.join("\n")
        }
        4 => {
            let (a, b) = (r.us(l.len()), r.us(l.len()));
            l.swap(a, b);
            l.join("\n")
        }
        5 => {
            let k = r.us(l.len());
            let n = l[k].matches(',').count();
            if n > 0 {
                let mut c: Vec<&str> = l[k].split(',').collect();
                let j = r.us(c.len());
                if r.chance(0.5) {
                    c.remove(j);
                } else {
                    c[j] = "";
                }
                l[k] = c.join(",");
            }
            l.join("\n")
        }
        6 => String::new(),
        _ => {
            // A byte is another one.
            let mut b = t.as_bytes().to_vec();
            for _ in 0..r.range(1, 3) {
                let k = r.us(b.len());
                b[k] = *r.pick(b"0123456789.,-x\n");
            }
            String::from_utf8(b).unwrap()
        }
    }
}

fn make(r: &mut Rng, _i: u64) -> Value {
    let cfg = Cfg {
        scenarios: *r.pick(&[1, 1, 2, 3, 4, 6]),
        groups: 2,
        subset: 0.4,
        steps: (1, *r.pick(&[6, 12, 30])),
        time: if r.chance(0.5) { Time::Days } else if r.chance(0.75) { Time::Fixed } else { Time::Any },
        ..Cfg::default()
    };
    let mut g = Gen::new(Rng::new(r.u64()), cfg);
    g.gen_time();
    g.gen_scenarios();
    let steps = cal::steps(&g.time);
    let mut files = json!({});
    let mut defs = vec![];
    let mut tabs = vec![];
    let mut uses: Vec<Value> = vec![];
    let mut plain = true;
    let names = ["cols", "north", "flow", "g1", "level"];
    let ns = if steps.is_empty() { 0 } else { r.range(0, 3) as usize };
    for k in 0..ns {
        let name = format!("ts{k}");
        let by = if !g.groups.is_empty() && r.chance(0.4) { Some(g.groups[r.us(g.groups.len())].clone()) } else { None };
        let mut n = match &by {
            Some(b) => b.1,
            None => r.range(1, 3) as usize,
        };
        if by.is_some() && r.chance(0.05) {
            n = (n + 2 * r.us(2)).saturating_sub(1).max(1);
        }
        // A column can bear the name of the scenario group.
        let cols: Vec<String> = (0..n).map(|j| if r.chance(0.15) { by.as_ref().map(|b| b.0.clone()).filter(|_| j == 0).unwrap_or(format!("c{j}")) } else { format!("{}{j}", names[r.us(2)]) }).collect();
        let ints = r.chance(0.35);
        let (text, tc, p) = gen_file(r, &steps, &cols, ints);
        plain &= p;
        let file = format!("{}{name}.csv", if r.chance(0.2) { "sub/" } else { "" });
        let mut def = json!({"meta": {"name": name}, "type": "Polars", "url": file});
        if let Some(t) = tc {
            def["time_col"] = json!(t);
        }
        if r.chance(0.15) {
            def["infer_schema_length"] = json!(*r.pick(&[1, 2, 5, 1000]));
        }
        for _ in 0..r.range(1, 3) {
            let mut m = json!({"type": "Timeseries", "name": name});
            match &by {
                Some(b) if r.chance(0.75) => m["columns"] = json!({"type": "Scenario", "name": b.0}),
                _ if cols.len() == 1 && r.chance(0.5) => {}
                _ => m["columns"] = json!({"type": "Column", "name": if r.chance(0.03) { "nowhere".to_string() } else { r.pick(&cols).clone() }}),
            }
            let way = if ints { *r.pick(&["index", "index", "param", "direct"]) } else { *r.pick(&["param", "param", "direct", "flow", "local"]) };
            uses.push(json!({"way": way, "m": m}));
        }
        files[&file] = json!(text);
        defs.push(def);
    }
    let nt = r.range(if ns == 0 { 1 } else { 0 }, 3) as usize;
    for k in 0..nt {
        let name = format!("tb{k}");
        let kind = *r.pick(&["", "", "", "", "MonthlyProfile", "DailyProfile", "DailyProfile", "ConstantScenario", "DiurnalProfile"]);
        let group = if g.groups.is_empty() { None } else { Some(g.groups[r.us(g.groups.len())].clone()) };
        let size = match kind {
            "MonthlyProfile" => 12,
            "DiurnalProfile" => 24,
            "DailyProfile" => *r.pick(&[366, 365]),
            "ConstantScenario" => group.as_ref().map(|g| g.1).unwrap_or(0),
            _ => 0,
        };
        let ints = r.chance(0.4);
        let (lookup, text, keys) = gen_table(r, size, ints);
        let file = format!("{name}.csv");
        tabs.push(json!({"meta": {"name": name}, "type": if size == 0 { "Scalar" } else { "Array" }, "format": "CSV", "lookup": lookup, "url": file}));
        for _ in 0..r.range(1, 3) {
            let key = if keys.is_empty() { vec!["none".to_string()] } else { r.pick(&keys).clone() };
            let mut m = json!({"type": "Table", "table": name});
            let cut = match lookup["type"].as_str().unwrap() {
                "Row" => key.len(),
                "Col" => 0,
                _ => lookup["cols"].as_u64().unwrap() as usize,
            };
            let part = |k: &[String]| if k.len() == 1 { json!(k[0]) } else { json!(k) };
            let mut key = key;
            match r.below(90) {
                0 => key[0] = "nokey".into(),
                1 => {
                    key.pop();
                }
                _ => {}
            }
            let cut = cut.min(key.len());
            if cut > 0 {
                m["row"] = part(&key[..cut]);
            }
            if cut < key.len() {
                m["column"] = part(&key[cut..]);
            }
            let way = if size > 0 { kind } else { if ints { *r.pick(&["const", "param", "index", "index"]) } else { ["const", "param", "flow", "index"][r.weighted(&[8, 8, 8, 1])] } };
            let mut u = json!({"way": way, "m": m});
            if let (Some(gr), "ConstantScenario") = (&group, way) {
                u["group"] = json!(gr.0);
            }
            uses.push(u);
        }
        files[&file] = json!(text);
    }
    // Checksums, and damage before or after they were taken.
    let all: Vec<String> = files.as_object().unwrap().keys().cloned().collect();
    let hurt = if r.chance(0.25) { Some(r.pick(&all).clone()) } else { None };
    let late = r.chance(0.5);
    for d in defs.iter_mut().chain(tabs.iter_mut()) {
        let f = d["url"].as_str().unwrap().to_string();
        let before = files[&f].as_str().unwrap().to_string();
        let hit = hurt.as_ref() == Some(&f);
        let after = if hit { damage(r, &before) } else { before.clone() };
        if r.chance(0.45) {
            let ty = *r.pick(&["MD5", "SHA256"]);
            let mut h = digest(ty, if hit && late { before.as_bytes() } else { after.as_bytes() });
            if r.chance(0.04) {
                h = digest(ty, b"another file");
            }
            d["checksum"] = json!({"type": ty, "hash": h});
        }
        files[&f] = json!(after);
        if r.chance(0.01) {
            files.as_object_mut().unwrap().remove(&f);
        }
    }
    r.shuffle(&mut uses);
    let mut disk = vec![];
    if r.chance(0.3) {
        for _ in 0..r.range(1, 3) {
            let o = r.chance(0.4);
            let kind = if o { *r.pick(&["EIO", "EACCES", "EMFILE", "ENOENT", "EIO+"]) } else { *r.pick(&["EIO", "EIO+", "short", "short", "eintr", "eintr"]) };
            disk.push(json!([if o { "open" } else { "read" }, r.below(8), kind, r.range(1, 400)]));
        }
    }
    let mut model = json!({"metadata": {"title": "inputs"}, "time": g.time, "network": {"nodes": [], "edges": [], "timeseries": defs, "tables": tabs}});
    if let Some(s) = g.scenarios_json() {
        model["scenarios"] = s;
    }
    let _ = plain;
    json!({"models": [model], "files": files, "uses": uses, "disk": disk, "engine": if r.chance(0.8) { "highs" } else { "microlp" },
        "after": r.chance(0.3), "absolute": r.chance(0.1), "order": r.below(1 << 30), "worlds": worlds(r, &["main"])})
}

/// The model with everything that uses the data.
fn complete(case: &Value, data: &str) -> Value {
    let mut m = case["models"][0].clone();
    let mut r = Rng::new(case["order"].as_u64().unwrap_or(0));
    let (mut nodes, mut edges, mut params, mut obs) = (vec![], vec![], vec![], vec![]);
    let pair = |nodes: &mut Vec<Value>, edges: &mut Vec<Value>, i: String, extra: Value| {
        let mut n = json!({"meta": {"name": i}, "type": "Input"});
        for (k, v) in extra.as_object().into_iter().flatten() {
            n[k] = v.clone();
        }
        nodes.push(n);
        nodes.push(json!({"meta": {"name": format!("out-{i}")}, "type": "Output", "cost": lit(-1.0), "max_flow": lit(1000000.0)}));
        edges.push(json!({"from_node": i, "to_node": format!("out-{i}")}));
    };
    pair(&mut nodes, &mut edges, "base".into(), json!({"max_flow": lit(1.0)}));
    for (k, u) in case["uses"].as_array().into_iter().flatten().enumerate() {
        let p = format!("u{k}");
        let me = &u["m"];
        let mut see = json!({"type": "Parameter", "name": p});
        let sum = |ty: &str, name: &str| json!({"meta": {"name": name}, "type": ty, "phase": "Before", "agg_func": {"type": "Sum"}, "metrics": [me]});
        match u["way"].as_str().unwrap_or("") {
            "param" => params.push(sum("Aggregated", &p)),
            "direct" => see = me.clone(),
            "const" => params.push(json!({"meta": {"name": p}, "type": "Constant", "value": me})),
            "index" => params.push(json!({"meta": {"name": p}, "type": "IndexedArray", "index_parameter": me,
                "metrics": (0..TOP).map(|x| lit(100.0 + x as f64)).collect::<Vec<_>>()})),
            "flow" => {
                pair(&mut nodes, &mut edges, p.clone(), json!({"max_flow": me}));
                see = json!({"type": "Node", "name": format!("out-{p}"), "attribute": "Inflow"});
            }
            "local" => {
                // A node that bears the name of the time series, with a parameter named like a column.
                let (n, c) = (me["name"].as_str().unwrap_or(""), me["columns"]["name"].as_str().unwrap_or("c0"));
                if nodes.iter().all(|x| x["meta"]["name"] != n) {
                    pair(&mut nodes, &mut edges, n.to_string(), json!({"max_flow": {"type": "LocalParameter", "name": c},
                        "parameters": [{"meta": {"name": c}, "type": "Constant", "value": lit(77.0)}]}));
                }
                params.push(sum("Aggregated", &p));
            }
            "" => {}
            profile => {
                let mut d = json!({"meta": {"name": p}, "type": profile, "values": me});
                if profile == "ConstantScenario" {
                    d["scenario_group"] = u["group"].clone();
                }
                params.push(d);
            }
        }
        obs.push(see);
    }
    r.shuffle(&mut nodes);
    r.shuffle(&mut params);
    let net = &mut m["network"];
    net["nodes"] = json!(nodes);
    net["edges"] = json!(edges);
    net["parameters"] = json!(params);
    net["metric_sets"] = json!([{"name": "obs", "metrics": obs}]);
    if case["absolute"] == true {
        for k in ["timeseries", "tables"] {
            for d in net[k].as_array_mut().into_iter().flatten() {
                let f = d["url"].as_str().unwrap_or("").to_string();
                d["url"] = json!(format!("{data}/{f}"));
            }
        }
    }
    m
}

// --------------------------------------------------------------------------------------- check

fn run(case: &Value, rep: &mut Rep) {
    let base = &case["models"][0];
    let files = &case["files"];
    let sc = Scratch::new();
    let data = sc.sub("data");
    write_files(files, &data);
    let out = sc.sub("out");
    let m = complete(case, &data);
    let engine = Engine::from(case["engine"].as_str().unwrap_or("highs"));
    let plan: Vec<(Class, u64, FaultKind)> = case["disk"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|d| {
            let c = if d[0] == "open" { Class::Open } else { Class::Read };
            let k = match d[2].as_str().unwrap_or("") {
                "short" => FaultKind::Short(d[3].as_u64().unwrap_or(1)),
                "eintr" => FaultKind::Eintr,
                "EACCES" => FaultKind::Errno(libc::EACCES, false),
                "EMFILE" => FaultKind::Errno(libc::EMFILE, false),
                "ENOENT" => FaultKind::Errno(libc::ENOENT, false),
                "EIO+" => FaultKind::Errno(libc::EIO, true),
                _ => FaultKind::Errno(libc::EIO, false),
            };
            (c, d[1].as_u64().unwrap_or(0), k)
        })
        .collect();
    let mut stats = None;
    let th = threads(case, 0);
    let w = world(case, "main");
    let (r, st) = run_in(&w, |ctx| {
        seams::disk_start(&data, plan, false, None);
        let b = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sut::load_single(&m, &data, &out)));
        stats = Some(seams::disk_stop().2);
        let b = match b {
            Ok(Ok(b)) => b,
            Ok(Err(e)) => return Err(format!("load: {e}")),
            Err(e) => std::panic::resume_unwind(e),
        };
        if case["after"] == true {
            // What was read is what counts, whatever becomes of the files.
            for f in files.as_object().into_iter().flatten() {
                let p = format!("{data}/{}", f.0);
                let t = f.1.as_str().unwrap_or("").replace(|c: char| c.is_ascii_digit(), "9");
                let _ = std::fs::write(format!("{p}.new"), t);
                let _ = std::fs::rename(format!("{p}.new"), p);
            }
        }
        sut::observe_sim(ctx, &b, engine, th, Arc::new(Plan::default()))
    });
    let r = r.map(|x| x.and_then(|run| match (&run.setup_err, &run.err) {
        (Some(e), _) => Err(format!("setup: {e}")),
        _ => Ok(run),
    }));
    tally(rep, "main", &st, r.as_ref().ok().and_then(|x| x.as_ref().ok()));
    let mut error_injected = false;
    if let Some(s) = &stats {
        for (k, n) in &s.injected {
            rep.count(&format!("fault.disk.{k}"), *n);
            error_injected |= !k.contains("short");
        }
        rep.count("disk.opens", *s.ops.get(&Class::Open).unwrap_or(&0));
        rep.count("disk.reads", *s.ops.get(&Class::Read).unwrap_or(&0));
    }
    let steps = cal::steps(&base["time"]);
    let even = steps.first().map(|s| s.1).filter(|d| steps.iter().all(|s| s.1 == *d));
    let last = (steps.first().map(|s| s.0.minutes()).unwrap_or(0), steps.last().map(|s| s.0.minutes() + s.1).unwrap_or(0));
    let members = scenario_members(base);
    let groups: Vec<&str> = base["scenarios"]["groups"].as_array().into_iter().flatten().filter_map(|g| g["name"].as_str()).collect();
    let sizes: Vec<usize> = base["scenarios"]["groups"].as_array().into_iter().flatten().map(|g| g["size"].as_u64().unwrap_or(1) as usize).collect();
    let text = |d: &Value| files.get(d["url"].as_str().unwrap_or("")).and_then(|x| x.as_str());
    // Files that are not what their checksums say must not be used at all.
    let mut must_fail: Option<String> = None;
    let mut must_load = !error_injected;
    let net = &base["network"];
    for d in ["timeseries", "tables"].iter().flat_map(|k| net[k].as_array().into_iter().flatten()) {
        let n = d["meta"]["name"].as_str().unwrap_or("");
        match text(d) {
            None => must_fail = Some(format!("the file of {n} does not exist")),
            Some(t) => {
                if let Some(h) = d["checksum"]["hash"].as_str() {
                    rep.count("checksums", 1);
                    rep.nontrivial = true;
                    if digest(d["checksum"]["type"].as_str().unwrap_or(""), t.as_bytes()) != h {
                        rep.count("checksum_mismatches", 1);
                        must_fail = Some(format!("the file of {n} differs from its checksum"));
                    }
                }
            }
        }
    }
    // What each use may see at each step in each scenario.
    let def = |k: &str, n: &Value| net[k].as_array().into_iter().flatten().find(|d| d["meta"]["name"] == *n);
    let mut loaded: std::collections::BTreeMap<String, Option<Series>> = Default::default();
    for d in net["timeseries"].as_array().into_iter().flatten() {
        let s = series(d, text(d));
        // Unused files are loaded all the same.
        must_load &= match &s {
            Some(s) => (0..s.cols.len()).all(|k| steps.iter().all(|(a, len)| value(s, k, a.minutes(), a.minutes() + len, last, even).must)),
            None => false,
        };
        // Types are inferred from the first lines.
        if let (Some(s), Some(n)) = (&s, d["infer_schema_length"].as_u64().or(Some(100))) {
            must_load &= s.rows.len() as u64 <= n || s.rows.iter().all(|r| r.1.iter().all(|c| c.contains('.') == s.rows[0].1[0].contains('.')));
            rep.nontrivial |= s.gap.is_none() || Some(s.gap.unwrap()) != even;
            if let (Some(g), Some(e)) = (s.gap, even) {
                rep.count(if g < e { "series.finer" } else if g > e { "series.coarser" } else { "series.same" }, 1);
            } else {
                rep.count("series.uneven", 1);
            }
        }
        loaded.insert(d["meta"]["name"].as_str().unwrap_or("").to_string(), s);
    }
    for d in net["tables"].as_array().into_iter().flatten() {
        must_load &= look(d, text(d), &[]).1;
    }
    let uses: Vec<&Value> = case["uses"].as_array().into_iter().flatten().collect();
    let nothing = || May { vals: vec![], must: false, any: false };
    let may = |u: &Value, t: usize, s: usize| -> May {
        let me = &u["m"];
        let way = u["way"].as_str().unwrap_or("");
        let (a, len) = (steps[t].0, steps[t].1);
        let mut v = if me["type"] == "Timeseries" {
            let Some(Some(f)) = me["name"].as_str().and_then(|n| loaded.get(n)) else { return nothing() };
            let c = &me["columns"];
            let (k, fits) = match c["type"].as_str() {
                Some("Scenario") => {
                    let Some(g) = groups.iter().position(|g| Some(*g) == c["name"].as_str()) else { return nothing() };
                    (Some(members[s][g]), f.cols.len() == sizes[g])
                }
                Some("Column") => (f.cols.iter().position(|h| Some(h.as_str()) == c["name"].as_str()), true),
                _ => (if f.cols.len() == 1 { Some(0) } else { None }, true),
            };
            let Some(k) = k.filter(|k| *k < f.cols.len()) else { return May { any: f.odd, ..nothing() } };
            let mut v = value(f, k, a.minutes(), a.minutes() + len, last, even);
            v.must &= fits;
            // Columns are checked as a whole.
            let index = |x: &f64| x.fract() == 0.0 && *x >= 0.0;
            v.must &= way != "index"
                || (0..f.cols.len()).all(|k| steps.iter().all(|(a, len)| value(f, k, a.minutes(), a.minutes() + len, last, even).vals.iter().all(index)));
            v
        } else {
            let Some(d) = def("tables", &me["table"]) else { return nothing() };
            let (found, sound) = look(d, text(d), &key_of(me));
            let mut o = nothing();
            for x in &found {
                let k = match way {
                    "MonthlyProfile" => (a.m - 1) as usize,
                    "DiurnalProfile" => a.h as usize,
                    "DailyProfile" => {
                        let k = a.leap_index() as usize;
                        if x.len() == 365 && k > 58 { k - 1 } else { k }
                    }
                    "ConstantScenario" => match groups.iter().position(|g| u["group"] == *g) {
                        Some(g) => members[s][g],
                        None => return nothing(),
                    },
                    _ => 0,
                };
                let right = match way {
                    "MonthlyProfile" => x.len() == 12,
                    "DiurnalProfile" => x.len() == 24,
                    "DailyProfile" => x.len() == 366 || x.len() == 365,
                    "ConstantScenario" => groups.iter().position(|g| u["group"] == *g).is_some_and(|g| x.len() == sizes[g]),
                    _ => x.len() == 1,
                };
                if right {
                    o.vals.extend(x.get(k).copied().flatten());
                }
            }
            o.must = sound && found.len() == 1 && !o.vals.is_empty();
            o
        };
        if way == "index" {
            let ok = |x: &f64| x.fract() == 0.0 && *x >= 0.0 && *x < TOP as f64;
            v.must &= v.vals.iter().all(ok);
            v.vals = v.vals.into_iter().filter(ok).map(|x| 100.0 + x).collect();
        }
        if way == "flow" {
            v.must &= v.vals.iter().all(|x| *x >= 0.0 && *x <= 1e5);
        }
        v
    };
    let grid: Vec<Vec<Vec<May>>> = uses.iter().map(|u| (0..steps.len()).map(|t| (0..members.len()).map(|s| may(u, t, s)).collect()).collect()).collect();
    must_load &= grid.iter().flatten().flatten().all(|m| m.must);
    must_load &= uses.iter().all(|u| !(u["way"] == "direct" && u["m"]["type"] == "Table"));
    rep.nontrivial |= !must_load;
    rep.count(if must_load { "sound" } else { "unsound" }, 1);
    let run = match r {
        Err(p) => {
            rep.bad("panic", p);
            return;
        }
        Ok(Err(e)) => {
            if must_load && must_fail.is_none() {
                rep.bad("refused", format!("files that have all the data were refused: {e}"));
            }
            rep.count("refused", 1);
            return;
        }
        Ok(Ok(run)) => run,
    };
    if let Some(why) = &must_fail {
        rep.bad("not-refused", format!("loading succeeded although {why}"));
        return;
    }
    if let Some((t, e)) = &run.err {
        if must_load {
            rep.bad("refused", format!("step {t}: {e}"));
            return;
        }
        rep.count("stopped", 1);
    }
    rep.count("loaded", 1);
    for (t, rows) in run.rows.iter().enumerate() {
        for (s, row) in rows.iter().enumerate().take(members.len()) {
            for (k, u) in uses.iter().enumerate() {
                let (Some(x), may) = (row.obs.get(k), &grid[k][t][s]) else { continue };
                if may.any {
                    continue;
                }
                let flow = u["way"] == "flow";
                let ok = may.vals.iter().any(|v| {
                    let v = if flow { v.min(1e6) } else { *v };
                    (x - v).abs() <= if flow { 1e-6 * (1.0 + v.abs()) } else { 1e-12 * v.abs() } || *x == v
                });
                rep.count("values", 1);
                if !ok {
                    let sig = if may.vals.is_empty() { "value-from-nowhere" } else { "wrong-value" };
                    rep.bad(
                        sig,
                        format!("{} at {} in scenario {s} by {}: {x:?} was used; the file says {:?}", u["m"], stamp(steps[t].0.minutes(), 2), u["way"], may.vals),
                    );
                    return;
                }
            }
        }
    }
    let _ = short;
}
