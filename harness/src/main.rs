//! Executable property predicates over the real crate: search for a failing input and replay of one.
//!   harness search <prop> <seed> <millis> <dict-file> <replay-out>   -> one JSON object on stdout
//!   harness replay <file>                                            -> exit 1 if the property fails on it
mod gen;
mod props;
mod real;
mod refm;
use gen::*;
use props::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn scratch() -> String { std::env::var("HARNESS_SCRATCH").unwrap_or_else(|_| format!("/tmp/harness-scratch-{}", std::process::id())) }
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 0x20 || (c as u32) > 0x7e => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)) } } c => o.push(c) } }
    o.push('"');
    o
}
fn load_dict(p: &str) -> Dict {
    let mut d = Dict::default();
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(x) = l.strip_prefix("W ") { d.words.push(x.to_string()) }
        else if let Some(x) = l.strip_prefix("C ") { if let Some(c) = x.parse().ok().and_then(char::from_u32) { d.chars.push(c) } }
        else if let Some(x) = l.strip_prefix("N ") { if let Ok(n) = x.parse() { d.ints.push(n) } }
    }
    d
}
/// run a case on this thread; a stack overflow is avoided by bounding the nesting of generated cases
fn eval(prop: &str, c: &Case) -> R { match real::guard(|| check(prop, c)) { Ok(r) => r, Err(m) => Err(format!("panicked: {}", m)) } }

fn shrink(prop: &str, c: &Case) -> Case {
    let mut best = c.clone();
    let t0 = Instant::now();
    let mut step = (best.src.chars().count() / 2).max(1);
    while t0.elapsed() < Duration::from_secs(3) {
        let v: Vec<char> = best.src.chars().collect();
        let mut done = true;
        let mut i = 0;
        while i < v.len() && t0.elapsed() < Duration::from_secs(4) {
            let mut w = v.clone();
            w.drain(i..(i + step).min(v.len()));
            let t = Case { src: w.into_iter().collect(), ..best.clone() };
            if eval(prop, &t).is_err() { best = t; done = false; break }
            i += step;
        }
        if done { if step == 1 { break } step = (step / 2).max(1) }
    }
    for b in 0..8 { for f in 0..2 { let mut t = best.clone(); if f == 0 { t.po &= !(1 << b) } else { t.ro &= !(1 << b) } if eval(prop, &t).is_err() { best = t } } }
    best
}
fn hexline(prop: &str, c: &Case) -> String { format!("HEX {} {} {} {}\n", prop, c.po, c.ro, c.src.chars().map(|c| format!("{:x}", c as u32)).collect::<Vec<_>>().join(",")) }
struct Shared { stop: AtomicBool, found: Mutex<Option<(Case, String)>> }

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a.len() >= 3 && a[1] == "replay" { return replay(&a[2]) }
    if a.len() == 5 && a[1] == "one" { let c = Case { src: a[3].clone(), po: a[4].parse().unwrap(), ro: 0 }; println!("{:?}", eval(&a[2], &c)); return }
    if a.len() < 7 || a[1] != "search" { eprintln!("usage"); std::process::exit(2) }
    let (prop, seed, ms, dict, out) = (a[2].clone(), a[3].parse::<u64>().unwrap_or(1), a[4].parse::<u64>().unwrap_or(5000), load_dict(&a[5]), a[6].clone());
    let t0 = Instant::now();
    let sh = Shared { stop: AtomicBool::new(false), found: Mutex::new(None) };
    let nt = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    let trace = std::env::var("HARNESS_TRACE").ok();
    let running: Vec<Mutex<Option<(Case, Instant)>>> = (0..nt).map(|_| Mutex::new(None)).collect();
    let finished = AtomicBool::new(false);
    let results: Mutex<(u64, HashSet<u64>, Vec<String>, usize, usize, bool)> = Mutex::new((0, HashSet::new(), vec![], 99, 99, true));
    std::thread::scope(|sc| {
        let (running, finished, trace) = (&running, &finished, &trace);
        {
            // a case that does not end: report it and stop
            let (prop, out) = (&prop, &out);
            sc.spawn(move || while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                for r in running { if let Some((c, t)) = &*r.lock().unwrap() { if t.elapsed() > Duration::from_secs(20) {
                    let rep = format!("{{\"property\":{},\"src\":{},\"po\":{},\"ro\":{},\"message\":\"does not return within 20 s\"}}", jstr(prop), jstr(&c.src), c.po, c.ro);
                    if out != "-" { std::fs::write(out, format!("{}\n{}", rep, hexline(prop, c))).unwrap(); }
                    println!("{{\"evaluations\":0,\"distinct_nontrivial\":0,\"token_len\":0,\"char_len\":0,\"samples\":[],\"violation\":{}}}", rep);
                    std::process::exit(0)
                } } }
            });
        }
        let left = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(nt));
        for th in 0..nt {
            let left = left.clone();
            let (prop, dict, sh, results) = (&prop, &dict, &sh, &results);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                let p = profile(prop);
                let mut n = 0u64;
                let mut classes: HashSet<u64> = HashSet::new();
                let mut samples: Vec<String> = vec![];
                let mut run = |c: &Case| -> bool {
                    n += 1;
                    *running[th].lock().unwrap() = Some((c.clone(), Instant::now()));
                    if let Some(d) = trace { let _ = std::fs::write(format!("{}/{}", d, th), hexline(prop, c)); }
                    let res = eval(prop, c);
                    *running[th].lock().unwrap() = None;
                    match res {
                        Ok(0) => true,
                        Ok(k) => { if classes.len() < 500_000 && classes.insert(k) && samples.len() < 3 && classes.len() % 7 == 1 { samples.push(format!("{{\"src\":{},\"po\":{},\"ro\":{}}}", jstr(&c.src), c.po, c.ro)) } true }
                        Err(m) => { let mut f = sh.found.lock().unwrap(); if f.is_none() { *f = Some((c.clone(), m)) } sh.stop.store(true, Ordering::SeqCst); false }
                    }
                };
                let stop = || sh.stop.load(Ordering::Relaxed);
                let mut complete = true;
                // 0. every char (C22 only)
                if prop == "C22" {
                    for u in (th as u32..0x110000).step_by(nt) { if let Some(ch) = char::from_u32(u) { if let Err(m) = props::char_classes(ch) { let mut f = sh.found.lock().unwrap(); if f.is_none() { *f = Some((Case { src: ch.to_string(), po: 0, ro: 0 }, m)) } sh.stop.store(true, Ordering::SeqCst); break } } }
                }
                // every char in a text, a title and a textarea (C16 only): the encoding and decoding of the entity library
                if prop == "C16" {
                    for u in (th as u32..0x110000).step_by(nt) { if stop() { break } if let Some(ch) = char::from_u32(u) { if !run(&Case { src: format!("<title>{}</title>{}", ch, if ch == '<' { ' ' } else { ch }), po: 0, ro: if u & 1 == 0 { 192 } else { 128 } }) { break } } }
                }
                // files around the sizes of buffers (C21 only), with and without characters of several bytes
                if prop == "C21" {
                    let mut k = 0usize;
                    for e in 7..22u32 { for d in [0usize, 1, 2] { for u in ["x", "é", "a\r\n"] {
                        k += 1;
                        if k % nt != th || stop() { continue }
                        let n = (1usize << e) + d - 1;
                        let mut src = String::with_capacity(n + 8);
                        if k % 2 == 0 { src.push('-') }
                        while src.len() < n { src.push_str(u) }
                        run(&Case { src, po: 0, ro: (k / 3 % 2) as u32 });
                    } } }
                }
                let t0 = Instant::now();
                // 1. templates with every pair of ASCII (and a few other) characters, and with every character up to U+30FF
                if prop != "C22" && prop != "C21" {
                    let al: Vec<char> = (0u8..128).map(|b| b as char).chain(gen::ODD).collect();
                    let deadline = t0 + Duration::from_millis(ms * 20 / 100);
                    let mut i = th;
                    let ts = gen::templates(prop);
                    'tp: for ti in (0..ts.len()).rev() {
                        let two = ts[ti].contains('②');
                        let pairs = if two { al.len() * al.len() } else { 0 };
                        while i < pairs + 0x3100 {
                            if stop() || Instant::now() > deadline { break 'tp }
                            let (x, y) = if i < pairs { (al[i / al.len()], al[i % al.len()]) } else { let c = char::from_u32((i - pairs) as u32).unwrap_or('x'); (c, c) };
                            let src = gen::fill(ts[ti], x, y);
                            let po = p.po[(i / nt + ti) % p.po.len()];
                            let ro = if p.ro_all { (i as u64).wrapping_mul(0x9E3779B97F4A7C15) as u32 >> 20 & 255 } else { 0 };
                            if !run(&Case { src: src.clone(), po: 0, ro }) { break 'tp }
                            if po != 0 && !run(&Case { src, po, ro }) { break 'tp }
                            i += nt;
                        }
                        i = th;
                    }
                }
                // 2. exhaustive sequences over the token and character alphabets, by length
                let mut reach = [0usize; 2];
                for (ai, alpha) in [p.tokens.iter().map(|t| t.to_string()).collect::<Vec<_>>(), p.chars.iter().map(|c| c.to_string()).collect::<Vec<_>>()].iter().enumerate() {
                    let deadline = t0 + Duration::from_millis(ms * (if ai == 0 { 45 } else { 65 }) / 100);
                    'len: for len in 0..=12usize {
                        let total = (alpha.len() as u64).checked_pow(len as u32).unwrap_or(u64::MAX);
                        if total > 400_000_000 { break }
                        let mut i = th as u64;
                        while i < total {
                            if stop() || Instant::now() > deadline { break 'len }
                            let mut x = i;
                            let mut s = String::new();
                            for _ in 0..len { s.push_str(&alpha[(x % alpha.len() as u64) as usize]); x /= alpha.len() as u64 }
                            for (b, e) in &p.wrap {
                                let src = format!("{}{}{}", b, s, e);
                                // all option sets for the short ones, a rotating pair for the longer ones
                                let pick: Vec<u32> = if len <= 2 { p.po.clone() } else { let k = (i as usize).wrapping_mul(7) + (i / 64) as usize; vec![p.po[k % p.po.len()], p.po[(k + 1 + k / p.po.len()) % p.po.len()]] };
                                for po in pick { let ro = if p.ro_all || prop == "C21" { (i.wrapping_mul(0x9E3779B97F4A7C15) >> 40) as u32 & 255 } else { 0 }; if !run(&Case { src: src.clone(), po, ro }) { break 'len } }
                            }
                            i += nt as u64;
                        }
                        reach[ai] = len;
                    }
                    if stop() { complete = false; break }
                }
                // 3. random documents
                let deadline = t0 + Duration::from_millis(ms);
                let mut r = Rng::new(seed.wrapping_mul(1000003) + th as u64);
                while !stop() && Instant::now() < deadline {
                    let src = if prop == "C22" { let w = gen::word(&mut r, dict); if r.chance(50) { w.chars().map(|c| if r.chance(30) { c.to_ascii_uppercase() } else { c }).collect() } else { w } } else if r.chance(30) && p.wrap.len() > 1 {
                        let (b, e) = *r.pick(&p.wrap);
                        let mut s = String::from(b);
                        for _ in 0..1 + r.below(14) { if r.chance(12) { s.push_str(&gen::word(&mut r, dict)) } else if r.chance(5) { s.push_str(&gen::text(&mut r, dict)) } else { s.push_str(r.pick(&p.tokens)) } }
                        s + e
                    } else { document(&mut r, &p, dict) };
                    let po = if r.chance(80) { *r.pick(&p.po) } else { r.below(64) as u32 };
                    let ro = match r.below(4) { 0 => 0, 1 => 1 << r.below(8), _ => r.below(256) as u32 };
                    if !run(&Case { src, po, ro }) { break }
                }
                let mut g = results.lock().unwrap();
                g.0 += n;
                g.1.extend(classes);
                g.2.extend(samples);
                g.3 = g.3.min(reach[0]);
                g.4 = g.4.min(reach[1]);
                g.5 &= complete;
                if left.fetch_sub(1, Ordering::SeqCst) == 1 { finished.store(true, Ordering::Relaxed) }
            }).unwrap();
        }
    });
    let found = sh.found.lock().unwrap().clone();
    let g = results.lock().unwrap();
    let mut viol = String::from("null");
    if let Some((c, m0)) = found {
        let c2 = shrink(&prop, &c);
        let m = eval(&prop, &c2).err().unwrap_or(m0);
        let rep = format!("{{\"property\":{},\"src\":{},\"po\":{},\"ro\":{},\"message\":{}}}\n", jstr(&prop), jstr(&c2.src), c2.po, c2.ro, jstr(&m));
        if out != "-" { std::fs::write(&out, format!("{}{}", rep, hexline(&prop, &c2))).unwrap(); }
        let short: String = c2.src.chars().take(2000).collect();
        viol = if short.len() == c2.src.len() { rep.trim().to_string() } else { format!("{{\"property\":{},\"src\":{},\"length\":{},\"po\":{},\"ro\":{},\"message\":{}}}", jstr(&prop), jstr(&short), c2.src.len(), c2.po, c2.ro, jstr(&m)) };
    }
    let _ = std::fs::remove_dir_all(scratch());
    println!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"token_len\":{},\"char_len\":{},\"samples\":[{}],\"violation\":{}}}", g.0, g.1.len(), g.3, g.4, g.2.iter().take(6).cloned().collect::<Vec<_>>().join(","), viol);
}
fn replay(f: &str) {
    let t = std::fs::read_to_string(f).unwrap();
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("HEX ") {
            let v: Vec<&str> = x.split(' ').collect();
            let src: String = v.get(3).unwrap_or(&"").split(',').filter(|s| !s.is_empty()).map(|h| char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap()).collect();
            let c = Case { src, po: v[1].parse().unwrap(), ro: v[2].parse().unwrap() };
            match eval(v[0], &c) {
                Err(m) => { println!("{} FAILS on {:?} (po={} ro={}): {}", v[0], c.src.chars().take(2000).collect::<String>(), c.po, c.ro, m); let _ = std::fs::remove_dir_all(scratch()); std::process::exit(1) }
                Ok(_) => println!("{} holds on {:?}", v[0], c.src.chars().take(2000).collect::<String>()),
            }
        }
    }
    let _ = std::fs::remove_dir_all(scratch());
}
