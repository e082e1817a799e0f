mod fuzz;
mod gen;
mod oracle;
mod oracle_html;

use gen::Rng;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

/// Runs one property's oracle on one input (`seed` form for inputs that are not text).
fn check(prop: &str, input: &str) -> Result<(), String> {
    let r = catch_unwind(AssertUnwindSafe(|| match prop {
        "P01" => oracle::p01(input),
        "P02" => oracle::p02(input),
        "P03" => oracle::p03(input),
        "P04" => oracle::p04(input),
        "P05" => oracle::p05(input),
        "P06" => oracle::p06(input),
        "P07" => oracle::p07(input),
        "P08" => oracle::p08(input),
        "P09" => oracle::p09(input),
        "P10" => oracle::p10(input),
        "P11" => oracle::p11(input),
        "P12" => oracle::p12(input),
        "P13" => oracle::p13(input),
        "H01" => oracle_html::h01(input),
        "H02" => oracle_html::h02(input),
        "H03" => oracle_html::h03(input),
        "H04" => oracle_html::h04(input),
        "H05" => oracle_html::h05(input),
        "A01" => oracle_html::a01(input),
        "A02" => oracle_html::a02(&oracle_html::read_set(input)),
        "A03" => oracle_html::a03(input),
        _ => panic!("unknown property {prop}"),
    }));
    match r {
        Ok(r) => r,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            Err(format!("panic: {m}"))
        }
    }
}

fn generate(prop: &str, r: &mut Rng) -> String {
    let general = r.chance(1, 2);
    match prop {
        "A01" => return gen::attr_string(r),
        "A02" => return oracle_html::gen_set(r),
        "A03" => return gen::soup(r, gen::ATTR_FRAGS, 0, 8),
        _ => {}
    }
    if general {
        return gen::document(r);
    }
    match prop {
        "P06" => gen::headings_doc(r),
        "P07" => {
            if r.chance(1, 4) {
                gen::headings_doc(r)
            } else {
                gen::links_doc(r)
            }
        }
        "P08" => gen::lists_doc(r),
        "P09" => gen::punct_doc(r),
        "P10" => gen::code_doc(r),
        "P11" => gen::tables_doc(r),
        "H03" => gen::footnotes_doc(r),
        _ => match r.below(10) {
            0 => gen::lists_doc(r),
            1 => gen::tables_doc(r),
            2 => gen::headings_doc(r),
            3 => gen::links_doc(r),
            4 => gen::footnotes_doc(r),
            5 => gen::code_doc(r),
            6 => gen::punct_doc(r),
            7 => {
                let n = r.range(1, 3);
                gen::inline(r, n, true)
            }
            _ => gen::document(r),
        },
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = get("--prop").expect("--prop");
    std::panic::set_hook(Box::new(|_| {}));
    match args[1].as_str() {
        "replay" => {
            let f = get("--file").expect("--file");
            let s = std::fs::read_to_string(f).unwrap();
            let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || check(&prop, &s)).unwrap();
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                let _ = tx.send(t.join().unwrap());
            });
            match rx.recv_timeout(Duration::from_secs(60)) {
                Ok(Ok(())) => println!("{{\"held\": true}}"),
                Ok(Err(m)) => {
                    println!("{{\"held\": false, \"reason\": {}}}", esc(&m));
                    std::process::exit(1)
                }
                Err(_) => {
                    println!("{{\"held\": false, \"reason\": \"no termination within 60 s\"}}");
                    std::process::exit(1)
                }
            }
        }
        // parse and render with the stack of an ordinary thread (2 MiB)
        "deep" => {
            let f = get("--file").expect("--file");
            let s = std::fs::read_to_string(f).unwrap();
            let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || jotdown::html::render_to_string(jotdown::Parser::new(&s)).len()).unwrap();
            println!("{{\"held\": true, \"bytes\": {}}}", t.join().unwrap());
        }
        "search" => fuzz::search(
            &prop,
            get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
            get("--seconds").and_then(|s| s.parse().ok()).unwrap_or(10.0),
            get("--out"),
            get("--all").is_some(),
            &get("--dict").unwrap_or_default(),
        ),
        "worker" => {
            let num = |k: &str| get(k).and_then(|s| s.parse().ok()).unwrap_or(1u64);
            fuzz::worker(
                &prop,
                num("--seed"),
                get("--seconds").and_then(|s| s.parse().ok()).unwrap_or(10.0),
                num("--k"),
                num("--n"),
                &get("--out").expect("--out"),
                &get("--dict").unwrap_or_default(),
                get("--all").is_some(),
            )
        }
        // large documents only; for development
        "scaled" => {
            let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let count = get("--n").and_then(|s| s.parse().ok()).unwrap_or(100u64);
            let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let mut r = Rng::new(seed);
                let d = fuzz::Dict::default();
                let mut slow = (0.0, 0);
                for i in 0..count {
                    let n = d.scale(&mut r);
                    let s = gen::scaled(&prop, &mut r, n);
                    let t0 = std::time::Instant::now();
                    let res = check(&prop, &s);
                    let t = t0.elapsed().as_secs_f64();
                    if t > slow.0 {
                        slow = (t, s.len());
                        if t > 3.0 {
                            std::fs::write("/tmp/slow.txt", &s).unwrap();
                        }
                    }
                    if let Err(m) = res {
                        std::fs::write(format!("/tmp/scaled_{prop}.txt"), &s).unwrap();
                        println!("{prop} {i} {n} {}", m.chars().take(200).collect::<String>());
                        break;
                    }
                }
                println!("{prop} slowest {:.2} s for {} bytes", slow.0, slow.1);
            }).unwrap();
            t.join().unwrap();
        }
        _ => panic!("mode"),
    }
}

