//! mc <property>: decide one property by exhaustive enumeration; see ../DESIGN.md.
//! mc explain <word> ...: show everything raki and the model say about a word.
mod builds;
mod calls;
mod checks;
mod engine;
mod faults;
mod heap;
mod memory;
mod ops;
mod pool;
mod sched;
mod seq;
mod spec;
mod states;
mod sys;
mod text;

use std::io::Write;

fn arg_num(s: &str) -> u64 {
    s.strip_prefix("0x").map_or_else(|| s.parse().ok(), |h| u64::from_str_radix(h, 16).ok()).expect("number")
}

fn explain(s: &spec::Spec, v: u64) {
    use checks::In;
    let mut ins = vec![];
    if v < 1 << 32 {
        ins.push(In::W(v as u32));
    }
    if v < 1 << 16 {
        ins.push(In::H(v as u16));
    }
    for i in ins {
        for isa in 0..2 {
            let r = engine::guarded(|| i.decode(isa));
            let text = match &r {
                None => engine::panic_message(),
                Some(r) => {
                    let t = r.as_ref().ok().map(|x| engine::guarded(|| x.to_string()).unwrap_or_else(engine::panic_message));
                    format!("{} {t:?}", ops::obs(r).show())
                }
            };
            let m = match i {
                In::H(h) => s.find16(h, isa),
                In::W(w) => s.find32(w, isa),
            };
            println!("{} {}: {text}\n   model: {:?}", i.show(), ops::isa_name(isa), m.map(|e| (&e.name, e.operands(i.word()))));
        }
    }
    let c = engine::guarded(|| ops::obs(&raki::Instruction::try_from(v as usize)).show());
    println!("usize {v:#x}: {}", c.unwrap_or_else(engine::panic_message));
}

fn known_findings(path: &str, property: &str) -> Vec<checks::Known> {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines().filter(|l| l.starts_with("known:")) {
        // known: property=C01 mask=0x.. match=0x.. error=.. what
        let get = |k: &str| l.split_whitespace().find_map(|t| t.strip_prefix(k)).unwrap_or("");
        if get("property=") != property {
            continue;
        }
        let what = l.splitn(6, ' ').nth(5).unwrap_or("").to_string();
        out.push(checks::Known {
            mask: arg_num(get("mask=")) as u32,
            value: arg_num(get("match=")) as u32,
            err: ops::err_code(get("error=")),
            what,
        });
    }
    out
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let s = spec::Spec::load();
    if args.first().is_some_and(|a| a == "explain") {
        engine::init();
        for a in &args[1..] {
            explain(&s, arg_num(a));
        }
        return;
    }
    if args.first().is_some_and(|a| a == "digest") {
        engine::init();
        builds::command(&s, &args[1..]);
        return;
    }
    let property = args.first().expect("usage: mc <property> | mc explain <word>..").clone();
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let profile = if cfg!(debug_assertions) { "checked" } else { "plain" };
    let replay = format!("{dir}/evidence/replay-{property}.txt");
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    let _ = std::fs::remove_file(&replay);
    sys::limit_memory(12 << 30);
    engine::init();
    let known = known_findings(&format!("{dir}/known-findings.txt"), &property);
    let Some(r) = checks::run(&property, &s, &known, thorough) else {
        eprintln!("unknown property {property}");
        std::process::exit(2);
    };
    let wall = engine::explored().as_secs_f64();
    let n = &r.swept.n;
    let mut cov = format!(
        "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"exhaustive\": {}, \"profile\": {}",
        n.states,
        n.calls,
        n.validated,
        r.swept.violation.is_none() && !r.swept.cut,
        json(profile)
    );
    for (i, name) in r.extra.iter().enumerate() {
        cov += &format!(", {}: {}", json(name), n.extra[i]);
    }
    if n.known > 0 {
        cov += &format!(", \"known_finding_inputs\": {}", n.known);
    }
    let samples: Vec<String> = r.swept.samples.iter().map(|s| json(s)).collect();
    cov += &format!(", \"samples\": [{}]", samples.join(", "));
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"model_checking\", \"coverage\": {{{cov}}}, \"wall_s\": {wall:.2}, \"violations\": {}}}\n",
        json(&property),
        json(if thorough { "thorough" } else { "quick" }),
        u8::from(r.swept.violation.is_some())
    );
    // the second, unchecked build of a thorough run leaves the evidence of the first in place
    if std::env::var_os("MC_KEEP").is_none() || r.swept.violation.is_some() {
        std::fs::write(format!("{dir}/evidence/{property}.json"), ev).expect("evidence");
    }
    println!("{property}: {} configurations, {} calls, {} results compared, {wall:.1} s", n.states, n.calls, n.validated);
    if r.swept.cut {
        println!("out of time: not everything within the bounds was explored");
    }
    if let Some(k) = &r.known {
        println!("KNOWN-FINDING: property={property} {k}");
    }
    if let Some(v) = r.swept.violation {
        println!("{}", v.msg);
        std::fs::write(&replay, format!("{}\nitem {:#x} of the enumeration; see also: mc/target/release/release/mc explain <word>\n", v.msg, v.item)).expect("replay");
        println!("VIOLATION property={property} replay={replay}");
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    }
}
