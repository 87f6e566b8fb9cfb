//! gen SUITE TIER CHUNKS OUTDIR x|nostd i,j,...(skipped): writes the programs of a suite as CHUNKS Rust files.
use mc::render;
use std::fmt::Write;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "list" {
        let cases = mc::spaces::cases(&a[2], &a[3]);
        println!("{}", cases.len());
        return;
    }
    let (suite, tier, n, out) = (&a[1], &a[2], a[3].parse::<usize>().unwrap(), &a[4]);
    let skip: Vec<usize> = a.get(6).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let cases = mc::spaces::cases(suite, tier);
    let nostd = a[5] == "nostd";
    let prelude = if nostd { include_str!("../prelude_nostd.rs") } else { include_str!("../prelude.rs") };
    for k in 0..n {
        let mut s = prelude.to_string();
        let mut map = String::new();
        let mut reg = String::new();
        let mut line = s.lines().count() + 1;
        for (i, c) in cases.iter().enumerate() {
            if i % n != k || skip.contains(&i) {
                continue;
            }
            let p = &c.prog;
            let t = format!(
                "mod p{i} {{ use super::*;\n{}{} pub fn subj() -> mc::Subj {{ mc::Subj {{ idx: {i}, disp: {}, sink: {}, parse: {}, rx: {}, rx_match: {} }} }} }}\n",
                render::source(p),
                render::source_glue(p),
                if p.disp { format!("Some(d::<{}>)", p.name) } else { "None".into() },
                if p.disp { format!("Some(sk::<{}>)", p.name) } else { "None".into() },
                if p.from { format!("Some(p::<{}>)", p.name) } else { "None".into() },
                if p.from && !nostd { format!("Some(rx::<{}>)", p.name) } else { "None".into() },
                if nostd { "None" } else { "Some(rx_match)" },
            );
            let lines = t.lines().count();
            writeln!(map, "{line} {} {i}", line + lines - 1).unwrap();
            line += lines;
            s += &t;
            write!(reg, "p{i}::subj(),").unwrap();
        }
        writeln!(s, "fn main() {{ mc::run({suite:?}, {tier:?}, vec![{reg}]) }}").unwrap();
        std::fs::write(format!("{out}/chunk_{k}.rs"), s).unwrap();
        std::fs::write(format!("{out}/chunk_{k}.map"), map).unwrap();
    }
    // the sources, for replay files
    let mut all = String::new();
    for (i, c) in cases.iter().enumerate() {
        writeln!(all, "{{\"idx\":{i},\"source\":{}}}", mc::report::js(&render::source(&c.prog))).unwrap();
    }
    std::fs::write(format!("{out}/programs.jsonl"), all).unwrap();
    println!("{}", cases.len());
}
