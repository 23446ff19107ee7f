#![cfg_attr(not(feature = "inner"), allow(unused))]
mod check;
mod compare;
mod explore;
mod props;
mod spec;
mod sut;

#[global_allocator]
static ALLOC: explore::Bounded = explore::Bounded;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let (mut property, mut tier, mut only) = (arg(1).to_string(), arg(2).to_string(), None);
    if arg(1) == "bytes" {
        // mc bytes <hex>: what the model and the implementation print
        explore::install();
        explore::silence();
        let hex = arg(2);
        let b: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        let want = spec::machine::run(&b);
        for c in compare::canon(&want.events) {
            explore::say(&format!("model: {}", compare::show(&c)));
        }
        explore::say(&format!("model: {:?}", want.faults));
        let got = explore::guarded(|| Ok(sut::run(&b, sut::ALL)));
        match &got {
            Ok(got) => {
                for d in &got.docs {
                    for c in compare::canon(&d.events) {
                        explore::say(&format!("real:  {}", compare::show(&c)));
                    }
                }
                explore::say(&format!("real:  {:?}", got.errors));
            }
            Err(e) => explore::say(e),
        }
        let r = explore::guarded(|| check::case(&b, sut::ALL).map(|_| ()));
        explore::say(&format!("{r:?}"));
        return;
    }
    if arg(1) == "fresh" {
        // jobs of one new process, and what the last one makes
        explore::install();
        explore::silence();
        let mut made = String::new();
        for line in std::io::stdin().lines() {
            let hex = line.unwrap();
            let b: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
            made = match explore::guarded(|| Ok(props::made(&b))) {
                Ok(m) => m,
                Err(e) => e,
            };
        }
        explore::say(&made);
        return;
    }
    if arg(1) == "replay" {
        let text = std::fs::read_to_string(arg(2)).expect("replay file");
        let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string()).unwrap_or_default();
        property = get("property ");
        tier = get("tier ").to_lowercase();
        only = Some((get("space "), get("index ").parse().expect("index")));
    }
    let tier = match tier.as_str() {
        "quick" => explore::Tier::Quick,
        "thorough" => explore::Tier::Thorough,
        _ => panic!("mc <property> quick|thorough, mc replay <file>, mc bytes <hex>"),
    };
    explore::install();
    explore::silence();
    let mut e = explore::Explorer::new(&property, tier);
    e.only = only;
    props::run(&mut e);
    std::process::exit(e.finish());
}
