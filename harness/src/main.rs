mod attrs;
mod core;
mod fuzz;
mod gen;
mod inject;
mod lsp;
mod model;
mod props;
mod suggest;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let props = props::all();
    if id == "--list" {
        for p in props {
            println!("{}", p.id);
        }
        return;
    }
    let Some(p) = props.into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let code = match args.get(2).map(|s| s.as_str()) {
        Some("--child") => {
            core::child(p);
            0
        }
        Some("--one") => core::one(p, Some(args[3].parse().unwrap()), None),
        Some("--tape") => {
            let t: Vec<u32> = serde_json::from_slice(&std::fs::read(&args[3]).unwrap()).unwrap();
            core::one(p, None, Some(t))
        }
        Some("--replay") => {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&args[3]).unwrap()).unwrap();
            let t: Vec<u32> = serde_json::from_value(v["tape"].clone()).unwrap();
            if t.is_empty() {
                core::one(p, v["index"].as_u64().map(|x| x as usize), None)
            } else {
                core::one(p, None, Some(t))
            }
        }
        _ => core::parent(p),
    };
    lsp::clean_scratch();
    std::process::exit(code);
}
