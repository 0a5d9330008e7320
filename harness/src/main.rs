mod cli;
mod codec;
mod embed;
mod feat;
mod fw;
mod gen;
mod hist;
mod mark;
mod mem;
mod refmodel;
mod rng;
mod util;

use fw::Ctx;
use serde_json::Value;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

/// siavp ID --tier quick|thorough --seed N --budget S --out FILE [--crumbs FILE] [--section S --case K]
fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "golden-write" => return mark::golden_write(),
        "one" => return hist::one(),
        "history" => return hist::history(),
        _ => (),
    }
    let thorough = arg("--tier").as_deref() == Some("thorough");
    let seed = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget = arg("--budget").and_then(|s| s.parse().ok()).unwrap_or(60.);
    let only = match (arg("--section"), arg("--case").and_then(|c| c.parse().ok())) {
        // what a history shows takes the whole run to judge
        (Some(s), Some(c)) if id != "C17" => Some((s, c)),
        _ => None,
    };
    let ctx = Ctx::new(&id, thorough, seed, budget, only, arg("--crumbs").unwrap_or_default());
    fw::install_panic_hook();
    let check: fn(&Ctx) -> Value = match id.as_str() {
        "C01" => embed::c01,
        "C02" => embed::c02,
        "C03" => embed::c03,
        "C04" => embed::c04,
        #[cfg(feature = "h_emb")]
        "C05" => codec::c05,
        "C06" => codec::c06,
        "C07" => codec::c07,
        "C08" => codec::c08,
        "C09" => codec::c09,
        "C10" => util::c10,
        "C11" => feat::c11,
        "C12" => feat::c12,
        "C13" => mark::c13,
        #[cfg(feature = "h_wm")]
        "C14" => mark::c14,
        #[cfg(feature = "h_wm")]
        "C15" => mark::c15,
        #[cfg(feature = "h_wm")]
        "C16" => mark::c16,
        "C17" => hist::c17,
        "C18" => cli::c18,
        "C21" => util::c21,
        "C22" => mark::c22,
        "C23" => util::c23,
        "C24" => mem::c24,
        #[cfg(feature = "h_emb")]
        "C25" => codec::c25,
        _ => {
            eprintln!("no check {id} in this build");
            std::process::exit(3);
        }
    };
    let result = check(&ctx);
    let text = serde_json::to_string_pretty(&result).unwrap();
    match arg("--out") {
        Some(f) => std::fs::write(f, text).unwrap(),
        None => eprintln!("{text}"),
    }
}
