mod api_flags;
mod api_refs;
mod catalog;
mod core;
mod corpus;
mod flags;
mod dxb;
mod faults;
mod form;
mod gather;
mod gen;
mod handles;
mod hist;
mod insert;
mod layout;
mod norm;
mod order;
mod scale;
mod api;
mod refs;
mod robust;
mod rt;
mod seq;
mod shape;
mod split;
mod stable;
mod text;
mod util;
mod values;
mod wire;
use crate::core::*;
use catalog::*;
use std::path::PathBuf;

#[global_allocator]
static A: Alloc = Alloc;

fn dispatch(c: &Ctx) -> i32 {
    match c.prop.as_str() {
        "C01" => rt::run(c, &[Kind::Entity]),
        "C02" => rt::run(c, &[Kind::Object]),
        "C03" => rt::run(c, &TABLE_KINDS),
        "C04" => rt::run(c, &[Kind::Header]),
        "C06" => text::run(c),
        "C07" => values::c07(c),
        "C10" => refs::run(c),
        "C12" => robust::run(c),
        "C08" => form::run(c),
        "C09" => handles::c09(c),
        "C11" => hist::c11(c),
        "C05" => seq::c05(c),
        "C16" => dxb::c16(c),
        "C17" => dxb::c17(c),
        "C18" => seq::c18(c),
        "C21" => gather::run(c),
        "C13" => faults::c13(c),
        "C14" => faults::c14(c),
        "C15" => stable::run(c),
        "C19" => insert::run(c),
        "C20" => hist::c20(c),
        "C22" => layout::c22(c),
        "C25" => layout::c25(c),
        "C23" => flags::run(c),
        "C24" => values::c24(c),
        "C26" => values::c26(c),
        "C27" => api::run(c),
        "C28" => norm::run(c),
        "C29" => order::c29(c),
        "C30" => order::c30(c),
        "C31" => order::c31(c),
        "C32" => scale::c32(c),
        "C33" => split::run(c),
        p => {
            eprintln!("unknown property {}", p);
            2
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
    let prop = args.get(2).cloned().unwrap_or_default();
    let thorough = args.get(3).map(|s| s == "thorough").unwrap_or(false);
    let only = args.get(4).cloned().filter(|s| !s.is_empty());
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let slots = args.get(5).and_then(|p| std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(p).ok());
            let c = Ctx::new(&prop, thorough, only, verif, slots);
            install_panic_hook();
            std::process::exit(dispatch(&c));
        }
        Some("files") => {
            install_panic_hook();
            faults::child(prop == "thorough", args.get(3).map(|s| s.as_str()).unwrap_or(""));
        }
        Some("run") => {
            let _ = std::fs::create_dir_all(verif.join("evidence/replay"));
            let slots = verif.join(format!("evidence/replay/{}.running", prop));
            let _ = std::fs::remove_file(verif.join(format!("evidence/{}.json", prop)));
            let st = std::process::Command::new(std::env::current_exe().unwrap())
                .args(["worker", &prop, if thorough { "thorough" } else { "quick" }, only.as_deref().unwrap_or("")])
                .arg(&slots)
                .env("TZ", "UTC")
                .status()
                .expect("worker");
            match st.code() {
                Some(x @ (0 | 1)) => {
                    let _ = std::fs::remove_file(&slots);
                    std::process::exit(x)
                }
                Some(2) => std::process::exit(2),
                code => {
                    // the code under test took the process down: report what was running
                    let t = std::fs::read(&slots).unwrap_or_default();
                    let mut running = vec![];
                    for ch in t.chunks(SLOT_BYTES) {
                        let l = String::from_utf8_lossy(ch);
                        let l = l.lines().next().unwrap_or("").trim_matches('\0').to_string();
                        if !l.is_empty() {
                            running.push(l);
                        }
                    }
                    let p = verif.join(format!("evidence/replay/{}-crash.json", prop));
                    let what = if code == Some(99) { "a case ran for more than 60 s" } else { "the process was killed (abort, stack overflow or allocation limit) or the explorer failed" };
                    let doc = serde_json::json!({"property": prop, "detail": what, "exit": format!("{:?}", st), "cases_running": running});
                    std::fs::write(&p, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
                    let ev = serde_json::json!({"property": prop, "tier": if thorough {"thorough"} else {"quick"}, "seed": 1, "level": "other",
                        "coverage": {"explanation": format!("exploration ended early: {}", what)}, "wall_s": 0.0, "violations": 1});
                    std::fs::write(verif.join(format!("evidence/{}.json", prop)), ev.to_string()).unwrap();
                    println!("  {} ({:?}); running: {:?}", what, st, running);
                    println!("VIOLATION property={} replay={}", prop, p.display());
                    std::process::exit(1);
                }
            }
        }
        _ => {
            eprintln!("usage: mc run <property> quick|thorough [case]");
            std::process::exit(2);
        }
    }
}
