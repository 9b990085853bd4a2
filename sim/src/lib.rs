#![allow(dead_code)]
pub mod ffi; pub mod rng; pub mod plan; pub mod driver;
pub mod idx; pub mod syms; pub mod ana; pub mod anaref; pub mod rusted; pub mod edit; pub mod peg; pub mod gener; pub mod typed; pub mod work;

#[global_allocator]
static A: ffi::SimAlloc = ffi::SimAlloc;

fn scenarios() -> Vec<driver::Scn> {
    let mut v = Vec::new();
    v.extend(idx::scenarios()); v.extend(syms::scenarios()); v.extend(ana::scenarios()); v.extend(edit::scenarios()); v.extend(gener::scenarios()); v.extend(rusted::scenarios()); v.extend(typed::scenarios()); v.extend(work::scenarios());
    v
}

struct NoteLog;
impl log::Log for NoteLog {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { if ffi::active() { ffi::note(&format!("log {}: {}", r.target(), r.args())) } }
    fn flush(&self) {}
}
static LOG: NoteLog = NoteLog;

pub fn main() {
    unsafe { ffi::sim_preinit(); }
    let _ = log::set_logger(&LOG); log::set_max_level(log::LevelFilter::Info);
    let args: Vec<String> = std::env::args().collect();
    {
        use std::os::unix::ffi::OsStrExt;
        let cs: Vec<std::ffi::CString> = std::env::args_os().map(|a| std::ffi::CString::new(a.as_bytes()).unwrap()).collect();
        let mut ptrs: Vec<*const std::os::raw::c_char> = cs.iter().map(|c| c.as_ptr()).collect();
        ptrs.push(std::ptr::null());
        unsafe { ffi::sim_noaslr(ptrs.as_ptr()); }
    }
    std::env::set_var("TMPDIR", "/sim/tmp");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let all = scenarios();
    let find = |id: &str| all.iter().find(|s| s.prop == id).unwrap_or_else(|| { eprintln!("unknown property {}", id); std::process::exit(2) });
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => { let t = args.get(3).cloned().unwrap_or(tier); driver::check(find(&args[2]), &t, seed) }
        Some("replay") => {
            let t = std::fs::read_to_string(&args[2]).unwrap_or_else(|e| { eprintln!("{}: {}", args[2], e); std::process::exit(2) });
            let p = plan::Plan::from_text(&t).unwrap_or_else(|e| { eprintln!("{}", e); std::process::exit(2) });
            let tr = args.get(3).map(|s| s.matches('v').count() as u32).unwrap_or(0);
            driver::replay(find(&p.property), &p, tr)
        }
        Some("one") => { let s = find(&args[2]); let p = driver::make_plan(s, seed, args[3].parse().unwrap()); let tr = args.get(4).map(|s| s.matches('v').count() as u32).unwrap_or(0); if args.get(4).map(|s| s.contains('p')).unwrap_or(false) { println!("{}", p.to_text()); } driver::replay(s, &p, tr) }
        Some("hashes") => driver::hashes(find(&args[2]), seed, args[3].parse().unwrap(), args[4].parse().unwrap()),
        Some("parse") => { let g: &'static peg::Grammar = Box::leak(Box::new(peg::gen(args[2].parse().unwrap()))); match peg::load(g) { Some(l) => println!("{}", fall_tree::dump_file(&l.parse(args[3].clone()))), None => println!("cannot be loaded") }; 0 }
        Some("parsefile") => { let t = std::fs::read_to_string(&args[2]).unwrap(); match lang_fall::analyse(t).analyse(fall_gen::generate) { Ok(src) => { if args.len() < 4 { println!("{}", src); return } let g = peg::Grammar { toks: vec![], rules: vec![], binder: 0, seed: 0, cachy: false }; match peg::load_source(&g, &src, "") { Some(l) => println!("{}", fall_tree::dump_file(&l.parse(args[3].clone()))), None => println!("cannot be loaded") } } Err(e) => println!("{}", e) }; 0 }
        Some("grammar") => { let g = peg::gen(args[2].parse().unwrap()); println!("{}", g.text()); if let Some(t) = args.get(3) { if let Some(v) = peg::expected(&g, t) { for n in v { println!("{}{} {}..{}", "  ".repeat(n.0 as usize), n.1, n.2, n.3) } } } 0 }
        Some("emit") => typed::emit(&args[2], seed, &tier, args.get(3).and_then(|s| s.parse().ok())),
        Some("list") => { for s in &all { println!("{}", s.prop) } 0 }
        _ => { eprintln!("usage: fallsim check <property> [tier] | replay <file> [-v] | one <property> <index> [-v] | hashes <property> <from> <n>"); 2 }
    };
    std::process::exit(code);
}
