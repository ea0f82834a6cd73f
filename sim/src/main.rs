mod choice;
mod driver;
mod gate;
mod interpose;
mod json;

mod shared;
#[macro_use]
mod sim;
mod sysalloc;
mod scen;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // the same addresses in every execution, where the system lets us
    unsafe {
        if std::env::var("BIGOSIM_EXEC").is_err() {
            let p = libc::personality(0xffffffff);
            if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && libc::personality((p | libc::ADDR_NO_RANDOMIZE) as u64) >= 0 {
                std::env::set_var("BIGOSIM_EXEC", "1");
                if let Ok(exe) = std::env::current_exe() {
                    use std::os::unix::process::CommandExt;
                    let _ = std::process::Command::new(exe).args(&args[1..]).exec();
                }
            }
        }
    }
    if sim::locks() { eprintln!("(the crate's allocator uses locks: weak memory isn't simulated)"); }
    interpose::init();
    driver::install_panic_hook();
    let props = scen::props();
    let a = |i: usize| args.get(i).map(|s| s.as_str());
    let dir = std::env::var("BIGOSIM_DIR").unwrap_or_else(|_| "/verif".into());
    let code = match a(1) {
        Some("check") => driver::check(&props, a(2).unwrap_or(""), &dir),
        Some("replay") => driver::replay(&props, a(2).unwrap_or("")),
        Some("selftest") => driver::selftest(&props, a(3), a(2).and_then(|x| x.parse().ok()).unwrap_or(400)),
        Some("show") => driver::show(&props, a(2).unwrap_or(""), a(3).and_then(|x| x.parse().ok()).unwrap_or(1), a(4).and_then(|x| x.parse().ok()).unwrap_or(0)),
        Some("list") => { for p in &props { println!("{}", p.id); } 0 }
        _ => { eprintln!("usage: bigosim check ID | replay FILE | selftest [RUNS [ID]] | show ID SEED INDEX | list"); 2 }
    };
    std::process::exit(code);
}
