mod alloc;
mod fam;
mod os;
mod own;
mod prog;
mod rng;
mod runner;
mod sim;

#[global_allocator]
static A: alloc::Alloc = alloc::Alloc;

/// Fixed addresses make runs that depend on them (bugs do) repeat.
fn no_aslr() {
    if std::env::var_os("ADVSIM_NOASLR").is_none() {
        unsafe {
            let cur = libc::personality(0xffff_ffff);
            if cur >= 0 && cur & libc::ADDR_NO_RANDOMIZE == 0 && libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as _) >= 0 {
                std::env::set_var("ADVSIM_NOASLR", "1");
                let exe = std::fs::read_link("/proc/self/exe");
                if let Ok(exe) = exe {
                    use std::os::unix::process::CommandExt;
                    let _ = std::process::Command::new(exe).args(std::env::args_os().skip(1)).exec();
                }
            }
        }
    }
}

fn main() {
    no_aslr();
    os::seed_os(1);
    let args: Vec<String> = std::env::args().skip(1).collect();
    let props = fam::props();
    let find = |id: &str| props.iter().find(|p| p.id == id);
    let usage = || -> i32 {
        println!("usage: advsim check ID | replay FILE [--log] | selftest [N] | one ID RUN | list");
        2
    };
    let code = match args.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice() {
        ["check", id] => match find(id) {
            Some(p) => runner::check(p),
            None => usage(),
        },
        ["replay", f] => runner::replay(&props, f, false),
        ["replay", f, "--log"] => runner::replay(&props, f, true),
        ["selftest"] => runner::selftest(&props, 40),
        ["selftest", n] => runner::selftest(&props, n.parse().unwrap_or(40)),
        ["one", id, i] => {
            let p = find(id).unwrap();
            let c = runner::gen_case(p, 1, i.parse().unwrap(), runner::Tier::Quick);
            let o = runner::execute(&p.fams[c.fam], &c.plan, &c.env, None, true);
            println!("{}\n{}", p.fams[c.fam].name, serde_json::to_string(&c.plan).unwrap());
            for l in &o.log {
                println!("{}", l);
            }
            println!("{} {} {} steps={} {:?}", o.status, o.class, o.msg, o.steps, o.counters);
            0
        }
        ["list"] => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code)
}
