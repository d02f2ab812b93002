use vpmon::ctx::*;
use vpmon::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = args.get(1).cloned().unwrap_or_default();
    let tier = match get("--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        Some("tiny") => Tier::Tiny,
        _ => Tier::Quick,
    };
    let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let threads = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let deadline = get("--deadline").and_then(|s| s.parse().ok()).unwrap_or(300);
    install_panic_hook();
    if prop == "keygen" {
        let n = get("--n").and_then(|s| s.parse().ok()).unwrap_or(10);
        return p_keys::keygen_child(threads, n, 512);
    }
    if prop == "probe" {
        let n = get("--n").and_then(|s| s.parse().ok()).unwrap_or(6);
        return p_world::probe_child(seed, n, get("--rev").as_deref() == Some("1"));
    }
    if prop == "probe-kin" {
        let n = get("--n").and_then(|s| s.parse().ok()).unwrap_or(6);
        return p_world::kin_child(seed, n, get("--rev").as_deref() == Some("1"));
    }
    let mut ctx = Ctx::new(&prop, tier, seed, threads, deadline);
    if let Some(k) = get("--scale").and_then(|s| s.parse().ok()) {
        ctx.scale = k;
    }
    if let Some(o) = get("--only") {
        let (s, i) = match o.rsplit_once(':') {
            Some((s, i)) => (s.to_string(), i.parse().ok()),
            None => (o, None),
        };
        ctx.only = Some(Only { section: s, idx: i });
    }
    let ctx: &'static Ctx = Box::leak(Box::new(ctx));
    #[cfg(not(miri))]
    {
        install_crash_handler();
        start_watchdog(ctx);
    }
    if prop == "C26" {
        p_mem::c26(ctx);
    } else {
        match p_mem::all().into_iter().find(|(n, _)| *n == prop) {
            Some((_, f)) => f(ctx),
            None => {
                eprintln!("unknown property {prop}");
                std::process::exit(3);
            }
        }
    }
    std::process::exit(ctx.finish());
}
