mod ser;
mod oracle;
mod scn;
mod sx;
include!(concat!(env!("OUT_DIR"), "/entries.rs"));

fn main() {
    let name = std::env::args().nth(1).unwrap_or_default();
    let tier: u32 = std::env::args().nth(2).map_or(0, |t| t.parse().unwrap());
    std::panic::set_hook(Box::new(|i| {
        eprintln!("{}", i);
        sx::panicked();
    }));
    if !run(&name, tier) {
        eprintln!("no harness {:?}", name);
        std::process::exit(94);
    }
}
