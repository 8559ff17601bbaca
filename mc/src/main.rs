mod circuit;
mod engine;
mod fields;
mod fs;
mod props;
mod run;
mod systems;
mod toypc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let only = args.get(2).map(|s| match s.rsplit_once(':') {
        Some((a, b)) if b.parse::<usize>().is_ok() => (a.to_string(), b.parse().ok()),
        _ => (s.clone(), None),
    });
    run::install_panic_hook();
    fields::self_test();
    let mut ctx = engine::Ctx::new(&prop, only);
    if !props::run(&prop, &mut ctx) {
        eprintln!("unknown property {}", prop);
        std::process::exit(2);
    }
    std::process::exit(ctx.finish());
}
