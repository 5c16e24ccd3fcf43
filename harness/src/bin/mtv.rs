use mtv::{conc, grow, mem, multi, report, seq};
#[global_allocator]
static A: mtv::alloc::Counting = mtv::alloc::Counting;
fn main() {
    let (engine, args) = report::Args::parse();
    report::init(&engine, &args);
    if args.get("tracing", 0) == 1 {
        masstree::init_tracing();
    }
    mtv::sched::install();
    match engine.as_str() {
        "conc" => conc::main(&args),
        "grow" => grow::main(&args),
        "mem" => mem::main(&args),
        "seq" => seq::main(&args),
        "multi" => multi::main(&args),
        _ => {
            eprintln!("unknown engine {engine}");
            std::process::exit(2)
        }
    }
}
