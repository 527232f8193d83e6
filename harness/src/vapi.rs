//! Checks that use the user-level API only.
mod api;
use vh::run::quiet_panics;
use vh::Ctx;

#[cfg(not(feature = "plain_alloc"))]
#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    quiet_panics();
    if args.get(1).map(|s| s.as_str()) == Some("serve") {
        api::c09::serve();
        return;
    }
    let mut ctx = Ctx::from_args(&args);
    match ctx.prop.as_str() {
        "C01" => api::c01::run(&mut ctx),
        "C02" => api::c02::run(&mut ctx),
        "C03" => api::c03::run(&mut ctx),
        "C04" => api::c04::run(&mut ctx),
        "C05" => api::c05::run(&mut ctx),
        "C06" => api::c06::run(&mut ctx),
        "C07" => api::c07::run(&mut ctx),
        "C08" => api::c08::run(&mut ctx),
        "C09" => api::c09::run(&mut ctx),
        "C10" => api::c10::run(&mut ctx),
        "C11" => api::c11::run(&mut ctx),
        "C12" => api::c12::run(&mut ctx),
        "C17" => api::c17::run(&mut ctx),
        "C19" => api::c19::run(&mut ctx),
        "C20" => api::c20::run(&mut ctx),
        "C21" => api::c21::run(&mut ctx),
        "C23" => api::c23::run(&mut ctx),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(5);
        }
    }
    std::process::exit(ctx.finish());
}
