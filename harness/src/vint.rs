//! Checks of the public building blocks: bits, encode, lifting, quant, processing.
mod int;
use vh::run::quiet_panics;
use vh::Ctx;

#[cfg(not(feature = "plain_alloc"))]
#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    quiet_panics();
    let mut ctx = Ctx::from_args(&args);
    match ctx.prop.as_str() {
        "C13" => int::c13::run(&mut ctx),
        "C14" => int::c14::run(&mut ctx),
        "C15" => int::c15::run(&mut ctx),
        "C16" => int::c16::run(&mut ctx),
        "C18" => int::c18::run(&mut ctx),
        "C22" => int::c22::run(&mut ctx),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(5);
        }
    }
    std::process::exit(ctx.finish());
}
