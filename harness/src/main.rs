#![allow(unexpected_cfgs)]
mod alloc;
mod around;
mod case;
mod first;
mod gen;
mod giant;
mod haul;
mod props;
mod refmodel;
mod run;
mod weak;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    // ordinary panics are part of the cases; what the run-time checks on unsafe code say is not
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        if m.contains("unsafe precondition") || m.contains("misaligned pointer") || m.contains("null pointer dereference") {
            eprintln!("{m}");
        }
    }));
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(run::main(&a));
}
