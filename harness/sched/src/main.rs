use vhrun::{of, DynCheck};
#[allow(dead_code)]
#[path = "../../main/src/logs.rs"]
mod logs;
#[allow(dead_code)]
#[path = "../../main/src/maps.rs"]
mod maps;
#[path = "../../main/src/tails.rs"]
mod tails;
use tails::now_and_then_longer;
fn main() {
    let r: &[&dyn DynCheck] = &[
        &of::<logs::C13>(),
        &of::<logs::C15>(),
        &of::<maps::C17>(),
        &of::<maps::C18>(),
    ];
    let children: &[vhrun::Child] = &[
        ("crash_writer", logs::crash_writer),
        ("crash_at", logs::crash_at),
        ("map_writer", maps::map_writer),
        ("map_at", maps::map_at),
    ];
    std::process::exit(vhrun::main(r, children));
}
