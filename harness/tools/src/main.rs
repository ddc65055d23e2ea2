use vhrun::{of, DynCheck};
mod address;
mod fetch;
#[path = "../../net/src/node.rs"]
mod node;
mod oura;
mod relay;
mod run;
fn main() {
    let r: &[&dyn DynCheck] = &[&of::<address::C41>(), &of::<fetch::C42>(), &of::<oura::C43>()];
    std::process::exit(vhrun::main(r, &[]));
}
