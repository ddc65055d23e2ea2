use vhrun::{of, DynCheck};
mod sources;
fn main() {
    let r: &[&dyn DynCheck] = &[&of::<sources::C31>(), &of::<sources::C32>()];
    std::process::exit(vhrun::main(r, &[]));
}
