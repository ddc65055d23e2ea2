use vhrun::{of, DynCheck};
mod events;
mod node;
mod source;
mod stack;
fn main() {
    let r: &[&dyn DynCheck] = &[&of::<events::C34>(), &of::<source::C35>(), &of::<stack::C36>()];
    std::process::exit(vhrun::main(r, &[]));
}
