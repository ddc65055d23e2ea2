use vhrun::{of, DynCheck};
#[path = "../../main/src/dec.rs"]
#[allow(dead_code)]
mod dec;
mod chosen;
mod convert;
mod fees;
mod gen;
fn main() {
    let r: &[&dyn DynCheck] = &[&of::<fees::C37>(), &of::<convert::C38>(), &of::<chosen::C39>(), &of::<fees::C40>()];
    std::process::exit(vhrun::main(r, &[]));
}
