use vhrun::{of, DynCheck};
fn main() {
    let r: &[&dyn DynCheck] = &[
        &of::<vh::values::C01>(),
        &of::<vh::values::C02>(),
        &of::<vh::values::C03>(),
        &of::<vh::values::C04>(),
        &of::<vh::ledger::C05>(),
        &of::<vh::ledger::C06>(),
        &of::<vh::ledger::C07>(),
        &of::<vh::ledger::C08>(),
        &of::<vh::ledger::C09>(),
        &of::<vh::logs::C10>(),
        &of::<vh::logs::C11>(),
        &of::<vh::logs::C12>(),
        &of::<vh::logs::C14>(),
        &of::<vh::maps::C16>(),
        &of::<vh::tree::C19>(),
        &of::<vh::tree::C20>(),
        &of::<vh::tree::C21>(),
        &of::<vh::select::C25>(),
        &of::<vh::select::C26>(),
        &of::<vh::select::C27>(),
        &of::<vh::select::C28>(),
        &of::<vh::select::C29>(),
        &of::<vh::select::C30>(),
        &of::<vh::source::C22>(),
        &of::<vh::source::C23>(),
        &of::<vh::source::C24>(),
        &of::<vh::ids::C33>(),
        &of::<vh::config::C44>(),
    ];
    std::process::exit(vhrun::main(r, &[]));
}
