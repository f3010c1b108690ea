//! Fallback without the library: the tool checks only, for a tree whose library no longer has the
//! signatures used by `vp`.
fn main() {
    std::process::exit(vcore::frame::main(|t| vcore::registry::registry(t, &|_, _| vec![])));
}
