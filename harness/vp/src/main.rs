//! The checks of all properties.
mod lib_checks;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1] == "stdin-session" {
        lib_checks::stdin_session(&args[2..]);
        return;
    }
    std::process::exit(vcore::frame::main(|t| vcore::registry::registry(t, &lib_checks::lib)));
}
