//! Model checking of the TCP connection and the simulator manager against a simulated network.
mod c13;
mod c14;
mod c22;
mod sys;
mod world;

fn main() {
    if std::env::var_os("VERIF_CHILD").is_some() {
        c22::child();
    }
    let check = mc::Check::from_args();
    match check.prop.as_str() {
        "C13" => c13::check(&check),
        "C14" => c14::check(&check),
        "C22" => c22::check(&check),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2);
        }
    }
    std::process::exit(check.finish());
}
