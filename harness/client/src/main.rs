mod c10;
mod c11;
mod c12;
mod fake;
fn main() {
    let check = mc::Check::from_args();
    match check.prop.as_str() {
        "C10" => c10::run(&check),
        "C11" => c11::run(&check),
        "C12" => c12::run(&check),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2);
        }
    }
    std::process::exit(check.finish());
}
