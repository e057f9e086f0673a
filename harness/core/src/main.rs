mod c08;
mod c09;
mod c25;
mod limits;
fn main() {
    let check = mc::Check::from_args();
    match check.prop.as_str() {
        "C08" => c08::c08(&check),
        "C21" => c08::c21(&check),
        "C09" => c09::run(&check),
        "C25" => c25::run(&check),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2);
        }
    }
    std::process::exit(check.finish());
}
