mod env;
mod judge;
mod c15;
mod c18;
mod c19;
mod c24;

fn main() {
    let check = mc::Check::from_args();
    // a TPM can be had at all (C17 looks at the details)
    if matches!(check.prop.as_str(), "C15" | "C16" | "C24") && !matches!(mc::guard(tpm2_impl::TpmContext::<env::Deps>::new), Ok(Ok(_))) {
        check.fail("no-tpm", || "no TPM is obtained although the generator works".into());
        std::process::exit(check.finish());
    }
    match check.prop.as_str() {
        "C15" => c15::c15(&check),
        "C16" => c15::c16(&check),
        "C17" => c15::c17(&check),
        "C18" => c18::run(&check),
        "C19" => c19::run(&check),
        "C24" => c24::run_check(&check),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2);
        }
    }
    std::process::exit(check.finish());
}
