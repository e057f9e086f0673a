// Each property group is compiled on its own (see check.sh); the default is all of them.
#![allow(dead_code, unused_imports)]
#[cfg(feature = "equal")]
mod equal;
#[cfg(feature = "lists")]
mod lists;
#[cfg(feature = "numbers")]
mod numbers;
mod schema;
#[cfg(feature = "sized")]
mod sized;
mod types;
#[cfg(feature = "unions")]
mod unions;
mod wire;
fn main() {
    let check = mc::Check::from_args();
    match check.prop.as_str() {
        #[cfg(feature = "wire")]
        "C01" => wire::c01(&check),
        #[cfg(feature = "wire")]
        "C02" => wire::c02(&check),
        #[cfg(feature = "wire")]
        "C03" => wire::c03(&check),
        #[cfg(feature = "sized")]
        "C04" => sized::c04(&check),
        #[cfg(feature = "lists")]
        "C05" => lists::c05(&check),
        #[cfg(feature = "unions")]
        "C06" => unions::c06(&check),
        #[cfg(feature = "numbers")]
        "C20" => numbers::c20(&check),
        #[cfg(feature = "numbers")]
        "C23" => numbers::c23(&check),
        #[cfg(feature = "equal")]
        "C26" => equal::c26(&check),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2);
        }
    }
    std::process::exit(check.finish());
}
