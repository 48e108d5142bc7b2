mod domains;
#[cfg_attr(not(feature = "logging"), allow(dead_code))]
mod logging;
mod memory;
#[cfg_attr(not(feature = "logging"), allow(dead_code))]
mod others;
mod queries;
mod relations;
mod scene;
mod shapes;
mod total;
mod utils;
mod words;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().is_some_and(|a| a == "answers" || a == "answer") {
        return logging::answers(&args);
    }
    mckit::main(&[
        ("C01", queries::c01),
        ("C02", queries::c02),
        ("C03", queries::c03),
        ("C04", queries::c04),
        ("C05", queries::c05),
        ("C06", relations::c06),
        ("C07", relations::c07),
        ("C08", relations::c08),
        ("C09", shapes::c09),
        ("C10", shapes::c10),
        ("C12", words::c12),
        ("C14", total::c14),
        ("C21", utils::c21),
        ("C22", utils::c22),
        ("C25", shapes::c25),
        ("C11", relations::c11),
        ("C26", utils::c26),
        ("C27", logging::c27),
    ])
}
