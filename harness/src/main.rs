mod cli;
mod compiled;
mod core;
mod definitions;
mod enums;
mod facets;
mod gencheck;
mod growth;
mod illformed;
mod instance;
mod lexical;
mod locality;
mod matcher;
mod model;
mod oracle;
mod order;
mod parts;
mod rng;
mod roundtrip;
mod runner;
mod schema;
mod values;
mod wsdl;

#[global_allocator]
static ALLOC: growth::Counting = growth::Counting;

fn main() -> std::process::ExitCode {
    if std::env::args().nth(1).as_deref() == Some("gen") {
        gencheck::gen_stdin();
        return std::process::ExitCode::SUCCESS;
    }
    if std::env::args().nth(1).as_deref() == Some("parse") {
        return illformed::parse_stdin();
    }
    runner::main(&[
        ("C01", lexical::c01),
        ("C02", lexical::c02),
        ("C03", lexical::c03),
        ("C04", lexical::c04),
        ("C05", lexical::c05),
        ("C07", lexical::c07),
        ("C10", gencheck::c10),
        ("C11", gencheck::c11),
        ("C12", gencheck::c12),
        ("C13", gencheck::c13),
        ("C14", gencheck::c14),
        ("C15", facets::c15),
        ("C16", roundtrip::c16),
        ("C17", gencheck::c17),
        ("C18", gencheck::c18),
        ("C19", gencheck::c19),
        ("C20", parts::c20),
        ("C21", wsdl::c21),
        ("C22", cli::c22),
        ("C23", cli::c23),
        ("C24", cli::c24),
        ("C25", illformed::c25),
        ("C26", enums::c26),
        ("C27", growth::c27),
        ("C28", roundtrip::c28),
        ("C29", order::c29),
        ("C30", definitions::c30),
        ("C31", locality::c31),
    ])
}
