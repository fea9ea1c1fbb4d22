mod c09;
mod c10;
mod c11;
mod c12;
mod corpus;
mod docs;
mod c16;
mod c17;
mod c18;
mod exec;
mod zip;

fn main() {
    c18::child();
    let mut fams = vec![];
    fams.extend(c09::fams());
    fams.extend(c10::fams());
    fams.extend(c11::fams());
    fams.extend(c12::fams());
    fams.extend(vharness::checks::c16::fams());
    fams.extend(c16::fams());
    fams.extend(c17::fams());
    fams.extend(c18::fams());
    std::process::exit(vharness::runner::main_with(&fams));
}
