fn main() {
    std::process::exit(vharness::runner::main_with(&vharness::checks::all()));
}
