fn main() {
    std::process::exit(synedrion::verif::main());
}
