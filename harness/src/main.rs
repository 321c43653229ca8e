fn main() {
    pbt::main(lam_harness::all())
}
