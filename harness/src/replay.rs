fn main() {
    symrt::native::main(harness::TABLE)
}
