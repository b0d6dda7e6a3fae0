fn main() {
    symrt::native::main(harness_server::TABLE)
}
