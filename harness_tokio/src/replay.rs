fn main() {
    symrt::native::main(harness_tokio::TABLE)
}
