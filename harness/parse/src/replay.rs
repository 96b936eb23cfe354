fn main() {
    sym::native::main(harness_parse::entry);
}
