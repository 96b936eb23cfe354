fn run() {
    let r = std::panic::catch_unwind(harness_compile::entry);
    harness_compile::vfs::remove();
    if let Err(e) = r {
        std::panic::resume_unwind(e)
    }
}

fn main() {
    sym::native::main(run);
}
