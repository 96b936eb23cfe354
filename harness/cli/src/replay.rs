fn run() {
    let r = std::panic::catch_unwind(harness_cli::entry);
    harness_cli::vfs::remove();
    if let Err(e) = r {
        std::panic::resume_unwind(e)
    }
}

fn main() {
    sym::native::main_forking(run);
}
