fn main() {
    let code = match harness::cli::run_as_nobody() {
        Some(code) => code,
        None => harness::driver::main(&harness::checks::make),
    };
    std::process::exit(code);
}
