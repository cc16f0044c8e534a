mod checks;
mod engine;
mod judge;
mod run;

fn main() {
    simcore::sched::init_process();
    let args: Vec<String> = std::env::args().collect();
    let code = engine::cli(&args);
    std::process::exit(code);
}
