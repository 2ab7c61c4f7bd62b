// dlpcheck --property C01 --tier quick|thorough [--replay FILE]
#[allow(dead_code)]
mod check;
#[allow(dead_code)]
mod cli;
#[allow(dead_code)]
mod extra;
#[allow(dead_code)]
mod model;
#[allow(dead_code)]
mod owner;
#[allow(dead_code)]
mod pbt;
#[allow(dead_code)]
mod plan;
#[allow(dead_code)]
mod regress;
#[allow(dead_code)]
mod svm;
#[allow(dead_code)]
mod wire;
#[allow(dead_code)]
mod world;
fn main() {
    std::process::exit(cli::main());
}
