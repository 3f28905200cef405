mod arbitrage;
mod client;
mod create;
mod curve;
mod ops;
mod probes;
mod props;
mod subst;
mod world;

fn main() {
    std::process::exit(svm::pbt::main(props::find));
}
