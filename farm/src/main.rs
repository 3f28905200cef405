mod client;
mod create;
mod meta;
mod ops;
mod props;
mod subst;
mod world;

fn main() {
    std::process::exit(svm::pbt::main(props::find));
}
