mod engine;
mod dict;
mod gram;
mod print;
mod model;
mod textgen;
mod large;
mod common;
mod props;

fn main() { std::process::exit(engine::main(props::PROPS)) }
