mod bank;
mod big;
mod direct;
mod driver;
mod gen;
mod judge;
mod model;
mod pool;
mod prng;
mod tok;
mod types;
mod world;

fn main() {
    bank::install();
    std::process::exit(driver::main());
}
