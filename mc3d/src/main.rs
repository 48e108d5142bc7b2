mod points;
mod rotors;
mod space;
mod total;
mod words;

fn main() {
    mckit::main(&[("C13", rotors::c13), ("C23", points::c23), ("C24", words::c24), ("C28", total::c28)])
}
