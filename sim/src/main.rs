fn main() { fallsim::main() }
