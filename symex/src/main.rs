fn main() {
    symex::harness::main_for(symex::p::scenarios());
}
