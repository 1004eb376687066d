#[path = "../build_cli.rs"]
mod build_cli;
fn main() {
    build_cli::prepare("/repo/cli/v1/src/main.rs");
}
